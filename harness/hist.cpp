#include "hist.h"
#include "vpalloc.h"
#include <algorithm>
#include <map>
#include <stdexcept>
#include <unistd.h>
std::string ids_text(const std::vector<uint64_t>& v) { std::string o = "{"; for(auto x : v) o += (o.size() > 1 ? "," : "") + std::to_string(x); return o + "}"; }
VS cat(std::initializer_list<VS> l) { VS o; for(auto& v : l) o.insert(o.end(), v.begin(), v.end()); return o; }
[[noreturn]] static void harness_bug(const std::string& m) { FILE* f = fopen("/dev/tty", "w"); (void)f; fprintf(stderr, "harness: %s\n", m.c_str()); throw Violation{"harness error: " + m}; }
const std::vector<uint8_t>& Compiled::truth_of(const std::string& text) {
    auto it = cache.find(text); if(it != cache.end()) return it->second;
    EP e = ref_parse(text); if(!e) harness_bug("reference parser rejects " + text);
    if(ref_check(e, d, p.consts) != Verdict::OK) harness_bug("ill-typed profile expression " + text);
    std::vector<uint8_t> t; for(auto& x : ev) t.push_back(ref_eval(e, d, x, p.consts));
    return cache[text] = t;
}
Compiled& compiled(const Profile& p) {
    static std::map<std::string, CP> all;
    CP& c = all[p.name];
    if(c) return *c;
    c = std::make_shared<Compiled>(); c->p = p; c->d = parse_decls(p.decls);
    if(p.vals.size() != p.decls.size()) harness_bug("profile " + p.name + ": vals/decls mismatch");
    std::vector<std::vector<std::optional<Val>>> vs;
    for(size_t i = 0; i < p.vals.size(); i++) { vs.emplace_back(); for(auto& s : p.vals[i]) vs.back().push_back(parse_val(c->d[i].t, s)); }
    std::vector<size_t> ix(vs.size(), 0);
    for(;;) {
        Ev e; for(size_t i = 0; i < vs.size(); i++) e.v.push_back(vs[i][ix[i]]);
        c->ev.push_back(e);
        size_t k = 0; while(k < ix.size() && ++ix[k] == vs[k].size()) ix[k++] = 0;
        if(k == ix.size()) break;
    }
    for(auto& s : p.exprs) { EP e = ref_parse(s); if(!e) harness_bug("reference parser rejects " + s); c->ex.push_back(e); c->truth.push_back(c->truth_of(s)); }
    uint64_t live = vp_live_blocks;
    Ex* dummy = new Ex; c->home = new Sut(*dummy, c->d, Cfg{});
    for(auto& e : c->ev) { c->evtext.push_back(ev_text(c->d, e)); c->valid.push_back(valid_event(c->d, e)); bool ok = true; for(auto& v : e.v) if(v && !v->text_ok) ok = false; c->text_ok.push_back(ok); c->reuse.push_back(c->home->build(e)); }
    vp_live_blocks = live; // these live for the whole process
    return *c;
}
static void check_one(Ex& ex, Sut& s, Compiled& c, size_t i, const std::vector<uint64_t>& want, size_t stored, int form, int checks) {
    static const char* fn[] = {"text", "built", "reused"};
    if(form == 0 && !c.text_ok[i]) form = 1;
    bool ok = c.valid[i];
    if(checks & (CH_SEARCH | CH_REPORT)) {
        Res r = form == 0 ? s.search_text(c.evtext[i]) : form == 1 ? s.search(c.ev[i], PROG) : s.search_event(c.reuse[i]);
        ex.checked();
        if(r.ok != ok) ex.fail("search of %s (%s event) returned %d, expected %d", c.evtext[i].c_str(), fn[form], r.ok, ok);
        if(ok && r.ids != want) ex.fail("search of %s (%s event) reported %s, expected %s", c.evtext[i].c_str(), fn[form], ids_text(r.ids).c_str(), ids_text(want).c_str());
        if(!ok && (r.matched || r.evaluated || r.memoized || r.shorted)) ex.fail("search of %s (%s event) refused but changed the report", c.evtext[i].c_str(), fn[form]);
        if(checks & CH_REPORT) {
            if(r.matched != r.ids.size()) ex.fail("matched %zu but %zu ids", r.matched, r.ids.size());
            if(r.evaluated < r.matched || r.evaluated > stored) ex.fail("search of %s: evaluated %zu, matched %zu, stored %zu", c.evtext[i].c_str(), r.evaluated, r.matched, stored);
            if(r.shorted > r.evaluated) ex.fail("search of %s: shorted %zu > evaluated %zu", c.evtext[i].c_str(), r.shorted, r.evaluated);
        }
    }
    if(checks & CH_EXISTS) {
        ex.op();
        bool e = form == 0 ? betree_exists(s.t, c.evtext[i].c_str()) : form == 1 ? s.exists(c.ev[i], PROG) : betree_exists_with_event(s.t, c.reuse[i]);
        ex.checked();
        bool w = ok && !want.empty();
        if(e != w) ex.fail("exists of %s (%s event) returned %d, expected %d", c.evtext[i].c_str(), fn[form], e, w);
    }
}
void check_all(Ex& ex, Sut& s, Compiled& c, const std::vector<Item>& items, int checks, uint64_t salt, bool all_modes, int stride) {
    std::vector<uint64_t> want;
    for(size_t i = (stride > 1 ? salt % stride : 0); i < c.ev.size(); i += stride) {
        want.clear();
        if(c.valid[i]) for(auto& it : items) if((*it.truth)[i]) want.push_back(it.id);
        std::sort(want.begin(), want.end());
        if(all_modes) for(int f = 0; f < 3; f++) check_one(ex, s, c, i, want, items.size(), f, checks);
        else check_one(ex, s, c, i, want, items.size(), (salt + i) % 3, checks);
    }
}
Body hist_body(Profile p, HistOpts o) {
    return [p, o](Ex& ex) {
        Compiled& c = compiled(p);
        Cfg cfg = ex.pick(o.cfgs);
        int b = ex.choose((int)o.bases.size());
        int route = ex.choose(o.routes);
        std::vector<int> seq; int n = (int)c.ex.size(), depth = o.depth[ex.tier];
        for(int i = 0; i < depth; i++) { int k = o.exact_depth ? ex.choose(n) + 1 : ex.choose(n + 1); if(!k) break; seq.push_back(k - 1); }
        std::vector<uint64_t> ids;
        for(size_t i = 0; i < seq.size(); i++) ids.push_back(o.dup_ids ? ex.choose(2) + 1 : i + 1);
        ex.gate();
        if(ex.verbose) { ex.note("profile %s, node capacity %d, partition %d, route %s", p.name.c_str(), cfg.cap, cfg.part, route == 0 ? "insert" : route == 1 ? "build+insert each" : "build all, then insert all"); for(auto& s : p.decls) ex.note("  variable %s", s.c_str()); for(auto& s : o.bases[b]) ex.note("  base insert: %s", s.c_str()); for(size_t i = 0; i < seq.size(); i++) ex.note("  insert %llu: %s", (unsigned long long)ids[i], p.exprs[seq[i]].c_str()); }
        uint64_t h = hstr(p.name + std::to_string(cfg.cap) + "/" + std::to_string(cfg.part)), hs = 0;
        {
            Sut s(ex, c.d, cfg); std::vector<Item> items; std::vector<const betree_sub*> subs;
            auto add = [&](uint64_t id, const std::string& t, const std::vector<uint8_t>* tr) {
                if(route == 0) { if(!s.insert(id, t, p.consts)) ex.fail("insertion of %s refused", t.c_str()); }
                else { const betree_sub* x = s.make_sub(id, t, p.consts); if(!x) ex.fail("building %s refused", t.c_str()); if(route == 1) { if(!s.insert_sub(x)) ex.fail("insertion of built %s refused", t.c_str()); } else subs.push_back(x); }
                items.push_back({id, tr}); hs += hmix(id, hstr(t));
            };
            for(size_t i = 0; i < o.bases[b].size(); i++) add(1000 + i, o.bases[b][i], &c.truth_of(o.bases[b][i]));
            for(size_t i = 0; i < seq.size(); i++) add(ids[i], p.exprs[seq[i]], &c.truth[seq[i]]);
            for(auto x : subs) if(!s.insert_sub(x)) ex.fail("insertion of a built subscription refused");
            ex.state(hmix(h, hs));
            uint64_t salt = hs; check_all(ex, s, c, items, o.checks, salt, o.all_modes, o.stride);
        }
    };
}
