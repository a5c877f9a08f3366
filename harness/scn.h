// A tree together with the model's view of it: what was accepted, and what each event must match.
#pragma once
#include "hist.h"
#include <algorithm>
struct Scn {
    Ex& ex; Decls d; Sut s; std::vector<Const> cs; uint64_t hs = 0; uint64_t next = 1;
    struct It { uint64_t id; EP e; std::vector<Const> cs; }; std::vector<It> items;
    std::vector<std::pair<It, const betree_sub*>> pending;
    Scn(Ex& ex, const VS& decls, Cfg cfg, std::vector<Const> cs = {}) : ex(ex), d(parse_decls(decls)), s(ex, d, cfg), cs(cs) {
        ex.note("node capacity %d, partition %d", cfg.cap, cfg.part); for(auto& x : decls) { ex.note("  variable %s", x.c_str()); hs = hmix(hs, hstr(x)); } hs = hmix(hs, cfg.cap * 999 + cfg.part);
    }
    // route 0 insert, 1 build + insert at once, 2 build now, insert at flush()
    bool try_add(const std::string& t, int route = 0, uint64_t id = 0) {
        if(!id) id = next++;
        EP e = ref_parse(t);
        ex.note("  %s %llu: %s", route ? route == 2 ? "build" : "build and insert" : "insert", (unsigned long long)id, t.c_str());
        hs = hmix(hs, hstr(t) + route);
        bool ok;
        if(route == 0) ok = s.insert(id, t, cs);
        else { auto q = s.make_sub(id, t, cs); ok = q; if(q && route == 1) ok = s.insert_sub(q); if(q && route == 2) { if(!e) ex.fail("harness: accepted but not in the language: %s", t.c_str()); pending.push_back({{id, e, cs}, q}); return true; } }
        if(ok) { if(!e) ex.fail("%s is not in the language but was accepted", t.c_str()); items.push_back({id, e, cs}); }
        return ok;
    }
    void add(const std::string& t, int route = 0, uint64_t id = 0) { if(!try_add(t, route, id)) ex.fail("%s refused: %s", route ? "building" : "insertion", t.c_str()); }
    void flush() { for(auto& p : pending) { if(!s.insert_sub(p.second)) ex.fail("insertion of built subscription %llu refused", (unsigned long long)p.first.id); items.push_back(p.first); } pending.clear(); }
    std::vector<uint64_t> want(const Ev& ev) { std::vector<uint64_t> w; if(!valid_event(d, ev)) return w; for(auto& i : items) if(ref_eval(i.e, d, ev, i.cs)) w.push_back(i.id); std::sort(w.begin(), w.end()); return w; }
    void check(const Ev& ev, int mode, bool exists = false) {
        bool tok = true; for(auto& v : ev.v) if(v && !v->text_ok) tok = false;
        Mode m = mode == 0 && tok ? TEXT : PROG;
        auto w = want(ev); bool valid = valid_event(d, ev);
        Res r = s.search(ev, m); ex.checked();
        if(r.ok != valid || r.ids != w) ex.fail("search of %s (%s event) returned %d %s, expected %d %s", ev_text(d, ev).c_str(), m == TEXT ? "text" : "built", r.ok, ids_text(r.ids).c_str(), valid, ids_text(w).c_str());
        if(exists) { bool x = s.exists(ev, m); ex.checked(); if(x != !w.empty()) ex.fail("exists of %s returned %d, expected %d", ev_text(d, ev).c_str(), x, !w.empty()); }
    }
    void check_text(const std::string& text, const Ev& ev) {
        auto w = want(ev); Res r = s.search_text(text); ex.checked();
        if(!r.ok || r.ids != w) ex.fail("search of %s returned %d %s, expected %s", text.c_str(), r.ok, ids_text(r.ids).c_str(), ids_text(w).c_str());
    }
    Ev ev(const VS& vals) { Ev e; for(size_t i = 0; i < d.size(); i++) e.v.push_back(parse_val(d[i].t, vals[i])); return e; }
    void done() { ex.state(hs); }
};
// all events of a product
inline std::vector<Ev> ev_product(const Decls& d, const std::vector<VS>& vals) {
    std::vector<Ev> out; std::vector<size_t> ix(vals.size(), 0);
    for(;;) { Ev e; for(size_t i = 0; i < vals.size(); i++) e.v.push_back(parse_val(d[i].t, vals[i][ix[i]])); out.push_back(e);
        size_t k = 0; while(k < ix.size() && ++ix[k] == vals[k].size()) ix[k++] = 0; if(k == ix.size()) break; }
    return out;
}
