// C21: calls from several threads. The compiler's race instrumentation is turned into a scheduler.
#include "scn.h"
#include "i_rt.h"
#include <cstring>
#include <map>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
static const VS D = {"b bool ?", "i int 0 10", "f float ? 0 10", "s str ?", "t str ? 3", "e enum ?", "il ilist ? 0 9", "sl slist ? 4", "segments_with_timestamp segs ?", "q segs ?", "frequency_caps caps ?", "now int ?", "latitude float ?", "longitude float ?"};
static const VS X = {"b", "i > 5", "i <= 2 and b", "not (i < 7)", "f < 2.5", "s = \"x\"", "s <> \"x\" and i = 5", "il one of (1, 8)", "sl all of (\"a\", \"b\")", "f >= 7.5 or il is empty", "e = 7 or e = 9", "t in (\"u\", \"v\")", "contains(s, \"x\")", "starts_with(s, \"q\") and not ends_with(s, \"z\")",
    "segment_within(5, 20)", "segment_before(q, 5, 20)", "within_frequency_cap(\"flight\", \"ns\", 3, 10)", "not within_frequency_cap(\"campaign\", \"ns\", 3, 0)", "geo_within_radius(10.0, 20.0, 100.0)", "i = 5", "i = 5 and b", "i > 5", "s is null", "not (s = \"x\" or b)", "s not in (\"x\", \"y\")", "il none of (3)", "3 in il", "\"a\" not in sl"};
static const std::vector<Const> CS = {{"flight_id", 10}, {"campaign_id", 20}};
static const std::vector<VS> E = {
    {"true", "6", "1.5", "\"x\"", "\"u\"", "7", "[1,2]", "[\"b\",\"a\"]", "[[5,100000000]]", "[[5,100000000]]", "[[\"flight\",10,\"ns\",2,100000000]]", "105", "10.0", "20.5"},
    {"false", "5", "8.0", "\"qx\"", "\"w\"", "9", "[]", "[]", "[]", "[[4,1],[5,2],[6,3]]", "[[\"campaign\",20,\"ns\",5,100000000],[\"flight\",10,\"ns\",5,104000000]]", "130", "-10.0", "20.5"},
    {"-", "0", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-"},
    {"true", "-", "1.0", "\"x\"", "-", "-", "[3]", "-", "-", "-", "-", "-", "-", "-"}, // refused: i is required
    {"false", "10", "0.0", "\"unseen\"", "\"v\"", "100", "[8,9]", "[\"zz\",\"yy\",\"a\"]", "-", "[[9,9]]", "[[\"flight\",10,\"unseen\",2,5]]", "10", "10.1", "20.0"}};
// own trees: declarations, expressions, events
struct Own { VS d, x; std::vector<VS> e; };
static const std::vector<Own> OWN = {
    {{"i int 0 10", "b bool ?"}, {"i = 1", "i > 3 and b", "i = = 2", "nosuch = 1", "not (b or i < 9)"}, {{"1", "-"}, {"9", "true"}}},
    {{"s str ? 2", "sl slist ?", "e enum"}, {"s = \"x\"", "s in (\"y\", \"z\")", "sl one of (\"p\", \"q\")", "\"p\" in sl and s <> \"y\"", "e = 12", "contains(s, \"x\")"}, {{"\"x\"", "[\"q\"]", "12"}, {"\"u\"", "[\"p\",\"n\"]", "1"}}},
    {{"frequency_caps caps ?", "now int ?", "segments_with_timestamp segs ?", "latitude float ?", "longitude float ?", "f float 0 4"}, {"within_frequency_cap(\"flight\", \"m\", 3, 10)", "segment_within(5, 20)", "geo_within_radius(1.0, 2.0, 50.0)", "f < 1.5", "f >= 2.5 and not segment_before(5, 1)"}, {{"[[\"flight\",10,\"m\",2,100000000]]", "105", "[[5,100000000]]", "1.0", "2.0", "1.0"}, {"[]", "5", "-", "-", "-", "3.0"}}}};
static const int NS = 10; // operations on the shared tree
static const int NOPS = NS + 4;
static std::string res_text(const Res& r) { return sfmt("%d %s evaluated %zu memoized %zu shorted %zu", r.ok, ids_text(r.ids).c_str(), r.evaluated, r.memoized, r.shorted); }
static std::string op_name(int o) { return o < 5 ? sfmt("search text event %d", o) : o < NS ? sfmt("%s %s event %d", o & 1 ? "exists" : "search", o == 5 || o == 6 ? "built" : "text", (o * 3) % 5) : o == NS + 3 ? "define, build subscriptions, change boundaries on a tree of its own" : sfmt("fill and search own tree %d", o - NS); }
// what one thread does; every observation goes to `out`
static void run_op(Ex& ex, Sut& sh, int o, std::string& out) {
    if(o < NS) {
        int e = o < 5 ? o : (o * 3) % 5; Ev ev; for(size_t k = 0; k < sh.d.size(); k++) ev.v.push_back(parse_val(sh.d[k].t, E[e][k]));
        Mode m = o == 5 || o == 6 ? PROG : TEXT;
        if(o < 5 || !(o & 1)) out += res_text(sh.search(ev, m)) + "\n"; else out += sfmt("exists %d\n", sh.exists(ev, m));
        return;
    }
    const Own& w = OWN[o == NS + 3 ? 1 : o - NS]; Decls d = parse_decls(w.d); Sut t(ex, d, Cfg{1, 0, o == NS + 3}); uint64_t id = 1;
    if(o == NS + 3) {
        out += sfmt("boundaries %d\n", t.change_boundaries("e = 1 and s = \"x\""));
        for(size_t k = 0; k < d.size(); k++) { auto v = betree_get_variable_definition(t.t, k); out += sfmt("%s %d\n", v.name, (int)v.type); }
        std::vector<const betree_sub*> b; for(auto& x : w.x) b.push_back(t.make_sub(id++, x, CS)); for(auto x : b) out += sfmt("insert %d\n", x ? t.insert_sub(x) : -1);
    } else for(auto& x : w.x) out += sfmt("insert %d\n", t.insert(id++, x, CS));
    for(size_t k = 0; k < w.e.size(); k++) { Ev ev; for(size_t j = 0; j < d.size(); j++) ev.v.push_back(parse_val(d[j].t, w.e[k][j])); out += res_text(t.search(ev, k & 1 ? PROG : TEXT)) + "\n"; }
}
static void build_shared(Sut& s, int setup) {
    uint64_t id = 1; if(setup == 0) return;
    for(size_t k = 0; k < X.size(); k++) { if(setup == 3) { auto q = s.make_sub(id++, X[k], CS); s.insert_sub(q); } else s.insert(id++, X[k], CS); }
    if(setup >= 2) for(int k = 0; k <= 10; k++) { s.insert(id++, sfmt("i = %d", k)); s.insert(id++, sfmt("f <= %d.5 and i > %d", k, k)); }
}
static std::string cut(const char* s) { return std::string(s).substr(0, 3000); }
static void put(int t, const std::string& s) { size_t n = std::min(s.size(), sizeof rt_sh->text[0] - 1); memcpy(rt_sh->text[t], s.data(), n); rt_sh->text[t][n] = 0; }
// forks; the child gets fresh library state
static int in_child(const std::function<void()>& f) { fflush(nullptr); rt_sh->status = 0; pid_t p = fork(); if(p == 0) { alarm(30); f(); _exit(0); } int st; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : st ? st : 1; }
static void guarded(Ex& ex, Sut& s, const std::vector<int>& ops, int t) { std::string out; try { for(int o : ops) run_op(ex, s, o, out); } catch(Violation& v) { out += "harness: " + v.msg; } put(t, out); }
struct Solo { bool ok = false; int st = 0; std::string text; std::vector<RtRec> rec; uint64_t acc = 0; };
struct Pair { std::vector<RtRec> conf; int bound = 0; uint64_t points = 0; };
static Solo solo(Ex& ex, int setup, const std::vector<int>& ops, int tid) {
    static std::map<std::vector<int>, Solo> cache; auto key = ops; key.push_back(setup); key.push_back(tid); auto it = cache.find(key); if(it != cache.end()) return it->second;
    if(cache.size() > 400) cache.clear();
    static Decls d = parse_decls(D); Solo r;
    r.st = in_child([&] { Sut s(ex, d, setup == 3 ? Cfg{3, 0, false} : Cfg{1, 0, false}); build_shared(s, setup); rt_run_alone(tid, [&] { guarded(ex, s, ops, tid - 1); }); });
    r.ok = r.st == 0 && rt_sh->status == 1 && !rt_sh->rec_full; if(rt_sh->status == 2) r.text = "does not end";
    if(r.ok) { r.text = rt_sh->text[tid - 1]; r.rec.assign(rt_sh->rec, rt_sh->rec + rt_sh->nrec); r.acc = rt_sh->accesses; }
    return cache[key] = r;
}
static std::vector<RtRec> conflicts(const Solo& a, const Solo& b) {
    std::map<uintptr_t, const RtRec*> m; for(auto& x : a.rec) m[x.addr] = &x; std::vector<RtRec> out;
    for(auto& y : b.rec) { auto it = m.find(y.addr); if(it == m.end()) continue; uint8_t c = (it->second->w & (y.r | y.w)) | (y.w & (it->second->r | it->second->w)); if(c) out.push_back({y.addr, c, c}); }
    return out;
}
static Body par_body(int len) {
    return [len](Ex& ex) {
        static Decls d = parse_decls(D);
        int setup = ex.choose(4); std::vector<int> oa, ob; for(int k = 0; k < len; k++) oa.push_back(ex.choose(NOPS)); for(int k = 0; k < len; k++) ob.push_back(ex.choose(NOPS));
        if(ob < oa) throw Skip(); bool any = false; for(int o : oa) any |= o < NS; for(int o : ob) any |= o < NS; if(!any && setup) throw Skip();
        ex.gate(); rt_init();
        ex.note("shared tree %d", setup); for(int o : oa) ex.note("  thread 1: %s", op_name(o).c_str()); for(int o : ob) ex.note("  thread 2: %s", op_name(o).c_str());
        Solo A = solo(ex, setup, oa, 1), B = solo(ex, setup, ob, 2);
        if(!A.ok || !B.ok) ex.fail("run alone, a thread does not end (status 0x%x): %s", A.ok ? B.st : A.st, (A.ok ? B.text : A.text).c_str());
        ex.state(hmix(hmix(setup, hstr(op_name(oa[0]) + (len > 1 ? op_name(oa[1]) : ""))), hstr(op_name(ob[0]) + (len > 1 ? op_name(ob[1]) : ""))));
        auto conf = conflicts(A, B); ex.checked();
        auto both = [&](int first, const std::vector<uint8_t>& prefix, int bound) {
            int st = in_child([&] { Sut s(ex, d, setup == 3 ? Cfg{3, 0, false} : Cfg{1, 0, false}); build_shared(s, setup); rt_run_both([&] { guarded(ex, s, oa, 0); }, [&] { guarded(ex, s, ob, 1); }, first, conf.data(), conf.size(), prefix.data(), prefix.size(), bound); });
            std::string sched; for(int k = 0; k < rt_sh->nchoice; k++) if(rt_sh->choice[k]) sched += sfmt(" %d", k);
            std::string how = sfmt("thread %d first, control passes at shared accesses%s", first, sched.empty() ? ": at its end" : sched.c_str());
            if(rt_sh->status == 2) ex.fail("the threads wait for each other for ever (%s)", how.c_str());
            if(st || rt_sh->status != 1) { if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ex.fail("the threads do not end (%s)", how.c_str()); ex.fail("the process died with signal %d (%s)", WIFSIGNALED(st) ? WTERMSIG(st) : -1, how.c_str()); }
            for(int t = 0; t < 2; t++) { const std::string& w = t ? B.text : A.text; if(w != rt_sh->text[t]) ex.fail("thread %d observes\n%sinstead of\n%s(%s)", t + 1, cut(rt_sh->text[t]).c_str(), cut(w.c_str()).c_str(), how.c_str()); }
            ex.checked(2);
        };
        if(conf.empty()) { // nothing one thread writes is touched by the other: all interleavings are equivalent
            if((oa[0] + ob[0]) % 4 == 0) both(1, {}, 0);
            return;
        }
        ex.note("%zu granules are written by one thread and used by the other", conf.size());
        // every schedule that hands over control at accesses to these, up to a number of preemptions
        both(1, {}, 0); uint64_t n = rt_sh->visible;
        int bound = n <= (ex.tier ? 300 : 40) ? 2 : 1; if(ex.tier && n <= 40) bound = 3;
        int first = 1 + ex.choose(2); std::vector<uint8_t> prefix; for(size_t k = ex.pos; k < ex.st.size(); k++) prefix.push_back((uint8_t)ex.st[k].first);
        // on a run that fails, the choices made are reported first
        std::string bad; try { both(first, prefix, bound); } catch(Violation& v) { bad = v.msg; }
        int nc = rt_sh->nchoice; std::vector<uint8_t> ch(rt_sh->choice, rt_sh->choice + nc);
        for(int k = 0; k < nc; k++) { int c = ex.choose(2); if(c != ch[k]) ex.fail("harness: the schedule is not reproducible"); }
        if(!bad.empty()) ex.fail("%s", bad.c_str());
    };
}
// the results of single-threaded runs agree with the model
static Body alone_body() {
    return [](Ex& ex) {
        int setup = ex.choose(4), o = ex.choose(NS); ex.gate(); rt_init(); static Decls d = parse_decls(D);
        ex.note("shared tree %d, one thread: %s", setup, op_name(o).c_str()); Solo A = solo(ex, setup, {o}, 1); if(!A.ok) ex.fail("run alone, the thread does not end (status 0x%x)", A.st);
        ex.state(hmix(setup, o)); int e = o < 5 ? o : (o * 3) % 5; Ev ev; for(size_t k = 0; k < d.size(); k++) ev.v.push_back(parse_val(d[k].t, E[e][k]));
        std::vector<uint64_t> w; bool valid = valid_event(d, ev); uint64_t id = 1; VS xs; if(setup) xs = X; if(setup >= 2) for(int k = 0; k <= 10; k++) { xs.push_back(sfmt("i = %d", k)); xs.push_back(sfmt("f <= %d.5 and i > %d", k, k)); }
        for(auto& x : xs) { EP p = ref_parse(x); if(!p) ex.fail("harness: %s", x.c_str()); if(valid && ref_eval(p, d, ev, CS)) w.push_back(id); id++; }
        bool srch = o < 5 || !(o & 1); std::string want = srch ? sfmt("%d %s ", valid, ids_text(w).c_str()) : sfmt("exists %d\n", !w.empty()); ex.checked();
        if(A.text.compare(0, want.size(), want)) ex.fail("run alone: %s instead of %s", A.text.c_str(), want.c_str());
    };
}
void register_props(std::vector<PropDef>& out) {
    out.push_back({"C21", {{"alone", alone_body(), 1, 3}, {"pairs", par_body(1), 1, 3}, {"sequences", par_body(2), 1, 3}}});
}
