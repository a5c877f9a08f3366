// Variables declared after subscriptions were built and inserted, and after events were built.
#pragma once
#include "scn.h"
#include <cstring>
namespace late {
inline std::string decl(int k, const char* p) { static const char* t[] = {"bool", "int", "int 0 99", "str", "str 4", "enum 3", "ilist", "slist 5", "float 0 10"}; return sfmt("%s%d %s ?%s", p, k, std::string(t[k % 9]).substr(0, std::string(t[k % 9]).find(' ')).c_str(), strchr(t[k % 9], ' ') ? strchr(t[k % 9], ' ') : ""); }
inline std::string leaf(int k, const char* p) { static const char* f[] = {"", " = 5", " > 50", " <> \"u\"", " = \"u\"", " = 7", " one of (1, 2)", " none of (\"u\")", " < 2.5"}; return sfmt("%s%d%s", p, k, f[k % 9]); }
inline const char* val(int k, int alt) { static const char* v[][2] = {{"true", "false"}, {"5", "6"}, {"70", "3"}, {"\"w\"", "\"u\""}, {"\"u\"", "\"zz\""}, {"7", "9"}, {"[2,3]", "[]"}, {"[\"w\"]", "[\"u\"]"}, {"1.5", "7.0"}}; return v[k % 9][alt]; }
// one round: n0 variables, expressions, n1 more (n2 of them after another round of expressions)
inline Body body() {
    return [](Ex& ex) {
        static const std::vector<int> a = {1, 2, 9, 62, 63, 64, 65, 127, 128, 129}, b = {1, 2, 63, 64, 65, 127, 130, 260}; int n0 = ex.pick(a), n1 = ex.pick(b), n2 = ex.pick(std::vector<int>{0, 1, 70}), cap = ex.choose(3), route = ex.choose(3), req = ex.choose(2); ex.gate();
        VS decls; for(int k = 0; k < n0; k++) decls.push_back(decl(k, "a")); bool v = ex.verbose; ex.verbose = false; Scn s(ex, decls, Cfg{cap == 0 ? 1 : cap == 1 ? 3 : -1, 0, false}); ex.verbose = v; ex.note("%d variables, %d more after the first expressions, %d more after the next, route %d", n0, n1, n2, route);
        std::vector<Val> owned; std::vector<std::pair<betree_event*, VS>> built; size_t total = n0; std::vector<const char*> pre = {"a"}; std::vector<int> cnt = {n0};
        auto vals = [&](int how) { VS r; for(size_t g = 0; g < pre.size(); g++) for(int k = 0; k < cnt[g]; k++) r.push_back(how == 0 ? "-" : how == 1 ? val(k, 0) : how == 2 ? val(k, 1) : (k % 3 == how % 3) ? "-" : val(k, k & 1)); if(r.size() < total) r.push_back("true"); return r; };
        auto exprs = [&](size_t g) { int n = cnt[g]; const char* p = pre[g]; for(int k : {0, n / 2, n - 2, n - 1}) if(k >= 0) { s.add(leaf(k, p), route); s.add("not (" + leaf(k, p) + ")", route); if(g) { s.add(leaf(k, p) + " and " + leaf(0, "a"), route); s.add(leaf(cnt[0] - 1, "a") + " or " + leaf(k, p), route); s.add(sfmt("%s%d is null and not (", p, k) + leaf(k % n0, "a") + ")", route); } } };
        auto more = [&](int n, const char* p) { for(int k = 0; k < n; k++) { s.d.push_back(parse_decl(decl(k, p))); s.s.declare(s.d.back()); } total += n; pre.push_back(p); cnt.push_back(n); };
        auto check = [&] { for(int h = 0; h < 6; h++) { Ev e = s.ev(vals(h)); s.check(e, h & 1, true); } };
        auto keep = [&] { for(int h = 1; h < 4; h++) { VS w = vals(h); Ev e = s.ev(w); built.push_back({s.s.build(e), w}); } };
        auto old = [&] { for(auto& x : built) { VS w = x.second; while(w.size() < total) w.push_back("-"); Ev e = s.ev(w); auto want = s.want(e); Res r = s.s.search_event(x.first); ex.checked(); if(r.ok != valid_event(s.d, e) || r.ids != want) ex.fail("an event built before the last declarations: search returned %d %s, expected %d %s", r.ok, ids_text(r.ids).c_str(), valid_event(s.d, e), ids_text(want).c_str()); bool q = betree_exists_with_event(s.s.t, x.first); ex.op(); ex.checked(); if(q != !want.empty()) ex.fail("exists returned %d", q); } };
        exprs(0); check(); keep(); more(n1, "m"); if(route != 2) { check(); old(); } exprs(1); if(n2) { if(route == 1) check(); keep(); more(n2, "z"); exprs(2); } s.flush(); check(); old();
        if(req) { s.d.push_back(parse_decl("zr bool")); s.s.declare(s.d.back()); total++; check(); old(); s.add("zr and a0", route == 2 ? 1 : route); check(); VS w = vals(1); w.back() = "-"; s.check(s.ev(w), 1, true); }
        for(auto& x : built) betree_free_event(x.first); s.done();
    };
}
}
