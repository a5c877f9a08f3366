// Bodies used by several properties: many partitions in one node, predicates below chains of operators.
#pragma once
#include "wide.h"
#include <map>
#include <set>
namespace more {
// ---- one partition per variable at the root: up to 300 of them --------------------------------
inline Body partitions() {
    return [](Ex& ex) {
        static const std::vector<int> nq = {3, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300}, nt = {1, 2, 4, 5, 7, 10, 11, 20, 35, 48, 62, 67, 96, 100, 126, 130, 191, 192, 193, 254, 258, 320, 511, 512, 513};
        static const char* ty[] = {"bool", "int 0 99", "str 4", "enum 3", "slist 5", "ilist 0 99", "float 0 10"};
        static const char* yes[] = {"true", "70", "\"u\"", "7", "[\"w\",\"u\"]", "[3,90]", "1.5"}; static const char* no[] = {"false", "3", "\"w\"", "9", "[\"w\"]", "[5]", "7.0"};
        static const char* leaf[] = {"", " > 50", " = \"u\"", " = 7", " one of (\"u\")", " all of (3)", " < 2.5"};
        int which = ex.choose((int)nq.size() + (ex.tier ? (int)nt.size() : 0)), type = ex.choose(8), order = ex.tier ? ex.choose(4) : ex.choose(2) * 3, pairs = ex.choose(2), opt = ex.choose(2), cap = ex.choose(2), route = ex.choose(ex.tier ? 3 : 2); ex.gate();
        int n = which < (int)nq.size() ? nq[which] : nt[which - nq.size()]; auto t = [&](int k) { return type == 7 ? k % 7 : type; };
        VS decls; for(int k = 0; k < n; k++) { std::string d = ty[t(k)]; size_t sp = d.find(' '); decls.push_back(sfmt("v%d ", k) + d.substr(0, sp) + (opt ? " ?" : "") + (sp == std::string::npos ? "" : d.substr(sp))); }
        bool v = ex.verbose; ex.verbose = false; Scn s(ex, decls, Cfg{cap ? 2 : 1, 0, false}); ex.verbose = v;
        ex.note("%d variables (%s%s), capacity %d, order %d, %s, route %d", n, type == 7 ? "all types" : ty[type], opt ? ", optional" : "", cap ? 2 : 1, order, pairs ? "some pairs" : "one variable each", route);
        auto lf = [&](int k) { return sfmt("v%d", k) + leaf[t(k)]; };
        ex.verbose = false;
        for(int q = 0; q < n; q++) { int k = order == 0 ? q : order == 1 ? n - 1 - q : order == 2 ? (q % 2 ? n - 1 - q / 2 : q / 2) : (int)((q * 7919LL + 3) % n); s.add(lf(k), route); if(cap) s.add("not (" + lf(k) + ")", route); if(pairs && q % 3 == 0) { s.add(lf(k) + " and " + lf((k + 1) % n), route); s.add(lf(k) + " or " + lf((k + n / 2) % n), route); } }
        s.flush(); ex.verbose = v;
        std::set<int> at; for(int k : {0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, n / 2, n - 2, n - 1}) if(k >= 0 && k < n) at.insert(k);
        int m = 0; auto go = [&](VS e) { Ev x = s.ev(e); s.check(x, m & 1, m % 3 == 0); m++; };
        VS Y, N; for(int k = 0; k < n; k++) { Y.push_back(yes[t(k)]); N.push_back(no[t(k)]); } go(Y); go(N); if(opt) go(VS(n, "-"));
        for(int k : at) { VS e = N; e[k] = Y[k]; go(e); if(opt) { e = VS(n, "-"); e[k] = Y[k]; go(e); } else { e = Y; e[k] = N[k]; go(e); } }
        s.done();
    };
}
// ---- every kind of predicate at the end of every chain of operators -----------------------------
inline const VS& walk_decls() { static const VS d = {"b bool ?", "c bool", "f float ?", "g float ? 0 10", "i int ? 0 20", "il ilist ?", "sl slist ?", "s str ?", "e enum ?", "q segs ?", "segments_with_timestamp segs ?", "frequency_caps caps ?", "now int ?", "latitude float ?", "longitude float ?", "k str ? 2", "h enum ? 1"}; return d; }
inline const std::vector<Const>& walk_consts() { static const std::vector<Const> c = {{"flight_id", 14}}; return c; }
inline const VS& walk_leaves() { static const VS l = {"b", "f > 3", "f = 3", "4 <= f", "g <> 2", "i in (5, 1, 3)", "i not in (9, 2)", "i <= 4", "il one of (9, 2, 2)", "il all of (7, 1)", "3 in il", "sl all of (\"b\", \"a\")", "sl none of (\"d\", \"c\")", "\"a\" in sl", "s = \"x\"", "s in (\"y\", \"x\")", "e = 7", "e <> 8", "i is null", "s is not null", "sl is empty", "within_frequency_cap(\"flight\", \"ns\", 5, 10)", "segment_within(q, 1, 5)", "segment_before(1, 5)", "geo_within_radius(45, -73, 100)", "contains(s, \"x\")", "ends_with(s, \"y\")", "k = \"p\"", "h = 1"}; return l; }
inline const VS& walk_bad() { static const VS l = {"nope", "nope = 1", "i = \"a\"", "f = \"x\"", "s = 1", "sl one of (1)", "il one of (\"a\")", "i in (\"a\")", "s in (1, 2)", "1 in sl", "\"a\" in il", "within_frequency_cap(\"campaign\", \"ns\", 5, 10)", "within_frequency_cap(\"nonsense\", \"ns\", 5, 10)", "segment_within(i, 1, 5)", "contains(i, \"a\")", "starts_with(nope, \"a\")", "b > 1", "i", "e > 3", "e in (1, 2)", "i > 2.5", "k in (\"p\", \"r\", \"t\")", "h = 1 or h = 2", "nope is null", "nope is empty", "nope in (1)", "2 in nope", "segment_before(nope, 1, 5)", "nope one of (1)"}; return l; }
inline std::string walk_chain(Ex& ex, const std::string& leaf, int max) {
    std::string t = leaf; int n = 0;
    for(; n < max; n++) { int w = ex.choose(6); if(!w) break; switch(w) { case 1: t = "not (" + t + ")"; break; case 2: t = "(" + t + ") and c"; break; case 3: t = "c and (" + t + ")"; break; case 4: t = "(" + t + ") or c"; break; default: t = "c or (" + t + ")"; } }
    return t;
}
inline std::vector<VS> walk_events() {
    static const std::vector<VS> v = {
        {"true", "true", "3.0", "2.0", "3", "[1,7,3]", "[\"a\",\"b\"]", "\"xy\"", "7", "[[1,96000000]]", "[[1,20000000]]", "[[[\"flight\",14,\"ns\"],3,99000000]]", "100", "45.1", "-73.1", "\"p\"", "1"},
        {"false", "false", "4.0", "3.5", "9", "[2]", "[]", "\"x\"", "8", "[[1,20000000]]", "[[1,99000000]]", "[[[\"flight\",14,\"ns\"],9,99000000]]", "100", "10.0", "20.0", "\"q\"", "2"},
        {"-", "true", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-"},
        {"-", "false", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-"},
        {"true", "false", "2.5", "9.0", "4", "[]", "[\"c\"]", "\"y\"", "-", "[]", "[]", "[]", "-", "-", "-73.0", "-", "1"},
        {"false", "true", "-3.0", "2.0", "20", "[9,3]", "[\"q\",\"a\",\"zz\"]", "\"zz\"", "9", "[[2,5]]", "-", "[[[\"flight\",14,\"other\"],9,99000000]]", "5", "45.0", "-", "\"p\"", "-"}};
    return v;
}
inline Body walk() {
    return [](Ex& ex) {
        const VS& L = walk_leaves(); std::string t = walk_chain(ex, L[ex.choose((int)L.size())], ex.tier ? 6 : 4); int route = ex.choose(2); ex.gate();
        Scn s(ex, walk_decls(), Cfg{1, 0, false}, walk_consts()); s.add(t, route); int m = 0; for(auto& e : walk_events()) { Ev x = s.ev(e); s.check(x, m++ & 1, true); } s.done();
    };
}
// ---- values that are zero, false or empty are not undefined ----------------------------------------
inline Body zeros() {
    return [](Ex& ex) {
        static const VS d = {"b bool ?", "i int ?", "f float ?", "s str ?", "e enum ?", "il ilist ?", "sl slist ?", "q segs ?", "w caps ?", "g float ? -5 5", "j int ? -5 5", "c bool"};
        static const std::vector<VS> P = {{"b", "b is null", "b is not null"}, {"i = 0", "i < 1", "i <> 3", "i in (0, 3)", "i not in (3, 4)", "i is null", "i is not null"}, {"f = 0", "f <= 0.0", "f <> 1.5", "f is null", "f is not null"}, {"s = \"\"", "s <> \"x\"", "s in (\"\", \"x\")", "s not in (\"x\")", "contains(s, \"\")", "starts_with(s, \"x\")", "s is null", "s is not null"}, {"e = 0", "e <> 7", "e is null", "e is not null"}, {"il none of (1)", "il one of (0)", "0 in il", "1 not in il", "il all of (0)", "il is null", "il is not null", "il is empty"}, {"sl none of (\"x\")", "sl one of (\"\")", "\"\" in sl", "\"x\" not in sl", "sl all of (\"\")", "sl is null", "sl is not null", "sl is empty"}, {"q is null", "q is not null"}, {"w is null", "w is not null"}, {"g = 0", "g >= 0.0", "g <> 1.5", "g is null"}, {"j = 0", "j <= 0", "j <> 3", "j is not null"}};
        static const std::vector<VS> V = {{"-", "false", "true"}, {"-", "0", "3", "-1"}, {"-", "0.0", "-0.0", "1.5", "0"}, {"-", "\"\"", "\"x\"", "\" \"", "\"unknown\""}, {"-", "0", "7", "-1"}, {"-", "[]", "[0]", "[0,1]", "[0,0]"}, {"-", "[]", "[\"\"]", "[\"\",\"x\"]", "[\"unknown\"]"}, {"-", "[]", "[[0,0]]"}, {"-", "[]", "[[[\"flight\",0,\"\"],0,0]]"}, {"-", "0.0", "-0.0", "1.5", "0"}, {"-", "0", "3", "-1"}};
        int x = ex.choose(11), p = ex.choose(9), y = ex.choose(11), form = ex.choose(6), cap = ex.choose(2), known = ex.choose(2); ex.gate(); if(p >= (int)P[x].size() || x == y) return;
        Scn s(ex, d, Cfg{cap ? 1 : -1, 0, false}); static const char* other[] = {"\"\"", "\"x\""};
        if(known && (x == 3 || x == 6)) for(auto o : other) s.add(x == 3 ? std::string("s = ") + o : std::string(o) + " in sl"); if(known && x == 4) s.add("e = 0 or e = 7");
        for(auto& u : P[y]) { std::string a = P[x][p], t; switch(form) { case 0: t = a + " and " + u; break; case 1: t = a + " or " + u; break; case 2: t = "not (" + a + ") or not (" + u + ")"; break; case 3: t = "not (" + a + " or not (" + u + "))"; break; case 4: t = "c and (" + a + " or " + u + ")"; break; default: t = "not (c and " + a + ") and not (" + u + ")"; } s.add(t, form & 1); }
        s.add(P[x][p]); int m = 0; for(auto& a : V[x]) for(auto& b : V[y]) { VS e(12, "-"); for(int k = 0; k < 11; k++) if(k != x && k != y && (m & 1)) e[k] = V[k][1]; e[x] = a; e[y] = b; e[11] = m & 2 ? "true" : "false"; s.check(s.ev(e), m++ & 1, true); }
        s.done();
    };
}
// ---- bundles of expressions that are all decided by the short cuts, or all but one ----------------
inline Body shortcuts() {
    return [](Ex& ex) {
        static const std::vector<int> ns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 63, 64, 65, 66, 255, 256, 257, 300}; int n = ex.pick(ns), kind = ex.choose(7), cap = ex.choose(2), route = ex.choose(2); ex.gate();
        Scn s(ex, {"a bool ?", "i int ? 0 9", "s str ?", "b bool"}, Cfg{cap ? 1 : -1, 0, false}); bool v = ex.verbose; ex.verbose = false;
        for(int k = 0; k < n; k++) { static const char* f[] = {"not a", "a", "i is null", "s is not null", "not (i = 3)", "i in (1, 2) and b", "not (s = \"x\") or b"}; int w = kind < 4 ? kind : kind == 4 ? (k % 2 ? 0 : 1) : kind == 5 ? k % 7 : (k == n / 2 ? 5 : 6); s.add(f[w], route); }
        ex.verbose = v; ex.note("  %d expressions of kind %d", n, kind); static const std::vector<VS> ev = {{"-", "-", "-", "true"}, {"-", "-", "-", "false"}, {"true", "-", "-", "true"}, {"-", "3", "-", "false"}, {"false", "1", "\"x\"", "true"}, {"-", "-", "\"q\"", "false"}};
        for(auto& x : ev) for(int m = 0; m < 2; m++) { Ev e = s.ev(x); s.check(e, m, true); Res r = s.s.search(e, m ? PROG : TEXT), q = s.s.search(e, m ? TEXT : PROG); ex.checked(2); if(r.matched != r.ids.size() || r.evaluated < r.matched || r.evaluated > s.items.size() || r.shorted > r.evaluated) ex.fail("search of %s: matched %zu (%zu ids), evaluated %zu, shorted %zu, stored %zu", ev_text(s.d, e).c_str(), r.matched, r.ids.size(), r.evaluated, r.shorted, s.items.size()); if(r.evaluated != q.evaluated || r.shorted != q.shorted || r.memoized != q.memoized) ex.fail("repeating the search of %s gave other counters", ev_text(s.d, e).c_str()); }
        s.done();
    };
}
inline std::vector<std::pair<std::string, std::string>> fit_texts() {
    std::vector<std::pair<std::string, std::string>> o; for(int n : {0, 1, 3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 300}) { std::string p(n, 'p'); o.push_back({p + "a", p + "b"}); o.push_back({p, p + "a"}); o.push_back({"a" + p, "b" + p}); o.push_back(wide::colliding(n, 0)); } return o;
}
// ---- several new values of one expression against the declared capacities ------------------------
inline Body fitting() {
    return [](Ex& ex) {
        static const std::vector<std::pair<std::string, std::string>> texts = fit_texts();
        int type = ex.choose(3), form = ex.choose(6), c1 = ex.choose(4), c2 = ex.choose(3), known = ex.choose(2), p = ex.choose((int)texts.size()), other = ex.choose(2); ex.gate();
        std::string a = "\"" + texts[p].first + "\"", b = "\"" + texts[p].second + "\"", c = "\"third\"";
        if(type == 2) { int bit = (int)(p % 62) + 1; long long x = p & 1 ? 5 : -6; a = std::to_string(x); b = std::to_string(x ^ (1ll << bit)); c = "77"; }
        if(other) std::swap(a, b);
        static const char* dt[] = {"str", "slist", "enum"}; Scn s(ex, {sfmt("s %s ? %d", dt[type], c1), sfmt("t %s ? %d", dt[type], c2), "b bool"}, Cfg{1, 0, false});
        auto eq = [&](const char* v, const std::string& x) { return type == 1 ? x + " in " + v : std::string(v) + " = " + x; };
        auto in = [&](const char* v, const std::string& x) { return type == 2 ? "(" + eq(v, x) + ")" : type == 1 ? std::string(v) + " one of (" + x + ")" : std::string(v) + " in (" + x + ")"; };
        auto two = [&](const char* v) { return type == 2 ? "(" + eq(v, a) + " or " + eq(v, b) + ")" : in(v, a + ", " + b); };
        std::map<std::string, std::set<std::string>> used; auto go = [&](const std::string& t) {
            std::map<std::string, std::vector<std::string>> m; ref_strings(ref_parse(t), s.d, m); auto u = used; bool fits = true; for(auto& x : m) { for(auto& y : x.second) u[x.first].insert(y); if(u[x.first] != used[x.first] && u[x.first].size() > (size_t)(x.first == "s" ? c1 : c2)) fits = false; }
            bool ok = s.try_add(t); ex.checked(); if(ok != fits) ex.fail("%s was %s: %zu of %d values of s and %zu of %d of t in use", t.c_str(), ok ? "accepted" : "refused", used["s"].size(), c1, used["t"].size(), c2); if(ok) used = u; };
        if(known) go(eq("s", b));
        switch(form) { case 0: go(two("s")); break; case 1: go(eq("s", a) + " or not (" + eq("s", b) + ")"); break; case 2: go(eq("s", a) + " and " + eq("t", a)); break; case 3: go(two("t") + " or b and " + eq("s", b)); break; case 4: go(eq("s", a) + " or " + eq("s", c) + " or " + eq("s", a)); break; default: go(two("s") + " and (" + eq("t", b) + " or " + eq("t", b) + ")"); }
        go(eq("s", a)); go(eq("s", b)); go(eq("t", b)); go(eq("s", c)); int m = 0; auto val = [&](const std::string& x) { return type == 1 ? "[" + x + "]" : x; };
        for(auto& x : VS{a, b, c, type == 2 ? "-99" : "\"none\""}) for(auto& y : VS{b, a}) s.check(s.ev({val(x), val(y), m & 1 ? "true" : "false"}), m++ & 1); s.check(s.ev({"-", "-", "true"}), 1); s.done();
    };
}
// ---- many new values in one expression, up to and beyond the capacity -----------------------------
inline Body fitting_many() {
    return [](Ex& ex) {
        static const std::vector<int> N = {2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130};
        int type = ex.choose(3), n = ex.pick(N), over = ex.choose(3), known = ex.choose(3), form = ex.choose(4), second = ex.choose(3), dup = ex.choose(2); ex.gate(); // over: one value too many, exactly full, one left
        int cap = n - 1 + over, k = known == 0 ? 0 : known == 1 ? 1 : n / 2, cap2 = second == 0 ? 1 : second == 1 ? n / 2 + 1 : n + 1;
        static const char* dt[] = {"str", "slist", "enum"}; bool v = ex.verbose; ex.verbose = false; Scn s(ex, {sfmt("s %s ? %d", dt[type], cap), sfmt("t %s ? %d", dt[type], cap2), "b bool"}, Cfg{1, 0, false}); ex.verbose = v;
        auto w = [&](int i) { int j = (i * 37) % n; return type == 2 ? std::to_string(j * 3 - 7) : sfmt("\"w%d\"", j); };
        auto eq = [&](const char* x, const std::string& y) { return type == 1 ? y + " in " + x : std::string(x) + " = " + y; };
        if(n % 37 == 0) throw Skip();
        std::map<std::string, std::set<std::string>> used; auto go = [&](const std::string& t) {
            std::map<std::string, std::vector<std::string>> m; ref_strings(ref_parse(t), s.d, m); auto u = used; bool fits = true; for(auto& x : m) { for(auto& y : x.second) u[x.first].insert(y); if(u[x.first] != used[x.first] && u[x.first].size() > (size_t)(x.first == "s" ? cap : cap2)) fits = false; }
            bool ok = s.try_add(t); ex.checked(); if(ok != fits) ex.fail("%s was %s: %zu of %d values of s and %zu of %d of t in use", t.substr(0, 200).c_str(), ok ? "accepted" : "refused", used["s"].size(), cap, used["t"].size(), cap2); if(ok) used = u; };
        for(int i = 0; i < k; i++) go(eq("s", w(i)));
        auto many = [&](const char* x, int m, bool list) { std::string o; for(int i = 0; i < m; i++) for(int r = 0; r <= dup; r++) { if(!o.empty()) o += list ? ", " : " or "; o += list ? w(i) : eq(x, w(i)); } return !list ? "(" + o + ")" : type == 1 ? std::string(x) + " none of (" + o + ")" : std::string(x) + " in (" + o + ")"; };
        bool list = form & 1 && type != 2; int half = std::max(1, n / 2);
        go(form < 2 ? many("s", n, list) : "b and (" + many("t", half, list) + " or not " + many("s", n, list) + ")");
        go(many("s", n - 1, list)); go(eq("s", w(n - 1))); go(many("t", half, list) + " and " + eq("s", w(0)));
        auto val = [&](const std::string& x) { return type == 1 ? "[" + x + "]" : x; };
        int m = 0; for(int i : {0, n / 2, n - 2, n - 1}) s.check(s.ev({val(w(i)), val(w(n - 1 - i)), m & 1 ? "true" : "false"}), m & 1), m++; s.check(s.ev({val(type == 2 ? "9999" : "\"none\""), "-", "true"}), 1); s.done();
    };
}
// ---- the numbers given to subscriptions -----------------------------------------------------------
inline Body numbers() {
    return [](Ex& ex) {
        static const std::vector<uint64_t> N = {0, 1, 255, 256, 65535, 65536, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xfffffffffffffffeULL, 0xffffffffffffffffULL};
        int a = ex.choose((int)N.size()), b = ex.choose((int)N.size()), cap = ex.choose(3), route = ex.choose(3), base = ex.choose(3); ex.gate();
        Scn s(ex, {"a bool ?", "i int ? 0 9", "s str ? 5"}, Cfg{cap == 2 ? -1 : cap + 1, 0, false}); s.s.raw = true; auto go = [&](uint64_t id, const std::string& t) { s.next = id; s.add(t, route); };
        static const VS f = {"i < 3", "not a", "s = \"x\"", "i > 4", "a or i = 1", "s is null"}; for(int k = 0; k < base * 3; k++) go(1000 + k, f[(k * 5 + 1) % 6]);
        go(N[a], f[0]); go(N[b], f[1]); go(N[a], f[2]); go(N[b], f[0]); go(N[a] + 1, f[3]); go(N[b] - 1, f[4]); go(N[a], f[5]); if(route == 2) s.flush();
        int m = 0; for(const char* x : {"-", "true", "false"}) for(const char* y : {"-", "1", "4", "9"}) for(const char* z : {"-", "\"x\"", "\"y\""}) s.check(s.ev({x, y, z}), m++ & 1, true);
        s.done();
    };
}
// ---- the same kind of predicate about variables whose numbers differ in one bit ----------------------
inline Body far_variables() {
    return [](Ex& ex) {
        struct K { const char *decl, *e1, *e2, *e3; const char* v[3]; };
        static const std::vector<K> ks = {{"bool ?", "%s", "not %s", "%s is null", {"true", "false", "-"}}, {"int ?", "%s = 3", "%s < 5", "%s in (3, 9)", {"3", "7", "-"}}, {"float ?", "%s = 2.5", "%s >= 3.0", "%s <> 2.5", {"2.5", "3.5", "-"}}, {"str ?", "%s = \"a\"", "%s in (\"a\", \"c\")", "contains(%s, \"b\")", {"\"a\"", "\"b\"", "-"}}, {"enum ?", "%s = 3", "%s <> 3", "%s is not null", {"3", "4", "-"}}, {"ilist ?", "3 in %s", "%s one of (3, 9)", "%s all of (4)", {"[3]", "[4]", "-"}}, {"slist ?", "\"a\" in %s", "%s none of (\"a\")", "%s is empty", {"[\"a\"]", "[]", "-"}}, {"segs ?", "segment_within(%s, 1, 20)", "segment_before(%s, 1, 20)", "%s is null", {"[[1,90000000]]", "[[1,10000000]]", "-"}}};
        int kind = ex.choose((int)ks.size()), bit = ex.choose(ex.tier ? 12 : 11), at = ex.choose(3), order = ex.choose(2), form = ex.choose(4); ex.gate(); const K& k = ks[kind];
        int p = at == 0 ? 0 : at == 1 ? 3 : (1 << bit) - 1, q = (at == 1 ? p ^ (1 << bit) : p + (1 << bit)), hi = std::max(p, q), n = hi + 2; int fill = form >> 1;
        VS d; for(int i = 0; i < n; i++) d.push_back(sfmt("v%d ", i) + (i == p || i == q || fill ? k.decl : i % 2 ? "bool ?" : "int ?")); d.push_back("now int ?"); d.push_back("c bool");
        bool v = ex.verbose; ex.verbose = false; Scn s(ex, d, Cfg{form & 1 ? 1 : -1, 0, false}); ex.verbose = v; ex.note("variables v%d and v%d of type %s among %d%s", p, q, k.decl, n, fill ? " of that type" : "");
        auto t = [&](const char* f, int x) { return sfmt(f, sfmt("v%d", x).c_str()); }; int x = order ? q : p, y = order ? p : q;
        for(int round = 0; round < 2; round++) for(int z : {x, y}) for(const char* f : {k.e1, k.e2, k.e3}) { s.add(t(f, z), round); s.add("c and (" + t(f, z) + ")"); }
        s.add("(" + t(k.e1, x) + ") or (" + t(k.e1, y) + ")"); s.add("(" + t(k.e1, y) + ") or (" + t(k.e1, x) + ")"); s.add("not ((" + t(k.e2, x) + ") and (" + t(k.e2, y) + "))", 1);
        int m = 0; for(auto& a : k.v) for(auto& b : k.v) { VS e(n, "-"); if(fill) for(int i = 0; i < n; i += 3) e[i] = k.v[0]; e[x] = a; e[y] = b; e.push_back("100"); e.push_back(m & 1 ? "false" : "true"); s.check(s.ev(e), m & 1, m % 3 == 0); m++; }
        s.done();
    };
}
// ---- many variables of one type, each with values of its own ------------------------------------------
inline Body own_values() {
    return [](Ex& ex) {
        static const std::vector<int> nq = {2, 3, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300}; int n = ex.pick(nq), type = ex.choose(6), order = ex.choose(3), cap = ex.choose(2), route = ex.choose(2); ex.gate();
        static const char* dt[] = {"str ?", "enum ?", "slist ?", "str ? 4", "enum ? 4", "slist ? 4"}; int ty = type % 3; VS d; for(int k = 0; k < n; k++) d.push_back(sfmt("v%d %s", k, dt[type]));
        bool v = ex.verbose; ex.verbose = false; Scn s(ex, d, Cfg{cap ? 1 : -1, 0, false}); ex.verbose = v; ex.note("%d variables of type %s", n, dt[type]);
        auto val = [&](int x) { return ty == 1 ? sfmt("%d", 70 + x) : sfmt("\"w%d\"", x); }; auto eq = [&](int k, int x) { return ty == 2 ? val(x) + sfmt(" in v%d", k) : sfmt("v%d = ", k) + val(x); };
        // the values are met in another order by each variable, so the same text has other numbers
        ex.verbose = false; for(int r = 0; r < 3; r++) for(int w = 0; w < n; w++) { int k = order == 0 ? w : order == 1 ? n - 1 - w : (int)((w * 7919LL + 3) % n); s.add(eq(k, (k * 2 + k / 16 + k / 64 + r) % 3), route); } ex.verbose = v;
        std::set<int> at; for(int k : {0, 1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255, 256, n / 2, n - 2, n - 1}) if(k >= 0 && k < n) at.insert(k);
        int m = 0; for(int k : at) for(int x = 0; x < 4; x++) { VS e(n, "-"); if(m & 1) for(int z = 0; z < n; z++) e[z] = ty == 2 ? "[" + val(z % 4) + "]" : val(z % 4); e[k] = ty == 2 ? "[" + val(x) + "]" : val(x); s.check(s.ev(e), m % 3 == 0, m % 5 == 0); m++; }
        s.done();
    };
}
// ---- thousands of different sub-expressions, pairs whose numbers differ in one bit --------------------
inline Body far_numbers() {
    return [](Ex& ex) {
        static const std::vector<int> ns = {130, 300, 600, 1030, 1100, 2100, 4200, 8300, 66000}; int n = ns[ex.choose(ex.tier ? 9 : 8)], twice = ex.choose(2), kind = ex.choose(3), first = ex.choose(2); ex.gate();
        Decls d = parse_decls({"i int ?", "b bool ?", "c bool ?"}); Sut s(ex, d, Cfg{255, 0, false}); bool v = ex.verbose; ex.verbose = false; std::vector<std::pair<uint64_t, EP>> all; uint64_t id = 1; auto go = [&](const std::string& t) { if(!s.insert(id, t)) ex.fail("insertion of %s refused", t.c_str()); all.push_back({id++, ref_parse(t)}); };
        auto leaf = [&](int k) { return kind == 0 ? sfmt("i = %d", k) : kind == 1 ? sfmt("i > %d", k) : sfmt("not (i <> %d)", k); }; if(first) go("b");
        for(int r = 0; r <= twice; r++) for(int k = 0; k < n; k++) go(leaf(k));
        size_t mark = all.size(); for(int r = 0; r < 2; r++) for(int b = 0; (1 << b) < n; b++) for(int k : {0, 5, n - 1 - (1 << b)}) for(int q : {k, k + (1 << b)}) if(q >= 0 && q < n) { go("b and " + leaf(q)); go(leaf(q) + " or c"); go("not (" + leaf(q) + ")"); }
        ex.verbose = v; ex.note("%d sub-expressions %s%s, then pairs", n, leaf(0).c_str(), twice ? " twice" : ""); ex.state(hmix(n * 2 + twice, kind * 2 + first));
        std::set<int> at = {0, 5, n - 1, n - 2, n, -1}; for(int b = 0; (1 << b) < n; b++) { at.insert(1 << b); at.insert(5 + (1 << b)); at.insert(n - 1 - (1 << b)); }
        int m = 0; for(int x : at) { Ev ev; ev.v.resize(3); if(x != -1) ev.v[0] = parse_val(T::I, std::to_string(x)); ev.v[1] = parse_val(T::B, m % 4 == 3 ? "false" : "true"); if(m % 3) ev.v[2] = parse_val(T::B, "false");
            Res r = s.search(ev, m & 1 ? TEXT : PROG); ex.checked(); std::vector<uint64_t> want; (void)mark; for(auto& a : all) if(ref_eval(a.second, d, ev, {})) want.push_back(a.first);
            if(r.ids != want) ex.fail("search of %s among %d sub-expressions: %zu ids, expected %zu", ev_text(d, ev).c_str(), n, r.ids.size(), want.size()); m++; }
    };
}
}
