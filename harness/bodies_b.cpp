// C06 numbers, C07 strings and enums, C08 lists.
#include "wide.h"
#include "more.h"
#include <cfloat>
#include <climits>
#include <cmath>
#include <set>
static Cfg cf(int cap, int part = 0) { return Cfg{cap, part, false}; }
// ---- C06 integers -------------------------------------------------------------------------------
struct IDom { const char* decl; int64_t lo, hi; };
static int64_t sadd(int64_t a, int64_t b) { int64_t r; if(__builtin_add_overflow(a, b, &r)) return b > 0 ? INT64_MAX : INT64_MIN; return r; }
static std::vector<int64_t> ipoints(int64_t lo, int64_t hi, bool literal) {
    std::set<int64_t> p; int64_t mid = lo / 2 + hi / 2, q1 = lo / 2 + mid / 2, q3 = mid / 2 + hi / 2;
    for(int64_t x : {lo, hi, mid, q1, q3}) for(int64_t k : {-1, 0, 1}) p.insert(sadd(x, k));
    for(int64_t x : {(int64_t)0, INT64_MAX, INT64_MIN}) p.insert(x);
    if(literal) { p.erase(INT64_MIN); p.insert(INT64_MIN + 1); }
    return std::vector<int64_t>(p.begin(), p.end());
}
static const std::vector<IDom>& idoms() {
    static std::vector<IDom> v = {{"i int 0 10", 0, 10}, {"i int 0 1", 0, 1}, {"i int 5 5", 5, 5}, {"i int -7 8", -7, 8}, {"i int -1 0", -1, 0}, {"i int -9 -3", -9, -3}, {"i int 0 998", 0, 998}, {"i int 0 999", 0, 999}, {"i int 0 1000", 0, 1000}, {"i int 1 1001", 1, 1001}, {"i int -600 500", -600, 500},
        {"i int", -20, 20}, {"i int 0 9223372036854775807", 0, INT64_MAX}, {"i int -9223372036854775808 0", INT64_MIN, 0}, {"i int 9223372036854775800 9223372036854775807", INT64_MAX - 7, INT64_MAX}, {"i int -9223372036854775808 -9223372036854775801", INT64_MIN, INT64_MIN + 7}, {"i int ? 0 6", 0, 6}, {"i int -5000000000 5000000000", -5000000000, 5000000000}};
    return v;
}
static std::string ilit(int64_t x) { return std::to_string(x); }
static Body int_grid_body() {
    return [](Ex& ex) {
        const IDom& dm = ex.pick(idoms()); auto pts = ipoints(dm.lo, dm.hi, true);
        static const std::vector<std::string> ops = {"<", "<=", ">", ">=", "=", "<>", "in", "not in", "rev<", "rev>="};
        int64_t c = ex.pick(pts); std::string op = ex.pick(ops); int shape = ex.choose(6), fill = ex.choose(ex.tier ? 4 : 3), pos = ex.choose(2), route = ex.choose(3), cap = ex.choose(ex.tier ? 3 : 1);
        ex.gate();
        std::string L = ilit(c), o = ilit(pts[(size_t)(std::find(pts.begin(), pts.end(), c) - pts.begin() + 3) % pts.size()]);
        std::string t = op == "in" ? "i in (" + L + ", " + o + ")" : op == "not in" ? "i not in (" + L + ")" : op == "rev<" ? L + " < i" : op == "rev>=" ? L + " >= i" : "i " + op + " " + L;
        if(shape == 1) t = "not (" + t + ")"; else if(shape == 2) t = t + " and i < " + o; else if(shape == 3) t = t + " or i = " + o; else if(shape == 4) t = "not (" + t + " or i > " + o + ")"; else if(shape == 5) t = "not (" + t + " and b) or not b and i >= " + o;
        Scn s(ex, {dm.decl, "b bool ?"}, cf(cap == 0 ? 1 : cap == 1 ? 2 : -1));
        if(pos == 0) s.add(t, route);
        VS f; int n = (int)pts.size();
        if(fill == 0) for(int k = 0; k < n; k += 2) f.push_back("i = " + ilit(pts[k]));
        else if(fill == 1) for(int k = 0; k < n; k += 3) { f.push_back("i <= " + ilit(pts[k])); f.push_back("i > " + ilit(pts[n - 1 - k])); }
        else if(fill == 2) for(int k = 0; k + 2 < n; k += 3) f.push_back("i >= " + ilit(pts[k]) + " and i <= " + ilit(pts[k + 2]));
        else for(int k = 0; k < n; k++) f.push_back(k % 2 ? "i <> " + ilit(pts[k]) : "b and i = " + ilit(pts[k]));
        for(auto& x : f) s.add(x, route);
        if(pos == 1) s.add(t, route);
        s.flush();
        std::vector<int64_t> ev = ipoints(dm.lo, dm.hi, false); for(int64_t x : {sadd(c, -1), c, sadd(c, 1), sadd(c, 2)}) ev.push_back(x);
        for(size_t k = 0; k < ev.size(); k++) { Ev e; e.v.resize(2); Val v; v.t = T::I; v.i = ev[k]; v.text = std::to_string(ev[k]); v.text_ok = ev[k] != INT64_MIN; e.v[0] = v; if(k % 3) e.v[1] = parse_val(T::B, k % 3 == 1 ? "true" : "false"); s.check(e, k & 1); }
        s.done();
    };
}
// every constant and event value of a small domain, capacity 1, three constraints
static Body int_exhaustive_body() {
    return [](Ex& ex) {
        static const std::vector<VS> doms = {{"i int 0 4"}, {"i int -2 3"}, {"i int"}, {"i int 1 1"}, {"i int 0 7"}};
        VS d = ex.pick(doms); int depth = ex.tier ? 4 : 3; VS t; int route = ex.choose(2);
        static const char* ops[] = {"<", "<=", ">", ">=", "=", "<>"};
        for(int k = 0; k < depth; k++) { int o = ex.choose(6), c = ex.choose(5); t.push_back(std::string("i ") + ops[o] + " " + std::to_string(c * 2 - 3)); }
        ex.gate();
        Scn s(ex, d, cf(1)); for(auto& x : t) s.add(x, route);
        for(int v = -5; v <= 8; v++) { Ev e; e.v.push_back(parse_val(T::I, std::to_string(v))); s.check(e, v & 1); }
        s.done();
    };
}
// ---- C06 floats ---------------------------------------------------------------------------------
struct FDom { const char* decl; double lo, hi; };
static const std::vector<FDom>& fdoms() {
    static std::vector<FDom> v = {{"f float 0 10", 0, 10}, {"f float 0 1", 0, 1}, {"f float 0 0.5", 0, 0.5}, {"f float 0 1.5", 0, 1.5}, {"f float -0.01 0.01", -0.01, 0.01}, {"f float 0.1 0.3", 0.1, 0.3}, {"f float -3.5 4.25", -3.5, 4.25}, {"f float 5 5", 5, 5}, {"f float 0 999", 0, 999}, {"f float 0 1000", 0, 1000}, {"f float 0 1001.5", 0, 1001.5},
        {"f float", -20, 20}, {"f float 0 1e300", 0, 1e300}, {"f float -1e300 1e300", -1e300, 1e300}, {"f float 10000000000000000 10000000000000010", 1e16, 1e16 + 10}, {"f float ? 0 6", 0, 6}, {"f float -0.000001 0", -0.000001, 0}, {"f float 4503599627370496 4503599627370500", 4503599627370496.0, 4503599627370500.0}};
    return v;
}
static std::vector<double> fpoints(double lo, double hi) {
    std::set<double> p; double mid = lo / 2 + hi / 2, q1 = lo / 2 + mid / 2, q3 = mid / 2 + hi / 2, w = (hi - lo) / 1000 + 0.001;
    for(double x : {lo, hi, mid, q1, q3}) { p.insert(x); p.insert(std::nextafter(x, -INFINITY)); p.insert(std::nextafter(x, INFINITY)); }
    for(double x : {lo, hi, mid}) { p.insert(x - w); p.insert(x + w); p.insert(x + DBL_EPSILON); p.insert(x - DBL_EPSILON); p.insert(x + DBL_EPSILON / 2); p.insert(x - DBL_EPSILON / 2); }
    p.insert(0); p.insert(std::floor(mid)); p.insert(std::ceil(mid)); p.insert(std::floor(q1)); p.insert(std::ceil(q3));
    return std::vector<double>(p.begin(), p.end());
}
static std::string flit(double x) { char b[800]; snprintf(b, sizeof b, "%.60f", x); std::string s = b; while(s.back() == '0' && s[s.size() - 2] != '.') s.pop_back(); return s; }
static Val fval(double x) { Val v; v.t = T::F; v.f = x; v.text = flit(x); if(strtod(v.text.c_str(), 0) != x) v.text_ok = false; return v; }
static Body float_grid_body() {
    return [](Ex& ex) {
        const FDom& dm = ex.pick(fdoms()); auto pts = fpoints(dm.lo, dm.hi); int n = (int)pts.size();
        static const std::vector<std::string> ops = {"<", "<=", ">", ">=", "=", "<>", "rev<", "int"};
        int ci = ex.choose(n); std::string op = ex.pick(ops); int shape = ex.choose(5), fill = ex.choose(ex.tier ? 4 : 3), pos = ex.choose(2), route = ex.choose(ex.tier ? 3 : 2) , cap = ex.choose(ex.tier ? 2 : 1);
        ex.gate();
        double c = pts[ci]; std::string L = flit(c), o = flit(pts[(ci + 5) % n]);
        std::string t = op == "rev<" ? L + " < f" : op == "int" ? "f >= " + std::to_string((long long)std::max(-9e15, std::min(9e15, c))) : "f " + op + " " + L;
        if(shape == 1) t = "not (" + t + ")"; else if(shape == 2) t = t + " and f < " + o; else if(shape == 3) t = t + " or f = " + o; else if(shape == 4) t = "not (" + t + " and b) or f > " + o;
        Scn s(ex, {dm.decl, "b bool ?"}, cf(cap == 0 ? 1 : -1));
        if(pos == 0) s.add(t, route);
        VS f;
        if(fill == 0) for(int k = 0; k < n; k += 3) f.push_back("f = " + flit(pts[k]));
        else if(fill == 1) for(int k = 0; k < n; k += 6) { f.push_back("f <= " + flit(pts[k])); f.push_back("f > " + flit(pts[n - 1 - k])); }
        else if(fill == 2) for(int k = 0; k + 4 < n; k += 4) f.push_back("f >= " + flit(pts[k]) + " and f < " + flit(pts[k + 4]));
        else for(int k = 0; k < n; k += 2) f.push_back(k % 4 ? "f <> " + flit(pts[k]) : "b and f = " + flit(pts[k]));
        for(auto& x : f) s.add(x, route);
        if(pos == 1) s.add(t, route);
        s.flush();
        std::vector<double> ev; for(int k = (ci + fill) % 3; k < n; k += (ex.tier ? 1 : 3)) ev.push_back(pts[k]);
        for(double x : {c, std::nextafter(c, INFINITY), std::nextafter(c, -INFINITY), c + DBL_EPSILON, c - DBL_EPSILON, dm.lo - 100, dm.hi + 100, 1e308, -1e308}) ev.push_back(x);
        for(size_t k = 0; k < ev.size(); k++) { Ev e; e.v.resize(2); e.v[0] = fval(ev[k]); if(k % 3) e.v[1] = parse_val(T::B, k % 3 == 1 ? "true" : "false"); s.check(e, k & 1); }
        s.done();
    };
}
static Body float_exhaustive_body() {
    return [](Ex& ex) {
        static const std::vector<VS> doms = {{"f float 0 2"}, {"f float 0 0.75"}, {"f float"}, {"f float -1.5 1.5"}, {"f float 0.25 0.25"}};
        VS d = ex.pick(doms); int depth = ex.tier ? 4 : 3; VS t; int route = ex.choose(2);
        static const char* ops[] = {"<", "<=", ">", ">=", "=", "<>"}; static const char* cs[] = {"-0.5", "0", "0.25", "0.5", "1.75"};
        for(int k = 0; k < depth; k++) { int o = ex.choose(6), c = ex.choose(5); t.push_back(std::string("f ") + ops[o] + " " + cs[c]); }
        ex.gate();
        Scn s(ex, d, cf(1)); for(auto& x : t) s.add(x, route);
        int k = 0; for(double v : {-1.0, -0.5, -0.25, 0.0, 0.125, 0.25, 0.375, 0.5, 0.75, 1.0, 1.5, 1.75, 2.0, 2.5}) { Ev e; e.v.push_back(fval(v)); s.check(e, k++ & 1); }
        s.done();
    };
}
// integer lists on numeric grids
static Body ilist_grid_body() {
    return [](Ex& ex) {
        static const std::vector<IDom> doms = {{"il ilist 0 10", 0, 10}, {"il ilist 5 5", 5, 5}, {"il ilist -7 8", -7, 8}, {"il ilist 0 998", 0, 998}, {"il ilist 0 1000", 0, 1000}, {"il ilist", -20, 20}, {"il ilist 9223372036854775800 9223372036854775807", INT64_MAX - 7, INT64_MAX}, {"il ilist -9223372036854775808 9223372036854775807", -4, 4}, {"il ilist ? 0 6", 0, 6}};
        const IDom& dm = ex.pick(doms); auto pts = ipoints(dm.lo, dm.hi, true); int n = (int)pts.size();
        int ci = ex.choose(n), di = ex.choose(ex.tier ? n : 5), form = ex.choose(7), neg = ex.choose(2), fill = ex.choose(2), pos = ex.choose(2), route = ex.choose(2); ex.gate();
        std::string c = ilit(pts[ci]), o = ilit(pts[(ci + di) % n]);
        std::string t; switch(form) { case 0: t = c + " in il"; break; case 1: t = c + " not in il"; break; case 2: t = "il one of (" + c + ", " + o + ")"; break; case 3: t = "il none of (" + c + ", " + o + ")"; break; case 4: t = c == o ? "il all of (" + c + ")" : "il all of (" + c + ", " + o + ")"; break; case 5: t = c + " in il and " + o + " in il"; break; default: t = "il is empty or " + c + " in il"; }
        if(neg) t = "not (" + t + ")";
        Scn s(ex, {dm.decl}, cf(1));
        if(pos == 0) s.add(t, route);
        for(int k = 0; k < n; k += 2) s.add(fill ? ilit(pts[k]) + " in il" : k % 4 ? "il none of (" + ilit(pts[k]) + ")" : "il one of (" + ilit(pts[k]) + ", " + ilit(pts[(k + 1) % n]) + ")", route);
        if(pos == 1) s.add(t, route);
        int m = 0;
        auto ck = [&](std::vector<int64_t> l) { Ev e; Val v; v.t = T::IL; v.il = l; v.text = "["; for(size_t k = 0; k < l.size(); k++) v.text += (k ? "," : "") + std::to_string(l[k]); v.text += "]"; e.v.push_back(v); s.check(e, m++ & 1); };
        ck({}); for(int k = 0; k < n; k++) { ck({pts[k]}); ck({pts[(k + 4) % n], pts[k]}); } ck({pts[ci], pts[(ci + di) % n], 3}); ck({INT64_MAX, pts[ci]}); ck({-12345, 99999, pts[(ci + di) % n]});
        s.done();
    };
}
// ---- C07 strings and enums ----------------------------------------------------------------------
static std::string sval_text(const std::string& s) { return "\"" + s + "\""; }
// capacity histories: every sequence of accepted and refused insertions around a small capacity
struct CapItem { const char* t; };
static Body capacity_body(int type) { // 0 string, 1 string list, 2 enum
    return [type](Ex& ex) {
        static const std::vector<VS> al = {
            {"s = \"a\"", "s <> \"b\"", "s in (\"c\", \"a\")", "s = \"a\" and s <> \"d\"", "s = \"b\" or s = \"c\" or s = \"d\"", "S = \"e\"", "s in (\"f\", \"f\")", "not (s = \"g\")", "s not in (\"a\", \"b\", \"c\", \"d\")", "b"},
            {"s one of (\"a\")", "s none of (\"b\", \"a\")", "s all of (\"c\", \"a\")", "\"d\" in s", "\"a\" in s and \"e\" not in s", "S one of (\"e\")", "s one of (\"f\", \"f\")", "not (\"g\" in s)", "s none of (\"a\", \"b\", \"c\", \"d\")", "b"},
            {"s = 1", "s <> 2", "s = 3 or s = 1", "s = 1 and s <> 4", "s = 2 or s = 3 or s = 4", "S = 5", "s = 6 or s = 6", "not (s = 7)", "s <> 1 and s <> 2 and s <> 3 and s <> 4", "b"}};
        static const char* ty[] = {"str", "slist", "enum"};
        int cap = ex.choose(5); if(cap == 4) cap = 6; const VS& A = al[type]; int depth = ex.tier ? 4 : 3; std::vector<int> seq; int route = ex.choose(2), nc = ex.choose(2);
        for(int k = 0; k < depth; k++) { int c = ex.choose((int)A.size() + 1); if(!c) break; seq.push_back(c - 1); }
        ex.gate();
        Scn s(ex, {sfmt("s %s %d", ty[type], cap), "b bool ?"}, cf(nc ? 1 : -1));
        std::set<std::string> known;
        for(int k : seq) {
            std::map<std::string, std::vector<std::string>> m; ref_strings(ref_parse(A[k]), s.d, m); std::set<std::string> u = known; for(auto& x : m["s"]) u.insert(x);
            bool fits = u.size() <= (size_t)cap || u.size() == known.size();
            bool ok = s.try_add(A[k], route);
            if(route == 0 && ok != fits) ex.fail("%s %s although %zu of %d values are in use and it needs %zu more", A[k].c_str(), ok ? "accepted" : "refused", known.size(), cap, u.size() - known.size());
            if(route == 1 && !ok) ex.fail("building %s refused", A[k].c_str());
            if(ok) known = u;
        }
        static const std::vector<VS> vs = {{"\"a\"", "\"b\"", "\"c\"", "\"d\"", "\"e\"", "\"f\"", "\"g\"", "\"unseen\"", "\"\""}, {"[]", "[\"a\"]", "[\"c\",\"a\"]", "[\"unseen\"]", "[\"b\",\"zz\"]", "[\"d\",\"e\"]", "[\"f\",\"g\",\"zz\",\"yy\"]"}, {"1", "2", "3", "4", "5", "6", "7", "99", "-1"}};
        int m = 0; for(auto& v : vs[type]) for(auto b : {"-", "true"}) s.check(s.ev({v, b}), m++ & 1);
        s.done();
    };
}
// truth over spellings: values that differ in case, length, quotes, prefixes, long ones
static Body spelling_body() {
    return [](Ex& ex) {
        static const VS vals = {"a6", "gp", "b8", "lv", "a", "A", "b", "aa", "aA", "", " ", " a", "a ", "0", "1", "-1", "true", "null", "a-b", "a_b", "\xc3\xa9", "e\xcc\x81", "and", "\\\"", "\\\\", "it's", "%s", "a,b", "(a)", "[a]", "{}", "longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong1", "longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong2"};
        int n = (int)vals.size(); int i = ex.choose(n), j = ex.choose(n), form = ex.choose(6), cap = ex.choose(2), dom = ex.choose(2), extra = ex.choose(2); ex.gate();
        auto q = [](const std::string& s) { return "\"" + s + "\""; };
        std::string a = q(vals[i]), b = q(vals[j]);
        Scn s(ex, {dom ? "s str 40" : "s str", dom ? "l slist 40" : "l slist"}, cf(cap ? 1 : -1));
        if(extra) for(int k = 0; k < n; k += 4) { s.add("s = " + q(vals[k])); s.add(q(vals[k]) + " in l"); }
        switch(form) { case 0: s.add("s = " + a); s.add("s = " + b); break; case 1: s.add("s <> " + a); s.add("s = " + b); break; case 2: s.add("s in (" + a + ", " + b + ")"); s.add("s not in (" + b + ")"); break; case 3: s.add(a + " in l"); s.add(b + " not in l"); break; case 4: s.add("l one of (" + a + ", " + b + ")"); s.add("l none of (" + b + ")"); break; default: s.add("not (s = " + a + ") and not (" + b + " in l)"); s.add("l all of (" + a + ")"); }
        for(int k = 0; k < n; k++) if(k == i || k == j || (k + i + j) % 5 == 0) { std::string v = q(vals[k]), w = q(vals[(k * 7 + j) % n]); s.check(s.ev({v, "[" + v + "]"}), k & 1); s.check(s.ev({w, "[" + w + "," + v + "]"}), !(k & 1)); }
        s.check(s.ev({"\"unseen\"", "[\"unseen\",\"u2\"]"}), 0);
        s.done();
    };
}
// thousands of values
static Body many_values_body() {
    return [](Ex& ex) {
        static const std::vector<int> ns = {1, 2, 3, 7, 8, 9, 31, 64, 65, 100, 255, 256, 257, 513, 999, 1000, 1001, 1025, 2000, 4100}; int n = ex.pick(ns);
        int type = ex.choose(4), bounded = ex.choose(3), kind = ex.choose(4), cap = ex.choose(2); int rt = ex.choose(2); if(n > 1100 && kind == 3) kind = 1; ex.gate();
        static const char* ty[] = {"str", "slist", "enum", "str"};
        Scn s(ex, {bounded == 0 ? sfmt("s %s", ty[type]) : bounded == 1 ? sfmt("s %s %d", ty[type], n) : sfmt("s %s %d", ty[type], n * 2)}, cf(cap ? 1 : -1));
        auto word = [&](int k) { switch(kind) { case 0: return sfmt("v%d", k); case 1: return sfmt("%d", k * 7919 % 10007 * 100000 + k); case 2: { std::string w; int x = k; do { w += (char)('a' + x % 3); x /= 3; } while(x); return w + "_"; } default: { std::string w(k % 50 + 1, 'x'); return w + std::to_string(k); } } };
        auto num = [&](int k) { return kind == 0 ? (long long)k : kind == 1 ? (long long)k * 1000003 : kind == 2 ? -(long long)k - 1 : (long long)k * 4294967296LL; };
        ex.note("%d values of kind %d, type %s", n, kind, ty[type]); bool v = ex.verbose; ex.verbose = false;
        for(int k = 0; k < n; k++) {
            std::string t = type == 0 ? "s = \"" + word(k) + "\"" : type == 1 ? "\"" + word(k) + "\" in s" : type == 2 ? sfmt("s = %lld", num(k)) : "s in (\"" + word(k) + "\", \"" + word((k + 1) % n) + "\")";
            if(n > 600 && type == 3 && k % 2) continue;
            s.add(t, rt);
        }
        ex.verbose = v;
        if(bounded == 1 && rt == 0 && type != 3) { bool r = s.s.insert(999999, type == 2 ? "s = -77777" : type == 1 ? "\"beyond\" in s" : "s = \"beyond\""); if(r) ex.fail("a value beyond the capacity %d was accepted", n); }
        int m = 0;
        for(int k : {0, 1, n / 2, n - 2, n - 1, n, n + 1, n / 3, 2 * n / 3, n * 2}) { if(k < 0) continue; std::string x = type == 2 ? sfmt("%lld", num(k)) : type == 1 ? "[\"" + word(k) + "\",\"" + word(k / 2) + "\"]" : "\"" + word(k) + "\""; s.check(s.ev({x}), m++ & 1); }
        if(type != 2) s.check(s.ev({type == 1 ? "[\"beyond\"]" : "\"beyond\""}), 0); else s.check(s.ev({"-77777"}), 0);
        s.done();
    };
}
// ---- C08 lists -----------------------------------------------------------------------------------
static const char* small_syms[] = {"1", "2", "3", "7", "-4"}; static const char* wide_syms[] = {"3000000000", "-9223372036854775807", "9223372036854775807", "4294967297", "1"};
static Body list_body(bool str, int split, bool wide = false) {
    return [str, split, wide](Ex& ex) {
        const char** syms = wide ? wide_syms : small_syms;
        int maxe = ex.tier ? 4 : 3; // expression list length
        int n = 1 + ex.choose(maxe); std::vector<int> el; for(int k = 0; k < n; k++) el.push_back(ex.choose(ex.tier ? 4 : 3));
        int form = ex.choose(4), neg = ex.choose(2), cfgi = ex.choose(split ? 3 : 1), route = ex.choose(2); ex.gate();
        auto lit = [&](int k) { return str ? sfmt("\"s%s\"", syms[k]) : std::string(syms[k]); };
        std::string l = "("; for(int k : el) l += (l.size() > 1 ? ", " : "") + lit(k); l += ")";
        std::string t; switch(form) { case 0: t = "l one of " + l; break; case 1: t = "l none of " + l; break; case 2: t = "l all of " + l; break; default: t = std::string("v ") + (n % 2 ? "in " : "not in ") + l; }
        if(neg) t = "not (" + t + ")";
        static const std::vector<VS> dI = {{"l ilist", "v int"}, {"l ilist -4 7", "v int -4 7"}, {"l ilist 1 3", "v int 1 3"}}, dS = {{"l slist", "v str"}, {"l slist 6", "v str 6"}, {"l slist 20", "v str 20"}};
        Scn s(ex, str ? dS[cfgi] : dI[cfgi], cf(split ? 1 : -1));
        if(split) for(int k = 0; k < 4; k++) { s.add(lit(k) + " in l", route); s.add("l all of (" + lit(k) + ", " + lit((k + 1) % 4) + ")", route); s.add("v in (" + lit(k) + ")", route); }
        s.add(t, route); s.add("l is empty", route);
        // every event list up to length 3 over four known symbols and an unknown one
        int m = 0, q = 5;
        auto ck = [&](const std::vector<int>& x) { std::string v = "["; for(size_t k = 0; k < x.size(); k++) v += (k ? "," : "") + lit(x[k]); int w = x.empty() ? m % q : x[0]; s.check(s.ev({v + "]", lit(w)}), m++ & 1); };
        ck({}); int full = ex.tier ? 3 : (int)(el[0] + n) % 2 + 2;
        for(int a = 0; a < q; a++) { ck({a}); for(int b = 0; b < q; b++) { ck({a, b}); if(full > 2) for(int c = (a + b) % 2; c < q; c += ex.tier ? 1 : 2) ck({a, b, c}); } }
        ck({4, 4, 0, 0, 1, 1, 2}); ck({2, 1, 0, 3, 4, 3, 2});
        s.done();
    };
}
static Body long_list_body() {
    return [](Ex& ex) {
        static const std::vector<int> ns = {4, 5, 8, 16, 17, 33, 64, 100, 500}; int n = ex.pick(ns), m = ex.pick(ns); int sk = ex.choose(3); bool str = sk == 1; int form = ex.choose(5), ord = ex.choose(4), over = ex.choose(4), cap = ex.choose(2), neg = ex.choose(2); ex.gate();
        auto perm = [&](int k, int n) { return ord == 0 ? k : ord == 1 ? n - 1 - k : ord == 2 ? (k * 7 + 3) % n : k ^ 1; };
        auto lit = [&](int k) { return str ? sfmt("\"w%d\"", k) : sk == 2 ? sfmt("%lld", k * 1099511627783LL - 9000000000000000LL) : sfmt("%d", k * 3 - 40); };
        std::string l = "("; for(int k = 0; k < n; k++) l += (k ? ", " : "") + lit(perm(k, n)); l += ")";
        std::string t = form == 0 ? "l one of " + l : form == 1 ? "l none of " + l : form == 2 ? "l all of " + l : form == 3 ? "v in " + l : "v not in " + l; if(neg) t = "not (" + t + ")";
        Scn s(ex, {str ? "l slist" : "l ilist", str ? "v str" : "v int"}, cf(cap ? 1 : -1));
        s.add(t); s.add(lit(0) + " in l"); s.add("v in (" + lit(n - 1) + ", " + lit(2) + ")"); s.add(t, 1); s.add("l all of (" + lit(1) + ", " + lit(n - 1) + ")", 1);
        // event list of length m that overlaps the expression list in different ways
        for(int r = 0; r < 4; r++) {
            std::string v = "["; for(int k = 0; k < m; k++) { int x = over == 0 ? k : over == 1 ? k + n : over == 2 ? k + n - 1 : k * 2; if(r == 1 && k == m - 1) x = n - 1; if(r == 2 && k == 0) x = n + 5; if(r == 3 && x == 1) x = n + 9; v += (k ? "," : "") + lit(x); } v += "]";
            s.check(s.ev({v, lit(r == 0 ? 0 : r == 1 ? n - 1 : r == 2 ? n : n / 2)}), r & 1);
        }
        s.done();
    };
}
// long event lists in trees split on the list variable
static Body long_split_body() {
    return [](Ex& ex) {
        static const std::vector<int> nq = {1, 2, 16, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 512, 600}, nt = {3, 8, 32, 33, 63, 65, 126, 130, 511, 513, 700, 900, 990};
        int which = ex.choose((int)nq.size() + (ex.tier ? (int)nt.size() : 0)), n = which < (int)nq.size() ? nq[which] : nt[which - nq.size()], str = ex.choose(2), start = ex.choose(5), order = ex.choose(4), step = ex.choose(2), dup = ex.choose(2), route = ex.choose(2); ex.gate(); if(str && n * (step + 1) > 900) return;
        int W = str ? 600 : 990; auto lit = [&](int k) { return str ? sfmt("\"w%d\"", k) : std::to_string(k); };
        Scn s(ex, {str ? sfmt("l slist %d", W + 40) : sfmt("l ilist 0 %d", W)}, cf(1)); bool v = ex.verbose; ex.verbose = false;
        if(str) for(int k = 0; k <= W; k += 40) { std::string x; for(int j = k; j < k + 40 && j <= W; j++) x += (j > k ? ", " : "") + lit(j); s.add("l all of (" + x + ")", route); }
        for(int k = 0; k <= W; k += 30) { s.add(lit(k) + " in l", route); s.add("l one of (" + lit(k + 7 > W ? W : k + 7) + ")", route); if(k % 60 == 0) { s.add("l all of (" + lit(k) + ", " + lit(k + 1) + ")", route); s.add("l none of (" + lit(k) + ")", route); s.add("l one of (" + lit(k) + ", " + lit(W - k) + ")", route); } }
        ex.verbose = v; int a = start == 0 ? 0 : start == 1 ? W / 2 : start == 2 ? W - n * (step + 1) : start == 3 ? W / 4 : W - n * (step + 1) / 2; if(a < 0) a = 0; ex.note("  list of %d from %d, order %d", n, a, order);
        std::vector<int> el; for(int k = 0; k < n; k++) el.push_back(a + k * (step + 1)); if(!str) for(auto& x : el) if(x > W + 30) x = W + 30; std::string t = "["; for(int k = 0; k < n; k++) { int i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k * 7 + 3) % n : k ^ 1; if(i >= n) i = n - 1; t += (k ? "," : "") + lit(el[i]); if(dup) t += "," + lit(el[i]); } t += "]";
        s.check(s.ev({t}), 0, true); s.check(s.ev({t}), 1); s.hs = hmix(s.hs, hstr(t)); s.done();
    };
}
static Profile p_lists8() { return {"lists8", {"il ilist 0 12", "jl ilist ?", "sl slist ? 5"},
        {"il one of (3, 7)", "il none of (0, 12)", "il all of (1, 2)", "4 in il", "6 not in il", "jl all of (5)", "jl is empty", "sl one of (\"a\",\"b\")", "sl all of (\"b\", \"a\")", "not (il all of (3, 7))", "sl none of (\"c\") and il one of (9)", "not (il none of (3, 7)) or jl is null"},
        {{"[]", "[3]", "[1,2]", "[12,0,6]", "[2,1,4,7]", "[50,-50]", "[3,3,7,7]"}, {"-", "[]", "[5,5]", "[4,6]"}, {"-", "[]", "[\"b\"]", "[\"q\",\"c\"]", "[\"b\",\"a\"]"}}, {}, {}}; }
static Body colliding_body() {
    return [](Ex& ex) {
        int pre = ex.pick(wide::lengths(ex.tier)), end = ex.pick(std::vector<int>{0, 1, 40, 250}), type = ex.choose(3), bounded = ex.choose(2), rt = ex.choose(2); ex.gate(); auto q = wide::colliding(pre, end); std::string a = q.first, b = q.second, c = b; c[pre + 2] = c[pre + 2] == 'A' ? 'B' : 'A';
        auto Q = [](const std::string& x) { return "\"" + x + "\""; }; Scn s(ex, {sfmt("s %s ?%s", type == 1 ? "slist" : "str", bounded ? " 2" : "")}, cf(rt ? 1 : 2));
        if(type == 1) { s.add(Q(a) + " in s", rt); s.add(Q(b) + " not in s", rt); s.add("s one of (" + Q(b) + ")", rt); s.add("s all of (" + Q(b) + ", " + Q(a) + ")", rt); s.add("s none of (" + Q(a) + ")", rt); }
        else { s.add("s = " + Q(a), rt); s.add("s = " + Q(b), rt); s.add("s <> " + Q(b), rt); s.add("s in (" + Q(a) + ", " + Q(b) + ")", rt); s.add("s not in (" + Q(b) + ")", rt); if(type == 2) { s.add("s in (" + Q(a) + ")", rt); s.add("ends_with(s, " + Q(b) + ")", rt); } }
        bool ok = s.try_add(type == 1 ? "s one of (" + Q(c) + ")" : "s = " + Q(c)); if(ok == (bool)bounded) ex.fail("a third string was %s although the capacity is %s", ok ? "accepted" : "refused", bounded ? "2" : "unlimited");
        for(auto& v : VS{a, b, c, a.substr(0, a.size() - 1), b + "q"}) { Ev e = s.ev({type == 1 ? "[" + Q(v) + "]" : Q(v)}); s.check(e, 0, true); s.check(e, 1); }
        if(type == 1) for(auto& v : VS{"[]", "[" + Q(a) + "," + Q(b) + "]", "[" + Q(b) + "," + Q(c) + "," + Q(a) + "]"}) { Ev e = s.ev({v}); s.check(e, 0); s.check(e, 1); }
        s.done();
    };
}
void register_props(std::vector<PropDef>& out) {
    {
        PropDef p{"C06", {}};
        p.bodies.push_back({"integers", int_grid_body(), 1, 3});
        p.bodies.push_back({"integers-small", int_exhaustive_body(), 1, 3});
        p.bodies.push_back({"floats", float_grid_body(), 1, 3});
        p.bodies.push_back({"floats-small", float_exhaustive_body(), 1, 3});
        p.bodies.push_back({"alike", wide::body(WINT | WFLOAT), 1, 3});
        p.bodies.push_back({"integer-lists", ilist_grid_body(), 1, 3});
        out.push_back(p);
    }
    {
        PropDef p{"C07", {}};
        p.bodies.push_back({"capacity-strings", capacity_body(0), 1, 3});
        p.bodies.push_back({"capacity-lists", capacity_body(1), 1, 3});
        p.bodies.push_back({"capacity-enums", capacity_body(2), 1, 3});
        p.bodies.push_back({"spellings", spelling_body(), 1, 3});
        p.bodies.push_back({"many-values", many_values_body(), 1, 3});
        p.bodies.push_back({"alike", wide::body(WTEXT), 1, 3});
        p.bodies.push_back({"alike-long", colliding_body(), 1, 3});
        p.bodies.push_back({"fitting", more::fitting(), 1, 3}); p.bodies.push_back({"fitting-many", more::fitting_many(), 1, 3});
        p.bodies.push_back({"own-values", more::own_values(), 1, 3});
        out.push_back(p);
    }
    {
        PropDef p{"C08", {}};
        p.bodies.push_back({"integers", list_body(false, 0), 1, 3});
        p.bodies.push_back({"strings", list_body(true, 0), 1, 3});
        p.bodies.push_back({"integers-split", list_body(false, 1), 1, 3});
        p.bodies.push_back({"strings-split", list_body(true, 1), 1, 3});
        p.bodies.push_back({"integers-wide", list_body(false, 0, true), 1, 3});
        p.bodies.push_back({"long", long_list_body(), 1, 3}); p.bodies.push_back({"long-split", long_split_body(), 1, 3});
        p.bodies.push_back({"alike", wide::body(WLIST), 1, 3});
        HistOpts o; o.cfgs = {cf(1)}; o.depth[0] = 3; o.depth[1] = 4; p.bodies.push_back({"histories", hist_body(p_lists8(), o), 1, 3});
        out.push_back(p);
    }
}
