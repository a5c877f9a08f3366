// C14 refusals, C15 learning.
#include "more.h"
#include <functional>
#include <map>
#include <set>
static Cfg cf(int cap, int part = 0) { return Cfg{cap, part, false}; }
// The model of the value tables: which values of each capped variable are in use.
struct Uses {
    const Decls& d; std::map<std::string, std::set<std::string>> used;
    explicit Uses(const Decls& d) : d(d) {}
    bool fits(const EP& e) const {
        std::map<std::string, std::vector<std::string>> m; ref_strings(e, d, m);
        for(auto& x : m) { const Decl* v = find_decl(d, x.first); if(!v || v->count == SIZE_MAX) continue; std::set<std::string> u; auto it = used.find(x.first); if(it != used.end()) u = it->second; size_t before = u.size(); for(auto& s : x.second) u.insert(s); if(u.size() > before && u.size() > v->count) return false; }
        return true;
    }
    void take(const EP& e) { std::map<std::string, std::vector<std::string>> m; ref_strings(e, d, m); for(auto& x : m) for(auto& s : x.second) used[x.first].insert(s); }
};
// A tree driven by operations whose verdict the model predicts.
struct Hist {
    Scn s; Uses u; std::vector<Const> cs;
    Hist(Ex& ex, const VS& decls, Cfg c, std::vector<Const> cs = {}) : s(ex, decls, c, cs), u(s.d), cs(cs) {}
    // route 0 insert, 1 build+insert, 2 build (inserted at flush), 3 learn
    void op(const std::string& t, int route) {
        EP e = ref_parse(t); bool ok = e && ref_check(e, s.d, route == 3 ? std::vector<Const>{{"flight_id", 1}, {"campaign_id", 1}, {"advertiser_id", 1}, {"product_id", 1}, {"campaign_group_id", 1}} : cs) == Verdict::OK;
        if(route == 3) {
            s.ex.note("  learn from: %s", t.c_str()); s.hs = hmix(s.hs, hstr(t) + 3);
            bool r = s.s.change_boundaries(t); s.ex.checked(); if(r != ok) s.ex.fail("learning from %s answered %d, expected %d", t.c_str(), r, ok);
            if(ok) u.take(e);
            return;
        }
        bool want = ok && (route != 0 || u.fits(e));
        bool r = s.try_add(t, route); s.ex.checked();
        if(r != want) s.ex.fail("%s %s: accepted %d, expected %d", route ? "building" : "insertion of", t.c_str(), r, want);
        if(r) u.take(e);
    }
    void events(const std::vector<Ev>& evs, int salt) { for(size_t k = 0; k < evs.size(); k++) s.check(evs[k], (k + salt) & 1); }
};
// ---- C14 ------------------------------------------------------------------------------------------
static const VS MD = {"b bool", "i int 0 10", "j int ?", "f float", "g float ? 0 1", "s str 3", "t str ?", "il ilist", "jl ilist ? 0 9", "sl slist 4", "tl slist ?", "e enum 3", "h enum ?", "q segs ?", "segments_with_timestamp segs ?", "frequency_caps caps ?", "now int", "latitude float ?", "longitude float ?"};
static const std::vector<VS> MV = {{"true"}, {"5", "0"}, {"-", "3"}, {"1.5"}, {"-"}, {"\"a\""}, {"-", "\"b\""}, {"[1,5]"}, {"-"}, {"[\"a\"]"}, {"[\"c\"]"}, {"2"}, {"-"}, {"[[1,5000000]]"}, {"-"}, {"[]", "-"}, {"10"}, {"45.0"}, {"-73.0"}};
static const std::vector<Const> MC = {{"flight_id", 14}};
// every predicate form over a variable v
static VS forms(const std::string& v) {
    VS o = {v}; for(const char* c : {"<", "<=", ">", ">="}) for(const char* k : {"5", "2.5", "-1"}) o.push_back(v + " " + c + " " + k);
    for(const char* c : {"=", "<>"}) for(const char* k : {"5", "2.5", "\"a\"", "-3"}) { o.push_back(v + " " + c + " " + k); o.push_back(std::string(k) + " " + c + " " + v); }
    for(const char* c : {"in", "not in"}) { for(const char* k : {"(1, 5)", "(\"a\", \"b\")", "(5)", "(\"a\")"}) o.push_back(v + " " + c + " " + k); for(const char* k : {"1", "\"a\"", "-5"}) o.push_back(std::string(k) + " " + c + " " + v); }
    for(const char* c : {"one of", "none of", "all of"}) for(const char* k : {"(1, 5)", "(\"a\", \"b\")", "(3)", "(\"c\")"}) o.push_back(v + " " + c + " " + k);
    for(const char* c : {"is null", "is not null", "is empty"}) o.push_back(v + " " + c);
    for(const char* c : {"contains", "starts_with", "ends_with"}) o.push_back(std::string(c) + "(" + v + ", \"a\")");
    for(const char* c : {"segment_within", "segment_before"}) o.push_back(std::string(c) + "(" + v + ", 1, 5)");
    o.push_back("2 < " + v); o.push_back("2.5 >= " + v);
    return o;
}
static VS fixed_forms() { return {"segment_within(1, 5)", "segment_before(1, 5)", "within_frequency_cap(\"flight\", \"ns\", 1, 0)", "within_frequency_cap(\"campaign\", \"ns\", 1, 0)", "within_frequency_cap(\"nonsense\", \"ns\", 1, 0)", "geo_within_radius(45, -73, 10)", "geo_within_radius(45.0, -73.0, 10.0)", "geo_within_radius(45, -73.0, 10)", "1 in (1, 2)", "\"a\" not in (\"a\")", "i in il", "i not in i", "s in sl", "true", "false", "2 = 2", "i = j", "i < j", "i = (1)", "i one of 1", "segment_within(\"q\", 1, 5)", "contains(\"a\", \"a\")", "contains(s, 5)"}; }
// a form that would register strings for a capped variable although it is ill-typed: see known finding
static bool registers(const EP& e, const Decls& d) {
    if(e->l && registers(e->l, d)) return true; if(e->r && registers(e->r, d)) return true;
    if(ref_check(e, d, MC) == Verdict::OK || e->k == K::NOT || e->k == K::AND || e->k == K::OR) return false;
    const Decl* v = e->var.empty() ? nullptr : find_decl(d, e->var);
    return v && v->count != SIZE_MAX && (e->is_str || e->is_list_str || v->t == T::IE);
}
static std::string wrap(int ctx, const std::string& x) { switch(ctx) { case 0: return x; case 1: return "not (" + x + ")"; case 2: return "b and " + x; case 3: return x + " or b"; case 4: return "not (b and not (" + x + " or i < 2))"; default: return x + " and i = 5 or " + x; } }
static Body matrix_body() {
    return [](Ex& ex) {
        static Decls d = parse_decls(MD); static std::vector<Ev> evs = ev_product(d, MV);
        VS names; for(auto& x : d) names.push_back(x.name); names.push_back("undeclared"); names.push_back("(fixed)");
        const std::string& nm = ex.pick(names); VS fs = nm == "(fixed)" ? fixed_forms() : forms(nm); int fi = ex.choose((int)fs.size()), ctx = ex.choose(6), route = ex.choose(ex.tier ? 4 : 4), withc = ex.choose(2), cap = ex.choose(ex.tier ? 2 : 1); ex.gate();
        std::string t = wrap(ctx, fs[fi]); EP e = ref_parse(t); if(e && ref_unspecified(e, d)) return;
        bool reg = e && registers(e, d);
        Hist h(ex, MD, cf(cap ? 1 : 3), withc ? MC : std::vector<Const>{});
        h.op("i > 3", 0); h.op("s = \"a\"", 1); if(!reg) { h.op("b", 0); h.op("\"a\" in sl", 0); }
        h.op(t, route == 3 ? 3 : route); h.s.flush(); h.events(evs, 0);
        if(route == 2) h.op(t, 0);
        if(!reg) { h.op("s in (\"k\", \"l\")", 0); h.op("s = \"m\"", 0); h.op("sl one of (\"k\", \"l\")", 0); h.op("e = 2", 0); h.op("e = 7", 1); h.op("e = 8", 0); }
        h.op("i = 5 and not (j is null)", 0); h.op("f <= 1.5 or tl one of (\"c\")", 1); h.op(t, 0); h.op("t = \"b\"", 0); h.s.flush(); h.events(evs, 1); h.s.hs = hmix(h.s.hs, withc); h.s.done();
    };
}
// every kind of good and bad predicate below every chain of operators
static Body chains_body() {
    return [](Ex& ex) {
        static VS leaves = cat({more::walk_bad(), more::walk_leaves()}); std::string t = more::walk_chain(ex, leaves[ex.choose((int)leaves.size())], ex.tier ? 5 : 3); int route = ex.choose(4), withc = ex.choose(2); ex.gate();
        EP e = ref_parse(t); if(e && ref_unspecified(e, parse_decls(more::walk_decls()))) return;
        Hist h(ex, more::walk_decls(), cf(1), withc ? more::walk_consts() : std::vector<Const>{}); std::vector<Ev> evs; for(auto& x : more::walk_events()) evs.push_back(h.s.ev(x));
        h.op("i > 3", 0); h.op("k = \"p\" and c", 0); h.op(t, route); h.op("s = \"x\" or h = 1", 0); h.s.flush(); h.events(evs, route); h.s.hs = hmix(h.s.hs, withc); h.s.done();
    };
}
// histories of accepted and refused calls
static const VS HD = {"b bool", "i int 0 10", "s str 2", "sl slist ? 3", "e enum 2", "f float ?", "now int", "frequency_caps caps ?"};
static const std::vector<VS> HV = {{"true"}, {"1", "7"}, {"\"a\"", "\"b\"", "\"zz\""}, {"-", "[\"p\",\"r\"]"}, {"1", "2", "9"}, {"-", "2.5"}, {"10"}, {"-", "[[[\"flight\",14,\"ns\"],3,1000000]]"}};
static const VS HGOOD = {"i < 5", "s = \"a\"", "s in (\"b\", \"c\")", "not (s = \"d\")", "\"p\" in sl", "sl none of (\"q\", \"r\")", "e = 1", "e <> 2", "e = 3 or i = 7", "b and f > 1.5", "within_frequency_cap(\"flight\", \"ns\", 5, 0)"};
static const VS HBAD = {"i =", "", "i = 1 and zz = 2", "not nope", "f and b", "i = 1.5", "i in (1, 2) or b > 3", "within_frequency_cap(\"campaign\", \"ns\", 5, 0)", "segment_within(1, 5)", "s = \"a\" and (i < 2", "i = 1 $", "s = \"n\" and nope = \"o\"", "(s = \"n\" or e = 9) and i all of (1)", "b and within_frequency_cap(\"product\", \"n2\", 5, 0) and s = \"v\" and e = 11", "contains(i, \"a\")", "\"p\" in sl and s = \"n", "within_frequency_cap(\"what\", \"ns\", 5, 0)"};
// forms of HBAD that leave strings behind are covered by the dedicated body below
static Body refusals_body(int less = 0) {
    return [less](Ex& ex) {
        static Decls d = parse_decls(HD); static std::vector<Ev> evs = ev_product(d, HV);
        static VS bad, good = HGOOD; if(bad.empty()) for(auto& x : HBAD) { EP e = ref_parse(x); if(!e || ref_check(e, d, MC) != Verdict::TYPE || !([&] { std::map<std::string, std::vector<std::string>> m; ref_strings(e, d, m); return !m.empty(); }())) bad.push_back(x); }
        int depth = (ex.tier ? 4 : 3) - less; int nb = (int)bad.size(), ng = (int)good.size(); std::vector<std::pair<std::string, int>> ops;
        for(int k = 0; k < depth; k++) { int c = ex.choose(1 + (nb + ng) * 2); if(!c) break; c--; int r = c & 1; c >>= 1; ops.push_back({c < nb ? bad[c] : good[c - nb], r}); }
        int cap = ex.choose(1 + ex.tier); ex.gate();
        Hist h(ex, HD, cf(cap ? 3 : 1), MC); for(auto& o : ops) h.op(o.first, o.second);
        for(size_t k = (h.s.hs % 3); k < evs.size(); k += 3) h.s.check(evs[k], k & 1);
        h.s.done();
    };
}
// predicates that name no variable, while their default variables are declared with any type
static const VS DT = {"bool ?", "int ?", "int ? -5 -1", "int ? 0 10", "float ?", "float ? 0 1", "str ?", "ilist ?", "ilist ? -3 -1", "slist ?", "enum ?", "segs ?", "caps ?"};
static const VS DN = {"frequency_caps", "now", "segments_with_timestamp", "latitude", "longitude"};
static const VS DK = {"caps ?", "int ?", "segs ?", "float ?", "float ?"};
static Body defaults_body() {
    return [](Ex& ex) {
        VS fs = fixed_forms(); int which = ex.choose(5), ty = ex.choose((int)DT.size()), f = ex.choose((int)fs.size()), route = ex.choose(3), order = ex.choose(3), g = ex.choose(3), withc = ex.choose(2); ex.gate();
        VS decls; if(order == 0) decls.push_back("s str ? 3"); for(int k = 0; k < 5; k++) { decls.push_back(DN[k] + " " + (k == which ? DT[ty] : DK[k])); if(order == 1 && k == 0) decls.push_back("s str ? 3"); } if(order == 2) decls.push_back("s str ? 3"); decls.push_back("t str ?"); decls.push_back("sl slist ? 4");
        EP e = ref_parse(fs[f]); if(e && ref_unspecified(e, parse_decls(decls))) return;
        Hist h(ex, decls, cf(1), withc ? MC : std::vector<Const>{});
        if(g > 0) h.op("s = \"a\"", 0); if(g > 1) h.op("t in (\"u\", \"v\")", 0);
        for(int k = 0; k < 3; k++) { h.op(fs[f], route == 2 ? 3 : route); if(k == 1) h.op("sl one of (\"a\", \"u\") or t = \"v\"", 0); h.op("not (" + fs[f] + ")", k == 2 ? 1 : 0); }
        h.op("t = \"w\" or s = \"b\"", 0); h.op("s in (\"a\", \"c\")", 0); h.op("s = \"d\"", 0); h.s.flush();
        for(const char* sv : {"-", "\"a\"", "\"c\"", "\"d\""}) for(const char* tv : {"-", "\"v\"", "\"zz\""}) { VS vals; for(auto& x : h.s.d) vals.push_back(x.name == "s" ? sv : x.name == "t" ? tv : "-"); h.s.check(h.s.ev(vals), *tv == '-'); }
        h.s.done();
    };
}
// one refused call between every two accepted ones, long
static Body interleaved_body() {
    return [](Ex& ex) {
        static Decls d = parse_decls(HD); static std::vector<Ev> evs = ev_product(d, HV);
        static VS bad; if(bad.empty()) for(auto& x : HBAD) { EP e = ref_parse(x); std::map<std::string, std::vector<std::string>> m; if(e) ref_strings(e, d, m); if(!e || ref_check(e, d, MC) != Verdict::TYPE || m.empty()) bad.push_back(x); }
        int start = ex.choose((int)HGOOD.size()), step = 1 + ex.choose(5), br = ex.choose((int)bad.size()), b2 = ex.choose((int)bad.size()), r1 = ex.choose(3), cap = ex.choose(2), learn = ex.choose(2); ex.gate();
        Hist h(ex, HD, cf(cap ? 2 : 1), MC); int n = (int)HGOOD.size();
        for(int k = 0; k < n + 4; k++) { h.op(HGOOD[(start + k * step) % n], r1 == 2 ? k & 1 : r1); h.op(bad[k & 1 ? br : b2], (k >> 1) & 1); if(learn && k % 4 == 2) { auto e = ref_parse(bad[br]); if(!e || ref_check(e, d, MC) != Verdict::CONSTANT) h.op(bad[br], 3); } }
        for(size_t k = 0; k < evs.size(); k++) h.s.check(evs[k], k & 1);
        h.s.done();
    };
}
// refused ill-typed direct insertions with strings of a capped variable
static Body illtyped_strings_body() {
    return [](Ex& ex) {
        static const VS bad = {"s one of (\"q\")", "sl in (\"q\")", "sl = \"q\"", "\"q\" in s", "s all of (\"q\", \"w\")", "b and s none of (\"q\")", "s = \"q\" and f", "not (sl = \"q\" or b)", "sl one of (\"q\") and i = 1.5"};
        const std::string& t = ex.pick(bad); int before = ex.choose(3), after = ex.choose(3); ex.gate();
        // Two models: the refused call leaves nothing behind, or it leaves its strings behind.
        Decls d = parse_decls(HD); EP e = ref_parse(t);
        Scn s(ex, HD, cf(2), MC); Uses clean(s.d), dirty(s.d); bool left = false;
        auto good = [&](const std::string& x) { EP g = ref_parse(x); bool a = clean.fits(g), b = dirty.fits(g), r = s.try_add(x, 0); ex.checked(); if(r != a && !(r == b && ex.known("ill-typed-strings-registered"))) ex.fail("insertion of %s: accepted %d, expected %d", x.c_str(), r, a); if(r != a) left = true; if(r) { clean.take(g); dirty.take(g); } };
        if(before > 0) good("s = \"a\""); if(before > 1) { good("\"p\" in sl"); good("\"o\" in sl"); }
        if(s.try_add(t, 0)) ex.fail("ill-typed %s accepted", t.c_str()); dirty.take(e);
        if(s.s.make_sub(99, t, MC)) ex.fail("ill-typed %s built", t.c_str());
        if(after == 0) { good("s = \"x\""); good("s = \"y\""); good("s = \"z\""); } else if(after == 1) { good("sl one of (\"x\", \"y\")"); good("\"z\" in sl"); good("\"v\" in sl"); } else { good("s in (\"a\", \"x\")"); good("s = \"q\""); good("\"q\" in sl"); good("\"z\" in sl"); }
        std::vector<Ev> evs = ev_product(d, HV); for(size_t k = 0; k < evs.size(); k++) s.check(evs[k], k & 1);
        s.done();
    };
}
// ---- C15 ------------------------------------------------------------------------------------------
struct LearnP { const char* name; std::vector<VS> decls; VS exprs; std::vector<VS> vals; int depth[2]; };
static std::string dmax() { return sfmt("%.1f", 1.7976931348623157e308); }
static const std::vector<LearnP>& learnps() {
    static const std::vector<LearnP> v = {
        {"integers", {{"i int", "b bool"}, {"i int 0 10", "b bool"}, {"i int 0 9223372036854775807", "b bool"}, {"i int -9223372036854775808 5", "b bool"}, {"i int ?", "b bool"}},
            {"i > 4", "i <= 6", "i = 12", "i <> 5", "i in (3, -20, 40)", "not (i < 2)", "b and i >= 8 or not (i = 5)", "i > 9223372036854775806", "i < -9223372036854775806"}, {{"-9223372036854775808", "-20", "2", "3", "5", "6", "8", "12", "40", "9223372036854775807"}, {"true"}}, {4, 5}},
        {"floats", {{"f float", "b bool"}, {"f float 0 10", "b bool"}, {"f float -1.5 2.25", "b bool"}, {"f float ?", "b bool"}},
            {"f > 1.5", "f <= 2.0", "f = 7.25", "f <> 1.75", "f > 1.500000001 and f < 1.75", "not (f < -3.5)", "b and f >= 100 or not (f = 2.0)", "3 > f"}, {{"-100.0", "-3.5", "1.5", "1.6", "1.75", "2.0", "2.1", "7.25", "100", "1e300"}, {"true"}}, {4, 5}},
        {"integer-lists", {{"l ilist", "b bool"}, {"l ilist 0 10", "b bool"}, {"l ilist ?", "b bool"}},
            {"5 in l", "l one of (3, 9)", "l all of (-4, 12)", "l none of (5, 6)", "6 not in l", "l is empty or b", "not (l one of (1, 2))", "l all of (7)"}, {{"[]", "[5]", "[3,100]", "[-4,12]", "[-50]", "[1,7]", "[6,9,2]"}, {"false"}}, {4, 5}},
        {"strings", {{"s str", "b bool"}, {"s str 40", "b bool"}, {"s str ?", "b bool"}},
            {"s = \"a\"", "s <> \"b\"", "s in (\"c\", \"a\")", "not (s = \"d\")", "s not in (\"e\", \"b\")", "s = \"f\" or b", "starts_with(s, \"g\")", "s = \"h\" and not (s = \"a\")"}, {{"\"a\"", "\"b\"", "\"c\"", "\"d\"", "\"e\"", "\"f\"", "\"ga\"", "\"unseen\""}, {"false"}}, {4, 5}},
        {"string-lists", {{"l slist", "b bool"}, {"l slist 40", "b bool"}, {"l slist ?", "b bool"}},
            {"\"a\" in l", "l one of (\"b\", \"c\")", "l all of (\"a\", \"d\")", "l none of (\"b\")", "\"e\" not in l", "l is empty or b", "not (l all of (\"c\"))", "l one of (\"f\")"}, {{"[]", "[\"a\"]", "[\"d\",\"a\"]", "[\"b\",\"unseen\"]", "[\"unseen\"]", "[\"c\",\"e\"]", "[\"f\",\"a\",\"b\"]"}, {"false"}}, {4, 5}},
        {"enums", {{"e enum", "b bool"}, {"e enum 40", "b bool"}, {"e enum ?", "b bool"}},
            {"e = 1", "e <> 2", "e = 700", "not (e = -1)", "e = 4 or b", "e = 5 and not (e = 1)", "not (e <> 9)"}, {{"1", "2", "700", "-1", "4", "9", "12345"}, {"false"}}, {4, 5}},
        {"float-limits", {{"f float", "b bool"}, {"f float 0 10", "b bool"}, {"f float ?", "b bool"}},
            {"f > -" + dmax(), "f < " + dmax(), "f >= 1.5", "not (f > -3.0)", "f = " + dmax()}, {{"-" + dmax(), dmax(), "-3.0", "1.5", "1.25", "8.0", "-8.0", "1e300", "-1e300"}, {"true"}}, {4, 5}},
        {"booleans", {{"b bool", "c bool", "i int 0 3"}, {"b bool ?", "c bool", "i int 0 3"}, {"b bool", "c bool ?", "i int"}},
            {"b", "not b", "b and c", "not b or c", "b or not c", "not (b and not c)", "c and i > 1", "not c and not b"}, {{"true", "false"}, {"true", "false"}, {"0", "3"}}, {4, 5}},
        {"mixed", {{"i int", "f float", "s str", "l ilist ?"}, {"i int 0 3", "f float 0 1", "s str 9", "l ilist ? 0 2"}},
            {"i > 4 and f < 0.5", "s = \"a\" or i = 3", "l one of (1, 7) and s <> \"b\"", "not (i = 2 and s = \"c\")", "f >= 2.5 or 3 in l", "i < 2 or f > 0.75"}, {{"1", "3", "9"}, {"0.25", "3.5"}, {"\"a\"", "\"z\""}, {"-", "[3,7]"}}, {4, 5}}};
    return v;
}
static Body learn_body(int pi, int less = 0) {
    return [pi, less](Ex& ex) {
        const LearnP& p = learnps()[pi]; VS decls = ex.pick(p.decls); int n = (int)p.exprs.size(); std::vector<std::pair<int, int>> ops;
        int depth = p.depth[ex.tier] - (ex.tier ? 1 : 0) - less; // quick 4 operations of which the first is a learning step; thorough the same with every route first and capacities
        ops.push_back({ex.choose(n), 3 - ex.choose(2)});
        for(int k = 1; k < depth; k++) { int c = ex.choose(1 + n * (ex.tier ? 4 : k == 1 ? 4 : 2)); if(!c) break; c--; int r = c / n; if(!ex.tier && k > 1) r = r ? 0 : 1; ops.push_back({c % n, r}); }
        int cap = ex.choose(1 + ex.tier); ex.gate();
        static std::map<std::string, std::vector<Ev>> cache; std::string key = std::to_string(pi) + decls[0]; Decls d = parse_decls(decls); auto& evs = cache[key]; if(evs.empty()) evs = ev_product(d, p.vals);
        Hist h(ex, decls, cf(cap ? 2 : 1)); for(auto& o : ops) h.op(p.exprs[o.first], o.second); h.s.flush();
        h.events(evs, (int)(h.s.hs & 1)); h.s.done();
    };
}
// learn from a subset, insert everything (twice, so that nodes split), learn again, insert everything in reverse
static Body learn_all_body() {
    return [](Ex& ex) {
        int pi = ex.choose((int)learnps().size()); const LearnP& p = learnps()[pi]; VS decls = ex.pick(p.decls); int n = (int)p.exprs.size(); int sub = ex.choose(1 << n), r1 = ex.choose(3), when = ex.choose(3), cap = ex.choose(1 + ex.tier); ex.gate();
        Decls d = parse_decls(decls); std::vector<Ev> evs = ev_product(d, p.vals); Hist h(ex, decls, cf(cap ? 3 : 1));
        auto learn = [&] { for(int k = 0; k < n; k++) if(sub >> k & 1) h.op(p.exprs[k], 3); };
        if(when == 0) learn(); for(int k = 0; k < n; k++) { h.op(p.exprs[k], r1 == 2 ? 2 * (k & 1) : r1); if(when == 2 && (sub >> k & 1)) h.op(p.exprs[n - 1 - k], 3); } h.s.flush(); h.events(evs, 0);
        if(when == 1) learn(); for(int k = n; k-- > 0;) h.op(p.exprs[k], 1 - (r1 & 1)); h.s.flush(); h.events(evs, 1); h.s.hs = hmix(h.s.hs, sub); h.s.done();
    };
}
void register_props(std::vector<PropDef>& out) {
    out.push_back({"C14", {{"matrix", matrix_body(), 1, 3}, {"refusals", refusals_body(), 1, 3}, {"default-variables", defaults_body(), 1, 3}, {"chains", chains_body(), 1, 3}, {"fitting", more::fitting(), 1, 3}, {"fitting-many", more::fitting_many(), 1, 3}, {"interleaved", interleaved_body(), 1, 3}, {"ill-typed-strings", illtyped_strings_body(), 1, 3}, {"refusals-asan", refusals_body(1), 2, 3}}});
    PropDef p{"C15", {}}; for(size_t i = 0; i < learnps().size(); i++) p.bodies.push_back({learnps()[i].name, learn_body((int)i), 1, 3}); for(size_t i = 0; i < learnps().size(); i++) p.bodies.push_back({std::string(learnps()[i].name) + "-asan", learn_body((int)i, 1), 2, 3}); p.bodies.push_back({"everything", learn_all_body(), 1, 3}); out.push_back(p);
}
