// C01-C06, C15, C16: histories of insertions against the model.
#include "wide.h"
#include "more.h"
#include <algorithm>
#include <set>
static Cfg cf(int cap, int part = 0) { return Cfg{cap, part, false}; }
// ---- profiles ---------------------------------------------------------------------------------
static Profile p_mixed() {
    return {"mixed", {"b bool ?", "i int 0 10", "f float ? 0 10", "s str ?", "il ilist ? 0 9", "sl slist ? 4"},
        {"b", "i > 5", "i <= 2 and b", "not (i < 7)", "f < 2.5", "s = \"x\"", "s <> \"x\" and i = 5", "il one of (1, 8)", "sl all of (\"a\", \"b\")", "f >= 7.5 or il is empty"},
        {{"-", "true", "false"}, {"0", "5", "6", "10"}, {"-", "2.5", "9.0"}, {"-", "\"x\"", "\"q\""}, {"[]", "[1,4]"}, {"-", "[\"b\",\"a\",\"z\"]"}}, {}, {}};
}
static Profile p_int2() {
    return {"int2", {"i int 0 10", "j int ? -4 4", "b bool"},
        {"i = 0", "i = 10", "i < 3", "i >= 5", "j > 0", "j = -4", "i = 5 and j <= 0", "b and i > 7", "not (i = 5)", "not b or j <> 2"},
        {{"-3", "0", "4", "5", "6", "10", "99"}, {"-", "-4", "0", "1", "7"}, {"true", "false"}}, {}, {}};
}
static Profile p_str() {
    return {"strs", {"s str 6", "t str ?", "e enum 4", "b bool ?"},
        {"s = \"a\"", "s = \"b\"", "s <> \"a\"", "s in (\"a\",\"c\")", "t not in (\"x\",\"y\")", "t = \"x\" or s = \"d\"", "e = 7", "e <> 9", "not (s = \"c\" and b)", "t is null"},
        {{"\"a\"", "\"c\"", "\"d\"", "\"zz\""}, {"-", "\"x\"", "\"w\""}, {"7", "9", "100"}, {"-", "true"}}, {}, {}};
}
static Profile p_list() {
    return {"lists", {"il ilist 0 12", "sl slist ? 5", "i int 0 12"},
        {"il one of (3, 7)", "il none of (0, 12)", "il all of (1, 2)", "4 in il", "6 not in il", "i in (2, 9)", "i not in (0, 5, 12)", "sl one of (\"a\",\"b\")", "sl none of (\"c\")", "\"a\" in sl", "not (il is empty)"},
        {{"[]", "[3]", "[1,2]", "[12,0,6]", "[2,1,4,7]", "[50,-50]"}, {"-", "[]", "[\"b\"]", "[\"q\",\"c\"]"}, {"0", "5", "9", "13"}}, {}, {}};
}
static Profile p_bool() {
    return {"bools", {"a bool ?", "b bool ?", "c bool", "d bool ?"},
        {"a", "not a", "b and c", "b or not c", "not (a and d)", "a or d", "c", "not c and d", "true", "not (b or d)"},
        {{"-", "true", "false"}, {"-", "true", "false"}, {"true", "false"}, {"-", "true", "false"}}, {}, {}};
}
static Profile p_names() { // names with equal hashes, common prefixes, great length
    std::string l(300, 'x'), m = l; m += "y"; l += "z";
    return {"names", {"a6 int ? 0 5", "gp int ? 0 5", "b8 str ?", "lv str ?", "a bool ?", "aa bool ?", "a_ bool ?", l + " int ?", m + " int ?"},
        {"a6 = 1", "gp = 1", "gp > 3 and not (a6 = 4)", "b8 = \"lv\"", "lv = \"b8\" or a6 = 0", "aa and not a", "a_ or a", l + " = 1", m + " = 1 and " + l + " = 2", "not (" + m + " > 0)"},
        {{"-", "1", "4"}, {"-", "1", "5"}, {"-", "\"lv\""}, {"-", "\"b8\""}, {"-", "true"}, {"-", "true"}, {"-", "true"}, {"1", "2"}, {"-", "1"}}, {}, {}};
}
static Profile p_special() {
    return {"special", {"s str ?", "frequency_caps caps ?", "now int ?", "segments_with_timestamp segs ?", "latitude float ?", "longitude float ?", "i int 0 4"},
        {"contains(s, \"ab\")", "starts_with(s, \"a\")", "within_frequency_cap(\"flight\", \"ns\", 3, 10)", "segment_within(5, 20)", "segment_before(5, 20)", "geo_within_radius(10, 20, 100)", "i = 2", "not segment_within(6, 5) and i < 3", "not within_frequency_cap(\"flight\", \"ns\", 1, 0) or i = 4"},
        {{"-", "\"xab\"", "\"a\""}, {"-", "[]", "[[\"flight\",10,\"ns\",2,100000000]]"}, {"-", "105", "130"}, {"-", "[[5,100000000]]"}, {"-", "10.0"}, {"20.5"}, {"2", "4"}}, {{"flight_id", 10}}, {}};
}
static Profile p_deep() { // three splittable attributes, expressions touching several of them
    return {"deep", {"x int 0 7", "y int 0 7", "z bool", "w int ? 0 3"},
        {"x = 0", "x = 7", "y = 3", "x < 4 and y < 4", "x >= 4 and y >= 4", "z and y = 0", "not z and x > 2", "w = 1", "w = 3 and x = 1", "x > 1 or y > 6"},
        {{"0", "1", "4", "7", "8"}, {"0", "3", "4", "7"}, {"true", "false"}, {"-", "1", "3"}}, {}, {}};
}
static Profile p_req() { // required variables of every kind, for missing-variable checks
    return {"required", {"i int 0 10", "b bool", "s str", "j int ?", "il ilist"},
        {"i > 5", "b", "s = \"x\" or b", "j = 1", "not (i = 3)", "il is empty", "true"},
        {{"-", "3", "7"}, {"-", "true", "false"}, {"-", "\"x\""}, {"-", "1"}, {"-", "[]", "[2]"}}, {}, {}};
}
static const std::vector<VS> deep_bases = {{},
    {"x = 0", "x = 1", "x = 2", "x = 3", "x = 4", "x = 5", "x = 6", "x = 7"},
    {"x < 4 and y < 4", "x < 2 and y > 5", "x >= 4", "y >= 4 and z", "w = 0", "w = 2 and not z", "x = 3 and y = 3 and z"},
    {"z", "not z", "z and x = 0", "z and x = 7", "not z and y = 1", "not z and y = 6", "z and x = 3 and y = 2", "z and x = 3 and y = 5", "z and x = 3 and y = 2 and w = 1"}};
static HistOpts ho(std::vector<Cfg> c, int dq, int dt, int checks = CH_SEARCH) { HistOpts o; o.cfgs = c; o.depth[0] = dq; o.depth[1] = dt; o.checks = checks; return o; }

// ---- large families: n expressions of a systematic kind in systematic orders -------------------
static std::string fam_expr(int kind, int k) {
    switch(kind) {
        case 0: return sfmt("x = %d", k % 8);
        case 1: return sfmt("x > %d and y < %d", k % 8, (k / 3) % 8);
        case 2: return sfmt("(x = %d and y = %d) or w = %d", k % 8, (k / 8) % 8, k % 4);
        case 3: return k % 3 == 0 ? sfmt("z and x = %d", k % 8) : k % 3 == 1 ? sfmt("not z and y = %d", k % 8) : sfmt("w <> %d", k % 4);
        case 4: return sfmt("not (x < %d or y >= %d)", k % 8, (k / 5) % 8);
        case 5: return sfmt("x in (%d, %d) and y not in (%d, %d)", k % 8, (k * 3) % 8, (k * 5) % 8, (k / 8) % 8);
        default: return sfmt("w is null and x <= %d or z and y = %d", k % 8, (k / 2) % 8);
    }
}
static Body family_body(int checks) {
    return [checks](Ex& ex) {
        static Profile P = p_deep(); Compiled& c = compiled(P);
        static const std::vector<int> sizes_q = {5, 9, 17, 40, 65, 130, 300}, sizes_t = {4, 5, 6, 7, 8, 9, 12, 17, 24, 33, 40, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 300, 513};
        static const std::vector<int> strides = {1, 3, 5, 7, 11, 13, 17, 19};
        int kind = ex.choose(7), n = ex.pick(ex.tier ? sizes_t : sizes_q); int st = ex.pick(strides); int rev = ex.choose(2);
        static const std::vector<Cfg> cfgs = {cf(-1), cf(1), cf(2), cf(4, 2), cf(1, 3), cf(10), cf(255)};
        Cfg cfg = ex.pick(cfgs); int route = ex.choose(3);
        ex.gate();
        ex.note("%d expressions of family %d, stride %d, reversed %d, capacity %d, partition %d, route %d", n, kind, st, rev, cfg.cap, cfg.part, route);
        Sut s(ex, c.d, cfg); std::vector<Item> items; std::vector<const betree_sub*> subs; uint64_t hs = 0;
        for(int i = 0; i < n; i++) {
            int k = rev ? n - 1 - i : i; k = k * st;
            std::string t = fam_expr(kind, k);
            if(route == 0) { if(!s.insert(i + 1, t)) ex.fail("insertion of %s refused", t.c_str()); }
            else { auto x = s.make_sub(i + 1, t); if(!x) ex.fail("building %s refused", t.c_str()); if(route == 1) s.insert_sub(x); else subs.push_back(x); }
            items.push_back({(uint64_t)i + 1, &c.truth_of(t)}); hs += hmix(i, hstr(t));
        }
        for(auto x : subs) s.insert_sub(x);
        ex.state(hs);
        check_all(ex, s, c, items, checks, hs, false, n > 60 ? 7 : 3);
    };
}
// ---- C01/C03: every pair (thorough: triple) of variable types, both split, under every operator ----------
struct TyP { const char* decl; VS leaves, comp, vals; };
static const std::vector<TyP>& typs() {
    static const std::vector<TyP> v = {
        {"bool", {"V", "not V"}, {"V", "not V"}, {"true", "false"}},
        {"int 0 9", {"V = 2", "V <> 7", "V > 5", "V <= 3", "V in (1, 6)", "V not in (2, 3)"}, {"V <= 2", "V >= 7", "V = 4"}, {"-1", "2", "4", "6", "9"}},
        {"float 0 9", {"V = 2.5", "V <> 7.0", "V > 5.5", "V <= 3.0"}, {"V <= 2.0", "V >= 7.0", "V = 4.5"}, {"-1.0", "2.5", "4.5", "7.0"}},
        {"str 6", {"V = \"a\"", "V <> \"c\"", "V in (\"b\", \"d\")", "V not in (\"a\", \"d\")", "starts_with(V, \"b\")"}, {"V = \"a\"", "V = \"b\"", "V = \"c\"", "V = \"d\""}, {"\"a\"", "\"b\"", "\"c\"", "\"d\"", "\"other\""}},
        {"enum 6", {"V = 10", "V <> 30"}, {"V = 10", "V = 20", "V = 30", "V = 40"}, {"10", "20", "30", "99"}},
        {"ilist 0 9", {"5 in V", "2 not in V", "V one of (1, 6)", "V none of (2, 8)", "V all of (3, 9)", "V is empty"}, {"V one of (1)", "8 in V", "V all of (4)"}, {"[]", "[5]", "[1,2]", "[3,8,9]", "[6]"}},
        {"slist 6", {"\"a\" in V", "\"c\" not in V", "V one of (\"b\", \"d\")", "V none of (\"a\")", "V all of (\"c\", \"d\")", "V is empty"}, {"V one of (\"a\")", "\"b\" in V", "V all of (\"c\")", "\"d\" in V"}, {"[]", "[\"a\"]", "[\"b\",\"c\"]", "[\"d\",\"c\",\"zz\"]"}}};
    return v;
}
static std::string var_for(const std::string& t, const char* n) { std::string o; for(char c : t) if(c == 'V') o += n; else o += c; return o; }
static Body type_pair_body(bool exists) {
    return [exists](Ex& ex) {
        const auto& T = typs(); const TyP &A = ex.pick(T), &B = ex.pick(T); std::string x = var_for(ex.pick(A.leaves), "p"), y = var_for(ex.pick(B.leaves), "q"); int opt = ex.choose(2), late = ex.choose(3), cap = ex.tier ? ex.choose(2) : 0; ex.gate();
        auto dec = [&](const char* n, const char* d) { std::string s = d; size_t sp = s.find(' '); return std::string(n) + " " + s.substr(0, sp) + (opt ? " ?" : "") + (sp == std::string::npos ? "" : s.substr(sp)); };
        Scn s(ex, {dec("p", A.decl), dec("q", B.decl)}, cf(cap ? 3 : 1)); int r = late == 2;
        auto comps = [&] { for(int k = 0; k < 2; k++) { for(auto& c : A.comp) s.add(var_for(c, "p"), r); for(auto& c : B.comp) s.add(var_for(c, "q"), r); } };
        if(late != 1) comps();
        for(const char* op : {" or ", " and "}) for(int neg = 0; neg < 8; neg++) { std::string t = (neg & 1 ? "not (" + x + ")" : x) + op + (neg & 2 ? "not (" + y + ")" : y); s.add(neg & 4 ? "not (" + t + ")" : t, r); }
        if(late == 1) comps();
        VS va = A.vals, vb = B.vals; if(opt) { va.push_back("-"); vb.push_back("-"); }
        int k = 0; for(auto& e : ev_product(s.d, {va, vb})) s.check(e, k++ & 1, exists);
        s.done();
    };
}
static Body type_triple_body() {
    return [](Ex& ex) {
        const auto& T = typs(); const TyP *A[3]; std::string l[3]; static const char* n[] = {"p", "q", "r"}; for(int i = 0; i < 3; i++) { A[i] = &ex.pick(T); VS lv = A[i]->leaves; if(!ex.tier) lv.resize(std::min<size_t>(lv.size(), 4)); l[i] = var_for(ex.pick(lv), n[i]); } int opt = ex.choose(ex.tier ? 2 : 1); ex.gate();
        VS dec; for(int i = 0; i < 3; i++) { std::string s = A[i]->decl; size_t sp = s.find(' '); dec.push_back(std::string(n[i]) + " " + s.substr(0, sp) + (opt ? " ?" : "") + (sp == std::string::npos ? "" : s.substr(sp))); }
        Scn s(ex, dec, cf(1)); for(int i = 0; i < 3; i++) for(auto& c : A[i]->comp) s.add(var_for(c, n[i]));
        for(int o = 0; o < 4; o++) for(int par = 0; par < 2; par++) for(int neg = 0; neg < 3; neg++) { const char* o1 = o & 1 ? " or " : " and "; const char* o2 = o & 2 ? " or " : " and "; std::string t = par ? l[0] + o1 + (neg == 1 ? "not " : "") + "(" + l[1] + o2 + l[2] + ")" : (neg == 1 ? "not (" : "(") + l[0] + o1 + l[1] + ")" + o2 + l[2]; s.add(neg == 2 ? "not (" + t + ")" : t); }
        std::vector<VS> vals; for(int i = 0; i < 3; i++) { vals.push_back(A[i]->vals); if(opt) vals.back().push_back("-"); }
        int k = 0; for(auto& e : ev_product(s.d, vals)) s.check(e, k++ & 1, true);
        s.done();
    };
}
// ---- C02: sets in every order, every setting, every route --------------------------------------
static Body perm_body(Profile p, int kq, int kt) {
    return [p, kq, kt](Ex& ex) {
        Compiled& c = compiled(p);
        int n = (int)c.ex.size(), k = ex.tier ? kt : kq;
        std::vector<int> set; int from = 0; // combination without repetition
        for(int i = 0; i < k; i++) { int x = from + ex.choose(n - from - (k - i) + 1); set.push_back(x); from = x + 1; }
        std::vector<int> order; std::vector<int> pool = set;
        while(!pool.empty()) { int j = ex.choose((int)pool.size()); order.push_back(pool[j]); pool.erase(pool.begin() + j); }
        static const std::vector<Cfg> cq = {cf(1), cf(2), cf(-1), cf(1, 2), cf(2, 3)}, ct = {cf(1), cf(2), cf(3), cf(-1), cf(1, 1), cf(1, 2), cf(2, 2), cf(2, 3), cf(1, 255), cf(255, 0), cf(4, 1), cf(255, 255)};
        Cfg cfg = ex.pick(ex.tier ? ct : cq); int route = ex.choose(3);
        ex.gate();
        ex.note("profile %s capacity %d partition %d route %d", p.name.c_str(), cfg.cap, cfg.part, route); for(auto& s : p.decls) ex.note("  variable %s", s.c_str());
        Sut s(ex, c.d, cfg); std::vector<Item> items; std::vector<const betree_sub*> subs; uint64_t hs = 0;
        for(size_t i = 0; i < order.size(); i++) {
            const std::string& t = p.exprs[order[i]]; uint64_t id = order[i] + 1; ex.note("  insert %llu: %s", (unsigned long long)id, t.c_str());
            if(route == 0) { if(!s.insert(id, t, p.consts)) ex.fail("insertion refused"); }
            else { auto x = s.make_sub(id, t, p.consts); if(!x) ex.fail("building refused"); if(route == 1) s.insert_sub(x); else subs.push_back(x); }
            items.push_back({id, &c.truth[order[i]]}); hs = hmix(hs, hstr(t));
        }
        for(auto x : subs) s.insert_sub(x);
        ex.state(hmix(hs, hmix(cfg.cap * 7 + cfg.part, route)));
        check_all(ex, s, c, items, CH_SEARCH, hs, false, 5);
    };
}
static Body setting_grid_body() { // many settings, mid-size trees
    return [](Ex& ex) {
        static Profile P = p_deep(); Compiled& c = compiled(P);
        static const std::vector<int> caps = {-1, 1, 2, 3, 4, 5, 7, 10, 16, 50, 100, 254, 255}, parts = {0, 1, 2, 3, 4, 5, 8, 20, 100, 254, 255};
        Cfg cfg; cfg.cap = ex.pick(caps); cfg.part = cfg.cap < 0 ? 0 : ex.pick(parts);
        int kind = ex.choose(7); static const std::vector<int> ns = {6, 20, 60}; int n = ex.pick(ns); int route = ex.choose(3); int st = ex.choose(3) * 2 + 1;
        ex.gate();
        ex.note("capacity %d partition %d family %d n %d route %d stride %d", cfg.cap, cfg.part, kind, n, route, st);
        Sut s(ex, c.d, cfg); std::vector<Item> items; std::vector<const betree_sub*> subs; uint64_t hs = 0;
        for(int i = 0; i < n; i++) { std::string t = fam_expr(kind, i * st); if(route == 0) { if(!s.insert(i + 1, t)) ex.fail("insertion refused"); } else { auto x = s.make_sub(i + 1, t); if(!x) ex.fail("building refused"); if(route == 1) s.insert_sub(x); else subs.push_back(x); } items.push_back({(uint64_t)i + 1, &c.truth_of(t)}); hs += hmix(i, hstr(t)); }
        for(auto x : subs) s.insert_sub(x);
        ex.state(hmix(hs, cfg.cap * 300 + cfg.part));
        check_all(ex, s, c, items, CH_SEARCH, hs, false, 4);
    };
}
// ---- C04: every expression shape over every predicate kind, every undefined subset --------------
static Profile p_undef() {
    return {"undef", {"a bool ?", "i int ? 0 9", "f float ?", "s str ?", "il ilist ?", "sl slist ?", "e enum ?", "frequency_caps caps ?", "now int ?", "segments_with_timestamp segs ?", "latitude float ?", "longitude float ?"},
        {"a", "i < 5", "i = 3", "i in (3, 4)", "f >= 1.5", "s = \"x\"", "s not in (\"x\")", "contains(s, \"x\")", "il one of (1)", "1 not in il", "sl none of (\"a\")", "il is empty", "i is null", "s is not null", "e = 4", "e <> 4", "within_frequency_cap(\"flight\",\"ns\",3,10)", "segment_within(5, 20)", "segment_before(5, 20)", "geo_within_radius(10, 20, 100)", "true", "false"},
        {{"-"}, {"-"}, {"-"}, {"-"}, {"-"}, {"-"}, {"-"}, {"-"}, {"-"}, {"-"}, {"-"}, {"-"}}, {{"flight_id", 10}}, {}};
}
static const std::vector<VS> undef_vals = {{"-", "true", "false"}, {"-", "3", "8"}, {"-", "1.5", "0.5"}, {"-", "\"x\"", "\"y\""}, {"-", "[]", "[1]", "[2]"}, {"-", "[\"a\"]", "[]"}, {"-", "4", "5"}, {"-", "[]", "[[\"flight\",10,\"ns\",2,100000000]]", "[[\"flight\",10,\"ns\",9,100000000]]"}, {"-", "105", "130"}, {"-", "[]", "[[5,100000000]]"}, {"-", "10.0", "80.0"}, {"-", "20.0"}};
static const char* undef_vars[] = {"a", "i", "f", "s", "il", "sl", "e", "frequency_caps", "now", "segments_with_timestamp", "latitude", "longitude"};
static std::set<int> vars_of(const EP& e) {
    std::set<int> o; auto add = [&](const std::string& n) { for(int i = 0; i < 12; i++) if(n == undef_vars[i]) o.insert(i); };
    if(e->l) o = vars_of(e->l);
    if(e->r) { auto r = vars_of(e->r); o.insert(r.begin(), r.end()); }
    add(e->var); if(e->k == K::FREQ) { add("frequency_caps"); add("now"); } if(e->k == K::SEG) add("now"); if(e->k == K::GEO) { add("latitude"); add("longitude"); }
    return o;
}
// Builds the shape; leaves by index into the alphabet.
static Body undef_body(int leaves, std::vector<int> alpha, std::vector<Cfg> cfgs, bool company) {
    return [=](Ex& ex) {
        static Profile P = p_undef(); Decls d = parse_decls(P.decls);
        auto leaf = [&] { const std::string& t = P.exprs[alpha[ex.choose((int)alpha.size())]]; return ex.flip() ? "not " + t : t; };
        std::string t;
        auto maybe_not = [&](const std::string& x) { return ex.flip() ? "not (" + x + ")" : "(" + x + ")"; };
        auto op = [&] { return ex.flip() ? " or " : " and "; };
        if(leaves == 1) { t = leaf(); if(ex.flip()) t = "not (" + t + ")"; }
        else if(leaves == 2) { std::string a = leaf(), b = leaf(); t = maybe_not(a + op() + b); }
        else { std::string a = leaf(), b = leaf(), c = leaf(); if(ex.flip()) t = maybe_not(maybe_not(a + op() + b) + op() + c); else t = maybe_not(a + op() + maybe_not(b + op() + c)); }
        Cfg cfg = ex.pick(cfgs); int route = ex.choose(2);
        ex.gate();
        EP e = ref_parse(t); if(!e) ex.fail("harness: %s", t.c_str());
        ex.note("variables all optional; capacity %d; insert 1: %s", cfg.cap, t.c_str());
        Sut s(ex, d, cfg);
        std::vector<std::pair<uint64_t, EP>> items;
        auto ins = [&](uint64_t id, const std::string& x) { if(route == 0) { if(!s.insert(id, x, P.consts)) ex.fail("insertion of %s refused", x.c_str()); } else { auto q = s.make_sub(id, x, P.consts); if(!q) ex.fail("building of %s refused", x.c_str()); s.insert_sub(q); } items.push_back({id, ref_parse(x)}); };
        if(company) { for(int k = 0; k < 3; k++) ins(100 + k, sfmt("i = %d", k)); ins(110, "a"); ins(111, "not a"); }
        ins(1, t);
        if(company) { ins(120, t); ins(121, "i > 4 and (" + t + ")"); }
        ex.state(hstr(t) + cfg.cap + route * 3);
        std::set<int> vs = vars_of(e); std::vector<int> vv(vs.begin(), vs.end());
        std::vector<size_t> ix(vv.size(), 0); uint64_t no = 0;
        for(;;) {
            Ev ev; ev.v.resize(d.size()); for(size_t k = 0; k < vv.size(); k++) ev.v[vv[k]] = parse_val(d[vv[k]].t, undef_vals[vv[k]][ix[k]]);
            std::vector<uint64_t> want; for(auto& it : items) if(ref_eval(it.second, d, ev, P.consts)) want.push_back(it.first);
            std::sort(want.begin(), want.end());
            Res r = s.search(ev, (no + hstr(t)) & 1 ? TEXT : PROG); ex.checked(); no++;
            if(!r.ok || r.ids != want) ex.fail("%s: search of %s reported %s, expected %s", t.c_str(), ev_text(d, ev).c_str(), ids_text(r.ids).c_str(), ids_text(want).c_str());
            size_t k = 0; while(k < ix.size() && ++ix[k] == undef_vals[vv[k]].size()) ix[k++] = 0;
            if(k == ix.size()) break;
        }
    };
}
// Expressions over two of up to 300 optional boolean variables, at positions around the word boundaries.
static Body undef_far_body() {
    return [](Ex& ex) {
        static const std::vector<int> sizes = {2, 63, 64, 65, 66, 128, 129, 193, 300}; static const std::vector<int> where = {0, 1, 31, 32, 62, 63, 64, 65, 95, 126, 127, 128, 129, 191, 192, 256, 299};
        int n = ex.pick(sizes); std::vector<int> pos; for(int p : where) if(p < n) pos.push_back(p); if(pos.back() != n - 1) pos.push_back(n - 1);
        std::vector<int> few; for(int x : pos) if(ex.tier || x == 0 || x == 63 || x == 64 || x == 128 || x == n - 1) few.push_back(x);
        int p = ex.pick(few), q = ex.pick(few), form = ex.choose(10), leaf = ex.choose(4), route = ex.choose(2);
        ex.gate();
        std::string x = sfmt("v%d", p), y = sfmt("v%d", q); if(leaf & 1) x = "not " + x; if(leaf & 2) y = "not " + y;
        const char* X = x.c_str(); const char* Y = y.c_str(); std::string t;
        switch(form) {
            case 0: t = sfmt("%s and %s", X, Y); break;
            case 1: t = sfmt("%s or %s", X, Y); break;
            case 2: t = sfmt("not (%s and %s)", X, Y); break;
            case 3: t = sfmt("not (%s or %s)", X, Y); break;
            case 4: t = sfmt("%s or v%d is null", X, q); break;
            case 5: t = sfmt("%s and v%d is null", X, q); break;
            case 6: t = sfmt("not (%s and v%d is not null)", X, q); break;
            case 7: t = sfmt("(%s or %s) and (v%d is null or %s)", X, Y, p, Y); break;
            case 8: t = sfmt("not (%s and not (%s or v%d is null))", X, Y, q); break;
            default: t = sfmt("(%s and %s) or not (%s or %s)", X, Y, Y, X); break;
        }
        std::vector<std::string> decl; for(int i = 0; i < n; i++) decl.push_back(sfmt("v%d bool ?", i));
        Decls d = parse_decls(decl); Sut s(ex, d, cf(1));
        ex.note("%d optional boolean variables; insert 1: %s", n, t.c_str());
        EP e = ref_parse(t); if(!e) ex.fail("harness: %s", t.c_str());
        if(route == 0) { if(!s.insert(1, t)) ex.fail("insertion of %s refused", t.c_str()); }
        else { auto b = s.make_sub(1, t); if(!b) ex.fail("building of %s refused", t.c_str()); s.insert_sub(b); }
        ex.state(hmix(hstr(t), n * 2 + route));
        static const char* vals[] = {"-", "true", "false"};
        for(int rest = 0; rest < 3; rest++) for(int a = 0; a < 3; a++) for(int b = 0; b < 3; b++) {
            if(p == q && a != b) continue;
            Ev ev; ev.v.resize(n); for(int i = 0; i < n; i++) ev.v[i] = parse_val(d[i].t, vals[i == p ? a : i == q ? b : rest]);
            std::vector<uint64_t> want; if(ref_eval(e, d, ev, {})) want.push_back(1);
            Res r = s.search(ev, (a + b + rest) & 1 ? TEXT : PROG); ex.checked();
            if(!r.ok || r.ids != want) ex.fail("%s with v%d %s, v%d %s and the other variables %s: search reported %s, expected %s", t.c_str(), p, vals[a], q, vals[b], vals[rest], ids_text(r.ids).c_str(), ids_text(want).c_str());
        }
    };
}
// ---- C05: pairs of predicates, with caching active ---------------------------------------------
static Profile p_pairs() {
    Profile p{"pairs", {"a bool ?", "b bool ?", "i int ? 0 9", "j int ?", "f float ? 0 10", "g float ?", "s str ?", "t str ?", "il ilist ?", "im ilist ?", "sl slist ?", "sm slist ?", "e enum ?", "h enum ?", "frequency_caps caps ?", "now int ?", "segments_with_timestamp segs ?", "seg2 segs ?", "latitude float ?", "longitude float ?"},
        {}, {}, {{"flight_id", 10}, {"campaign_id", 10}, {"advertiser_id", 10}, {"product_id", 10}, {"campaign_group_id", 10}}, {}};
    p.exprs = {"a", "b", "true", "false"};
    for(auto v : {"i", "j"}) for(auto o : {"<", "<=", ">", ">=", "=", "<>"}) for(auto c : {"3", "4"}) p.exprs.push_back(sfmt("%s %s %s", v, o, c));
    for(auto v : {"f", "g"}) for(auto o : {"<", "<=", ">", ">=", "=", "<>"}) for(auto c : {"3.", "3.5"}) p.exprs.push_back(sfmt("%s %s %s", v, o, c));
    for(auto v : {"s", "t"}) { for(auto o : {"=", "<>"}) for(auto c : {"\"x\"", "\"y\""}) p.exprs.push_back(sfmt("%s %s %s", v, o, c)); for(auto o : {"in", "not in"}) for(auto c : {"(\"x\")", "(\"y\")", "(\"x\",\"y\")", "(\"x\",\"z\")"}) p.exprs.push_back(sfmt("%s %s %s", v, o, c)); for(auto o : {"contains", "starts_with", "ends_with"}) for(auto c : {"x", "xy"}) p.exprs.push_back(sfmt("%s(%s, \"%s\")", o, v, c)); }
    for(auto v : {"i", "j"}) for(auto o : {"in", "not in"}) for(auto c : {"(3)", "(4)", "(3,4)", "(3,5)"}) p.exprs.push_back(sfmt("%s %s %s", v, o, c));
    for(auto v : {"il", "im"}) { for(auto o : {"one of", "none of", "all of"}) for(auto c : {"(3)", "(4)", "(3,4)", "(3,5)"}) p.exprs.push_back(sfmt("%s %s %s", v, o, c)); for(auto c : {"3", "4"}) for(auto o : {"in", "not in"}) p.exprs.push_back(sfmt("%s %s %s", c, o, v)); }
    for(auto v : {"sl", "sm"}) { for(auto o : {"one of", "none of", "all of"}) for(auto c : {"(\"x\")", "(\"y\")", "(\"x\",\"y\")", "(\"x\",\"z\")"}) p.exprs.push_back(sfmt("%s %s %s", v, o, c)); for(auto c : {"\"x\"", "\"y\""}) for(auto o : {"in", "not in"}) p.exprs.push_back(sfmt("%s %s %s", c, o, v)); }
    for(auto v : {"e", "h"}) for(auto o : {"=", "<>"}) for(auto c : {"3", "4"}) p.exprs.push_back(sfmt("%s %s %s", v, o, c));
    for(auto v : {"a", "i", "j", "f", "s", "il", "sl", "e", "segments_with_timestamp"}) for(auto o : {"is null", "is not null"}) p.exprs.push_back(sfmt("%s %s", v, o));
    for(auto v : {"il", "im", "sl", "sm"}) p.exprs.push_back(sfmt("%s is empty", v));
    for(auto ty : {"flight", "flight:ip", "campaign"}) for(auto ns : {"ns", "nt"}) for(auto v : {2, 4}) for(auto l : {0, 10}) p.exprs.push_back(sfmt("within_frequency_cap(\"%s\", \"%s\", %d, %d)", ty, ns, v, l));
    for(auto o : {"segment_within", "segment_before"}) for(auto v : {"", "seg2, "}) for(auto i : {5, 6}) for(auto sc : {20, 40}) p.exprs.push_back(sfmt("%s(%s%d, %d)", o, v, i, sc));
    for(auto la : {"10.0", "11.0"}) for(auto lo : {"20.0", "21.0"}) for(auto r : {"50.0", "120.0"}) p.exprs.push_back(sfmt("geo_within_radius(%s, %s, %s)", la, lo, r));
    // one variable group varies at a time, so the event set is a list rather than a product
    return p;
}
struct PairCtx { Profile P; Decls d; std::vector<EP> e; std::vector<Ev> ev; std::vector<std::vector<uint8_t>> truth; };
static PairCtx& pair_ctx() {
    static PairCtx* c = nullptr; if(c) return *c;
    c = new PairCtx; c->P = p_pairs(); c->d = parse_decls(c->P.decls);
    for(auto& t : c->P.exprs) c->e.push_back(ref_parse(t));
    std::vector<VS> v = {{"-", "true", "false"}, {"false", "-", "true"}, {"-", "2", "3", "4", "5"}, {"4", "3", "5", "-", "2"}, {"-", "2.0", "3.0", "3.2", "3.5", "4.0"}, {"3.5", "-", "3.0", "4.0"}, {"-", "\"x\"", "\"y\"", "\"xy\"", "\"zx\"", "\"q\""}, {"\"y\"", "\"zxy\"", "-", "\"x\""}, {"-", "[]", "[3]", "[4]", "[3,4]", "[5,3]", "[9]"}, {"[4]", "[3,5,4]", "-", "[]"}, {"-", "[]", "[\"x\"]", "[\"y\",\"x\"]", "[\"z\"]", "[\"q\"]"}, {"[\"y\"]", "-", "[\"x\",\"z\"]"}, {"-", "3", "4", "5"}, {"4", "3", "-"},
        {"-", "[]", "[[\"flight\",10,\"ns\",3,100000000]]", "[[\"flight:ip\",10,\"ns\",3,100000000],[\"campaign\",10,\"nt\",1,50000000]]", "[[\"flight\",10,\"nt\",1,120000000],[\"flight\",10,\"ns\",9,110000000]]", "[[\"flight:ip\",10,\"nt\",9,115000000],[\"campaign\",10,\"ns\",3,119000000]]"}, {"120", "-", "90", "140"}, {"-", "[]", "[[5,90000000]]", "[[5,110000000],[6,70000000]]", "[[6,110000000]]"}, {"[[6,110000000]]", "-", "[[5,60000000]]"}, {"10.0", "-", "10.8", "11.3"}, {"20.0", "20.9", "-"}};
    size_t longest = 0; for(auto& x : v) longest = std::max(longest, x.size());
    auto mk = [&](std::vector<size_t> ix) { Ev e; for(size_t i = 0; i < v.size(); i++) e.v.push_back(parse_val(c->d[i].t, v[i][ix[i] % v[i].size()])); return e; };
    for(int base = 0; base < 4; base++) { // vary each variable alone around four base rows
        std::vector<size_t> b(v.size(), base); c->ev.push_back(mk(b));
        for(size_t i = 0; i < v.size(); i++) for(size_t k = 0; k < v[i].size(); k++) { auto x = b; x[i] = k; if(k != (size_t)base % v[i].size()) c->ev.push_back(mk(x)); }
    }
    for(auto& e : c->e) { c->truth.emplace_back(); for(auto& x : c->ev) c->truth.back().push_back(ref_eval(e, c->d, x, c->P.consts)); }
    return *c;
}
static Body pairs_body(int mode) { // 0: x, y plain; 1: compound contexts
    return [mode](Ex& ex) {
        PairCtx& c = pair_ctx(); int n = (int)c.e.size();
        int i = ex.choose(n), j = ex.choose(n); int ctx = mode ? ex.choose(4) : 0; int neg = mode ? ex.choose(2) : 0;
        ex.gate();
        const std::string &x = c.P.exprs[i], &y = c.P.exprs[j];
        std::vector<std::string> list;
        std::vector<std::function<bool(bool, bool)>> f;
        auto add = [&](const std::string& t, std::function<bool(bool, bool)> g) { list.push_back(t); f.push_back(g); };
        auto fx = [](bool a, bool) { return a; }; auto fy = [](bool, bool b) { return b; };
        if(mode == 0) { add(x, fx); add(y, fy); add(y, fy); add(x, fx); }
        else {
            std::string X = neg ? "not (" + x + ")" : x; auto nx = [neg](bool a) { return neg ? !a : a; };
            switch(ctx) {
                case 0: add(X + " and " + y, [nx](bool a, bool b) { return nx(a) && b; }); add(y + " and " + X, [nx](bool a, bool b) { return nx(a) && b; }); add(X + " or " + y, [nx](bool a, bool b) { return nx(a) || b; }); break;
                case 1: add("not (" + X + " or " + y + ")", [nx](bool a, bool b) { return !(nx(a) || b); }); add(X + " or " + y, [nx](bool a, bool b) { return nx(a) || b; }); add(X, [nx](bool a, bool) { return nx(a); }); break;
                case 2: add("(" + X + " and " + y + ") or (" + y + " and not " + X + ")", [](bool, bool b) { return b; }); add(X + " and " + y, [nx](bool a, bool b) { return nx(a) && b; }); add(y, fy); break;
                default: add(y + " or " + X, [nx](bool a, bool b) { return nx(a) || b; }); add("not (" + y + ") or " + X, [nx](bool a, bool b) { return !b || nx(a); }); add(X + " or " + y, [nx](bool a, bool b) { return nx(a) || b; }); add("not (" + X + " and " + y + ")", [nx](bool a, bool b) { return !(nx(a) && b); });
            }
        }
        for(size_t k = 0; k < list.size(); k++) ex.note("insert %zu: %s", k + 1, list[k].c_str());
        Sut s(ex, c.d, cf(-1)); int route = (i + j) % 2;
        for(size_t k = 0; k < list.size(); k++) { if(route) { auto q = s.make_sub(k + 1, list[k], c.P.consts); if(!q) ex.fail("building of %s refused", list[k].c_str()); s.insert_sub(q); } else if(!s.insert(k + 1, list[k], c.P.consts)) ex.fail("insertion of %s refused", list[k].c_str()); }
        ex.state(hmix(hmix(i, j), ctx * 2 + neg + mode * 16));
        std::vector<uint64_t> seen; // events on which the pair (x, y) differs in a new way come first; then a stride
        int step = mode ? 11 : 5;
        for(size_t e = 0; e < c.ev.size(); e++) {
            bool a = c.truth[i][e], b = c.truth[j][e];
            bool take = (e + i * 3 + j) % step == 0 || (a != b && (e % 3 == (size_t)(i + j) % 3 || seen.size() < 6));
            if(!take) continue;
            if(a != b) seen.push_back(e);
            std::vector<uint64_t> want; for(size_t k = 0; k < list.size(); k++) if(f[k](a, b)) want.push_back(k + 1);
            Res r = s.search(c.ev[e], PROG); ex.checked();
            if(r.ids != want) ex.fail("search of %s reported %s, expected %s", ev_text(c.d, c.ev[e]).c_str(), ids_text(r.ids).c_str(), ids_text(want).c_str());
        }
    };
}
static Body many_shared_body() { // more than 64 / 128 / 192 shared sub-expressions
    return [](Ex& ex) {
        static const std::vector<int> ns_q = {31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 192, 200, 254, 255, 256, 257, 320}, ns_t = {1, 2, 3, 16, 30, 31, 32, 33, 34, 48, 62, 63, 64, 65, 66, 67, 95, 96, 97, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 1025};
        int n = ex.pick(ex.tier ? ns_t : ns_q); int shape = ex.choose(5); int probe = ex.choose(ex.tier ? 12 : 6); int copies = 2 + ex.choose(2);
        ex.gate();
        ex.note("%d distinct shared sub-expressions, shape %d, %d copies each", n, shape, copies);
        Decls d = parse_decls({"i int ?", "j int ?", "b bool ?"});
        Sut s(ex, d, cf(-1));
        auto text = [&](int k) { switch(shape) { case 0: return sfmt("i = %d", k); case 1: return sfmt("i > %d and j < %d", k, k + 5); case 2: return sfmt("not (i = %d)", k); case 3: return k % 2 ? sfmt("i = %d", k) : sfmt("j <> %d", k); default: return sfmt("b or i <= %d", k); } };
        std::vector<EP> e; uint64_t id = 1;
        for(int c = 0; c < copies; c++) for(int k = 0; k < n; k++) { if(!s.insert(id++, text(k))) ex.fail("insertion refused"); e.push_back(ref_parse(text(k))); }
        ex.state(hmix(n, shape * 4 + copies));
        for(int m = 0; m < 3; m++) {
            Ev ev; ev.v.resize(3); int at = probe == 0 ? 0 : probe == 1 ? n - 1 : (n * probe) / 7 + m;
            if(m != 2) ev.v[0] = parse_val(T::I, std::to_string(at));
            ev.v[1] = parse_val(T::I, std::to_string(at + m + 1)); if(m == 1) ev.v[2] = parse_val(T::B, "false");
            std::vector<uint64_t> want; for(size_t k = 0; k < e.size(); k++) if(ref_eval(e[k], d, ev, {})) want.push_back(k + 1);
            Res r = s.search(ev, m & 1 ? TEXT : PROG); ex.checked();
            if(r.ids != want) ex.fail("search of %s reported %zu ids, expected %zu: %s vs %s", ev_text(d, ev).c_str(), r.ids.size(), want.size(), ids_text(r.ids).c_str(), ids_text(want).c_str());
        }
    };
}
// ---- C16 / C03: interleaved searches and insertions ----------------------------------------------
static Body interleave_body(Profile p, int dq, int dt, int kinds) {
    return [=](Ex& ex) {
        Compiled& c = compiled(p);
        int n = (int)c.ex.size(), depth = ex.tier ? dt : dq; int ne = (int)c.ev.size();
        struct Op { int kind, arg; }; std::vector<Op> ops; // 0 insert; 1 search text; 2 search reused event; 3 exists; 4 search again into the same kind of report
        std::vector<int> evs; for(int k = 0; k < 6; k++) evs.push_back((k * 37 + 11) % ne);
        static const std::vector<Cfg> cfgs = {cf(-1), cf(1)}; Cfg cfg = ex.pick(cfgs);
        for(int i = 0; i < depth; i++) { Op o; o.kind = ex.choose(kinds); o.arg = o.kind == 0 ? ex.choose(std::min(n, 6)) : ex.choose(3); ops.push_back(o); }
        ex.gate();
        Sut s(ex, c.d, cfg); std::vector<Item> items; uint64_t id = 1, hs = hmix(hstr(p.name), cfg.cap + 7); std::map<int, betree_event*> built; for(auto& o : ops) hs = hmix(hs, o.kind * 64 + o.arg);
        ex.note("profile %s capacity %d", p.name.c_str(), cfg.cap);
        struct Guard { std::map<int, betree_event*>& m; ~Guard() { for(auto& x : m) betree_free_event(x.second); } } guard{built};
        for(auto& o : ops) {
            if(o.kind == 0) { ex.note("  insert %llu: %s", (unsigned long long)id, p.exprs[o.arg].c_str()); if(!s.insert(id, p.exprs[o.arg], p.consts)) ex.fail("insertion refused"); items.push_back({id++, &c.truth[o.arg]}); hs = hmix(hs, o.arg); continue; }
            int e = evs[(o.arg * 2 + o.kind) % evs.size()]; bool ok = c.valid[e]; std::vector<uint64_t> want; if(ok) for(auto& it : items) if((*it.truth)[e]) want.push_back(it.id);
            ex.note("  query kind %d with %s", o.kind, c.evtext[e].c_str());
            if(o.kind == 3) { bool r = s.exists(c.ev[e], o.arg & 1 ? TEXT : PROG); ex.checked(); if(r != !want.empty()) ex.fail("exists of %s returned %d, expected %d", c.evtext[e].c_str(), r, !want.empty()); continue; }
            Res r; if(o.kind == 1) r = s.search_text(c.evtext[e]); else { if(!built.count(e)) built[e] = s.build(c.ev[e]); r = s.search_event(built[e]); if(o.kind == 4) { Res r2 = s.search_event(built[e]); if(r2.ok != r.ok || r2.ids != r.ids || r2.evaluated != r.evaluated || r2.shorted != r.shorted || r2.memoized != r.memoized) ex.fail("repeating the search of %s gave a different report", c.evtext[e].c_str()); } }
            ex.checked();
            if(r.ok != ok || r.ids != want) ex.fail("search of %s returned %d %s, expected %d %s", c.evtext[e].c_str(), r.ok, ids_text(r.ids).c_str(), ok, ids_text(want).c_str());
            if(!ok && (r.matched || r.evaluated || r.memoized || r.shorted)) ex.fail("refused search of %s changed the report", c.evtext[e].c_str());
            if(ok && (r.matched != r.ids.size() || r.evaluated < r.matched || r.evaluated > items.size() || r.shorted > r.evaluated)) ex.fail("search of %s: inconsistent counters evaluated %zu matched %zu shorted %zu stored %zu", c.evtext[e].c_str(), r.evaluated, r.matched, r.shorted, items.size());
        }
        ex.state(hs);
    };
}
// Searches with values no expression mentions leave no trace: what is accepted afterwards is what
// would have been accepted without them.
static Body unknown_body() {
    return [](Ex& ex) {
        static const VS D = {"s str ? 2", "l slist ? 2", "e enum ? 2", "t str ?", "frequency_caps caps ?", "now int ?"};
        static const VS X = {"s = \"a\"", "s in (\"b\", \"c\")", "\"a\" in l", "l one of (\"b\", \"c\")", "e = 1", "e <> 2 and e <> 3", "t = \"q1\"", "within_frequency_cap(\"flight\", \"n1\", 1, 0)", "contains(s, \"q\")", "not (t in (\"q2\", \"q1\"))"};
        static const std::vector<VS> V = {{"\"q1\"", "[\"q1\",\"q2\"]", "77", "\"q2\"", "[[\"flight\",10,\"n9\",2,100]]", "9"}, {"\"q2\"", "[\"q3\"]", "78", "\"q3\"", "[[\"flight\",10,\"n1\",2,100]]", "0"}, {"\"a\"", "[\"q4\",\"a\"]", "2", "\"q1\"", "-", "-"}, {"\"b\"", "[\"c\",\"q5\"]", "79", "-", "[[\"flight\",10,\"n8\",2,100],[\"flight\",10,\"n7\",2,100]]", "-"}};
        int depth = ex.tier ? 5 : 4; std::vector<int> seq; int mode = ex.choose(2), cap = ex.choose(2);
        for(int k = 0; k < depth; k++) { int c = ex.choose((int)X.size() + 4 + 1); if(!c) break; seq.push_back(c - 1); }
        ex.gate();
        std::vector<Const> cs = {{"flight_id", 10}};
        Scn s(ex, D, cap ? cf(1) : cf(-1), cs); std::map<std::string, std::set<std::string>> known; static const std::map<std::string, size_t> lim = {{"s", 2}, {"l", 2}, {"e", 2}};
        for(int k : seq) {
            if(k >= (int)X.size()) { s.hs = hmix(s.hs, k); s.check(s.ev(V[k - X.size()]), mode, k & 1); continue; }
            std::map<std::string, std::vector<std::string>> m; ref_strings(ref_parse(X[k]), s.d, m); auto kn = known; bool fits = true;
            for(auto& v : m) { for(auto& y : v.second) kn[v.first].insert(y); auto it = lim.find(v.first); if(it != lim.end() && kn[v.first].size() > it->second && kn[v.first].size() != known[v.first].size()) fits = false; }
            bool ok = s.try_add(X[k]); ex.checked();
            if(ok != fits) ex.fail("%s %s; without the searches it is %s", X[k].c_str(), ok ? "accepted" : "refused", fits ? "accepted" : "refused");
            if(ok) known = kn;
        }
        for(auto& v : V) s.check(s.ev(v), mode);
        s.done();
    };
}
// A report object used for several searches accumulates: totals must be the sums.
// ---- C01/C02/C03/C05/C16: hundreds of expressions in one node, of which all, none, one or some are true ----
static Body crowd_body(int what) { // 0 configurations, 1 sizes
    return [what](Ex& ex) {
        static const std::vector<int> nq = {254, 255, 256, 257, 511, 513, 700, 1025}, nt = {254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097, 16385, 70000}, n0 = {3, 70, 300};
        static const std::vector<Cfg> cq = {cf(-1), cf(1), cf(255)}, c0 = {cf(0), cf(1, 1), cf(2, 255), cf(3, 256), cf(16, 17), cf(100, 64), cf(127), cf(128), cf(129), cf(200, 200), cf(254, 254), cf(255, 255), cf(256), cf(257), cf(300, 300), cf(511, 3), cf(65535), cf(65536, 65536), cf(65537, 1), cf(1 << 24), cf(2147483647, 2147483647)};
        int kind = ex.choose(8), n = ex.pick(what ? ex.tier ? nt : nq : n0); Cfg cfg = ex.pick(what ? cq : c0); int at = ex.choose(4), route = ex.choose(what ? 2 : 3); if(n > 5000 && kind != 1 && kind != 6) throw Skip(); ex.gate();
        static const VS decls[] = {{"i int ?"}, {"i int ?"}, {"i int 0 990"}, {"b bool ?", "i int ?"}, {"s str ?"}, {"i int 0 900", "j int ?"}, {"il ilist ?", "b bool"}, {"i int 0 900", "b bool", "c bool ?"}};
        Scn s(ex, decls[kind], cfg); int p = at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? n / 2 : n - 2; bool v = ex.verbose; ex.verbose = false;
        for(int k = 0; k < n; k++) {
            std::string t; switch(kind) {
                case 0: t = sfmt("i = %d", k * 3); break; case 1: t = k == p ? "i = 2" : "i = 1"; break; case 2: t = sfmt("i > %d and i < %d", 490 - k % 40, 500 + k % 37); if(k == p) t = "i = 9"; break; case 3: t = k == p ? "not b" : sfmt("b or i = %d", k % 5); break;
                case 4: t = k & 1 ? sfmt("s = \"w%d\"", k) : sfmt("s <> \"w%d\"", k); if(k % 3) t = sfmt("s in (\"w%d\", \"u\")", k); break; case 5: t = k == p ? "i = 450 and j = 5" : sfmt("i >= %d and j = %d", k % 450, k & 1); break; case 7: t = k == p ? "c and i = 7" : k % 3 == 0 ? sfmt("i > %d", k % 900) : k % 3 == 1 ? "b" : "c"; break; default: t = k == p ? "il all of (4, 5)" : sfmt("il one of (%d, 7) and b", k % 11 * 10); }
            s.add(t, route);
        }
        s.flush(); ex.verbose = v; ex.note("  %d expressions of kind %d, the odd one at %d, route %d", n, kind, p, route); std::vector<VS> vals; static const int pos[] = {0, 1, 2, 200, 254, 255, 256, 257, 511, 512};
        switch(kind) {
            case 0: for(int k : pos) if(k < n) vals.push_back({std::to_string(3 * k)}); vals.push_back({std::to_string(3 * p)}); vals.push_back({"-1"}); vals.push_back({"-"}); break; case 1: vals = {{"2"}, {"1"}, {"0"}, {"-"}}; break; case 2: vals = {{"9"}, {"495"}, {"460"}, {"502"}, {"536"}, {"990"}}; break;
            case 3: vals = {{"true", "-"}, {"false", "-"}, {"false", "3"}, {"-", "4"}, {"-", "-"}}; break; case 4: for(int k : pos) if(k < n) vals.push_back({sfmt("\"w%d\"", k)}); vals.push_back({sfmt("\"w%d\"", p)}); vals.push_back({"\"u\""}); vals.push_back({"\"\""}); vals.push_back({"-"}); break;
            case 5: vals = {{"450", "5"}, {"450", "0"}, {"448", "1"}, {"0", "1"}, {"900", "7"}, {"449", "-"}}; break; case 7: vals = {{"7", "false", "true"}, {"450", "false", "-"}, {"0", "true", "-"}, {"900", "true", "true"}, {"1", "false", "false"}}; break; default: vals = {{"[4,5]", "false"}, {"[4,5]", "true"}, {"[10,100]", "true"}, {"[7]", "true"}, {"[7]", "false"}, {"[]", "true"}, {"-", "true"}}; }
        int q = 0; for(auto& x : vals) { Ev e = s.ev(x); s.check(e, q & 1, true); Res r = s.s.search(e, PROG); ex.checked(); if(r.matched != r.ids.size() || r.evaluated < r.matched || r.evaluated > s.items.size() || r.shorted > r.evaluated) ex.fail("search of %s: matched %zu (%zu ids), evaluated %zu, shorted %zu, stored %zu", ev_text(s.d, e).c_str(), r.matched, r.ids.size(), r.evaluated, r.shorted, s.items.size()); q++; }
        s.done();
    };
}
// ---- C16: which of many variables are required, and which is missing ----
static Body many_required_body() {
    return [](Ex& ex) {
        static const std::vector<int> nq = {3, 8, 33, 63, 64, 65, 66, 100, 128, 129, 200, 257, 300}; int n = ex.pick(nq), req = ex.choose(4), pos = ex.choose(7), type = ex.choose(3); ex.gate();
        static const char *ty[] = {"int", "bool", "str"}, *val[] = {"5", "true", "\"a\""}; auto at = [&](int k) { switch(k) { case 0: return 0; case 1: return n - 1; case 2: return n / 2; case 3: return std::min(n - 1, 63); case 4: return std::min(n - 1, 64); case 5: return std::min(n - 1, 127); default: return n - 2; } };
        int p = at(pos); auto required = [&](int k) { return req == 0 ? true : req == 1 ? k == p : req == 2 ? k != p : k % 2 == p % 2; };
        VS decls; for(int k = 0; k < n; k++) decls.push_back(sfmt("v%d %s%s", k, ty[type], required(k) ? "" : " ?")); bool v = ex.verbose; ex.verbose = false; Scn s(ex, decls, cf(1)); ex.verbose = v; ex.note("%d variables, requirement %d at %d", n, req, p);
        auto leaf = [&](int k) { return type == 0 ? sfmt("v%d = 5", k) : type == 1 ? sfmt("v%d", k) : sfmt("v%d = \"a\"", k); }; s.add(leaf(p)); s.add("not (" + leaf(0) + ")"); s.add(leaf(n - 1) + " or " + leaf(p), 1); s.add("true", 1);
        VS all(n, val[type]); std::vector<VS> evs = {all}; for(int k = 0; k < 7; k++) { VS e = all; e[at(k)] = "-"; evs.push_back(e); } { VS e = all; for(int k = 0; k < n; k++) if(!required(k)) e[k] = "-"; evs.push_back(e); e[p] = req == 2 ? val[type] : "-"; evs.push_back(e); } evs.push_back(VS(n, "-"));
        for(auto& e : evs) for(int m = 0; m < 2; m++) { Ev x = s.ev(e); Res r = s.s.search(x, m ? PROG : TEXT); bool ok = valid_event(s.d, x); auto w = s.want(x); ex.checked(); if(r.ok != ok || r.ids != w || (!ok && (r.matched || r.evaluated || r.memoized || r.shorted))) ex.fail("search returned %d %s, expected %d %s (evaluated %zu): %s", r.ok, ids_text(r.ids).c_str(), ok, ids_text(w).c_str(), r.evaluated, ev_text(s.d, x).c_str()); bool q = s.s.exists(x, m ? PROG : TEXT); ex.checked(); if(q != !w.empty()) ex.fail("exists returned %d, expected %d: %s", q, !w.empty(), ev_text(s.d, x).c_str()); }
        s.done();
    };
}
static Body report_reuse_body() {
    return [](Ex& ex) {
        static Profile P = p_int2(); Compiled& c = compiled(P);
        std::vector<int> seq; for(int i = 0; i < 2 + ex.tier; i++) seq.push_back(ex.choose((int)c.ex.size())); 
        int e1 = ex.choose(5) * 13, e2 = ex.choose(5) * 11 + 3; ex.gate();
        Sut s(ex, c.d, cf(1)); for(size_t i = 0; i < seq.size(); i++) { ex.note("insert %zu: %s", i + 1, P.exprs[seq[i]].c_str()); if(!s.insert(i + 1, P.exprs[seq[i]])) ex.fail("refused"); }
        Res a = s.search_text(c.evtext[e1]), b = s.search_text(c.evtext[e2]);
        report* r = make_report(); bool ok = betree_search(s.t, c.evtext[e1].c_str(), r) && betree_search(s.t, c.evtext[e2].c_str(), r); ex.op(2);
        std::vector<uint64_t> want = a.ids; want.insert(want.end(), b.ids.begin(), b.ids.end()); std::sort(want.begin(), want.end());
        std::vector<uint64_t> got; for(size_t i = 0; i < r->matched; i++) got.push_back(our_id(r->subs[i])); std::sort(got.begin(), got.end());
        bool cnt = r->evaluated == a.evaluated + b.evaluated && r->memoized == a.memoized + b.memoized && r->shorted == a.shorted + b.shorted && r->matched == a.matched + b.matched;
        free_report(r); ex.checked(); ex.state(hmix(seq[0], hmix(e1, e2)));
        if(!ok || got != want || !cnt) ex.fail("two searches into one report: %s, expected %s (counters add up: %d)", ids_text(got).c_str(), ids_text(want).c_str(), cnt);
    };
}
// Event objects made at the start and used again and again while the tree learns their values
static Body kept_events_body() {
    return [](Ex& ex) {
        static const VS D = {"b bool", "i int 0 9", "s str ?", "il ilist ?", "sl slist ?", "e enum ?"};
        static const VS E = {"sl one of (\"x\")", "sl all of (\"y\", \"x\")", "sl none of (\"y\", \"q\")", "s = \"x\" or e = 7", "il one of (3) and \"z\" in sl", "not (s = \"y\") and e <> 9"};
        static const std::vector<VS> V = {{"true", "3", "\"x\"", "[3,1,3]", "[\"y\",\"x\",\"y\"]", "7"}, {"false", "3", "\"y\"", "[9,3,3,1]", "[\"zz\",\"x\",\"z\",\"x\",\"zz\"]", "9"}, {"true", "5", "-", "[]", "[\"w\",\"q\",\"y\"]", "7"}};
        int cap = ex.choose(2) ? -1 : 1, route = ex.choose(2); std::vector<int> seq; for(int i = 0; i < 5 + ex.tier; i++) seq.push_back(ex.choose(12)); ex.gate();
        Scn s(ex, D, cf(cap)); std::vector<Ev> ev; std::vector<betree_event*> es; for(auto& v : V) { ev.push_back(s.ev(v)); es.push_back(s.s.build(ev.back())); }
        auto look = [&](int k, bool exists) {
            auto want = s.want(ev[k]); ex.checked();
            if(exists) { ex.op(); ex.note("  exists, event %d", k); if(betree_exists_with_event(s.s.t, es[k]) != !want.empty()) ex.fail("existence for the kept event %s, expected %d", ev_text(s.d, ev[k]).c_str(), !want.empty()); }
            else { ex.note("  search, event %d", k); Res r = s.s.search_event(es[k]); if(!r.ok || r.ids != want) ex.fail("the kept event %s: %d %s, expected %s", ev_text(s.d, ev[k]).c_str(), r.ok, ids_text(r.ids).c_str(), ids_text(want).c_str()); }
        };
        for(int o : seq) { if(o < 6) s.add(E[o], route); else look((o - 6) % 3, o >= 9); }
        for(int k = 0; k < 3; k++) { look(k, true); look(k, false); }
        for(auto* e : es) betree_free_event(e);
        uint64_t h = cap * 2 + route; for(int o : seq) h = hmix(h, o); ex.state(h);
    };
}
void register_props(std::vector<PropDef>& out) {
    auto H = [](Profile p, HistOpts o) { return hist_body(p, o); };
    std::vector<int> all22; for(int i = 0; i < 22; i++) all22.push_back(i);
    std::vector<Cfg> c12 = {cf(1), cf(-1)};
    {
        PropDef p{"C01", {}};
        p.bodies.push_back({"alike", wide::body(WALL), 1, 3});
        p.bodies.push_back({"mixed", H(p_mixed(), ho({cf(1), cf(-1)}, 3, 4)), 1, 3});
        p.bodies.push_back({"int2", H(p_int2(), ho({cf(1), cf(2)}, 4, 5)), 1, 3});
        p.bodies.push_back({"strings", H(p_str(), ho({cf(1)}, 4, 5)), 1, 3});
        p.bodies.push_back({"lists", H(p_list(), ho({cf(1)}, 3, 5)), 1, 3});
        p.bodies.push_back({"bools", H(p_bool(), ho({cf(1), cf(-1)}, 4, 5)), 1, 3});
        p.bodies.push_back({"names", H(p_names(), ho({cf(1), cf(-1)}, 2, 3)), 1, 3});
        p.bodies.push_back({"special", H(p_special(), ho({cf(1)}, 3, 4)), 1, 3});
        { HistOpts o = ho({cf(1), cf(-1)}, 2, 4); o.bases = deep_bases; p.bodies.push_back({"deep", H(p_deep(), o), 1, 3}); }
        { HistOpts o = ho({cf(-1), cf(1)}, 3, 5); o.dup_ids = true; Profile q = p_int2(); q.exprs.resize(5); q.name = "int2dup"; p.bodies.push_back({"repeated-ids", H(q, o), 1, 3}); }
        p.bodies.push_back({"families", family_body(CH_SEARCH), 1, 3});
        p.bodies.push_back({"type-pairs", type_pair_body(false), 1, 3});
        p.bodies.push_back({"type-triples", type_triple_body(), 1, 3});
        p.bodies.push_back({"crowds", crowd_body(1), 1, 3});
        p.bodies.push_back({"many-partitions", more::partitions(), 1, 3});
        p.bodies.push_back({"numbers", more::numbers(), 1, 3});
        { HistOpts o = ho({cf(1)}, 2, 3); p.bodies.push_back({"mixed-asan", H(p_mixed(), o), 2, 3}); }
        out.push_back(p);
    }
    {
        PropDef p{"C02", {}};
        p.bodies.push_back({"permutations-deep", perm_body(p_deep(), 4, 5), 1, 3});
        p.bodies.push_back({"crowds", crowd_body(0), 1, 3});
        p.bodies.push_back({"large-crowds", crowd_body(1), 1, 3});
        p.bodies.push_back({"permutations-int", perm_body(p_int2(), 4, 5), 1, 3});
        p.bodies.push_back({"permutations-mixed", perm_body(p_mixed(), 3, 5), 1, 3});
        p.bodies.push_back({"permutations-strings", perm_body(p_str(), 3, 5), 1, 3});
        p.bodies.push_back({"permutations-lists", perm_body(p_list(), 3, 5), 1, 3});
        p.bodies.push_back({"settings", setting_grid_body(), 1, 3});
        out.push_back(p);
    }
    {
        PropDef p{"C03", {}};
        p.bodies.push_back({"required", H(p_req(), ho({cf(1), cf(-1)}, 3, 4, CH_SEARCH | CH_EXISTS)), 1, 3});
        p.bodies.push_back({"mixed", H(p_mixed(), ho({cf(1)}, 2, 4, CH_EXISTS)), 1, 3});
        p.bodies.push_back({"int2", H(p_int2(), ho({cf(1)}, 3, 5, CH_EXISTS)), 1, 3});
        p.bodies.push_back({"strings", H(p_str(), ho({cf(1)}, 3, 5, CH_EXISTS)), 1, 3});
        p.bodies.push_back({"lists", H(p_list(), ho({cf(1)}, 3, 4, CH_EXISTS)), 1, 3});
        p.bodies.push_back({"bools", H(p_bool(), ho({cf(1)}, 3, 5, CH_EXISTS)), 1, 3});
        p.bodies.push_back({"special", H(p_special(), ho({cf(1)}, 2, 4, CH_EXISTS)), 1, 3});
        { HistOpts o = ho({cf(1), cf(-1)}, 2, 4, CH_EXISTS); o.bases = deep_bases; p.bodies.push_back({"deep", H(p_deep(), o), 1, 3}); }
        p.bodies.push_back({"families", family_body(CH_EXISTS), 1, 3});
        p.bodies.push_back({"type-pairs", type_pair_body(true), 1, 3});
        p.bodies.push_back({"crowds", crowd_body(1), 1, 3});
        p.bodies.push_back({"many-partitions", more::partitions(), 1, 3});
        p.bodies.push_back({"interleaved", interleave_body(p_int2(), 4, 5, 5), 1, 3});
        p.bodies.push_back({"required-asan", H(p_req(), ho({cf(1)}, 2, 3, CH_SEARCH | CH_EXISTS)), 2, 3});
        out.push_back(p);
    }
    {
        PropDef p{"C04", {}};
        p.bodies.push_back({"one", undef_body(1, all22, {cf(-1), cf(1)}, true), 3, 3});
        p.bodies.push_back({"two", undef_body(2, all22, {cf(-1)}, false), 1, 3});
        p.bodies.push_back({"two-in-company", undef_body(2, {0, 1, 5, 8, 12, 16, 17, 19, 20}, {cf(1)}, true), 1, 3});
        p.bodies.push_back({"three", undef_body(3, {0, 1, 12, 20}, {cf(-1)}, false), 1, 1});
        p.bodies.push_back({"three-wide", undef_body(3, {0, 1, 5, 11, 12, 13, 16, 17, 19, 20, 21}, {cf(-1)}, false), 1, 2});
        p.bodies.push_back({"three-in-company", undef_body(3, {0, 1, 12, 16, 20}, {cf(1)}, true), 1, 2});
        p.bodies.push_back({"far", undef_far_body(), 1, 3});
        p.bodies.push_back({"zeros", more::zeros(), 1, 3});
        p.bodies.push_back({"bools", H(p_bool(), ho({cf(1), cf(-1)}, 3, 5)), 1, 3});
        p.bodies.push_back({"special", H(p_special(), ho({cf(1)}, 2, 4)), 1, 3});
        out.push_back(p);
    }
    {
        PropDef p{"C05", {}};
        p.bodies.push_back({"pairs", pairs_body(0), 1, 3});
        p.bodies.push_back({"pairs-compound", pairs_body(1), 1, 2});
        p.bodies.push_back({"alike", wide::body(WALL), 1, 3});
        p.bodies.push_back({"many-shared", many_shared_body(), 3, 3});
        p.bodies.push_back({"far-variables", more::far_variables(), 1, 3});
        p.bodies.push_back({"far-numbers", more::far_numbers(), 3, 3});
        p.bodies.push_back({"crowds", crowd_body(1), 1, 3});
        p.bodies.push_back({"mixed", H(p_mixed(), ho({cf(-1)}, 3, 4)), 1, 3});
        p.bodies.push_back({"bools", H(p_bool(), ho({cf(-1)}, 4, 5)), 1, 3});
        p.bodies.push_back({"interleaved", interleave_body(p_bool(), 4, 5, 5), 1, 3});
        out.push_back(p);
    }
    {
        PropDef p{"C16", {}};
        p.bodies.push_back({"interleaved-int", interleave_body(p_int2(), 5, 6, 5), 1, 3});
        p.bodies.push_back({"interleaved-required", interleave_body(p_req(), 5, 6, 5), 1, 3});
        p.bodies.push_back({"interleaved-lists", interleave_body(p_list(), 4, 6, 5), 1, 3});
        p.bodies.push_back({"interleaved-mixed", interleave_body(p_mixed(), 4, 6, 5), 1, 3});
        p.bodies.push_back({"required", H(p_req(), ho({cf(1), cf(-1)}, 3, 5, CH_REPORT)), 1, 3});
        p.bodies.push_back({"special", H(p_special(), ho({cf(1)}, 2, 4, CH_REPORT)), 1, 3});
        p.bodies.push_back({"strings", H(p_str(), ho({cf(1)}, 3, 4, CH_REPORT)), 1, 3});
        { HistOpts o = ho({cf(1)}, 2, 3, CH_REPORT); o.bases = deep_bases; p.bodies.push_back({"deep", H(p_deep(), o), 1, 3}); }
        p.bodies.push_back({"families", family_body(CH_REPORT), 1, 3});
        p.bodies.push_back({"unknown-values", unknown_body(), 1, 3});
        p.bodies.push_back({"many-required", many_required_body(), 1, 3});
        p.bodies.push_back({"crowds", crowd_body(1), 1, 3});
        p.bodies.push_back({"many-partitions", more::partitions(), 1, 3});
        p.bodies.push_back({"numbers", more::numbers(), 1, 3});
        p.bodies.push_back({"short-cuts", more::shortcuts(), 1, 3});
        p.bodies.push_back({"report-reuse", report_reuse_body(), 3, 3});
        p.bodies.push_back({"kept-events", kept_events_body(), 1, 3});
        p.bodies.push_back({"interleaved-asan", interleave_body(p_req(), 3, 4, 5), 2, 3});
        out.push_back(p);
    }
}
