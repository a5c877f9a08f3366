// C22 declaration lines and emptied trees, C23 printed expressions.
#include "wide.h"
#include "vpalloc.h"
#include "g_shim.h"
#include <cstring>
#include <map>
#include <set>
static Cfg cf(int cap, int lines = 0) { Cfg c; c.cap = cap; c.lines = lines; return c; }
static void leak_check(Ex& ex, uint64_t before) { if(vp_live_blocks != before) ex.fail("%lld blocks are left allocated", (long long)(vp_live_blocks - before)); }
// ---- C22 ------------------------------------------------------------------------------------------
struct LD { const char* decl; const char* line; std::vector<const char*> vals; const char* expr; }; // declaration, its line (null: derived), event values, an expression about it
static const std::vector<LD>& lds() {
    static const std::vector<LD> v = {
        {"v bool", 0, {"true", "false"}, "V"}, {"v bool ?", 0, {"-", "true"}, "not V"},
        {"v int", 0, {"-3", "7"}, "V > 2"}, {"v int ? 0 10", 0, {"-", "3", "50"}, "V <= 3"}, {"v int -9223372036854775808 9223372036854775807", 0, {"0", "9223372036854775807"}, "V = 9223372036854775807"}, {"v int ? -20 -5", 0, {"-", "-7"}, "V < -6"},
        {"v int 5 9223372036854775807", "v|integer|false|5", {"4", "5"}, "V >= 5"}, {"v int ? 4294967296 8589934592", 0, {"-", "4294967297"}, "V = 4294967297"},
        {"v float", 0, {"0.5", "2.0"}, "V < 1.5"}, {"v float ? 0 10", 0, {"-", "2.5"}, "V >= 2.5"}, {"v float ? -0.25 0.75", "v|float|true|-0.25|0.75", {"-", "0.5"}, "V <> 0.5"}, {"v float 0.1 1.7976931348623157e308", "v|float|false|0.1", {"0.3"}, "V = 0.3"},
        {"v str", 0, {"\"a\"", "\"z\""}, "V = \"a\""}, {"v str ? 3", 0, {"-", "\"b\""}, "V <> \"a\""}, {"v str 1", 0, {"\"a\"", "\"b\""}, "V in (\"a\")"}, {"v str ? 4294967298", 0, {"-", "\"a\""}, "V = \"a\""},
        {"v enum", 0, {"5", "6"}, "V = 5"}, {"v enum ? 2", 0, {"-", "9"}, "V <> 9"},
        {"v ilist", 0, {"[]", "[1,2]"}, "V one of (2, 3)"}, {"v ilist ? 0 9", 0, {"-", "[9]"}, "9 in V"}, {"v ilist ? -5 5", 0, {"-", "[-5]"}, "V none of (1)"}, {"v ilist -8589934592 8589934592", 0, {"[8589934592]"}, "8589934592 in V"},
        {"v slist", 0, {"[]", "[\"a\",\"b\"]"}, "V all of (\"a\")"}, {"v slist ? 2", 0, {"-", "[\"a\"]"}, "not (V is empty)"},
        {"v segs", 0, {"[]", "[[5,100000000]]"}, "segment_within(V, 5, 20)"}, {"v segs ?", 0, {"-", "[[5,100000000]]"}, "segment_before(V, 5, 20)"},
        {"v caps ?", 0, {"-", "[]"}, "true"}, {"v caps", 0, {"[]"}, "V is empty or true"},
        // the rest in lists of up to two lines only
        {"v str 255", 0, {"\"a\"", "\"z\""}, "V = \"a\""}, {"v str ? 300", 0, {"-", "\"b\""}, "V <> \"a\""}, {"v str ? 4294967296", 0, {"-", "\"a\""}, "V = \"a\""}, {"v str 65536", 0, {"\"a\"", "\"b\""}, "V in (\"a\", \"b\")"},
        {"v slist ? 256", 0, {"-", "[\"a\"]"}, "V one of (\"a\")"}, {"v slist 65536", 0, {"[]", "[\"a\"]"}, "V one of (\"a\")"}, {"v slist ? 4294967296", 0, {"-", "[\"a\"]"}, "\"a\" in V"}, {"v slist 300", 0, {"[\"b\",\"a\"]"}, "V all of (\"a\", \"b\")"},
        {"v enum 256", 0, {"5", "6"}, "V = 5"}, {"v enum ? 65536", 0, {"-", "9"}, "V <> 9"}, {"v enum ? 4294967296", 0, {"-", "9"}, "V <> 9"}, {"v enum 300", 0, {"5", "6"}, "V = 6 or V = 5"},
        {"v float -1e+300 1e-300", 0, {"0.5", "-2.0"}, "V < 1.5"}, {"v float ? 16777217 16777219", 0, {"-", "16777217.0", "16777218.0"}, "V < 16777218.0"}, {"v float 1e-7 2e-7", 0, {"0.00000015"}, "V < 0.00000016"},
        {"v int 2147483647 2147483648", 0, {"2147483647", "2147483648"}, "V < 2147483648"}, {"v int ? -2147483649 -2147483648", 0, {"-", "-2147483649"}, "V < -2147483648"}, {"v int 9223372036854775806 9223372036854775807", 0, {"9223372036854775807"}, "V > 9223372036854775806"},
        {"v ilist ? 2147483647 2147483648", 0, {"-", "[2147483647,2147483648]"}, "V all of (2147483648)"}, {"v ilist -9223372036854775807 9223372036854775807", 0, {"[9223372036854775807]"}, "V one of (9223372036854775807)"},
        {"v int ? 8 17", "v|integer|true|0008|017", {"-", "8", "17"}, "V > 8"}, {"v int -10 9", "v|integer|false|-010|0009", {"-10", "9"}, "V < 0"}, {"v ilist ? 10 77", "v|integer list|true|010|077", {"-", "[10,77]"}, "77 in V"}, {"v str ? 10", "v|string|true|010", {"-", "\"a\""}, "V = \"a\""}, {"v slist 10", "v|string list|false|0010", {"[]", "[\"a\"]"}, "\"a\" in V"}, {"v enum ? 10", "v|integer enum|true|010", {"-", "9"}, "V = 9"}, {"v float ? 8.5 100", "v|float|true|08.50|1e2", {"-", "9.0"}, "V < 50.0"}};
    return v;
}
static std::string sub_name(const std::string& s, char from, const std::string& to) { std::string o; bool q = false; for(size_t i = 0; i < s.size(); i++) { if(s[i] == '"') q = !q; if(!q && s[i] == from && (i == 0 || !isalnum((unsigned char)s[i - 1])) && (i + 1 == s.size() || !isalnum((unsigned char)s[i + 1]))) o += to; else o += s[i]; } return o; }
static std::string dom_text(const gs_dom& d) { return sfmt("%s kind %d undefined %d int %lld..%lld float %.17g..%.17g count %zu/%zu", d.name, d.kind, d.opt, (long long)d.imin, (long long)d.imax, d.fmin, d.fmax, d.smax, d.emax); }
static void compare_domains(Ex& ex, betree* a, betree* b) {
    if(gs_domains(a) != gs_domains(b)) ex.fail("lines declare %zu variables, calls %zu", gs_domains(a), gs_domains(b));
    for(size_t i = 0; i < gs_domains(a); i++) { gs_dom x, y; gs_domain(a, i, &x); gs_domain(b, i, &y); ex.checked(2);
        if(memcmp(&x, &y, sizeof x)) ex.fail("the line declares %s, the call %s", dom_text(x).c_str(), dom_text(y).c_str());
        auto p = betree_get_variable_definition(a, i), q = betree_get_variable_definition(b, i); if(strcmp(p.name, q.name) || p.type != q.type) ex.fail("definition %zu differs: %s %d, %s %d", i, p.name, p.type, q.name, q.type); }
}
static Body lines_body(int n) {
    return [n](Ex& ex) {
        sut_line = gs_line; std::vector<int> pk; for(int i = 0; i < n; i++) pk.push_back(ex.choose(n < 3 ? (int)lds().size() : 28)); int nl = ex.choose(2) + 1; ex.gate();
        uint64_t live = vp_live_blocks;
        { // declarations; the first also under names that look like other parts of a line
            static const VS names = {"v", "a_very_long_name_with_many_letters_and_9_digits", "true"};
            VS decls; std::vector<VS> vals; VS exprs;
            for(int i = 0; i < n; i++) { auto& l = lds()[pk[i]]; std::string nm = i == 0 ? "v" : i == 1 ? "a_very_long_name_with_many_letters_and_9_digits" : "w9"; decls.push_back(nm + std::string(l.decl).substr(1)); VS x; for(auto s : l.vals) x.push_back(s); vals.push_back(x); exprs.push_back(sub_name(l.expr, 'V', nm)); }
            decls.push_back("now int"); vals.push_back({"110", "130"}); decls.push_back("last bool ?"); vals.push_back({"-", "true"}); exprs.push_back("last");
            Scn A(ex, decls, cf(1, nl)); Scn B(ex, decls, cf(1)); compare_domains(ex, A.s.t, B.s.t);
            { // the line as written in the table
                Decls none; Sut t(ex, none, Cfg{}); Sut u(ex, none, Cfg{}); for(int i = 0; i < n; i++) { auto& l = lds()[pk[i]]; Decl d = parse_decl(decls[i]); if(l.line) { std::string x = l.line; size_t bar = x.find('|'); gs_line(t.t, (d.name + x.substr(bar)).c_str()); } else gs_line(t.t, decl_line(d).c_str()); }
                Decls dd; for(int i = 0; i < n; i++) dd.push_back(parse_decl(decls[i])); Sut w(ex, dd, Cfg{}); compare_domains(ex, t.t, w.t);
            }
            for(auto& e : exprs) if(!ref_unspecified(ref_parse(e), A.d)) { A.add(e, 0); A.add("not (" + e + ")", 1); }
            int k = 0; for(auto& e : ev_product(A.d, vals)) { A.check(e, k++ & 1, true); for(size_t i = 0; i < A.d.size(); i++) if(e.v[i]) { Ev m = e; m.v[i] = std::nullopt; A.check(m, k & 1, true); } }
            A.done();
        }
        leak_check(ex, live);
    };
}
static Body line_capacity_body() {
    return [](Ex& ex) {
        sut_line = gs_line; int type = ex.choose(3), cap = ex.choose(4); std::vector<int> q; for(int i = 0; i < (ex.tier ? 5 : 4); i++) { int c = ex.choose(5); if(!c) break; q.push_back(c - 1); } ex.gate();
        static const char* dt[] = {"s str ?", "s slist ?", "s enum ?"}; std::string d = sfmt("%s %d", dt[type], cap);
        Scn A(ex, {d, "b bool"}, cf(1, 1)); std::set<std::string> used; static const char* v[] = {"\"p\"", "\"q\"", "\"r\"", "\"P\""}; static const char* n[] = {"1", "2", "3", "-1"};
        auto text = [&](int k) { return type == 0 ? sfmt("s = %s", v[k]) : type == 1 ? sfmt("s one of (%s)", v[k]) : sfmt("s = %s", n[k]); };
        auto val = [&](int k) { return type == 0 ? std::string(v[k]) : type == 1 ? sfmt("[%s]", v[k]) : std::string(n[k]); };
        for(int k : q) { auto u = used; u.insert(text(k)); bool want = (int)u.size() <= cap; bool got = A.try_add(text(k)); ex.checked(); if(got != want) ex.fail("%s %s with %zu of %d values in use", text(k).c_str(), got ? "accepted" : "refused", used.size(), cap); if(got) used = u; }
        for(int k = 0; k < 4; k++) A.check(A.ev({val(k), "true"}), k & 1); A.check(A.ev({"-", "true"}), 0); A.done();
    };
}
struct EmptyP { Profile p; };
static const std::vector<Profile>& eps() {
    static const std::vector<Profile> v = {
        {"je-mixed", {"b bool ?", "i int 0 10", "s str ?", "il ilist ? 0 9", "f float ? 0 10"}, {"b", "i > 5", "not (i < 7 or b)", "s = \"x\"", "s <> \"x\" and i = 5", "il one of (1, 8)", "f >= 7.5 or il is empty", "i <= 2 and b", "(i > 5 or s = \"x\") and not b"},
            {{"-", "true"}, {"0", "5", "6", "8"}, {"-", "\"x\"", "\"q\""}, {"[]", "[1,4]"}, {"-", "9.0"}}, {}, {}},
        {"je-deep", {"x int 0 7", "y int 0 7", "z bool"}, {"x = 0", "x = 7", "y = 3", "x < 4 and y < 4", "x >= 4 and y >= 4", "z and y = 0", "not z and x > 2", "x > 1 or y > 6"},
            {{"0", "3", "7"}, {"0", "3", "7"}, {"true", "false"}}, {}, {}},
        {"je-values", {"s str ?", "e enum ?", "sl slist ?", "t str ? 9", "frequency_caps caps ?", "now int ?"}, {"s = \"a\"", "s in (\"b\", \"c\")", "e = 5 and s <> \"d\"", "sl one of (\"p\")", "sl none of (\"q\", \"r\")", "t = \"a\" or t = \"z\"", "within_frequency_cap(\"flight\", \"m\", 5, 10)", "within_frequency_cap(\"flight\", \"n\", 5, 10)"},
            {{"\"a\"", "\"b\"", "-"}, {"5", "6"}, {"[\"p\"]", "[\"r\"]"}, {"\"a\"", "\"z\""}, {"[[[\"flight\",14,\"n\"],9,99000000]]", "[[[\"flight\",14,\"m\"],9,99000000]]"}, {"100"}}, {{"flight_id", 14}}, {}}};
    return v;
}
static Body empty_body() {
    return [](Ex& ex) {
        int pi = ex.choose((int)eps().size()); const Profile& p = eps()[pi]; Compiled& c = compiled(p); int n = (int)p.exprs.size(), cap = ex.choose(2) ? -1 : 1, base = ex.choose(2); int d = ex.tier ? 3 : 2;
        std::vector<int> a, b; for(int i = 0; i < d; i++) { int k = ex.choose(n + 1); if(!k) break; a.push_back(k - 1); } int twice = ex.choose(3); for(int i = 0; i < 2; i++) { int k = ex.choose(n + 1); if(!k) break; b.push_back(k - 1); } ex.gate();
        uint64_t live = vp_live_blocks;
        {
            Sut s(ex, c.d, Cfg{cap, 0, false}); std::vector<Item> items; uint64_t id = 1, h = hmix(pi * 3 + twice, cap * 2 + base);
            auto add = [&](int k, int route) { const std::string& t = p.exprs[k]; ex.note("  insert %llu: %s", (unsigned long long)id, t.c_str()); bool ok; if(route) { auto q = s.make_sub(id, t, p.consts); ok = q && s.insert_sub(q); } else ok = s.insert(id, t, p.consts); if(!ok) ex.fail("insertion of %s refused", t.c_str()); items.push_back({id++, &c.truth[k]}); h = hmix(h, k); };
            auto empty = [&] { ex.note("  empty"); gs_empty(s.t); ex.op(); items.clear(); id = 1; h = hmix(h, 777); };
            if(base) for(int k = 0; k < n; k++) add(k, k & 1);
            for(int k : a) add(k, 0); 
            if(twice == 1) check_all(ex, s, c, items, CH_SEARCH | CH_EXISTS, 0, false, 5);
            empty(); if(twice == 2) empty();
            check_all(ex, s, c, items, CH_SEARCH | CH_EXISTS, 1, false, 3);
            for(int k : b) add(k, 1); check_all(ex, s, c, items, CH_SEARCH | CH_EXISTS | CH_REPORT, h, false, 1);
            if(base) for(int k = n - 1; k >= 0; k--) add(k, 0);
            check_all(ex, s, c, items, CH_SEARCH | CH_EXISTS | CH_REPORT, h + 1, false, 2);
            empty(); check_all(ex, s, c, items, CH_SEARCH | CH_EXISTS | CH_REPORT, h + 2, false, 3);
            ex.state(h);
        }
        if(vp_live_blocks != live) ex.fail("%lld blocks are left allocated", (long long)(vp_live_blocks - live));
    };
}
// ---- C23 ------------------------------------------------------------------------------------------
static const VS PD = {"b bool ?", "c bool ?", "i int ?", "j int ?", "f float ?", "s str ?", "t str ?", "e enum ?", "il ilist ?", "sl slist ?", "q segs ?", "segments_with_timestamp segs ?", "frequency_caps caps ?", "now int ?", "latitude float ?", "longitude float ?", "a-b int ?", "in1 bool ?", "_x9 int ?"};
static std::vector<Const> all_consts() { return {{"advertiser_id", 10}, {"campaign_id", 10}, {"campaign_group_id", 10}, {"flight_id", 10}, {"product_id", 10}}; }
// a leaf in normal form: what it depends on and how
static std::string canon(const EP& e) {
    auto low = [](std::string s) { for(auto& c : s) c = tolower((unsigned char)c); return s; };
    static const Decls decls = parse_decls(PD); const Decl* dv = find_decl(decls, e->var); bool flt = dv && dv->t == T::F;
    auto num = [&](const Num& n) { if(flt) return sfmt("%a", n.isf ? n.f : (double)n.i); return n.isf ? (n.f == (double)(int64_t)n.f && n.f > -9e15 && n.f < 9e15 ? sfmt("%lld", (long long)n.f) : sfmt("%a", n.f)) : sfmt("%lld", (long long)n.i); };
    auto lst = [&] { std::string o = "("; if(e->is_list_str) { std::set<std::string> u(e->sl.begin(), e->sl.end()); for(auto& x : u) o += sfmt("%zu:", x.size()) + x + ","; } else { std::set<int64_t> u(e->il.begin(), e->il.end()); for(auto x : u) o += std::to_string(x) + ","; } return o + ")"; };
    std::string k = sfmt("%d %s %s %d ", (int)e->k, low(e->var).c_str(), e->op.c_str(), (int)e->b);
    switch(e->k) {
        case K::CMP: return k + num(e->n);
        case K::EQ: case K::VALIN: return k + (e->is_str ? "\"" + e->s : num(e->n)) + (e->k == K::VALIN && e->var.empty() ? lst() : "");
        case K::VARIN: case K::LIST: return k + lst() + (e->op == "var" ? e->s : "");
        case K::FREQ: return k + e->ftype + "|" + e->ns + sfmt("|%lld|%lld", (long long)e->a1, (long long)e->a2);
        case K::SEG: return k + sfmt("%lld|%lld", (long long)e->a1, (long long)e->a2);
        case K::GEO: return k + sfmt("%a|%a|%a", e->g1, e->g2, e->g3);
        case K::STR: return k + e->s;
        default: return k;
    }
}
static void leaves(const EP& e, std::map<std::string, int>& m) { if(e->l) leaves(e->l, m); if(e->r) leaves(e->r, m); if(!e->l && e->k != K::LIT) m.emplace(canon(e), (int)m.size()); }
static bool tv(const EP& e, const std::map<std::string, int>& m, uint64_t a) { switch(e->k) { case K::LIT: return e->b; case K::NOT: return !tv(e->l, m, a); case K::AND: return tv(e->l, m, a) & tv(e->r, m, a); case K::OR: return tv(e->l, m, a) | tv(e->r, m, a); default: return a >> m.at(canon(e)) & 1; } }
// the two texts have the same truth value whatever their predicates evaluate to
static bool same_meaning(const EP& a, const EP& b) { std::map<std::string, int> m; leaves(a, m); leaves(b, m); if(m.size() > 16) return canon(a) == canon(b); for(uint64_t x = 0; x >> m.size() == 0; x++) if(tv(a, m, x) != tv(b, m, x)) return false; return true; }
static void check_print(Ex& ex, const std::string& t, const EP& e, const void* node, const char* what) {
    char* p = gs_print(node); std::string o = p; gs_free_text(p); ex.op(); ex.checked();
    EP r = ref_parse(o); if(!r) ex.fail("%s %s is printed as %s, which is not in the language", what, t.c_str(), o.c_str());
    if(!same_meaning(e, r)) ex.fail("%s %s is printed as %s, which means something else", what, t.c_str(), o.c_str());
}
static void print_all(Ex& ex, const VS& texts, bool insert) {
    uint64_t live = vp_live_blocks;
    {
        static const Decls d = parse_decls(PD); static Decls none; auto cs = all_consts(); Sut s(ex, d, Cfg{2, 0, false}); std::vector<const betree_sub*> subs; std::vector<std::string> printed; uint64_t id = 1;
        for(auto& t : texts) {
            ex.note("%s", t.c_str()); EP e = ref_parse(t); if(!e) { ex.fail("harness: %s is not in the language", t.c_str()); }
            void* n = gs_parse(t.c_str()); ex.op(); if(!n) ex.fail("%s does not parse", t.c_str());
            check_print(ex, t, e, n, "the parsed expression");
            void* c = gs_clone(n); check_print(ex, t, e, c, "the copied expression"); gs_free_node(c);
            char* p = gs_print(n); void* n2 = gs_parse(p); ex.op(); ex.checked(); if(!n2) ex.fail("%s is printed as %s, which does not parse", t.c_str(), p);
            check_print(ex, t, e, n2, "the reparsed expression"); gs_free_node(n2); gs_free_node(n);
            if(insert && ref_check(e, d, cs) == Verdict::OK) {
                auto q = s.make_sub(id++, t, cs); if(!q) ex.fail("building %s refused", t.c_str()); check_print(ex, t, e, gs_expr(q), "the built expression"); subs.push_back(q);
                if(!s.insert(id++, p, cs)) ex.fail("%s is printed as %s, whose insertion is refused", t.c_str(), p);
            }
            gs_free_text(p);
        }
        size_t k = 0; for(auto q : subs) { if(!s.insert_sub(q)) ex.fail("insertion refused"); }
        for(auto& t : texts) { EP e = ref_parse(t); if(insert && ref_check(e, d, cs) == Verdict::OK) check_print(ex, t, e, gs_expr(subs[k++]), "the stored expression"); }
        // the printed forms, inserted next to the originals, match the same events
        if(insert) for(auto& v : std::vector<VS>{
            {"true", "-", "1", "2", "0.3", "\"a\"", "\"b\"", "1", "[1]", "[\"a\"]", "[[1,5000000]]", "[[2,5000000]]", "[[\"flight\",10,\"ns\",1,100]]", "10", "45.0", "-73.0", "1", "-", "1"},
            {"-", "true", "-1", "-", "0.0625", "\"ab\"", "-", "7", "[]", "[]", "[]", "-", "[]", "200", "44.9", "-73.0", "-", "true", "-3"},
            {"false", "false", "9223372036854775807", "0", "-2.5", "-", "\"\"", "-", "[1,2,-3]", "[\"b\",\"a\"]", "-", "[[1,1000000]]", "-", "5", "0.0", "0.0", "5", "false", "-"}}) {
            Ev ev; for(size_t i = 0; i < d.size(); i++) ev.v.push_back(parse_val(d[i].t, v[i])); Res r = s.search(ev, PROG); ex.checked(); std::set<uint64_t> got(r.ids.begin(), r.ids.end());
            for(uint64_t x = 1; x < id; x += 2) if(got.count(x) != got.count(x + 1)) ex.fail("expression %llu and its printed form differ for %s", (unsigned long long)x, ev_text(d, ev).c_str());
        }
    }
    leak_check(ex, live);
}
static const VS& patoms() {
    static const VS v = {"b", "in1", "true", "false", "i < 1", "i <= -1", "a-b > 0", "_x9 >= 7", "i < 9223372036854775807", "i > -9223372036854775807", "f < 0.3", "f <= -2.5", "f > 1", "i = 1", "i <> -1", "e = 7", "e <> -7", "f = 0.5", "f <> -0.25", "s = \"a\"", "s <> \"a b\"", "s = \"\"", "s = 'x'", "s = 'x\"y'", "s = \"it's\"", "s = 'a\\\\\"b'", "s = '\\\\\"'", "s = \"\\\\x\"", "s = 'q\\\\\\\"'", "s in (\"\\\\x\", '\\\\\"', 'a\\'b')", "sl one of (\"\\\\a\", \"b\\\"c\")", "s = \"a(b),c\"", "s = \"not (i > 1)\"", "s = \"%s%d%%\"",
        "s = \"a\\\\b\"", "s = \"a\\\"b\"", "s = 'a\\'b'", "s = 'a\\'\"b'", "s = \"back\\\\\"",
        "i in (1)", "i in (3, 1, 2)", "i not in (-1, -2)", "s in (\"a\", \"b\")", "s not in (\"b\", 'a\"', \"\")", "1 in il", "-1 not in il", "\"a\" in sl", "'x\"' not in sl", "il one of (1, 2)", "il none of (-3)", "il all of (2, 1, 2)", "sl one of (\"a\", \"\")", "sl none of ('q\"')", "sl all of (\"b\", \"a\")",
        "i is null", "i is not null", "il is null", "sl is not null", "il is empty", "sl is empty", "b is null", "q is not null", "s is null", "f is not null", "e is null",
        "segment_within(q, 1, 5)", "segment_before(q, 2, 0)", "segment_within(1, 20)", "segment_before(segments_with_timestamp, 1, 5)", "segment_within(q, 9223372036854775807, 5)", "segment_before(q, 1, 4294967301)", "segment_within(q, -1, 5)", "segment_before(-2, -5)", "within_frequency_cap(\"flight\", \"ns\", -1, -5)",
        "geo_within_radius(45, -73, 10)", "geo_within_radius(45.5, -73.25, 10.75)", "geo_within_radius(45.123456, -73.000001, 0.001)", "geo_within_radius(-90, 180, 20000)", "geo_within_radius(0.0, 0.0, 0.5)",
        "contains(s, \"ab\")", "starts_with(s, \"a b\")", "ends_with(t, \"\")", "contains(s, 'x\"y')", "starts_with(t, \"\\\\\")", "ends_with(s, \"A%d\")",
        "within_frequency_cap(\"flight\", \"ns\", 1, 100)", "within_frequency_cap(\"advertiser\", \"ns\", 0, 0)", "within_frequency_cap(\"advertiser:ip\", \"\", 1, 100)", "within_frequency_cap(\"campaign\", 'n\"s', 4294967295, 1)", "within_frequency_cap(\"campaign:ip\", \"n s\", 2, 9223372036854775807)", "within_frequency_cap(\"campaign_group\", \"ns\", 1, 1)", "within_frequency_cap(\"campaign_group:ip\", \"ns\", 1, 1)", "within_frequency_cap(\"flight:ip\", \"ns\", 1, 1)", "within_frequency_cap(\"product\", \"ns\", 1, 1)", "within_frequency_cap(\"product:ip\", \"ns\", 1, 1)"};
    return v;
}
static Body print_atoms_body() { return [](Ex& ex) { int k = ex.choose((int)patoms().size()), f = ex.choose(4); ex.gate(); const std::string& a = patoms()[k]; print_all(ex, {f == 0 ? a : f == 1 ? "not " + a : f == 2 ? "not (not (" + a + "))" : "b and (" + a + ") or not c"}, true); ex.state(k * 4 + f); }; }
static Body print_pairs_body() {
    return [](Ex& ex) {
        int n = (int)patoms().size(), a = ex.choose(n), b = ex.choose(n); ex.gate(); std::string A = patoms()[a], B = patoms()[b];
        print_all(ex, {A + " and " + B, A + " or " + B, "not (" + A + " and " + B + ")", "not (" + A + ") or " + B, "not (" + A + " or not (" + B + ")) and c", A + " or " + B + " and " + A, "(" + A + " or " + B + ") and (" + B + " or c)"}, true); ex.state(a * 1000 + b);
    };
}
static Body print_triples_body() {
    return [](Ex& ex) {
        static const std::vector<int> pick = [] { std::vector<int> v; for(size_t k = 0; k < patoms().size(); k += 3) v.push_back((int)k); return v; }();
        std::string A = patoms()[ex.pick(pick)], B = patoms()[ex.pick(pick)], C = patoms()[ex.pick(pick)]; ex.gate();
        print_all(ex, {A + " and " + B + " or " + C, A + " and (" + B + " or " + C + ")", "not " + (A[0] == 'n' ? "(" + A + ")" : A) + " or " + B + " and not (" + C + ")", "not (" + A + " and not (" + B + " or " + C + "))"}, ex.tier); ex.state(hstr(A + "|" + B + "|" + C));
    };
}
// every shape of operators over leaves that must not be confused
static std::string shape(Ex& ex, int size) { // size: operators left
    static const char* leaf[] = {"b", "c", "in1"};
    if(!size) return leaf[ex.choose(3)];
    int op = ex.choose(size > 1 ? 3 : 3);
    if(op == 0) return "not (" + shape(ex, size - 1) + ")";
    int l = ex.choose(size); return "(" + shape(ex, l) + (op == 1 ? ") and (" : ") or (") + shape(ex, size - 1 - l) + ")";
}
static Body print_shapes_body() { return [](Ex& ex) { int n = ex.choose(ex.tier ? 6 : 5); std::string t = shape(ex, n); ex.gate(); print_all(ex, {t}, true); ex.state(hstr(t)); }; }
// numbers
static Body print_numbers_body() {
    return [](Ex& ex) {
        int kind = ex.choose(2), neg = ex.choose(2); std::string num;
        static const VS ints = {"0", "1", "7", "10", "99", "255", "256", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "999999999999", "4611686018427387904", "9223372036854775806", "9223372036854775807"};
        static const VS fl = {"0.0", "1.0", "0.5", "0.25", "0.125", "0.1", "0.01", "0.001", "0.004", "0.005", "0.006", "0.995", "0.999", "1.005", "3.14159", "2.718281828459045", "0.30000000000000004", "99.99", "99.999", "100.0", "123456789.125", "0.0000001", "0.000000000000001", "0.00000000000000000000000000000000000001234567890123", "1234567890123456789.0", "9007199254740993.0", "100000000000000000000.0", "1e0"};
        if(kind == 0) num = ex.pick(ints); else { num = ex.pick(fl); if(num == "1e0") num = std::string(300, '9') + ".0"; }
        int den = kind == 1 ? ex.choose(ex.tier ? 40 : 8) : 0; int form = ex.choose(4); ex.gate();
        if(den > 1) num = sfmt("%.25f", strtod(num.c_str(), 0) + 1.0 / den);
        if(neg) num = "-" + num;
        VS t; if(kind == 0) t = form == 0 ? VS{"i < " + num, "i = " + num, "i <> " + num} : form == 1 ? VS{"i in (" + num + ", 3)", num + " not in il", "il all of (4, " + num + ")"} : form == 2 ? VS{"e = " + num, "f > " + num} : VS{"segment_within(q, " + num + ", " + num + ")", "segment_before(" + num + ", " + num + ")", "within_frequency_cap(\"flight\", \"ns\", " + num + ", " + num + ")"};
        else t = form == 0 ? VS{"f < " + num, "f >= " + num} : form == 1 ? VS{"f = " + num, "f <> " + num} : form == 2 ? VS{"geo_within_radius(" + num + ", 1.0, 2.5)", "geo_within_radius(1.0, " + num + ", 2.5)"} : VS{"geo_within_radius(1.5, 1.0, " + (neg ? num.substr(1) : num) + ")"};
        if(t.empty()) throw Skip(); print_all(ex, t, true); ex.state(hstr(num) + form);
    };
}
// lists of every length, names and strings of every length around powers of two
static Body print_long_body() {
    return [](Ex& ex) {
        int len = ex.pick(std::vector<int>{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000}), form = ex.choose(6); ex.gate(); std::string l, t;
        for(int i = 0; i < len; i++) l += (i ? ", " : "") + (form == 1 ? sfmt("\"v%d\"", i * 7919 % len) : std::to_string((i * 7919 % len) - 3));
        switch(form) { case 0: t = "il one of (" + l + ")"; break; case 1: t = "sl all of (" + l + ")"; break; case 2: t = "s = \"" + std::string(len, 'k') + "\""; break; case 3: t = "contains(s, \"" + std::string(len, 'k') + "\")"; break; case 4: t = "b"; for(int i = 0; i < len && i < 400; i++) t = i & 1 ? "not (" + t + ")" : "(" + t + ") or c"; break; default: t = "b"; for(int i = 0; i < len && i < 400; i++) t += i % 3 ? " and c" : " or not b"; }
        if(form >= 4 && len > 400) throw Skip(); print_all(ex, {t}, true); ex.state(hmix(len, form));
    };
}
static Body print_alike_body() {
    return [](Ex& ex) {
        auto& v = wide::all(ex.tier); int k = ex.choose((int)v.size()), form = ex.choose(3); ex.gate(); const Wide& w = v[k];
        if(form == 0) print_all(ex, {w.x, w.y}, true); else if(form == 1) print_all(ex, {"not (" + w.x + ") or " + w.y, "(" + w.y + ") and " + w.x}, true); else print_all(ex, {w.x + " and b", w.y + " and b", "not (" + w.y + ")"}, true); ex.state(hmix(k, form));
    };
}
void register_props(std::vector<PropDef>& out) {
    out.push_back({"C22", {{"one-line", lines_body(1), 1, 3}, {"two-lines", lines_body(2), 1, 3}, {"three-lines", lines_body(3), 1, 3}, {"capacity", line_capacity_body(), 1, 3}, {"emptied", empty_body(), 1, 3}}});
    out.push_back({"C23", {{"predicates", print_atoms_body(), 1, 3}, {"numbers", print_numbers_body(), 1, 3}, {"shapes", print_shapes_body(), 1, 3}, {"long", print_long_body(), 1, 3}, {"alike", print_alike_body(), 1, 3}, {"pairs", print_pairs_body(), 1, 3}, {"triples", print_triples_body(), 1, 3}}});
}
