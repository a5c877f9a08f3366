// C17: whole-API histories. Every run is watched by the allocation ledger (every block released, exactly once,
// intact), and once more under AddressSanitizer and the memory checks of UBSan with patterned locals; answers are compared
// with the model so that reads of stale or fresh memory show up.
#include "scn.h"
#include "vpalloc.h"
#include "late.h"
#include <functional>
static Cfg cf(int cap, int part = 0, bool in_place = false) { return Cfg{cap, part, in_place}; }
static const VS RD = {"b bool", "i int 0 10", "j int ?", "f float", "g float ? 0 1", "s str 3", "t str ?", "il ilist", "jl ilist ? 0 9", "sl slist 4", "tl slist ?", "e enum 3", "h enum ?", "q segs ?", "segments_with_timestamp segs ?", "frequency_caps caps ?", "now int", "latitude float ?", "longitude float ?", "c bool ?"};
static const VS RICH = {"true", "5", "3", "1.5", "0.5", "\"a\"", "\"b\"", "[1,5]", "[5,1,7]", "[\"a\",\"b\"]", "[\"b\",\"zz\",\"qq\"]", "2", "1", "[[1,5000000],[3,100]]", "[[1,5000000]]", "[[\"flight\",14,\"ns\",5,100],[\"campaign\",10,\"nt\",0,5]]", "10", "45.0", "-73.0", "true"};
static const VS POOR = {"false", "99", "-", "-1.5", "-", "\"zz\"", "-", "[]", "-", "[]", "-", "77", "-", "-", "-", "-", "0", "-", "-", "-"};
static const VS ODD = {"true", "-7", "-99", "0.0", "7.5", "\"\"", "\"zz\"", "[11,-3,4,4]", "[]", "[\"zz\"]", "[]", "1", "9", "[]", "[]", "[]", "-5", "0.0", "0.0", "false"};
static const VS MISSING = {"true", "-", "3", "1.5", "-", "\"a\"", "-", "[1]", "-", "[\"a\"]", "-", "2", "-", "-", "-", "-", "10", "-", "-", "-"};
static const std::vector<Const>& cs1() { static const std::vector<Const> v = {{"flight_id", 14}}; return v; }
static const std::vector<Const>& cs3() { static const std::vector<Const> v = {{"flight_id", 14}, {"unused", 3}, {"campaign_id", 10}}; return v; }
static VS good() { return {"b", "not b", "c", "i < 4", "i >= 4", "3 <= i", "j = 3", "j <> 3", "f < 2.5", "f = 1.5", "g > 0.25", "s = \"a\"", "s <> \"b\"", "t = \"b\"", "\"zzz\" = t", "i in (1, 5)", "i not in (2, 3, 2)", "s in (\"a\", \"b\")", "s not in (\"b\")", "t in (\"b\", \"x\")", "5 in il", "3 not in jl", "\"a\" in sl", "\"k\" not in tl", "il one of (1, 9)", "jl none of (8, 9)", "jl all of (1, 5, 5)", "sl one of (\"b\", \"a\", \"b\")", "tl none of (\"k\")", "tl all of (\"b\")", "e = 2", "h <> 1", "j is null", "j is not null", "t is null", "il is empty", "jl is empty", "sl is empty", "tl is not null", "q is null", "frequency_caps is not null",
    "segment_within(q, 1, 20)", "segment_before(1, 2)", "within_frequency_cap(\"flight\", \"ns\", 100, 0)", "within_frequency_cap(\"campaign:ip\", \"nt\", 1, 5)", "geo_within_radius(45, -73, 10)", "geo_within_radius(45.5, -73.5, 100.0)", "contains(s, \"a\")", "starts_with(t, \"b\")", "ends_with(s, \"\")", "true", "false",
    "b and i < 4", "not (b or c)", "(i < 4 and s = \"a\") or not tl one of (\"b\", \"c\")", "i > 2 and j > 2 and f > 1.0 and g < 0.75 and s = \"c\"", "not (not (t = \"u\" and jl one of (1)))"}; }
static VS bad() { return {"", "i <", "and", "(i < 4", "i < 4)", "s = \"a", "i in (1, \"a\")", "i in ()", "undeclared", "undeclared = 3", "b and undeclared < 2", "undeclared one of (\"a\", \"b\")", "i = \"a\"", "s < 3", "s = 3", "b = 2", "il = 4", "sl one of (1, 2)", "jl one of (\"a\")", "i one of (1, 2)", "contains(i, \"a\")", "segment_within(i, 1, 2)", "within_frequency_cap(\"nonsense\", \"ns\", 1, 0)", "within_frequency_cap(\"product\", \"ns\", 1, 0)", "b and within_frequency_cap(\"product\", \"ns\", 1, 0)", "s = \"a\" and i = \"b\"", "geo_within_radius(45, -73.5, 10)", "e = \"a\"", "f = \"a\"", "t in (1, 2)", "\"a\" in il", "1 in sl", "segment_within(1)", "not", "i i", "b b", "s = \"a\" t", "il one of (1) x"}; }
static Ev evl(const Decls& d, const VS& v) { Ev e; for(size_t i = 0; i < d.size(); i++) e.v.push_back(parse_val(d[i].t, v[i])); return e; }
// Whether an expression's verdict and value are settled (see C14); others are only executed.
struct Api {
    Ex& ex; Scn s; report* keep = nullptr; betree_event* kev = nullptr; Ev kvals; std::vector<Ev> evs;
    Api(Ex& ex, Cfg c, const VS& decls = RD) : ex(ex), s(ex, decls, c, cs1()) {}
    ~Api() { if(keep) free_report(keep); if(kev) betree_free_event(kev); }
    void ins(const std::string& t, int route, int consts = 1) { s.cs = consts == 0 ? std::vector<Const>{} : consts == 1 ? cs1() : cs3(); s.try_add(t, route); }
    void learn(const std::string& t) { ex.note("  learn from: %s", t.c_str()); s.hs = hmix(s.hs, hstr(t)); s.s.change_boundaries(t); }
    void search(const VS& v, int form) { // 0 text 1 built 2 exists text 3 exists built 4 kept event, 5 kept event and existence
        Ev e = evl(s.d, v); ex.note("  %s %s", form >= 2 ? "exists" : "search", ev_text(s.d, e).c_str()); s.hs = hmix(s.hs, form);
        if(form < 2) s.check(e, form);
        else if(form < 4) { auto w = s.want(e); bool x = s.s.exists(e, form == 2 ? TEXT : PROG); ex.checked(); if(x != !w.empty()) ex.fail("exists of %s returned %d, expected %d", ev_text(s.d, e).c_str(), x, !w.empty()); }
        else { if(!kev) { kev = s.s.build(e); kvals = e; } auto w = s.want(kvals); bool valid = valid_event(s.d, kvals);
            if(form == 5) { bool x = betree_exists_with_event(s.s.t, kev); ex.op(); if(x != !w.empty()) ex.fail("exists of a kept event returned %d, expected %d", x, !w.empty()); }
            report* r = make_report(); bool ok = betree_search_with_event(s.s.t, kev, r); ex.op(); std::vector<uint64_t> g; for(size_t k = 0; k < r->matched; k++) g.push_back(our_id(r->subs[k])); std::sort(g.begin(), g.end()); free_report(r); ex.checked(); if(ok != valid || g != w) ex.fail("search of a kept event returned %d %s, expected %d %s", ok, ids_text(g).c_str(), valid, ids_text(w).c_str()); }
    }
    void defs() { ex.note("  definition query"); for(size_t i = 0; i < s.d.size(); i++) { auto q = betree_get_variable_definition(s.s.t, i); ex.op(); if(s.d[i].name != q.name) ex.fail("definition %zu is %s, expected %s", i, q.name, s.d[i].name.c_str()); } }
};
static const int NOPS = 30;
static void apply(Api& a, int op, int salt) {
    static const VS G = good(), B = bad(); auto g = [&](int k) -> const std::string& { return G[(salt * 7 + k) % G.size()]; }; auto b = [&](int k) -> const std::string& { return B[(salt * 5 + k) % B.size()]; };
    switch(op) {
        case 0: a.ins(g(0), 0); break; case 1: a.ins(g(17), 0, 2); break; case 2: a.ins(g(43), 1); break; case 3: a.ins(g(28), 2, 2); break; case 4: a.ins(g(52), 0, 0); break; case 5: a.ins("i < 4 and s = \"a\"", 0); break;
        case 6: a.ins(b(0), 0); break; case 7: a.ins(b(8), 1); break; case 8: a.ins(b(16), 0, 2); break; case 9: a.ins(b(24), 1, 0); break; case 10: a.ins("i < 4 and", 0); break;
        case 11: a.ins("sl one of (\"p\", \"q\", \"r\", \"u\")", 0); break; case 12: a.ins("s = \"over" + std::to_string(salt) + "\"", 0); break; case 13: a.ins("within_frequency_cap(\"flight\", \"ns\", 3, 100) or b", salt & 1, 2); break;
        case 14: a.learn(g(5)); break; case 15: a.learn(b(3)); break; case 16: a.learn("j > 100 and g < 2.5 and t = \"learned\" and il one of (3, 900)"); break;
        case 17: a.search(RICH, 0); break; case 18: a.search(RICH, 1); break; case 19: a.search(POOR, 0); break; case 20: a.search(ODD, 1); break; case 21: a.search(MISSING, 0); break; case 22: a.search(MISSING, 1); break;
        case 23: a.search(RICH, 2); break; case 24: a.search(ODD, 3); break; case 25: a.search(MISSING, 2); break; case 26: a.search(MISSING, 3); break; case 27: a.search(salt & 1 ? RICH : MISSING, 4); break; case 28: a.search(ODD, 5); break;
        case 29: a.defs(); break;
    }
}
// every sequence of calls
static Body api_body(int depth0, int depth1, bool populated) {
    return [=](Ex& ex) {
        int cfg = ex.choose(populated ? 2 : 3), junk = ex.choose(2), n = ex.choose((ex.tier ? depth1 : depth0) + 1); std::vector<int> ops; for(int k = 0; k < n; k++) ops.push_back(ex.choose(NOPS)); ex.gate();
        vp_junk = junk ? 0x00 : 0xA5; ex.note("%s, fresh memory holds %02x", cfg == 0 ? "betree_make_with_parameters(1, 0)" : cfg == 1 ? "betree_make()" : "betree_init()", vp_junk);
        { Api a(ex, cfg == 0 ? cf(1) : cfg == 1 ? cf(-1) : cf(-1, 0, true)); if(populated) for(auto& t : good()) a.s.try_add(t, 0); uint64_t h = 0; for(int o : ops) h = hmix(h, o);
            for(size_t k = 0; k < ops.size(); k++) apply(a, ops[k], (int)(k * 3 + h % 11)); a.s.flush(); if(!a.s.items.empty()) { a.search(RICH, 1); a.search(POOR, 0); } ex.state(hmix(hmix(a.s.hs, junk), cfg)); }
        vp_junk = 0xA5;
    };
}
// every predicate form over every variable, well typed or not, on every route, then searches
static VS forms(const std::string& v) {
    VS o = {v}; for(const char* c : {"<", "<=", ">", ">="}) for(const char* k : {"5", "2.5", "-1"}) o.push_back(v + " " + c + " " + k);
    for(const char* c : {"=", "<>"}) for(const char* k : {"5", "2.5", "\"a\"", "-3"}) { o.push_back(v + " " + c + " " + k); o.push_back(std::string(k) + " " + c + " " + v); }
    for(const char* c : {"in", "not in"}) { for(const char* k : {"(1, 5)", "(\"a\", \"b\")", "(5)", "(\"a\")", "(1, 1)", "(\"a\", \"b\", \"a\")"}) o.push_back(v + " " + c + " " + k); for(const char* k : {"1", "\"a\"", "-5"}) o.push_back(std::string(k) + " " + c + " " + v); }
    for(const char* c : {"one of", "none of", "all of"}) for(const char* k : {"(1, 5)", "(\"a\", \"b\")", "(3)", "(\"c\")", "(4, 4, 4)", "(\"c\", \"c\")", "(9, 1)"}) o.push_back(v + " " + c + " " + k);
    for(const char* c : {"is null", "is not null", "is empty"}) o.push_back(v + " " + c);
    for(const char* c : {"contains", "starts_with", "ends_with"}) o.push_back(std::string(c) + "(" + v + ", \"a\")");
    for(const char* c : {"segment_within", "segment_before"}) o.push_back(std::string(c) + "(" + v + ", 1, 5)");
    o.push_back("2 < " + v); o.push_back("2.5 >= " + v); return o;
}
static Body forms_body() {
    return [](Ex& ex) {
        int vi = ex.choose((int)RD.size() + 2); std::string v = vi < (int)RD.size() ? parse_decl(RD[vi]).name : vi == (int)RD.size() ? "undeclared" : "(others)"; VS fs = v == "(others)" ? cat({good(), bad()}) : forms(v); int fi = ex.choose((int)fs.size()), ctx = ex.choose(ex.tier ? 6 : 4), route = ex.choose(4); ex.gate();
        std::string p = fs[fi], t = ctx == 0 ? p : ctx == 1 ? "not (" + p + ")" : ctx == 2 ? "j > 1 and (" + p + ")" : ctx == 3 ? "(" + p + ") or b" : ctx == 4 ? "(" + p + ") and (" + p + ")" : "not (t = \"new\" or not (" + p + "))";
        EP e = ref_parse(t); Decls d = parse_decls(RD); bool open = e && ref_unspecified(e, d);
        Api a(ex, cf(route & 1 ? 1 : 3)); for(const char* q : {"i < 4", "s = \"k\"", "il one of (1, 2)", "b"}) a.ins(q, 0);
        if(open) { Sut& s = a.s.s; if(route < 2) s.insert(77, t, cs1()); else { auto q = s.make_sub(77, t, cs1()); if(q) s.insert_sub(q); } for(auto& v : {RICH, POOR, ODD}) { s.search(evl(d, v), TEXT); s.exists(evl(d, v), PROG); } }
        else { if(route == 3) a.learn(t); a.ins(t, route == 2 ? 2 : route == 1 ? 1 : 0, route == 0 ? 2 : 1); a.s.flush(); a.ins(t, 0); a.search(RICH, 0); a.search(POOR, 1); a.search(ODD, 0); a.search(MISSING, 1); a.search(ODD, 3); }
        ex.state(hmix(a.s.hs, hstr(t) + route));
    };
}
// text that is not in the language leaves nothing behind, wherever the parser gives up
static const VS TOK = {"i", "b", "s", "il", "sl", "1", "2.5", "\"x\"", "-", "=", "<", "(", ")", ",", "in", "not in", "one of", "and", "or", "not", "is null", "true", "contains(", "segment_within(", "within_frequency_cap(", "geo_within_radius("};
static std::string join(const VS& v) { std::string o; for(auto& x : v) o += (o.empty() ? "" : " ") + x; return o; }
static Body tokens_body() {
    return [](Ex& ex) {
        int len = ex.choose(ex.tier ? 4 : 3); VS p; for(int k = 0; k < len; k++) p.push_back(ex.pick(TOK)); ex.gate(); ex.note("token sequences starting with %s", join(p).c_str());
        Decls d = parse_decls(RD); Sut s(ex, d, cf(3)); p.push_back(""); uint64_t id = 1;
        for(auto& t : TOK) { p.back() = t; std::string x = join(p); uint64_t live = vp_live_blocks; bool inlang = ref_parse(x) != nullptr; bool r = s.change_boundaries(x); if(!inlang && r) ex.fail("%s is not in the language but was accepted", x.c_str()); r = s.insert(id++, x, cs1()); if(!inlang && r) ex.fail("%s is not in the language but was accepted", x.c_str()); if(!inlang && vp_live_blocks != live) ex.fail("refusing %s leaves %lld block(s) allocated", x.c_str(), (long long)(vp_live_blocks - live)); ex.checked(2); }
        ex.state(hstr(join(p)));
    };
}
static const VS& samples() { static const VS v = {"i < 1 and ( s in ( \"x\" , \"y\" ) or not il one of ( 1 , - 2 ) )", "within_frequency_cap( \"flight\" , \"ns\" , 1 , 2 ) or segment_within( q , 1 , 5 ) and segment_before( 1 , 5 )", "geo_within_radius( 1.5 , - 2.5 , 3.0 ) and contains( s , \"x\" ) or starts_with( t , \"y\" )", "\"x\" in sl and 1 not in il or 2 <= i and 2.5 = f", "sl none of ( \"x\" , \"y\" , \"z\" ) or s = \"a\" or \"b\" <> t or j is not null", "not ( not ( b and c ) or i not in ( 1 , 2 , 3 ) ) and jl all of ( 4 )"}; return v; }
static Body truncated_body() { // every prefix, every token removed, doubled or replaced
    return [](Ex& ex) {
        const std::string& base = ex.pick(samples()); VS t; { std::string w; for(char c : base + " ") if(c == ' ') { if(!w.empty()) t.push_back(w); w.clear(); } else w += c; } int kind = ex.choose(4), at = ex.choose((int)t.size()); ex.gate();
        VS texts; if(kind == 0) texts.push_back(join(VS(t.begin(), t.begin() + at))); else if(kind == 1) { VS u = t; u.erase(u.begin() + at); texts.push_back(join(u)); } else { VS more = TOK; for(const char* x : {"\"open", "@", "99999999999999999999999", "is not null", "is empty", "all of", "||", "&&", "<>"}) more.push_back(x); for(auto& x : more) { VS u = t; if(kind == 2) u[at] = x; else u.insert(u.begin() + at, x); texts.push_back(join(u)); } }
        Decls d = parse_decls(RD); Sut s(ex, d, cf(3)); uint64_t id = 1;
        for(auto& x : texts) { ex.note("%s", x.c_str()); uint64_t live = vp_live_blocks; if(x.find("99999999999999999999999") != std::string::npos) continue; bool inlang = ref_parse(x) != nullptr; auto q = s.make_sub(id++, x, cs1()); ex.checked(); if(!inlang && q) ex.fail("%s is not in the language but was accepted", x.c_str()); if(!inlang && vp_live_blocks != live) ex.fail("refusing %s leaves %lld block(s) allocated", x.c_str(), (long long)(vp_live_blocks - live)); if(q) { s.insert_sub(q); s.search(evl(d, RICH), PROG); } ex.state(hstr(x)); }
    };
}
// objects the caller makes and releases without a tree
static Body objects_body() {
    return [](Ex& ex) {
        int kind = ex.choose(14), n = ex.choose(4), extra = ex.choose(3); ex.gate(); ex.note("object %d of size %d, way %d", kind, n, extra); static const char* strs[] = {"", "a", "longer than any small buffer in the library could be expected to hold"};
        auto il = [&] { auto* l = betree_make_integer_list(n); for(int k = 0; k < n; k++) betree_add_integer(l, extra == 1 ? n - 1 - k : k, k * (extra - 1)); return l; };
        auto sl = [&] { auto* l = betree_make_string_list(n); for(int k = 0; k < n; k++) betree_add_string(l, extra == 1 ? n - 1 - k : k, strs[(k + extra) % 3]); return l; };
        auto sg = [&] { auto* l = betree_make_segments(n); for(int k = 0; k < n; k++) betree_add_segment(l, extra == 1 ? n - 1 - k : k, betree_make_segment(k, k * 5)); return l; };
        auto cp = [&] { auto* l = betree_make_frequency_caps(n); for(int k = 0; k < n; k++) betree_add_frequency_cap(l, extra == 1 ? n - 1 - k : k, betree_make_frequency_cap(k & 1 ? "flight" : "campaign:ip", k, strs[k % 3], k & 1, k, k)); return l; };
        Decls d = parse_decls(RD); ex.op(3); ex.checked();
        switch(kind) {
            case 0: betree_free_integer_list(il()); break; case 1: betree_free_string_list(sl()); break; case 2: betree_free_segments(sg()); break; case 3: betree_free_frequency_caps(cp()); break;
            case 4: betree_free_segment(betree_make_segment(n, extra)); break; case 5: for(const char* t : {"advertiser", "advertiser:ip", "campaign", "campaign:ip", "flight", "flight:ip", "product", "product:ip"}) betree_free_frequency_cap(betree_make_frequency_cap(t, n, strs[extra], extra, n, 1)); break;
            case 6: { betree_variable* v = n == 0 ? betree_make_boolean_variable("b", extra) : n == 1 ? betree_make_integer_variable("i", extra) : n == 2 ? betree_make_float_variable("f", extra) : betree_make_string_variable("s", strs[extra]); betree_free_variable(v); break; }
            case 7: betree_free_variable(betree_make_integer_list_variable("il", il())); betree_free_variable(betree_make_string_list_variable("sl", sl())); break; case 8: betree_free_variable(betree_make_segments_variable("q", sg())); betree_free_variable(betree_make_frequency_caps_variable("frequency_caps", cp())); break;
            case 9: { betree_constant* c[4]; for(int k = 0; k < n; k++) c[k] = betree_make_integer_constant("flight_id", k); if(extra == 0) betree_free_constants(n, c); else for(int k = 0; k < n; k++) betree_free_constant(c[k]); break; }
            case 10: { Sut s(ex, d, extra == 2 ? cf(-1, 0, true) : cf(1)); betree_event* e = betree_make_event(s.t); betree_free_event(e); break; }
            case 11: { Sut s(ex, d, cf(1)); betree_event* e = betree_make_event(s.t); for(int k = 0; k < n; k++) betree_set_variable(e, k * 3 + extra, make_var(d[k * 3 + extra].name, *parse_val(d[k * 3 + extra].t, RICH[k * 3 + extra]))); if(n == 3) { betree_exists_with_event(s.t, e); } betree_free_event(e); break; }
            case 12: { report* r = make_report(); if(extra) { Sut s(ex, d, cf(1)); for(int k = 0; k < 40 * n; k++) s.insert(k, "true"); Ev e = evl(d, extra == 1 ? RICH : MISSING); betree_event* be = s.build(e); bool ok = betree_search_with_event(s.t, be, r); if(ok != (extra == 1) || (ok && r->matched != 40u * n)) ex.fail("%zu matched", r->matched); betree_free_event(be); } free_report(r); break; }
            case 13: { Decls none; if(extra == 0) { Sut s(ex, none, cf(1)); s.insert(1, "true"); s.insert(2, "x"); auto r = s.search_text("{}"); if(!r.ok || r.ids.size() != 1) ex.fail("a tree without variables matched %zu", r.ids.size()); if(!betree_exists(s.t, "{}")) ex.fail("nothing exists"); s.change_boundaries("true"); } else if(extra == 1) { Sut s(ex, none, cf(-1, 0, true)); } else { Sut s(ex, d, cf(n + 1)); } break; }
        }
        ex.state(hmix(kind * 100 + n * 10 + extra, 5));
    };
}
// many expressions: every split direction, growing tables, reports and lists
static Body growth_body() {
    return [](Ex& ex) {
        int kind = ex.choose(12), n = ex.pick(ex.tier ? std::vector<int>{1, 2, 5, 9, 33, 130, 400, 1500} : std::vector<int>{2, 9, 40, 130}), cap = ex.pick(std::vector<int>{1, 3, 40}), part = ex.choose(2) * 3, route = ex.choose(3); ex.gate(); ex.note("%d expressions of kind %d", n, kind);
        VS decls = {"b bool ?", "i int 0 1000", "j int ? -100000 100000", "f float 0 1000", "g float ?", "s str ?", "t str 5000", "il ilist ? 0 300", "sl slist 5000", "e enum 3000", "h enum ?", "q segs ?", "now int ?", "frequency_caps caps ?"};
        Scn s(ex, decls, cf(cap, part), cs1()); auto S = [](int k) { return std::to_string(k); };
        for(int k = 0; k < n; k++) { std::string t;
            switch(kind) { case 0: t = "i = " + S(k); break; case 1: t = "i < " + S(k) + " and j > " + S(-k * 13); break; case 2: t = "f > " + S(k) + ".5"; break; case 3: t = "g = " + S(k) + ".25 or g < -" + S(k) + ".5"; break; case 4: t = "s = \"v" + S(k) + "\""; break; case 5: t = "t in (\"w" + S(k) + "\", \"w" + S(k / 2) + "\")"; break; case 6: t = "il one of (" + S(k % 300) + ", " + S(k * 7 % 300) + ")"; break; case 7: t = "sl all of (\"l" + S(k) + "\", \"l" + S(k % 5) + "\")"; break; case 8: t = k < 2900 ? "e = " + S(k) : "b"; break;
                case 9: t = "within_frequency_cap(\"flight\", \"n" + S(k) + "\", 5, 0)"; break; case 10: { t = "i > 3"; for(int m = 0; m < std::min(k, 60); m++) t += (m & 1 ? " or s = \"p" : " and s <> \"p") + S(m) + "\""; break; } default: t = k % 3 == 0 ? "not (i = " + S(k) + " or s = \"x" + S(k) + "\")" : k % 3 == 1 ? "j in (" + S(k) + ", " + S(k + 1) + ", " + S(-k) + ")" : "b or h = " + S(k); }
            s.add(t, route == 2 ? 2 : route); }
        s.flush();
        for(int k = 0; k < 3; k++) { int x = k == 0 ? 0 : k == 1 ? n / 2 : n - 1; Ev e = s.ev({k ? "true" : "-", S(x), S(x), S(x) + ".75", k ? S(x) + ".25" : "-", "\"v" + S(x) + "\"", "\"w" + S(x) + "\"", "[" + S(x % 300) + "]", "[\"l" + S(x) + "\",\"l" + S(x % 5) + "\"]", S(x), k ? S(x) : "-", "-", "5", "[[\"flight\",14,\"n1\",9,0]]"}); s.check(e, k & 1, true); s.check(e, !(k & 1)); }
        s.hs = hmix(hmix(s.hs, kind), n); s.done();
    };
}
// trees next to each other, released in either order
static Body two_trees_body() {
    return [](Ex& ex) {
        int n = ex.tier ? 5 : 4; std::vector<int> ops; for(int k = 0; k < n; k++) ops.push_back(ex.choose(12)); int order = ex.choose(2); ex.gate();
        auto a = std::make_unique<Api>(ex, cf(1)); auto b = std::make_unique<Api>(ex, cf(3)); static const int sel[6] = {0, 3, 10, 13, 17, 28}; uint64_t h = order;
        for(size_t k = 0; k < ops.size(); k++) { ex.note("tree %d:", ops[k] % 2); apply(ops[k] & 1 ? *b : *a, sel[ops[k] / 2], (int)k + ops[k]); h = hmix(h, ops[k]); }
        a->s.flush(); b->s.flush(); if(order) { a.reset(); b->search(RICH, 1); b.reset(); } else { b.reset(); a->search(RICH, 0); a.reset(); } ex.state(h);
    };
}
void register_props(std::vector<PropDef>& out) {
    out.push_back({"C17", {{"objects", objects_body(), 3, 3}, {"calls", api_body(3, 4, false), 3, 3}, {"calls-on-a-full-tree", api_body(2, 3, true), 3, 3}, {"predicates", forms_body(), 3, 3}, {"refused-texts", tokens_body(), 3, 3}, {"cut-texts", truncated_body(), 3, 3}, {"growth", growth_body(), 3, 3}, {"two-trees", two_trees_body(), 3, 3}, {"declared-later", late::body(), 2, 3}}});
}
