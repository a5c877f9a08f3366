// C18 comparison and copies, C19 containers.
#include "wide.h"
#include "vpalloc.h"
#include "g_shim.h"
#include <cstring>
#include <numeric>
#include <set>
#include <unordered_map>
// ---- C18 ------------------------------------------------------------------------------------------
static const VS CD = {"b bool ?", "c bool ?", "i int ?", "j int ?", "f float ?", "g float ?", "s str ?", "t str ?", "e enum ?", "h enum ?", "il ilist ?", "jl ilist ?", "sl slist ?", "tl slist ?", "q segs ?", "segments_with_timestamp segs ?", "frequency_caps caps ?", "now int ?", "latitude float ?", "longitude float ?"};
static const std::vector<VS> CV = {
    {"true", "-", "false"}, {"false", "-", "true"}, {"1", "-", "2", "3", "0", "20", "4294967297", "-4294967294"}, {"2", "-", "1", "3"}, {"0.3", "-", "0.30000000000000004", "0.0", "1.0", "2.0", "-0.5"}, {"1.0", "-", "0.3", "2.0"},
    {"\"a\"", "-", "\"b\"", "\"ab\"", "\"zz\""}, {"\"b\"", "-", "\"a\"", "\"ab\""}, {"1", "-", "2", "7"}, {"2", "-", "1"}, {"[1]", "-", "[]", "[1,2]", "[2]", "[2,3]", "[3]"}, {"[2]", "-", "[1]", "[]", "[1,2]"},
    {"[\"a\"]", "-", "[]", "[\"a\",\"b\"]", "[\"b\"]", "[\"b\",\"c\"]", "[\"zz\"]"}, {"[\"b\"]", "-", "[\"a\"]", "[]"},
    {"[[1,5000000]]", "-", "[]", "[[1,1000000],[2,8000000]]", "[[2,5000000]]"}, {"[[2,5000000]]", "-", "[[1,5000000]]", "[]"},
    {"[[\"flight\",10,\"ns\",1,100]]", "-", "[]", "[[\"flight\",10,\"ns\",2,100]]", "[[\"flight\",11,\"ns\",5,100]]", "[[\"campaign\",10,\"ns\",5,100]]", "[[\"flight\",10,\"nt\",5,100]]", "[[\"campaign\",10,\"nt\",5,100]]", "[[\"advertiser:ip\",10,\"ns\",5,100]]"},
    {"10", "-", "5", "6", "200", "110"}, {"45.0", "-", "0.0", "44.9"}, {"-73.0", "-", "0.0", "-73.1"}};
struct XP { std::string t; std::vector<Const> cs; };
static const std::vector<XP>& catoms() {
    static std::vector<XP> a; if(!a.empty()) return a;
    auto ad = [&](const char* t) { a.push_back({t, {}}); };
    for(const char* t : {"b", "c", "true", "false",
        "i < 1", "i <= 1", "i > 1", "i >= 1", "i < 2", "i <= 2", "j < 1", "j >= 1", "i < -1", "i > 0",
        "f < 0.3", "f <= 0.3", "f < 0.30000000000000004", "f <= 0.30000000000000004", "f > 0.3", "f >= 0.30000000000000004", "f >= 0.3", "g < 0.3", "f < 1.0", "f < 2.0",
        "i = 1", "i <> 1", "i = 2", "j = 1", "f = 0.3", "f = 0.30000000000000004", "f <> 0.3", "g = 0.3", "f = 1.0", "f = 0.0", "f = -0.5",
        "s = \"a\"", "s <> \"a\"", "s = \"b\"", "s = \"ab\"", "t = \"a\"", "t = \"b\"", "e = 1", "e <> 1", "e = 2", "h = 1", "h = 2",
        "i in (1)", "i in (1,2)", "i in (2,1)", "i in (1,3)", "i not in (1,2)", "j in (1,2)", "i in (1,2,3)", "s in (\"a\")", "s in (\"a\",\"b\")", "s in (\"b\",\"a\")", "s in (\"a\",\"ab\")", "s not in (\"a\",\"b\")", "t in (\"a\",\"b\")", "t in (\"b\")", "s in (\"b\")",
        "1 in il", "1 not in il", "2 in il", "1 in jl", "\"a\" in sl", "\"a\" not in sl", "\"b\" in sl", "\"a\" in tl", "\"b\" in tl",
        "il one of (1,2)", "il none of (1,2)", "il all of (1,2)", "il one of (1,3)", "il one of (1)", "jl one of (1,2)", "il one of (2,1)", "il all of (2)",
        "sl one of (\"a\",\"b\")", "sl none of (\"a\",\"b\")", "sl all of (\"a\",\"b\")", "sl one of (\"b\",\"c\")", "sl one of (\"a\")", "tl one of (\"a\",\"b\")", "tl one of (\"b\",\"c\")", "sl all of (\"b\")",
        "i is null", "i is not null", "j is null", "il is empty", "il is null", "il is not null", "sl is empty", "jl is empty", "s is null", "s is not null", "t is null", "f is null", "e is null",
        "segment_within(q, 1, 5)", "segment_before(q, 1, 5)", "segment_within(q, 2, 5)", "segment_within(q, 1, 6)", "segment_within(1, 5)", "segment_before(1, 5)", "segment_within(segments_with_timestamp, 1, 5)", "segment_within(2, 5)", "segment_within(1, 6)",
        "geo_within_radius(45, -73, 10)", "geo_within_radius(45.0, -73.0, 10.0)", "geo_within_radius(45, -73, 20)", "geo_within_radius(0, 0, 10)", "geo_within_radius(45, 73, 10)", "geo_within_radius(0, -73, 10)",
        "contains(s, \"a\")", "contains(s, \"b\")", "starts_with(s, \"a\")", "ends_with(s, \"a\")", "ends_with(s, \"b\")", "contains(t, \"a\")", "contains(s, \"ab\")", "contains(s, \"A\")",
        // constants wider than 32 bits, long lists and strings
        "i < 4294967297", "i > -4294967295", "i = 4294967297", "i <> 4294967298", "i in (1,4294967298)", "i in (3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20)", "4294967297 in il", "il one of (3,4294967298)", "e = 4294967298",
        "segment_within(q, 1, 4294967301)", "segment_before(1, 4294967301)", "segment_within(q, 4294967297, 5)", "segment_before(4294967298, 5)",
        "s = \"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab\"", "contains(s, \"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac\")"}) ad(t);
    const char* fr = "within_frequency_cap(\"flight\", \"ns\", 1, 100)";
    a.push_back({fr, {{"flight_id", 10}}}); a.push_back({fr, {{"flight_id", 11}}}); a.push_back({"within_frequency_cap(\"flight\", \"ns\", 2, 100)", {{"flight_id", 10}}}); a.push_back({"within_frequency_cap(\"flight\", \"ns\", 1, 0)", {{"flight_id", 10}}});
    a.push_back({"within_frequency_cap(\"flight\", \"ns\", 1, 4294967396)", {{"flight_id", 10}}}); a.push_back({"within_frequency_cap(\"flight\", \"ns\", 3000000000, 100)", {{"flight_id", 10}}});
    a.push_back({"within_frequency_cap(\"flight\", \"nt\", 1, 100)", {{"flight_id", 10}}}); a.push_back({"within_frequency_cap(\"campaign\", \"ns\", 1, 100)", {{"campaign_id", 10}}}); a.push_back({"within_frequency_cap(\"advertiser:ip\", \"ns\", 1, 100)", {{"advertiser_id", 10}}});
    return a;
}
typedef std::vector<uint64_t> Bits;
struct CData { Decls d; std::vector<Ev> ev, sweep; std::vector<Bits> tv; };
static CData& cdata() {
    static CData x; if(!x.ev.empty()) return x;
    x.d = parse_decls(CD); size_t n = CV.size();
    auto mk = [&](const std::vector<int>& ix) { Ev e; for(size_t k = 0; k < n; k++) e.v.push_back(parse_val(x.d[k].t, CV[k][ix[k]])); return e; };
    for(int base = 0; base < 2; base++) {
        std::vector<int> z(n, base); x.ev.push_back(mk(z)); x.sweep.push_back(mk(z));
        for(size_t p = 0; p < n; p++) for(size_t v = 0; v < CV[p].size(); v++) { auto y = z; y[p] = (int)v; x.sweep.push_back(mk(y)); x.ev.push_back(x.sweep.back()); for(size_t r = p + 1; r < n; r++) for(size_t w = 0; w < CV[r].size(); w++) { auto u = y; u[r] = (int)w; x.ev.push_back(mk(u)); } }
    }
    // frequency caps, segments: with every time and list
    for(size_t v = 0; v < CV[16].size(); v++) for(size_t w = 0; w < CV[17].size(); w++) { std::vector<int> z(n, 1); z[16] = (int)v; z[17] = (int)w; x.sweep.push_back(mk(z)); }
    for(size_t q = 14; q < 16; q++) for(size_t v = 0; v < CV[q].size(); v++) for(size_t w = 0; w < CV[17].size(); w++) { std::vector<int> z(n, 1); z[q] = (int)v; z[17] = (int)w; x.sweep.push_back(mk(z)); }
    for(size_t v = 0; v < CV[18].size(); v++) for(size_t w = 0; w < CV[19].size(); w++) { std::vector<int> z(n, 1); z[18] = (int)v; z[19] = (int)w; x.sweep.push_back(mk(z)); }
    for(auto& a : catoms()) { EP e = ref_parse(a.t); if(!e) { fprintf(stderr, "harness: %s is not in the language\n", a.t.c_str()); abort(); } Bits b((x.ev.size() + 63) / 64, 0); for(size_t k = 0; k < x.ev.size(); k++) if(ref_eval(e, x.d, x.ev[k], a.cs)) b[k / 64] |= 1ull << (k & 63); x.tv.push_back(b); }
    return x;
}
static Bits bnot(const Bits& a) { Bits r = a; for(auto& x : r) x = ~x; if(size_t m = cdata().ev.size() & 63) r.back() &= (1ull << m) - 1; return r; }
static Bits band(const Bits& a, const Bits& b) { Bits r = a; for(size_t k = 0; k < r.size(); k++) r[k] &= b[k]; return r; }
static Bits bor(const Bits& a, const Bits& b) { Bits r = a; for(size_t k = 0; k < r.size(); k++) r[k] |= b[k]; return r; }
static std::vector<Const> both(const std::vector<Const>& a, const std::vector<Const>& b) { auto r = a; for(auto& x : b) { bool f = false; for(auto& y : r) if(y.name == x.name) f = true; if(!f) r.push_back(x); } return r; }
static bool clash(const std::vector<Const>& a, const std::vector<Const>& b) { for(auto& x : a) for(auto& y : b) if(x.name == y.name && x.value != y.value) return true; return false; }
struct Node { std::string t; std::vector<Const> cs; Bits tv; void* n = nullptr; const betree_sub* sub = nullptr; };
static Bits diffpos(const Bits& a, const Bits& b, size_t& at) { Bits r = a; at = 0; for(size_t k = 0; k < a.size(); k++) if(a[k] != b[k]) { at = k * 64 + __builtin_ctzll(a[k] ^ b[k]); return r; } return r; }
// every pair and triple of nodes in a tree
static void laws(Ex& ex, const std::vector<Node>& v, size_t from, size_t to, bool shallow_cmp, const Decls* wd = nullptr, const std::vector<Ev>* wev = nullptr) {
    size_t n = v.size(); auto sg = [](int x) { return x < 0 ? -1 : x > 0; };
    std::vector<uint8_t> eq(n * n); std::vector<int8_t> cm(n * n);
    for(size_t a = 0; a < n; a++) for(size_t b = 0; b < n; b++) { eq[a * n + b] = gs_eq(v[a].n, v[b].n); cm[a * n + b] = sg(gs_cmp(v[a].n, v[b].n)); }
    ex.op(2 * n * n);
    auto nm = [&](size_t a) { std::string o = v[a].t; for(auto& c : v[a].cs) o += " {" + c.name + " " + std::to_string(c.value) + "}"; return o; };
    for(size_t a = from; a < to; a++) for(size_t b = 0; b < n; b++) {
        bool q = eq[a * n + b]; int c = cm[a * n + b]; ex.checked(4);
        bool same = v[a].t == v[b].t && !clash(v[a].cs, v[b].cs);
        if(same && !q) ex.fail("equality does not identify two parses of %s", nm(a).c_str());
        if(same && c) ex.fail("ordering tells two parses of %s apart: %d", nm(a).c_str(), c);
        if(q != (bool)eq[b * n + a]) ex.fail("equality is not symmetric for %s and %s", nm(a).c_str(), nm(b).c_str());
        if(c != -cm[b * n + a]) ex.fail("ordering is not antisymmetric for %s and %s: %d, %d", nm(a).c_str(), nm(b).c_str(), c, cm[b * n + a]);
        if((q || !c) && v[a].tv != v[b].tv) { size_t at; diffpos(v[a].tv, v[b].tv, at); ex.fail("%s takes %s and %s for the same, but they differ for %s", q ? "equality" : "ordering", nm(a).c_str(), nm(b).c_str(), wd ? ev_text(*wd, (*wev)[at]).c_str() : ev_text(cdata().d, cdata().ev[at]).c_str()); }
        for(size_t k = 0; k < n; k++) {
            if(q && eq[b * n + k] && !eq[a * n + k]) ex.fail("equality is not transitive: %s, %s, %s", nm(a).c_str(), nm(b).c_str(), nm(k).c_str());
            if(c <= 0 && cm[b * n + k] <= 0) { int w = (c < 0 || cm[b * n + k] < 0) ? -1 : 0; if(cm[a * n + k] != w) ex.fail("ordering is not transitive: %s, %s, %s", nm(a).c_str(), nm(b).c_str(), nm(k).c_str()); }
        }
    }
    (void)shallow_cmp;
}
static void build_nodes(Ex& ex, Sut& s, std::vector<Node>& v) { uint64_t id = 1; for(auto& x : v) { x.sub = s.make_sub(id++, x.t, x.cs); if(!x.sub) ex.fail("building refused: %s", x.t.c_str()); x.n = gs_expr(x.sub); } }
static void insert_nodes(Ex& ex, Sut& s, std::vector<Node>& v) { for(auto& x : v) if(!s.insert_sub(x.sub)) ex.fail("insertion refused: %s", x.t.c_str()); }
static Body atoms_body() { // all atoms in one tree, each parsed twice; one worker takes one first element
    return [](Ex& ex) {
        size_t m = catoms().size(); int a = ex.choose((int)m); int order = ex.choose(2); ex.gate(); CData& x = cdata();
        std::vector<Node> v; for(int r = 0; r < 2; r++) for(size_t k = 0; k < m; k++) { size_t q = (order ? m - 1 - k : k); v.push_back({catoms()[q].t, catoms()[q].cs, x.tv[q]}); }
        ex.note("every pair and triple that starts with %s", v[a].t.c_str());
        Sut s(ex, x.d, Cfg{3, 0, false}); build_nodes(ex, s, v); laws(ex, v, a, a + 1, false); insert_nodes(ex, s, v); ex.state(hmix(a, order));
    };
}
static std::vector<Node> compounds(size_t a, size_t b, bool more) {
    CData& x = cdata(); const XP &p = catoms()[a], &q = catoms()[b]; auto cs = both(p.cs, q.cs); std::string A = "(" + p.t + ")", B = "(" + q.t + ")";
    std::vector<Node> v; auto ad = [&](const std::string& t, const Bits& tv, const std::vector<Const>& c) { v.push_back({t, c, tv}); };
    const Bits &ta = x.tv[a], &tb = x.tv[b];
    ad(p.t, ta, p.cs); ad(q.t, tb, q.cs); ad("not " + A, bnot(ta), p.cs); ad("not " + B, bnot(tb), q.cs); ad(A + " and " + B, band(ta, tb), cs); ad(B + " and " + A, band(ta, tb), cs); ad(A + " or " + B, bor(ta, tb), cs); ad("not (" + A + " or " + B + ")", bnot(bor(ta, tb)), cs);
    if(more) { ad(A + " and not " + B, band(ta, bnot(tb)), cs); ad("not " + A + " and " + B, band(bnot(ta), tb), cs); ad("not (" + A + " and " + B + ")", bnot(band(ta, tb)), cs); ad("(" + A + " or " + B + ") and " + A, band(bor(ta, tb), ta), cs); ad("(" + A + " and " + B + ") or " + B, bor(band(ta, tb), tb), cs); ad("not not " + A, ta, p.cs); ad(A + " and " + A, ta, p.cs); ad(B + " or " + B, tb, q.cs); }
    return v;
}
static Body pairs_body() {
    return [](Ex& ex) {
        int m = (int)catoms().size(); int a = ex.choose(m), b = ex.choose(m); if(b < a) throw Skip(); if(clash(catoms()[a].cs, catoms()[b].cs)) throw Skip(); ex.gate();
        auto v = compounds(a, b, ex.tier); size_t n = v.size(); for(size_t k = 0; k < n; k++) v.push_back(v[k]);
        ex.note("%s with %s", v[0].t.c_str(), v[1].t.c_str());
        Sut s(ex, cdata().d, Cfg{3, 0, false}); build_nodes(ex, s, v); laws(ex, v, 0, v.size(), false); insert_nodes(ex, s, v); ex.state(hmix(a, b));
    };
}
// Copies made in one tree live on in an identical one; copies thrown away leave the original alone.
static Body clone_body() {
    return [](Ex& ex) {
        int m = (int)catoms().size(); int a = ex.choose(m); int step = ex.tier ? 1 : 9; int b = ex.choose((m + step - 1) / step) * step; if(clash(catoms()[a].cs, catoms()[b].cs)) throw Skip(); int own = ex.choose(2); ex.gate();
        CData& x = cdata(); auto v = compounds(a, b, ex.tier); size_t n = v.size(); ex.note("%s with %s", v[0].t.c_str(), v[1].t.c_str());
        std::vector<void*> cl;
        auto cmp = [&](Sut& s, const char* when, bool clones, int off) { for(size_t k = off; k < x.sweep.size(); k += 2) { Res r = s.search(x.sweep[k], PROG); ex.checked(); std::vector<uint64_t> w; for(size_t j = 0; j < n; j++) if(ref_eval(ref_parse(v[j].t), x.d, x.sweep[k], v[j].cs)) w.push_back(j + 1); if(clones) { size_t h = w.size(); for(size_t j = 0; j < h; j++) w.push_back(w[j] + 1000); } if(!r.ok || r.ids != w) ex.fail("%s: search of %s returned %d %s, expected %s (copies are numbered from 1001)", when, ev_text(x.d, x.sweep[k]).c_str(), r.ok, ids_text(r.ids).c_str(), ids_text(w).c_str()); } };
        {
            Sut A(ex, x.d, Cfg{1, 0, false}); build_nodes(ex, A, v);
            for(auto& y : v) { void* c = gs_clone(y.n); cl.push_back(c); ex.op(); if(!gs_eq(c, y.n) || !gs_eq(y.n, c)) ex.fail("a copy is not equal to its original: %s", y.t.c_str()); if(gs_cmp(c, y.n)) ex.fail("a copy is ordered apart from its original: %s", y.t.c_str()); void* cc = gs_clone(c); if(!gs_eq(cc, y.n)) ex.fail("a copy of a copy is not equal to the original: %s", y.t.c_str()); gs_free_node(cc); }
            insert_nodes(ex, A, v);
            if(own) { for(void* c : cl) gs_free_node(c); cmp(A, "after freeing the copies", false, a & 1); ex.state(hmix(a * 7 + own, b)); return; }
        }
        Sut B(ex, x.d, Cfg{1, 0, false}); build_nodes(ex, B, v); insert_nodes(ex, B, v);
        for(size_t k = 0; k < n; k++) if(!gs_insert_node(B.t, lib_id(1001 + k), cl[k])) ex.fail("insertion of a copy refused");
        cmp(B, "with copies", true, b & 1); ex.state(hmix(a * 7 + own, b));
    };
}
// predicates that differ in one place: told apart, also inside compounds, and copied exactly
static Body alike_body() {
    return [](Ex& ex) {
        auto& w = wide::all(ex.tier); int k = ex.choose((int)w.size()), form = ex.choose(5); ex.gate(); const Wide& x = w[k]; Decls d = parse_decls(x.decls);
        auto wrap = [&](const std::string& t, int f) { switch(f) { case 0: return t; case 1: return "not (" + t + ")"; case 2: return "(" + t + ") and (" + x.x + ")"; case 3: return "(" + x.y + ") or (" + t + ")"; default: return "not ((" + x.x + ") and not (" + t + "))"; } };
        if(form > 1 && !x.cx.empty() && x.cx[0].value != x.cy[0].value) throw Skip();
        std::vector<Node> v; std::vector<Ev> evs; for(auto& e : x.evs) { Ev o; for(size_t i = 0; i < d.size(); i++) o.v.push_back(parse_val(d[i].t, e[i])); evs.push_back(o); }
        for(int r = 0; r < 2; r++) for(int s = 0; s < 2; s++) { Node n{wrap(s ? x.y : x.x, form), s ? x.cy : x.cx, Bits(1, 0)}; EP e = ref_parse(n.t); for(size_t q = 0; q < evs.size() && q < 64; q++) if(ref_eval(e, d, evs[q], n.cs)) n.tv[0] |= 1ull << q; v.push_back(n); }
        ex.note("%s and %s", v[0].t.c_str(), v[1].t.c_str());
        Sut s(ex, d, Cfg{1, 0, false}); build_nodes(ex, s, v); laws(ex, v, 0, v.size(), false, &d, &evs);
        for(auto& y : v) for(auto& z : v) { void* c = gs_clone(y.n); ex.op(); ex.checked(2); if(gs_eq(c, z.n) != gs_eq(y.n, z.n)) ex.fail("a copy of %s is %sequal to %s", y.t.c_str(), gs_eq(c, z.n) ? "" : "not ", z.t.c_str()); int a = gs_cmp(c, z.n), b = gs_cmp(y.n, z.n); if((a > 0) != (b > 0) || (a < 0) != (b < 0)) ex.fail("a copy of %s is ordered differently from it, relative to %s", y.t.c_str(), z.t.c_str()); gs_free_node(c); }
        std::vector<void*> cl; for(auto& y : v) cl.push_back(gs_clone(y.n)); insert_nodes(ex, s, v); for(size_t q = 0; q < cl.size(); q++) if(!gs_insert_node(s.t, lib_id(1001 + q), cl[q])) ex.fail("insertion of a copy refused");
        for(size_t q = 0; q < evs.size(); q++) { Res r = s.search(evs[q], PROG); ex.checked(); std::vector<uint64_t> want; for(size_t z = 0; z < v.size(); z++) if(v[z].tv[0] >> q & 1) want.push_back(z + 1); size_t h = want.size(); for(size_t z = 0; z < h; z++) want.push_back(want[z] + 1000); if(!r.ok || r.ids != want) ex.fail("search of %s returned %d %s, expected %s (copies are numbered from 1001)", ev_text(d, evs[q]).c_str(), r.ok, ids_text(r.ids).c_str(), ids_text(want).c_str()); }
        ex.state(hmix(k, form));
    };
}
// ---- C19 ------------------------------------------------------------------------------------------
static unsigned mhash(const std::string& s) { unsigned h = 5381; for(char c : s) h = ((h << 5u) + h) ^ (unsigned)c; return h; }
static const std::vector<std::pair<std::string, std::string>>& collisions() { // pairs with the same hash
    static std::vector<std::pair<std::string, std::string>> r; if(!r.empty()) return r;
    std::unordered_map<unsigned, std::string> seen; for(int a = 33; a < 127; a++) for(int b = 33; b < 127; b++) { std::string s{(char)a, (char)b}; auto it = seen.find(mhash(s)); if(it != seen.end() && r.size() < 2) r.push_back({it->second, s}); seen[mhash(s)] = s; }
    if(r.size() < 2) r = {{"aa", "ab"}, {"ba", "bb"}}; return r;
}
struct MapM { Ex& ex; void* m = gm_new(); std::map<std::string, uint64_t> ref; explicit MapM(Ex& e) : ex(e) {} ~MapM() { gm_delete(m); }
    void set(const std::string& k, uint64_t v) { ex.op(); if(gm_set(m, k.c_str(), v)) ex.fail("setting %s failed", k.c_str()); ref[k] = v; }
    void rm(const std::string& k) { ex.op(); gm_remove(m, k.c_str()); ref.erase(k); }
    void get(const std::string& k) { uint64_t v = 0; bool f = gm_get(m, k.c_str(), &v); auto it = ref.find(k); ex.checked(); if(f != (it != ref.end()) || (f && v != it->second)) ex.fail("looking up \"%s\" gave %d %llu, expected %d %llu", k.c_str(), f, (unsigned long long)v, it != ref.end(), it == ref.end() ? 0ull : (unsigned long long)it->second); }
    void iter() { std::vector<const char*> b(ref.size() + 4); size_t n = gm_keys(m, b.data(), ref.size() + 2); ex.checked(); if(n != ref.size()) ex.fail("iteration visits %zu keys, expected %zu", n, ref.size()); std::set<std::string> s; for(size_t k = 0; k < n; k++) if(!s.insert(b[k]).second) ex.fail("iteration visits %s twice", b[k]); for(auto& x : ref) if(!s.count(x.first)) ex.fail("iteration misses %s", x.first.c_str()); if(gm_count(m) != ref.size()) ex.fail("the map counts %u entries, expected %zu", gm_count(m), ref.size()); }
};
static Body map_body(int depth0, int depth1, std::vector<int> fill) {
    return [=](Ex& ex) {
        int pre = ex.pick(fill); auto& c = collisions(); const VS keys = {c[0].first, c[0].second, "", std::string(61, 'k'), "\xc3\xa9\xff"}; int nk = (int)keys.size(), depth = ex.tier ? depth1 : depth0;
        std::vector<int> ops; for(int k = 0; k < depth; k++) ops.push_back(ex.choose(2 * nk)); ex.gate();
        MapM m(ex); ex.note("%d keys first", pre); for(int k = 0; k < pre; k++) m.set("f" + std::to_string(k), k); uint64_t v = 1000, h = pre;
        for(int o : ops) { const std::string& k = keys[o % nk]; if(o < nk) { ex.note("set \"%s\" %llu", k.c_str(), (unsigned long long)++v); m.set(k, v); } else { ex.note("remove \"%s\"", k.c_str()); m.rm(k); } for(auto& q : keys) m.get(q); m.iter(); }
        for(int k = 0; k < pre; k++) m.get("f" + std::to_string(k)); for(auto& x : m.ref) h = hmix(h, hstr(x.first) + x.second); ex.state(h);
    };
}
static Body map_long_body() { // long keys that share their hash value, their beginning or their end
    return [](Ex& ex) {
        int pre = ex.pick(wide::lengths(ex.tier)), end = ex.pick(std::vector<int>{0, 1, 40, 250}), fill = ex.pick(std::vector<int>{0, 3, 40}), first = ex.choose(6); ex.gate(); auto q = wide::colliding(pre, end); std::string c = q.second; c[pre + 2] ^= 1; VS ks = {q.first, q.second, c}; uint64_t v = 5;
        static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; MapM m(ex); for(int k = 0; k < fill; k++) m.set("f" + std::to_string(k), k); auto all = [&] { for(auto& k : ks) m.get(k); m.get(ks[0] + "q"); m.get(ks[0].substr(1)); m.get(ks[0].substr(0, ks[0].size() - 1)); m.iter(); };
        for(int k : P[first]) { m.set(ks[k], ++v); all(); } for(int k : P[first]) { m.set(ks[k], ++v); all(); } for(int k : P[5 - first]) { m.rm(ks[k]); all(); m.rm(ks[k]); } m.set(ks[0], ++v); all(); ex.state(hmix(hmix(pre, end), fill * 8 + first));
    };
}
static Body map_growth_body() {
    return [](Ex& ex) {
        int n = ex.pick(std::vector<int>{1, 2, 3, 7, 8, 9, 63, 64, 65, 500, 5000}), stride = ex.pick(std::vector<int>{1, 2, 3, 7}), shape = ex.choose(3), wide = ex.choose(2); ex.gate();
        ex.note("%d keys, removing every %dth, key shape %d", n, stride, shape);
        auto key = [&](int k) { return shape == 0 ? "k" + std::to_string(k) : shape == 1 ? std::string(k % 97, 'x') + std::to_string(k) : std::string(1 + k % 5, (char)(33 + k % 90)) + "_" + std::to_string(k * 2654435761u); };
        if(wide) { void* m = gm24_new(); std::map<std::string, uint64_t> ref; for(int k = 0; k < n; k++) { gm24_set(m, key(k).c_str(), k); ref[key(k)] = k; } for(int k = 0; k < n; k += stride) { gm24_set(m, key(k).c_str(), k + 7000000); ref[key(k)] = k + 7000000; }
            for(auto& x : ref) { uint64_t v = 0; ex.checked(); if(!gm24_get(m, x.first.c_str(), &v) || v != x.second) ex.fail("looking up %s gave %llu, expected %llu", x.first.c_str(), (unsigned long long)v, (unsigned long long)x.second); } uint64_t v; if(gm24_get(m, "absent", &v)) ex.fail("an absent key is found"); gm24_delete(m); }
        else { MapM m(ex); m.get("k0"); m.rm("k0"); m.iter(); for(int k = 0; k < n; k++) m.set(key(k), k); m.iter(); for(int k = 0; k < n; k += stride) m.rm(key(k)); m.iter(); for(int k = 0; k < n; k++) m.get(key(k)); for(int k = 0; k < n; k += stride + 1) m.set(key(k), k + 5); for(int k = 0; k < n; k++) m.get(key(k)); m.iter(); for(int k = n; k-- > 0;) m.rm(key(k)); m.iter(); for(int k = 0; k < n; k++) m.set(key(k), k + 9); m.iter(); for(int k = 0; k < n; k++) m.get(key(k)); }
        ex.state(hmix(n * 100 + stride, shape * 2 + wide));
    };
}
struct SetM { Ex& ex; void* t = gr_new(); std::map<int, int*> ref; std::vector<std::unique_ptr<int>> store; explicit SetM(Ex& e) : ex(e) {} ~SetM() { gr_delete(t); }
    void ins(int k) { store.emplace_back(new int(k)); int* p = store.back().get(); ex.op(); int r = gr_insert(t, p); bool fresh = !ref.count(k); if(r != (int)fresh) ex.fail("inserting %d answered %d, expected %d", k, r, fresh); if(fresh) ref[k] = p; }
    void del(int k) { int key = k; ex.op(); int r = gr_erase(t, &key); bool there = ref.count(k); if(r != (int)there) ex.fail("erasing %d answered %d, expected %d", k, r, there); ref.erase(k); }
    void check(int lo, int hi) { for(int k = lo; k <= hi; k++) { int key = k; int* f = gr_find(t, &key); auto it = ref.find(k); ex.checked(); if(f != (it == ref.end() ? nullptr : it->second)) ex.fail("looking for %d gave %s, expected %s", k, f ? std::to_string(*f).c_str() : "nothing", it == ref.end() ? "nothing" : "the stored element"); } if(gr_size(t) != ref.size()) ex.fail("the set reports %zu elements, expected %zu", gr_size(t), ref.size()); }
};
static std::vector<int> perm(Ex& ex, int n) { std::vector<int> a(n), r; std::iota(a.begin(), a.end(), 0); while(!a.empty()) { int k = ex.choose((int)a.size()); r.push_back(a[k]); a.erase(a.begin() + k); } return r; }
static Body set_perm_body() { // every insertion order, every erasure order (all its prefixes are checked)
    return [](Ex& ex) {
        int n = 1 + ex.choose(ex.tier ? 7 : 6); auto in = perm(ex, n); ex.gate(); auto out = perm(ex, n);
        SetM s(ex); for(int k : in) { ex.note("insert %d", 2 * k); s.ins(2 * k); } s.check(-1, 2 * n); for(int k : out) { ex.note("erase %d", 2 * k); s.del(2 * k); s.check(-1, 2 * n); } uint64_t h = n; for(int k : in) h = hmix(h, k); for(int k : out) h = hmix(h, k); ex.state(h);
    };
}
static Body set_insert_body() {
    return [](Ex& ex) {
        int n = ex.tier ? 9 : 8; auto in = perm(ex, n); ex.gate();
        SetM s(ex); for(int k : in) { s.ins(2 * k); s.ins(2 * in[0]); } s.check(-1, 2 * n); uint64_t h = n; for(int k : in) { h = hmix(h, k); s.ins(2 * k); } s.check(-1, 2 * n);
        for(int k = 0; k <= n; k++) { s.del(2 * k + 1); s.check(-1, 2 * n); } ex.state(h);
    };
}
static Body set_ops_body() { // insertions (also of present elements) and erasures (also of absent ones)
    return [](Ex& ex) {
        int pre = ex.pick(std::vector<int>{0, 3, 7}), nk = 5, depth = ex.tier ? 7 : 5; std::vector<int> ops; for(int k = 0; k < depth; k++) ops.push_back(ex.choose(2 * nk)); ex.gate();
        SetM s(ex); for(int k = 0; k < pre; k++) { ex.note("insert %d", 10 * k); s.ins(10 * k); } uint64_t h = pre;
        for(int o : ops) { int k = 7 * (o % nk) + 3; if(o < nk) { ex.note("insert %d", k); s.ins(k); } else { ex.note("erase %d", k); s.del(k); } s.check(-1, 40); } for(auto& x : s.ref) h = hmix(h, x.first); ex.state(h);
    };
}
static Body set_growth_body() {
    return [](Ex& ex) {
        int n = ex.pick(std::vector<int>{16, 17, 100, 1000, 4000}), ord = ex.choose(4), del = ex.choose(4), keep = ex.choose(3); ex.gate(); SetM s(ex); ex.note("%d elements, order %d, erasure order %d", n, ord, del);
        auto at = [&](int o, int k) { return o == 0 ? k : o == 1 ? n - 1 - k : o == 2 ? (k & 1 ? n - 1 - k / 2 : k / 2) : (int)(((int64_t)k * 7919) % n); };
        std::set<int> uniq; for(int k = 0; k < n; k++) { s.ins(at(ord, k)); uniq.insert(at(ord, k)); } s.check(-1, n); int stop = keep == 0 ? n : keep == 1 ? n / 2 : n - 1; for(int k = 0; k < stop; k++) { s.del(at(del, k)); if(n <= 17) s.check(-1, n); } s.check(-1, n); for(int k = 0; k < n; k++) s.ins(at(3 - ord, k)); s.check(-1, n); ex.state(hmix(n * 100 + ord, del * 3 + keep));
    };
}
void register_props(std::vector<PropDef>& out) {
    out.push_back({"C18", {{"predicates", atoms_body(), 1, 3}, {"compounds", pairs_body(), 1, 3}, {"copies", clone_body(), 1, 3}, {"alike", alike_body(), 1, 3}}});
    out.push_back({"C19", {{"map-operations", map_body(5, 6, {0, 1, 3}), 1, 3}, {"map-resizing", map_body(4, 5, {2, 4, 6, 7, 8, 14, 15, 16, 30, 31, 62, 63}), 1, 3}, {"map-growth", map_growth_body(), 1, 3}, {"map-long-keys", map_long_body(), 1, 3}, {"set-orders", set_perm_body(), 1, 3}, {"set-insertions", set_insert_body(), 1, 3}, {"set-operations", set_ops_body(), 1, 3}, {"set-growth", set_growth_body(), 1, 3}}});
}
