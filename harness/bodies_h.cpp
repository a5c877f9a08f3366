// C20: variables by name, any number, any order; independent trees.
#include "wide.h"
#include "late.h"
#include "more.h"
#include <numeric>
#include <cctype>
static Cfg cf(int cap, int part = 0) { return Cfg{cap, part, false}; }
struct V { std::string decl; VS vals; };
static const std::vector<V>& real() { static const std::vector<V> v = {{"b bool ?", {"true", "-", "false"}}, {"i int 0 9", {"3", "7", "12"}}, {"s str ?", {"\"a\"", "-", "\"zz\""}}, {"il ilist ?", {"[1,4]", "-", "[]"}}, {"frequency_caps caps ?", {"[[\"flight\",14,\"ns\",0,100]]", "-", "[]"}}, {"now int ?", {"5", "-", "200"}}, {"f float ?", {"1.5", "-", "3.0"}}, {"q segs ?", {"[[1,4000000]]", "-"}}}; return v; }
static const std::vector<Const>& cs() { static const std::vector<Const> v = {{"flight_id", 14}}; return v; }
static const VS& exprs() { static const VS v = {"b", "not b", "i < 5", "i = 7 or s = \"a\"", "s <> \"a\"", "b and s = \"a\"", "il one of (1, 2)", "not il one of (1, 2)", "f > 2.5 or b", "within_frequency_cap(\"flight\", \"ns\", 1, 100)", "not (b or s = \"zz\")", "segment_within(q, 1, 2)", "s is null", "not (f < 2.0 and b)", "i > 2 and (b or f = 1.5)"}; return v; }
static std::string nm(const std::string& decl) { return decl.substr(0, decl.find(' ')); }
static std::string padname(int k) { return std::string("p") + std::to_string(k); }
static V pad(int k) { switch(k % 5) { case 0: return {padname(k) + " bool ?", {"-", "true"}}; case 1: return {padname(k) + " int ? 0 100", {"-", "4"}}; case 2: return {padname(k) + " str ?", {"-", "\"u\""}}; case 3: return {padname(k) + " ilist ?", {"-", "[2]"}}; default: return {padname(k) + " float ?", {"-", "0.5"}}; } }
static std::string pad_expr(int k, int how) { std::string p = padname(k), e = k % 5 == 0 ? p : k % 5 == 1 ? p + " < 5" : k % 5 == 2 ? p + " = \"u\"" : k % 5 == 3 ? p + " one of (2, 3)" : p + " >= 0.5"; return how == 0 ? e : how == 1 ? "not " + (k % 5 ? e : p) : how == 2 ? e + " and b" : how == 3 ? e + " or not b" : p + " is null"; }
static void definitions(Scn& s) { // names and types in declaration order
    static const std::map<T, int> ty = {{T::B, BETREE_BOOLEAN}, {T::I, BETREE_INTEGER}, {T::F, BETREE_FLOAT}, {T::S, BETREE_STRING}, {T::IL, BETREE_INTEGER_LIST}, {T::SL, BETREE_STRING_LIST}, {T::SEG, BETREE_SEGMENTS}, {T::FRQ, BETREE_FREQUENCY_CAPS}, {T::IE, BETREE_INTEGER_ENUM}};
    for(size_t k = 0; k < s.d.size(); k++) { auto q = betree_get_variable_definition(s.s.t, k); s.ex.op(); s.ex.checked(); if(s.d[k].name != q.name || (int)q.type != ty.at(s.d[k].t)) s.ex.fail("definition %zu is %s of type %d, expected %s of type %d", k, q.name, (int)q.type, s.d[k].name.c_str(), ty.at(s.d[k].t)); }
}
// n further variables before, after, between and around the used ones
static Body padding_body() {
    return [](Ex& ex) {
        static const std::vector<int> q0 = {0, 1, 30, 47, 48, 49, 54, 55, 56, 57, 58, 62, 63, 64, 65, 66, 118, 119, 120, 121, 127, 128, 129, 190, 245, 246, 247, 248, 249, 254, 255, 256, 257, 258, 300, 520};
        int n = ex.tier ? ex.choose(270) : ex.pick(q0), where = ex.choose(4), given = ex.choose(3), cap = ex.choose(2), how = ex.choose(5); ex.gate();
        std::vector<V> vs; std::vector<V> r = real(); size_t ri = 0; for(int k = 0; k < n; k++) { if(where == 0 && k == 0) while(ri < r.size()) vs.push_back(r[ri++]); if(where == 2 && ri < r.size() && (k % std::max(1, n / 8)) == 0) vs.push_back(r[ri++]); if(where == 3 && k == n / 2) while(ri < r.size()) vs.push_back(r[ri++]); vs.push_back(pad(k)); } while(ri < r.size()) vs.push_back(r[ri++]);
        VS decls; for(auto& v : vs) decls.push_back(v.decl); ex.note("%d further variables, placed %d", n, where);
        Scn s(ex, decls, cf(cap ? 3 : 1), cs()); definitions(s);
        for(auto& t : exprs()) s.add(t, s.next & 1); if(n) for(int k : {0, 1, n / 2, n - 3, n - 2, n - 1}) if(k >= 0 && k < n) { s.add(pad_expr(k, how)); s.add(pad_expr(k, (how + 2) % 5), 1); }
        for(int v = 0; v < 3; v++) for(int w = 0; w < 3; w++) { VS vals; int ri2 = 0; for(auto& x : vs) { bool isp = x.decl[0] == 'p' && isdigit((unsigned char)x.decl[1]); if(isp) { int k = atoi(x.decl.c_str() + 1); vals.push_back(given == 0 ? "-" : given == 1 ? x.vals[1] : x.vals[(k + v) & 1]); } else { int c = (ri2++ % 2 ? v : w); vals.push_back(x.vals[std::min<size_t>(c, x.vals.size() - 1)]); } } s.check(s.ev(vals), (v + w) & 1, v == w); }
        s.hs = hmix(hmix(s.hs, how), given); s.done();
    };
}
// one variable, at every position, whose absence decides
static Body position_body() {
    return [](Ex& ex) {
        int total = ex.tier ? 300 : 260; int at = ex.choose(total), kind = ex.choose(4), form = ex.choose(6); ex.gate();
        static const VS kd = {"v bool ?", "v int ?", "v str ?", "v ilist ?"}; static const VS at1 = {"v", "v = 1", "v = \"a\"", "v one of (1)"}, vv = {"true", "1", "\"a\"", "[1]"};
        VS decls; for(int k = 0; k < total; k++) decls.push_back(k == at ? kd[kind] : k % 7 == 3 ? "x" + std::to_string(k) + " bool" : "x" + std::to_string(k) + " bool ?");
        std::string a = at1[kind], o = at == 3 ? "x10" : "x3"; const std::string t = form == 0 ? a : form == 1 ? "not (" + a + ")" : form == 2 ? "(" + a + ") and " + o : form == 3 ? "(" + a + ") or " + o : form == 4 ? "not ((" + a + ") or " + o + ")" : "v is null or " + o;
        Scn s(ex, decls, cf(1)); ex.note("variable v is number %d of %d", at, total); s.add(t); s.add(a, 1); s.add("v is not null and " + o);
        for(int d = 0; d < 2; d++) for(int ov = 0; ov < 2; ov++) { VS vals; for(int k = 0; k < total; k++) vals.push_back(k == at ? (d ? vv[kind] : "-") : k % 7 == 3 ? (ov ? "true" : "false") : "-"); s.check(s.ev(vals), d ^ ov); }
        s.hs = hmix(s.hs, at); s.done();
    };
}
// every declaration order
static Body orders_body() {
    return [](Ex& ex) {
        std::vector<V> pool = real(); int n = ex.tier ? 7 : 6; pool.resize(n); std::vector<V> vs; while(!pool.empty()) { int k = ex.choose((int)pool.size()); vs.push_back(pool[k]); pool.erase(pool.begin() + k); } int cap = ex.choose(2), rev = ex.choose(2); ex.gate();
        VS decls; for(auto& v : vs) decls.push_back(v.decl); Scn s(ex, decls, cf(cap ? 3 : 1), cs()); definitions(s); VS es = exprs(); if(rev) std::reverse(es.begin(), es.end());
        auto uses = [&](const std::string& t, const char* w) { return t.find(w) != std::string::npos; }; for(auto& t : es) { if(uses(t, "segment")) continue; if(n < 7 && (uses(t, "f >") || uses(t, "f <") || uses(t, "f ="))) continue; s.add(t, s.next & 1); }
        // events: every combination, variables given in declaration order and, built, in reverse
        std::vector<int> ix(n, 0); int c = 0; for(;;) { VS vals; for(int k = 0; k < n; k++) vals.push_back(vs[k].vals[ix[k]]); if(c++ % (n < 7 ? 3 : 7) == 0) { Ev e = s.ev(vals); s.check(e, c & 1); if(c % 4 == 0) { std::vector<int> o(n); std::iota(o.begin(), o.end(), 0); std::reverse(o.begin(), o.end()); auto w = s.want(e); betree_event* be = s.s.build(e, &o); Res r = s.s.search_event(be); ex.checked(); betree_free_event(be); if(!r.ok || r.ids != w) ex.fail("a built event with its variables in reverse order, %s: %s, expected %s", ev_text(s.d, e).c_str(), ids_text(r.ids).c_str(), ids_text(w).c_str()); } }
            int k = 0; while(k < n && ++ix[k] == (int)vs[k].vals.size()) ix[k++] = 0; if(k == n) break; }
        s.done();
    };
}
// every spelling of the names in expressions, text events and built events
static std::string spell(const std::string& n, int mask) { std::string o = n; int b = 0; for(auto& c : o) if(isalpha((unsigned char)c)) { if(mask >> (b % 12) & 1) c = (char)toupper(c); b++; } return o; }
static Body spelling_body() {
    return [](Ex& ex) {
        static const VS sets[] = {{"ab", "a", "abc"}, {"x_1", "x", "x_12"}, {"inx", "nota", "orb"}, {"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "b"}};
        int si = ex.choose(4), m1 = ex.choose(8), m2 = ex.choose(8), m3 = ex.choose(8), ord = ex.choose(6); ex.gate();
        VS n = sets[si]; static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; VS names, decls; for(int k : P[ord]) { names.push_back(n[k]); decls.push_back(n[k] + (k == 0 ? " int ?" : k == 1 ? " bool ?" : " str ?")); }
        auto ms = [](int m) { return m == 0 ? 0 : m == 1 ? 1 : m == 2 ? 0xfff : m == 3 ? 2 : m == 4 ? 5 : m == 5 ? 0x800 : m == 6 ? 0xaaa : 0x555; };
        Scn s(ex, decls, cf(1)); definitions(s); std::string i = spell(n[0], ms(m1)), b = spell(n[1], ms(m1)), t = spell(n[2], ms(m1)), i2 = spell(n[0], ms(m2));
        for(auto& e : VS{i + " < 5", b, "not " + b + " and " + i2 + " > 2", t + " = \"A\"", t + " = \"a\" or " + i2 + " = 7", i + " in (3, 7)", t + " is null", "(" + i + " < 5) and (" + i2 + " < 5)"}) s.add(e, s.next & 1);
        for(const char* iv : {"3", "7", "-"}) for(const char* bv : {"true", "-"}) for(const char* tv : {"\"a\"", "\"A\"", "-"}) {
            VS vals; for(int k : P[ord]) vals.push_back(k == 0 ? iv : k == 1 ? bv : tv); Ev e = s.ev(vals); auto w = s.want(e); VS sp; for(auto& x : names) sp.push_back(spell(x, ms(m3)));
            std::string text = "{"; for(size_t k = 0; k < 3; k++) if(vals[k] != "-") text += (text.size() > 1 ? ", \"" : "\"") + sp[k] + "\": " + vals[k]; text += "}"; s.check_text(text, e);
            betree_event* be = s.s.build(e, nullptr, &sp); Res r = s.s.search_event(be); bool x = betree_exists_with_event(s.s.t, be); betree_free_event(be); ex.checked(2); if(!r.ok || r.ids != w || x != !w.empty()) ex.fail("built event %s: %s exists %d, expected %s", text.c_str(), ids_text(r.ids).c_str(), x, ids_text(w).c_str()); }
        s.hs = hmix(hmix(s.hs, si), m1 * 64 + m2 * 8 + m3); s.done();
    };
}
// several trees with different declarations, in every interleaving of operations
static Body trees_body() {
    return [](Ex& ex) {
        int setup = ex.choose(3), n = ex.tier ? 6 : 5; std::vector<int> ops; for(int k = 0; k < n; k++) ops.push_back(ex.choose(ex.tier ? 10 : 8)); ex.gate();
        static const VS A = {"b bool ?", "i int 0 9", "s str 2"}, B = {"s str ?", "b bool ?", "x int ?", "i int ?"}; // the same names at other places, with other ranges
        Scn t0(ex, A, cf(1)), t1(ex, setup == 0 ? A : B, cf(setup == 2 ? 3 : 1)); Scn* t[2] = {&t0, &t1};
        static const VS ea = {"i < 5", "s = \"a\"", "b and s = \"b\"", "not b", "s in (\"a\", \"b\")"}, eb = {"s = \"b\"", "i < 5", "s = \"c\" or b", "not (s = \"a\")", "i >= 5 and not b"};
        static const std::vector<VS> va = {{"true", "3", "\"a\""}, {"-", "7", "\"b\""}, {"false", "3", "\"c\""}}, vb = {{"\"a\"", "true", "-", "3"}, {"\"b\"", "-", "1", "7"}, {"-", "false", "4", "-"}};
        int cnt[2] = {0, 0}; uint64_t h = setup;
        for(int o : ops) { int w = o & 1, act = o / 2; bool isA = w == 0 || setup == 0; Scn& x = *t[w]; ex.note("tree %d:", w); h = hmix(h, o);
            switch(act) { case 0: x.add((isA ? ea : eb)[cnt[w]++ % 5], 0); break; case 1: x.add((isA ? ea : eb)[(cnt[w]++ + 2) % 5], 2); break; case 2: x.flush(); x.check(x.ev((isA ? va : vb)[cnt[w] % 3]), cnt[w] & 1, true); break; case 3: x.s.change_boundaries(isA ? "i > 2 and s = \"b\"" : "i > -4 and s = \"zz\""); break; case 4: for(auto& e : (isA ? va : vb)) x.check(x.ev(e), 0); break; } }
        for(int w = 0; w < 2; w++) { Scn& x = *t[w]; x.flush(); auto& vs = (w == 0 || setup == 0) ? va : vb; for(auto& e : vs) { x.check(x.ev(e), 0, true); x.check(x.ev(e), 1); } }
        ex.state(h);
    };
}
// many trees alive at once; released in various orders
static Body many_body() {
    return [](Ex& ex) {
        int n = ex.pick(std::vector<int>{2, 3, 20}), order = ex.choose(3), salt = ex.choose(5); ex.gate(); ex.note("%d trees", n);
        std::vector<std::unique_ptr<Scn>> t; static const VS D = {"b bool ?", "i int 0 99", "s str ?"};
        for(int k = 0; k < n; k++) { VS d = D; std::rotate(d.begin(), d.begin() + (k + salt) % 3, d.end()); t.emplace_back(new Scn(ex, d, cf(1 + k % 3))); }
        auto evs = [&](Scn& x, int k) { for(const char* s : {"\"v0\"", "\"v1\"", "-"}) { VS vals; for(auto& d : x.d) vals.push_back(d.name == "b" ? (k & 1 ? "true" : "-") : d.name == "i" ? std::to_string(k % 50) : s); x.check(x.ev(vals), k & 1); } };
        for(int r = 0; r < 6; r++) for(int k = 0; k < n; k++) { Scn& x = *t[k]; x.add(r % 3 == 0 ? "s = \"v" + std::to_string((k + r) % 3) + "\"" : r % 3 == 1 ? "i < " + std::to_string(k + r) : "not b or s <> \"v" + std::to_string(k % 2) + "\"", r & 1); evs(*t[(k * 7 + r) % n], k + r); }
        while(!t.empty()) { size_t k = order == 0 ? 0 : order == 1 ? t.size() - 1 : t.size() / 2; t.erase(t.begin() + k); for(size_t j = 0; j < t.size(); j++) evs(*t[j], (int)j); }
        ex.state(hmix(n * 10 + order, salt));
    };
}
// Event objects used with two or three trees in turn: same names and types, other positions, capacities and strings
static Body shared_events_body() {
    return [](Ex& ex) {
        static const VS D = {"b bool ?", "i int ? -9 9", "s str ?", "il ilist ?", "sl slist ?", "e enum ?", "f float ?", "frequency_caps caps ?", "now int ?", "q segs ?"};
        static const std::vector<VS> E = {{"s = \"a\"", "sl one of (\"b\", \"c\")", "e = 5"}, {"s in (\"b\", \"a\")", "sl all of (\"c\", \"a\")", "e <> 7"}, {"s <> \"c\"", "sl none of (\"a\")", "e = 7 or b"}, {"\"c\" in sl and i < 3", "e <> 5 and not b", "s = \"c\""}, {"il one of (1, 4)", "f > 1.0", "within_frequency_cap(\"flight\", \"ns\", 1, 0)"}, {"il all of (2, 4) or f < 2.0", "i >= 2", "segment_within(q, 1, 20)"}};
        static const std::vector<VS> V = {{"true", "3", "\"a\"", "[4,1,4]", "[\"c\",\"a\"]", "5", "1.5", "[[\"flight\",14,\"ns\",1,100],[\"flight\",14,\"nt\",0,100]]", "5", "[[1,4000000]]"}, {"-", "-3", "\"b\"", "[2,4]", "[\"zz\",\"b\",\"yy\"]", "7", "2.0", "[[\"flight\",14,\"nt\",9,100]]", "-", "-"}, {"false", "9", "\"c\"", "[]", "[\"b\",\"a\",\"c\"]", "9", "-", "-", "5", "[]"}, {"-", "-", "\"zz\"", "-", "[]", "-", "0.5", "[]", "7", "[[1,1],[2,9]]"}};
        int r1 = ex.choose(10), rev = ex.choose(2), e0 = ex.choose(6), e1 = ex.choose(6), third = ex.choose(2), more = ex.choose(2), bounded = ex.choose(2); ex.gate(); std::vector<std::unique_ptr<Scn>> t; std::vector<std::vector<int>> perm;
        for(int k = 0; k < 2 + third; k++) { std::vector<int> p(10); std::iota(p.begin(), p.end(), 0); std::rotate(p.begin(), p.begin() + (k == 0 ? 0 : k == 1 ? r1 : (r1 + 3) % 10), p.end()); if(k == 1 && rev) std::reverse(p.begin(), p.end()); VS d; for(int q : p) d.push_back(D[q] + (bounded && k != 1 && (q == 2 || q == 4 || q == 5) ? " 3" : "")); perm.push_back(p); t.emplace_back(new Scn(ex, d, cf(k == 1 ? 3 : 1), cs())); }
        auto fill = [&](int k, int f) { for(int q = 0; q < 3; q++) t[k]->add(E[f][(q + k) % 3], q & 1); };
        fill(0, e0); fill(1, e1); if(third) fill(2, (e0 + e1) % 6); auto val = [&](int k, const VS& v) { VS r; for(int q : perm[k]) r.push_back(v[q]); return r; };
        std::vector<betree_event*> es; for(auto& v : V) es.push_back(t[0]->s.build(t[0]->ev(v)));
        auto go = [&](int k, size_t x) { Ev e = t[k]->ev(val(k, V[x])); auto want = t[k]->want(e); Res r = t[k]->s.search_event(es[x]); ex.checked(); if(!r.ok || r.ids != want) ex.fail("tree %d, an event used with several trees (%s): %d %s, expected %s", k, ev_text(t[k]->d, e).c_str(), r.ok, ids_text(r.ids).c_str(), ids_text(want).c_str()); bool q = betree_exists_with_event(t[k]->s.t, es[x]); ex.op(); ex.checked(); if(q != !want.empty()) ex.fail("tree %d: exists returned %d, expected %d", k, q, !want.empty()); };
        for(int round = 0; round < 2; round++) { for(size_t x = 0; x < V.size(); x++) for(int k = 0; k < (int)t.size(); k++) go(k, x); for(int k = (int)t.size() - 1; k >= 0; k--) for(size_t x = 0; x < V.size(); x++) go(k, x); if(more && !round) { fill(0, e1); fill(1, e0); } else break; }
        for(auto* e : es) betree_free_event(e); ex.state(hmix(hmix(r1 * 6 + e0, e1 * 4 + rev), third * 4 + more * 2 + bounded));
    };
}
// Event objects made for one tree and used with another that has only some of its variables
static Body smaller_trees_body() {
    return [](Ex& ex) {
        static const VS D = {"b bool ?", "i int ? -9 9", "s str ?", "il ilist ?", "sl slist ?", "e enum ?", "f float ?", "q segs ?"};
        static const std::vector<VS> P = {{"b", "not b"}, {"i > 2", "i is null or i < 0"}, {"s = \"a\"", "s <> \"a\""}, {"3 in il", "il is null"}, {"sl one of (\"a\")", "sl none of (\"b\")"}, {"e = 5", "e is not null"}, {"f < 2.0", "not (f > 1.0)"}, {"q is null", "q is not null"}};
        static const std::vector<VS> V = {{"true", "false"}, {"3", "-4"}, {"\"a\"", "\"z\""}, {"[1,3,3]", "[]"}, {"[\"a\"]", "[\"b\",\"zz\"]"}, {"5", "6"}, {"1.5", "3.0"}, {"[[1,5]]", "[]"}};
        int from = ex.choose(8), n = 1 + ex.choose(7), rev = ex.choose(2), pad = ex.choose(3), route = ex.choose(2), mode = ex.choose(2); ex.gate(); if(from + n > 8) return;
        // the second tree's variables are from, from+1, ...; the first tree has all of them, behind some others
        static const int pads[] = {0, 5, 130}; VS all; for(int k = 0; k < pads[pad]; k++) all.push_back(sfmt("pad%d bool ?", k)); int off = (int)all.size(); for(auto& d : D) all.push_back(d); VS some; for(int k = 0; k < n; k++) some.push_back(D[from + (rev ? n - 1 - k : k)]);
        Scn big(ex, all, cf(1)), small(ex, some, cf(1)); for(int k = 0; k < n; k++) for(auto& t : P[from + k]) { small.add(t, route); if(k & 1) big.add(t, route); } for(int k = 1; k < n; k++) small.add(P[from + k - 1][1] + " and not (" + P[from + k][0] + ")", route);
        for(int m = 0; m < 27; m++) {
            VS v(all.size(), "-"), w; int x = m; for(int k = 0; k < n; k++) { int c = k < 3 ? x % 3 : (m + k) % 3; x /= 3; v[off + from + k] = c ? V[from + k][c - 1] : "-"; } for(int k = 0; k < n; k++) w.push_back(v[off + from + (rev ? n - 1 - k : k)]);
            Ev eb = big.ev(v), e = small.ev(w); betree_event* be = big.s.build(eb); if(mode) { auto wb = big.want(eb); Res r = big.s.search_event(be); ex.checked(); if(!r.ok || r.ids != wb) ex.fail("the larger tree: %s, expected %s", ids_text(r.ids).c_str(), ids_text(wb).c_str()); }
            auto want = small.want(e); Res r = small.s.search_event(be); bool q = betree_exists_with_event(small.s.t, be); ex.op(); ex.checked(2); betree_free_event(be);
            if(!r.ok || r.ids != want || q == want.empty()) ex.fail("an event made for a larger tree (%s): %d %s, exists %d, expected %s", ev_text(small.d, e).c_str(), r.ok, ids_text(r.ids).c_str(), q, ids_text(want).c_str());
        }
        big.done(); small.done();
    };
}
// Long names that differ in a few characters only
static Body alike_names_body() {
    return [](Ex& ex) {
        int pre = ex.pick(wide::lengths(ex.tier)), end = ex.pick(std::vector<int>{0, 1, 40, 250}), ord = ex.choose(6), up = ex.choose(2); ex.gate(); auto q = wide::colliding(pre, end); std::string z = q.second; z[pre + 2] = z[pre + 2] == 'z' ? 'y' : z[pre + 2] == '9' ? '8' : z[pre + 2] + 1; if(z == q.first) z += "_";
        VS n = {q.first, q.second, z}; static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; VS names, decls; for(int k : P[ord]) { names.push_back(n[k]); decls.push_back(n[k] + (k == 2 ? " str ?" : " int ?")); }
        Scn s(ex, decls, cf(1)); std::string a = spell(n[0], up ? 0x555 : 0), b = spell(n[1], up ? 0xaaa : 0), c = spell(n[2], up ? 5 : 0);
        for(auto& e : VS{a + " = 3", b + " = 3", a + " < 5 and " + b + " < 5", "not (" + b + " = 7) and " + a + " = 7", c + " = \"a\"", b + " in (3, 7) or " + c + " = \"b\"", a + " is null", b + " is null and " + c + " is not null"}) s.add(e, s.next & 1);
        for(const char* v : {"3", "7", "-"}) for(const char* w : {"3", "7", "-"}) for(const char* x : {"\"a\"", "-"}) {
            VS vals; for(int k : P[ord]) vals.push_back(k == 0 ? v : k == 1 ? w : x); Ev e = s.ev(vals); s.check(e, 0, true); s.check(e, 1); VS sp; for(auto& y : names) sp.push_back(spell(y, up ? 0xfff : 2)); auto want = s.want(e);
            std::string text = "{"; for(int k = 2; k >= 0; k--) if(vals[k] != "-") text += (text.size() > 1 ? ", \"" : "\"") + sp[k] + "\": " + vals[k]; text += "}"; s.check_text(text, e); betree_event* be = s.s.build(e, nullptr, &sp); Res r = s.s.search_event(be); betree_free_event(be); ex.checked(); if(!r.ok || r.ids != want) ex.fail("built event %s: %s, expected %s", text.c_str(), ids_text(r.ids).c_str(), ids_text(want).c_str()); }
        s.hs = hmix(hmix(s.hs, pre * 6 + ord), end * 2 + up); s.done();
    };
}
void register_props(std::vector<PropDef>& out) {
    out.push_back({"C20", {{"further-variables", padding_body(), 1, 3}, {"positions", position_body(), 1, 3}, {"orders", orders_body(), 1, 3}, {"spellings", spelling_body(), 1, 3}, {"alike-names", alike_names_body(), 1, 3}, {"declared-later", late::body(), 1, 3}, {"shared-events", shared_events_body(), 1, 3}, {"smaller-trees", smaller_trees_body(), 1, 3}, {"own-values", more::own_values(), 1, 3}, {"far-variables", more::far_variables(), 1, 3}, {"two-trees", trees_body(), 1, 3}, {"many-trees", many_body(), 1, 3}}});
}
