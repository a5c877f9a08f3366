// Pairs of predicates that differ only in the high bits of one constant, in one element of a long list or
// in one character of a long text, with events that tell them apart.
#pragma once
#include "scn.h"
struct Wide { VS decls; std::string x, y; std::vector<Const> cx, cy; std::vector<VS> evs; int cat = 0; };
enum { WINT = 1, WFLOAT = 2, WLIST = 4, WTEXT = 8, WSEG = 16, WCAP = 32, WGEO = 64, WALL = 127 };
namespace wide {
typedef std::string S;
inline S num(int64_t v) { return std::to_string(v); }
inline void ints(std::vector<Wide>& o) {
    static const int bits[] = {8, 16, 31, 32, 33, 48, 53, 62};
    for(int64_t v : {5ll, -1ll, 0ll, 1000000ll}) for(int b : bits) {
        int64_t w = v ^ (1ll << b); S V = num(v), W = num(w); std::vector<VS> ev; for(int64_t k : {v, w, v + 1, w + 1, v - 1, w - 1}) ev.push_back({num(k)}); ev.push_back({"-"});
        auto ad = [&](const S& pre, const S& post) { o.push_back({{"i int ?"}, pre + V + post, pre + W + post, {}, {}, ev}); };
        for(const char* op : {"i = ", "i <> ", "i < ", "i >= "}) ad(op, ""); ad("i in (", ")"); ad("i not in (", ", 7)"); if(v == 5) { ad("i <= ", ""); ad("i > ", ""); }
        std::vector<VS> lv; for(const S& k : {"[" + V + "]", "[" + W + "]", "[" + V + "," + W + "]", "[" + W + "," + V + "," + W + "]", S("[]"), "[" + num(v + 1) + "," + num(w + 1) + "]", S("-")}) lv.push_back({k});
        auto al = [&](const S& x, const S& y) { o.push_back({{"il ilist ?"}, x, y, {}, {}, lv}); };
        al(V + " in il", W + " in il"); al(V + " not in il", W + " not in il"); for(const char* op : {"one of", "none of", "all of"}) { al(S("il ") + op + " (" + V + ")", S("il ") + op + " (" + W + ")"); al(S("il ") + op + " (" + V + ", " + W + ")", S("il ") + op + " (" + W + ")"); }
        std::vector<VS> en = {{V}, {W}, {num(v + 1)}, {"-"}}; o.push_back({{"e enum ?"}, "e = " + V, "e = " + W, {}, {}, en}); if(v == 5) o.push_back({{"e enum ? 2"}, "e <> " + V, "e <> " + W, {}, {}, en});
    }
}
inline void floats(std::vector<Wide>& o) {
    static const std::pair<const char*, const char*> p[] = {{"1.5", "1.500000001"}, {"16777216.0", "16777217.0"}, {"0.1", "0.10000000001"}, {"1000000000000000000.0", "1000000000000000128.0"}, {"-2.5", "2.5"}, {"0.000000001", "0.000000002"}, {"4294967296.5", "0.5"}, {"340282346638528859811704183484516925440.0", "680564693277057719623408366969033850880.0"}, {"9007199254740992.0", "9007199254740994.0"}};
    for(auto& q : p) for(const char* op : {"=", "<>", "<", "<=", ">", ">="}) o.push_back({{"f float ?"}, S("f ") + op + " " + q.first, S("f ") + op + " " + q.second, {}, {}, {{q.first}, {q.second}, {"0.0"}, {"-"}}});
}
inline std::vector<int> sizes(int tier) { std::vector<int> s = {2, 3, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300}; if(tier) for(int x : {4, 5, 15, 31, 63, 127, 255, 511, 512, 513, 1000, 1023, 1024, 1025, 4097}) s.push_back(x); return s; }
// A list of n elements with the one at p replaced, or without its last one
inline void lists(std::vector<Wide>& o, int tier) {
    for(int n : sizes(tier)) for(int how = 0; how < 4; how++) {
        int p = how == 0 ? 0 : how == 1 ? n / 2 : n - 1; auto list = [&](bool str, bool y, char open, char close) { S r(1, open); for(int k = 0; k < n - (y && how == 3); k++) { if(k) r += ","; if(str) r += y && k == p ? "\"w\"" : "\"v" + num(k) + "\""; else r += num(y && k == p ? 10 * k + 5 : 10 * k); } return r + close; };
        S X = list(false, false, '(', ')'), Y = list(false, true, '(', ')'), A = list(true, false, '(', ')'), B = list(true, true, '(', ')');
        std::vector<VS> iv, ilv, sv, slv; for(int k : {10 * p, 10 * p + 5, 0, 10 * (n - 1), 10 * (n / 2), -3}) { iv.push_back({num(k)}); ilv.push_back({"[" + num(k) + "]"}); } for(const S& k : {"v" + num(p), S("w"), S("v0"), "v" + num(n - 1), S("zz")}) { sv.push_back({"\"" + k + "\""}); slv.push_back({"[\"" + k + "\"]"}); }
        ilv.push_back({list(false, false, '[', ']')}); ilv.push_back({list(false, true, '[', ']')}); slv.push_back({list(true, false, '[', ']')}); slv.push_back({list(true, true, '[', ']')}); iv.push_back({"-"}); slv.push_back({"-"}); ilv.push_back({"[]"});
        for(const char* op : {"in ", "not in "}) { o.push_back({{"i int ?"}, S("i ") + op + X, S("i ") + op + Y, {}, {}, iv}); o.push_back({{"s str ?"}, S("s ") + op + A, S("s ") + op + B, {}, {}, sv}); }
        for(const char* op : {"one of ", "none of ", "all of "}) { o.push_back({{"il ilist ?"}, S("il ") + op + X, S("il ") + op + Y, {}, {}, ilv}); o.push_back({{"sl slist ?"}, S("sl ") + op + A, S("sl ") + op + B, {}, {}, slv}); }
    }
}
inline void texts(std::vector<Wide>& o, int tier) {
    for(int n : sizes(tier)) for(int how = 0; how < 4; how++) {
        S x; for(int k = 0; k < n; k++) x += (char)('a' + k % 7); S y = x; if(how == 3) y.pop_back(); else y[how == 0 ? 0 : how == 1 ? n / 2 : n - 1] = 'z';
        std::vector<VS> sv, lv; for(const S& k : {x, y, x + "q", y + "q", "q" + x, "q" + y, x + y}) { sv.push_back({"\"" + k + "\""}); lv.push_back({"[\"" + k + "\"]"}); } sv.push_back({"-"}); lv.push_back({"[\"" + x + "\",\"" + y + "\"]"});
        auto ad = [&](const S& a, const S& b) { o.push_back({{"s str ?"}, a + "\"" + x + "\"" + b, a + "\"" + y + "\"" + b, {}, {}, sv}); };
        ad("s = ", ""); ad("s <> ", ""); ad("s in (", ")"); ad("s not in (\"k\", ", ")"); ad("contains(s, ", ")"); ad("starts_with(s, ", ")"); ad("ends_with(s, ", ")");
        o.push_back({{"sl slist ?"}, "\"" + x + "\" in sl", "\"" + y + "\" in sl", {}, {}, lv}); o.push_back({{"sl slist ?"}, "sl all of (\"" + x + "\")", "sl all of (\"" + y + "\")", {}, {}, lv});
    }
}
inline void specials(std::vector<Wide>& o, int tier) {
    const int64_t NOW = 1ll << 42; S N = num(NOW); auto us = [&](int64_t t) { return num(t * 1000000); };
    for(int b : {8, 16, 31, 32, 33, 40}) for(int form = 0; form < 4; form++) {
        S f = S(form & 1 ? "segment_before(" : "segment_within(") + (form & 2 ? "" : "q, "); VS d = {form & 2 ? "segments_with_timestamp segs ?" : "q segs ?", "now int"};
        int64_t v = 5, w = 5 ^ (1ll << b); S V = num(v), W = num(w);
        std::vector<VS> e1, e2; for(const S& k : {"[[" + V + "," + us(NOW - 10) + "]]", "[[" + W + "," + us(NOW - 10) + "]]", "[[" + V + "," + us(NOW) + "]]", "[[" + W + "," + us(NOW) + "]]", "[[" + V + "," + us(NOW) + "],[" + W + "," + us(NOW - 20) + "]]", S("[]"), S("-")}) e1.push_back({k, N});
        if(b < 41) o.push_back({d, f + V + ", 7)", f + W + ", 7)", {}, {}, e1});
        for(int64_t t : {NOW, NOW - v, NOW - v - 1, NOW - w, NOW - w - 1}) e2.push_back({"[[5," + us(t) + "]]", N}); o.push_back({d, f + "5, " + V + ")", f + "5, " + W + ")", {}, {}, e2});
    }
    auto fr = [&](const S& x, const S& y, std::vector<Const> cx, std::vector<Const> cy, const VS& caps) { std::vector<VS> e; for(auto& c : caps) e.push_back({c, N}); e.push_back({"[]", N}); o.push_back({{"frequency_caps caps ?", "now int"}, x, y, cx, cy, e}); };
    auto cap = [&](const S& ty, int64_t id, const S& ns, int64_t value, const S& ts) { return "[[\"" + ty + "\"," + num(id) + ",\"" + ns + "\"," + num(value) + "," + ts + "]]"; };
    std::vector<Const> c10 = {{"flight_id", 10}}; S late = us(NOW - 3);
    for(int b : {7, 8, 15, 16, 24, 30, 31}) {
        int64_t v = 5, w = 5 ^ (1ll << b), id = 10 ^ (1ll << b); auto F = [&](int64_t x) { return "within_frequency_cap(\"flight\", \"ns\", " + num(x) + ", 0)"; };
        fr(F(v), F(w), c10, c10, {cap("flight", 10, "ns", v, late), cap("flight", 10, "ns", v - 1, late), cap("flight", 10, "ns", w, late), cap("flight", 10, "ns", w - 1, late)});
        fr(F(v), F(v), c10, {{"flight_id", id}}, {cap("flight", 10, "ns", 6, late), cap("flight", id, "ns", 6, late), cap("flight", 10, "ns", 4, late), cap("flight", id, "ns", 4, late)});
    }
    for(int b : {8, 16, 31, 32, 33, 40}) { int64_t v = 5, w = 5 ^ (1ll << b); auto F = [&](int64_t x) { return "within_frequency_cap(\"flight\", \"ns\", 1, " + num(x) + ")"; }; VS caps; for(int64_t t : {NOW, NOW - v, NOW - v - 1, NOW - w, NOW - w - 1}) caps.push_back(cap("flight", 10, "ns", 3, us(t))); fr(F(v), F(w), c10, c10, caps); }
    for(int n : sizes(tier)) if(n > 8) for(int how = 0; how < 2; how++) { S x; for(int k = 0; k < n; k++) x += (char)('a' + k % 7); S y = x; if(how) y.pop_back(); else y[n - 1] = 'z'; auto F = [&](const S& ns) { return "within_frequency_cap(\"flight\", \"" + ns + "\", 1, 0)"; }; fr(F(x), F(y), c10, c10, {cap("flight", 10, x, 3, late), cap("flight", 10, y, 3, late), cap("flight", 10, x + "q", 3, late)}); }
    static const char* ty[] = {"flight", "flight:ip", "advertiser", "advertiser:ip", "campaign", "campaign:ip", "campaign_group", "campaign_group:ip", "product", "product:ip"};
    std::vector<Const> all = {{"flight_id", 10}, {"advertiser_id", 10}, {"campaign_id", 10}, {"campaign_group_id", 10}, {"product_id", 10}};
    for(int a = 0; a < 10; a++) for(int b = a + 1; b < 10; b++) { auto F = [&](int t) { return S("within_frequency_cap(\"") + ty[t] + "\", \"ns\", 1, 0)"; }; fr(F(a), F(b), all, all, {cap(ty[a], 10, "ns", 3, late), cap(ty[b], 10, "ns", 3, late), cap(ty[a], 10, "ns", 1, late)}); }
    static const std::pair<const char*, const char*> g[] = {{"45.0, -73.0, 10.0", "45.0, -73.0, 10.5"}, {"45.0, -73.0, 10.0", "45.1, -73.0, 10.0"}, {"45.0, -73.0, 10.0", "45.0, -73.1, 10.0"}, {"45, -73, 10", "45, -73, 11"}, {"45, -73, 10", "46, -73, 10"}, {"45, -73, 10", "45, -74, 10"}, {"45, -73, 10", "-45, -73, 10"}, {"45, -73, 10", "45, 73, 10"}, {"45.001, -73.0, 0.2", "45.0, -73.0, 0.2"}};
    for(auto& p : g) o.push_back({{"latitude float ?", "longitude float ?"}, S("geo_within_radius(") + p.first + ")", S("geo_within_radius(") + p.second + ")", {}, {}, {{"45.0", "-73.0"}, {"45.092", "-73.0"}, {"45.1", "-73.1"}, {"45.0", "-73.13"}, {"45.0", "-73.19"}, {"46.0", "-73.0"}, {"45.0", "-74.0"}, {"-45.0", "-73.0"}, {"45.0", "73.0"}, {"45.0009", "-73.0"}, {"45.0025", "-73.0"}, {"44.9985", "-73.0"}, {"-", "-73.0"}}});
}
inline const std::vector<Wide>& all(int tier, int mask = WALL) {
    static std::vector<Wide> o[2]; static std::map<int, std::vector<Wide>> sub[2];
    if(o[tier].empty()) {
        auto& v = o[tier]; ints(v); floats(v); lists(v, tier); texts(v, tier); specials(v, tier);
        for(auto& w : v) {
            const S& d = w.decls[0]; bool list = d.find("list") != S::npos;
            w.cat = d[0] == 'i' || d[0] == 'e' ? WINT : d[0] == 's' ? WTEXT : 0; if(d.compare(0, 2, "f ") == 0) w.cat = WFLOAT; if(d.compare(0, 2, "fr") == 0) w.cat = WCAP; if(d.find(" segs") != S::npos) w.cat = WSEG; if(d[0] == 'l') w.cat = WGEO;
            if(list || w.x.find(" in (") != S::npos) w.cat |= WLIST;
        }
    }
    if(mask == WALL) return o[tier]; auto& r = sub[tier][mask]; if(r.empty()) for(auto& w : o[tier]) if(w.cat & mask) r.push_back(w); return r;
}
// Two strings that differ in three characters after a prefix and before an ending, with the same value
// under the map's hash function (of interest when it is; otherwise merely two similar strings).
inline unsigned mhash(const S& s) { unsigned h = 5381; for(char c : s) h = ((h << 5u) + h) ^ (unsigned)c; return h; }
inline std::pair<S, S> colliding(int prefix, int ending) {
    S p; for(int k = 0; k < prefix; k++) p += (char)('a' + (k * 7 + prefix) % 26); S e; for(int k = 0; k < ending; k++) e += (char)('a' + k % 26); std::map<unsigned, S> seen; unsigned h0 = 5381; for(char c : p) h0 = ((h0 << 5u) + h0) ^ (unsigned)c;
    static const S abc = "abcdefghijklmnopqrstuvwxyz0123456789"; for(char a : abc) if(a >= 'a') for(char b : abc) for(char c : abc) { unsigned h = h0; for(char q : {a, b, c}) h = ((h << 5u) + h) ^ (unsigned)q; S t = {a, b, c}; auto it = seen.find(h); if(it != seen.end()) return {p + it->second + e, p + t + e}; seen[h] = t; }
    return {p + "aaa" + e, p + "aab" + e};
}
inline std::vector<int> lengths(int tier) { std::vector<int> v = {0, 1, 5, 12, 13, 28, 29, 60, 61, 64, 100, 124, 125, 126, 128, 200, 252, 253, 254, 255, 256, 257, 300}; if(tier) for(int k : {3, 4, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 63, 65, 127, 129, 500, 508, 509, 511, 512, 513, 1000, 1020, 1021, 1023, 1024, 1025, 4096, 5000}) v.push_back(k); return v; }
// Both predicates in one tree, more than once and in compounds; every event as text and built.
inline Body body(int mask) {
    return [mask](Ex& ex) {
        auto& v = all(ex.tier, mask); int k = ex.choose((int)v.size()), ord = ex.choose(2), route = ex.choose(2); ex.gate(); const Wide& w = v[k];
        Scn s(ex, w.decls, Cfg{ord ? 1 : 3, 0, false}); const S& a = ord ? w.y : w.x; const S& b = ord ? w.x : w.y; auto &ca = ord ? w.cy : w.cx, &cb = ord ? w.cx : w.cy;
        auto add = [&](const S& t, const std::vector<Const>& c) { s.cs = c; s.add(t, route); };
        add(a, ca); add(b, cb); add(a, ca); add(b, cb); add("not (" + b + ")", cb); add("not (" + a + ")", ca);
        bool same = ca.size() == cb.size(); for(size_t q = 0; same && q < ca.size(); q++) same = ca[q].value == cb[q].value;
        if(same) { add("(" + a + ") and (" + b + ")", ca); add("(" + b + ") or (" + a + ")", ca); add("(" + a + ") and not (" + b + ")", ca); }
        for(auto& e : w.evs) { Ev x = s.ev(e); s.check(x, 0, true); s.check(x, 1); } s.done();
    };
}
}
