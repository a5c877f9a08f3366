// C09 frequency caps, C10 segments, C11 distance and text patterns.
#include <set>
#include "wide.h"
#include <cmath>
static Cfg cf(int cap, int part = 0) { return Cfg{cap, part, false}; }
static const char* TYPES[] = {"advertiser", "advertiser:ip", "campaign", "campaign:ip", "campaign_group", "campaign_group:ip", "flight", "flight:ip", "product", "product:ip"};
static const std::vector<Const> ALLC = {{"advertiser_id", 11}, {"campaign_id", 12}, {"campaign_group_id", 13}, {"flight_id", 14}, {"product_id", 15}};
static std::string S(int64_t x) { return std::to_string(x); }
static std::string wfc(const std::string& ty, const std::string& ns, int64_t v, int64_t len) { return "within_frequency_cap(\"" + ty + "\", \"" + ns + "\", " + S(v) + ", " + S(len) + ")"; }
static std::string capt(const std::string& ty, int64_t id, const std::string& ns, int64_t v, const std::string& ts) { return "[[\"" + ty + "\", " + S(id) + ", \"" + ns + "\"], " + S(v) + ", " + ts + "]"; }
static const VS FD = {"frequency_caps caps ?", "now int ?", "b bool ?", "other caps ?"};
// one cap: every combination of agreement and disagreement with the predicate
static Body freq_single() {
    return [](Ex& ex) {
        static const int64_t lens[] = {0, 1, 60, 86400, 2147483648LL, 3000000000LL, 4294967296LL, 4294967296LL + 60};
        int et = ex.choose(10), ct = ex.choose(10), id = ex.choose(3), ns = ex.choose(3), v = ex.choose(4), len = ex.choose(8), shape = ex.choose(3); ex.gate();
        const int64_t T0 = len < 4 ? 1700000000 : 9000000000LL;
        int64_t L = lens[len], cap_value = v == 0 ? 9 : v == 1 ? 10 : v == 2 ? 11 : 0;
        int64_t right = 11 + et / 2, idv = id == 0 ? right : id == 1 ? (right == 15 ? 11 : right + 1) : 0;
        const char* nss[] = {"ns", "nsx", ""};
        Scn s(ex, FD, cf(1), ALLC);
        std::string t = wfc(TYPES[et], "ns", v == 3 ? 0 : 10, L);
        s.add(shape == 1 ? "not (" + t + ")" : shape == 2 ? "b or " + t : t, shape == 2);
        s.add(wfc("flight", "zz", 1, 1)); s.add("not " + wfc("product", "ns", 1000000, 5));
        int k = 0;
        for(int64_t el : {L - 1, L, L + 1}) for(int64_t sub : {(int64_t)0, (int64_t)1, (int64_t)999999}) {
            std::string c = "[" + capt(TYPES[ct], idv, nss[ns], cap_value, S((T0 - el) * 1000000 + sub)) + "]";
            s.check(s.ev({c, S(T0), k % 3 ? "true" : "-", "-"}), k & 1); k++;
        }
        std::string u = "[" + capt(TYPES[ct], idv, nss[ns], cap_value, "u") + "]", z = "[" + capt(TYPES[ct], idv, nss[ns], cap_value, S(T0 * 1000000)) + "]";
        s.check(s.ev({u, S(T0), "-", "-"}), 1); s.check(s.ev({u, "-", "false", "-"}), 1); s.check(s.ev({z, "-", "-", "-"}), 0); s.check(s.ev({"[]", "-", "-", "-"}), 0); s.check(s.ev({"[]", S(T0), "false", z}), 1); s.check(s.ev({"-", S(T0), "-", z}), 0); s.check(s.ev({"-", "-", "true", "[]"}), 1); s.check(s.ev({z, "0", "-", "-"}), 1); s.check(s.ev({z, "-1", "true", "-"}), 0); s.check(s.ev({u, "-9000000000", "false", "-"}), 1);
        s.done();
    };
}
// lists of caps with distinct keys, several predicates under boolean operators
static Body freq_lists() {
    return [](Ex& ex) {
        const int64_t T0 = 2000;
        struct C { const char* ty; int id; const char* ns; }; static const C keys[] = {{"flight", 14, "a"}, {"flight", 14, "b"}, {"flight", 15, "a"}, {"flight:ip", 14, "a"}, {"campaign", 12, "a"}, {"campaign_group", 13, "a"}, {"flight", 14, "unknown"}, {"product", 15, "a"}};
        static const int64_t vals[] = {4, 5}; static const char* tss[] = {"1939999999", "1940000000", "u"};
        int n = ex.choose(ex.tier ? 5 : 4); std::vector<int> ks; std::string l = "["; bool dup = false;
        for(int i = 0; i < n; i++) { int k = ex.choose(8); for(int x : ks) dup |= x == k; ks.push_back(k); int st = ex.choose(i == 0 || ex.tier ? 6 : 2); l += (i ? ", " : "") + capt(keys[k].ty, keys[k].id, keys[k].ns, vals[st % 2], tss[st / 2]); }
        l += "]"; ex.gate(); if(dup) return;
        Scn s(ex, FD, cf(1), ALLC);
        VS e = {wfc("flight", "a", 5, 60), wfc("flight", "a", 5, 0), wfc("flight", "b", 5, 59), "not " + wfc("flight", "a", 6, 60), wfc("flight:ip", "a", 5, 60), wfc("flight", "a", 5, 60) + " and " + wfc("flight", "b", 5, 60), wfc("campaign", "a", 5, 61) + " or " + wfc("campaign_group", "a", 5, 60), "not (" + wfc("campaign", "a", 5, 60) + " and b)", "b or not " + wfc("flight:ip", "a", 4, 60), wfc("campaign:ip", "a", 0, 0), "frequency_caps is null or " + wfc("flight", "a", 4, 59)};
        for(size_t i = 0; i < e.size(); i++) s.add(e[i], i & 1);
        s.hs = hmix(s.hs, hstr(l)); int k = 0; for(const char* now : {"2000", "1999", "2001", "-2000", "-"}) for(const char* b : {"true", "false", "-"}) { s.check(s.ev({l, now, b, "-"}), k++ & 1); }
        s.check(s.ev({"-", S(T0), "-", l}), 1); s.done();
    };
}
// long lists of caps: the wanted one at the edges, in the middle and absent
static Body freq_long() {
    return [](Ex& ex) {
        static const std::vector<int> lens = {1, 2, 7, 16, 63, 64, 65, 127, 128, 200, 255, 256, 257, 300, 600}; int n = ex.pick(lens), pos = ex.choose(5), diff = ex.choose(3), order = ex.choose(2); ex.gate();
        int at = pos == 0 ? 0 : pos == 1 ? n - 1 : pos == 2 ? n / 2 : pos == 3 ? std::min(n - 1, 255) : -1; static const char* ty[] = {"flight", "campaign", "product", "flight:ip"};
        std::string l = "["; for(int q = 0; q < n; q++) { int i = order ? n - 1 - q : q; l += (q ? ", " : ""); if(i == at) l += capt("flight", 14, "a", 5, "1939999999"); else l += diff == 0 ? capt("flight", 10000 + i, "a", i % 9, "u") : diff == 1 ? capt("flight", 14, "n" + S(i), i % 9, "u") : capt(ty[i % 4], 10000 + i / 4, i % 3 ? "a" : "b", i % 9, "1940000000"); } l += "]";
        Scn s(ex, FD, cf(1), ALLC); for(const char* ns : {"a", "b", "n0", "n7", "n254", "n255", "n256", "n599"}) { s.add(wfc("flight", ns, 5, 0)); s.add("not " + wfc("flight", ns, 6, 60), 1); } s.add(wfc("flight", "a", 5, 60) + " or b"); s.add(wfc("product", "a", 3, 0));
        for(const char* now : {"2000", "1999", "-"}) for(const char* b : {"true", "false"}) for(int m = 0; m < 2; m++) s.check(s.ev({l, now, b, "-"}), m);
        s.hs = hmix(s.hs, hstr(l)); s.done();
    };
}
// which constants are needed; the same text with different constants
static Body freq_constants() {
    return [](Ex& ex) {
        int et = ex.choose(10), mask = ex.choose(32), order = ex.choose(2), route = ex.choose(2), two = ex.choose(3), alike = ex.choose(3); ex.gate();
        Scn s(ex, FD, cf(1)); std::vector<Const> cs; for(int i = 0; i < 5; i++) if(mask & 1 << i) cs.push_back(ALLC[i]); if(order) std::reverse(cs.begin(), cs.end());
        // names that only resemble those of the constants
        if(alike) for(const char* nm : {"flight", "campaign", "product", "advertiser", "flight_id_x", "campaign_id2", "product_id ", "advertiser_id_", "Flight_id", "CAMPAIGN_ID", "id", "", "campaign_group", "group_id", "lang_id"}) cs.insert(alike == 1 ? cs.begin() : cs.end(), {nm, 999});
        std::string t = wfc(TYPES[et], "ns", 10, 60); if(two == 1) t = "b and " + t; if(two == 2) t = "not (" + t + " or " + wfc(TYPES[(et + 4) % 10], "ns", 3, 0) + ")";
        s.cs = cs; bool ok = s.try_add(t, route); bool want = ref_check(ref_parse(t), s.d, cs) == Verdict::OK; ex.checked();
        if(ok != want) ex.fail("%s with constants mask %d: accepted %d, expected %d", t.c_str(), mask, ok, want);
        // the same text again with other ids, twice so that it is recognised as a repeated sub-expression
        s.cs = ALLC; for(auto& c : s.cs) c.value += 100; if(alike) for(const char* nm : {"flight", "campaign", "product", "advertiser", "Flight_id", "campaign_group"}) s.cs.insert(alike == 1 ? s.cs.begin() : s.cs.end(), {nm, 7}); s.add(t, route); s.add(t, 1 - route); s.cs = ALLC; s.add(t, route); s.add(t, 1 - route); s.cs.push_back({"unrelated_id", 7}); s.add(t);
        int k = 0;
        for(int ct : {et, et ^ 1, (et + 2) % 10}) for(int64_t id : {(int64_t)11 + et / 2, (int64_t)111 + et / 2, (int64_t)7, (int64_t)0}) for(int64_t v : {3, 10})
            s.check(s.ev({"[" + capt(TYPES[ct], id, "ns", v, "1950000000") + "]", "2000", k % 3 ? "true" : "-", "-"}), k & 1), k++;
        s.done();
    };
}
// namespaces are compared as text, also when many are known
static Body freq_namespaces() {
    return [](Ex& ex) {
        static const int counts[] = {1, 2, 15, 16, 17, 99, 100, 101, 130, 257}; static const VS nss = {"ns", "a6", "gp", "NS", "n", "", "ns ", "a\\\"b", "x.y-z", "\xc3\xa9", "flight", "now"};
        int n = counts[ex.choose(ex.tier ? 10 : 9)], a = ex.choose((int)nss.size()), b = ex.choose((int)nss.size()), pos = ex.choose(2); ex.gate();
        Scn s(ex, FD, cf(1), ALLC);
        if(pos == 0) s.add(wfc("flight", nss[a], 10, 0));
        for(int i = 0; i < n; i++) s.add(wfc("flight", "many" + S(i), 10, 0), i & 1);
        if(pos == 1) s.add(wfc("flight", nss[a], 10, 0));
        for(auto& ns : {nss[b], std::string("many0"), "many" + S(n - 1), "many" + S(n)}) for(int64_t v : {9, 10}) s.check(s.ev({"[" + capt("flight", 14, ns, v, "5") + "]", "2000", "-", "-"}), v & 1);
        s.done();
    };
}
// ---- C10 ------------------------------------------------------------------------------------------
static const VS SD = {"segments_with_timestamp segs ?", "seg segs ?", "now int ?", "b bool ?"};
static std::string sg(int64_t id, int64_t ts) { return "[" + S(id) + ", " + S(ts) + "]"; }
static Body seg_boundary() {
    return [](Ex& ex) {
        static const int64_t nows[] = {1700000000, 100, 4000000000LL, -30}; static const int64_t secs[] = {0, 1, 20, 86400, 2147483647, 2147483648LL, 3000000000LL, 4294967296LL + 20, -1, -50, -2147483649LL};
        static const int64_t ids[] = {3, 0, 1, 2147483648LL, 1099511627776LL, 9223372036854775807LL};
        int64_t now = nows[ex.choose(4)], sec = secs[ex.choose(11)], id = ids[ex.choose(6)]; int named = ex.choose(2), before = ex.choose(2), shape = ex.choose(4), route = ex.choose(2); ex.gate();
        std::string f = std::string(before ? "segment_before(" : "segment_within(") + (named ? "seg, " : "") + S(id) + ", " + S(sec) + ")";
        std::string t = shape == 1 ? "not " + f : shape == 2 ? "b and " + f : shape == 3 ? "not (b or " + f + ")" : f;
        Scn s(ex, SD, cf(1)); s.add(t, route); s.add("segment_within(" + S(id) + ", 5)"); s.add("segment_before(seg, " + S(id) + ", 5)"); s.add(t, !route);
        int k = 0; int64_t base = now - sec;
        std::vector<int64_t> ts; for(int64_t d : {-1000000, -1, 0, 1, 999999, 1000000}) if(base >= 0 || base * 1000000 + d >= 0) ts.push_back(base * 1000000 + d); ts.push_back(0); ts.push_back(now * 1000000);
        for(int64_t x : ts) { if(x < 0) continue; for(int w = 0; w < 3; w++) { std::string l = "[" + sg(id, x) + "]", o = w == 0 ? "-" : w == 1 ? "[]" : "[" + sg(id, w == 2 ? now * 1000000 : 0) + "]"; s.check(named ? s.ev({o, l, S(now), k % 3 ? "true" : "false"}) : s.ev({l, o, S(now), k % 3 ? "true" : "false"}), k & 1); k++; } }
        std::string l = "[" + sg(id, ts.back()) + "]"; s.check(s.ev({l, l, "-", "true"}), 0); s.check(s.ev({l, l, "-", "-"}), 1); s.check(s.ev({"-", "-", S(now), "false"}), 0); s.check(s.ev({"[]", "[]", S(now), "-"}), 1);
        s.done();
    };
}
static Body seg_lists() {
    return [](Ex& ex) {
        static const int64_t pool[] = {-2, 0, 1, 2, 3, 4, 5}; int n = ex.choose(ex.tier ? 6 : 5); std::vector<int> ix; std::string l = "["; bool ok = true;
        for(int i = 0; i < n; i++) { int x = ex.choose(7); if(!ix.empty() && x <= ix.back()) ok = false; ix.push_back(x); int64_t ts = ex.choose(3) * 1000000 + 8000000; l += (i ? ", " : "") + sg(pool[x], ts); if(!ok) break; }
        l += "]"; ex.gate(); if(!ok) return;
        Scn s(ex, SD, cf(1)); int k = 0;
        for(int64_t id : pool) for(int b = 0; b < 2; b++) { s.add(std::string(b ? "segment_before(" : "segment_within(") + (k & 1 ? "seg, " : "") + S(id) + ", 1)", k & 1); s.add(std::string(b ? "not segment_before(" : "not segment_within(") + (k & 1 ? "" : "seg, ") + S(id) + ", 2)"); k++; }
        s.add("segment_within(2, 1) and not segment_before(seg, 2, 1)"); s.add("not (segment_within(3, 1) or segment_before(3, 1))", 1); s.add("seg is null or segment_within(seg, 1, 0)");
        s.hs = hmix(s.hs, hstr(l)); for(const char* now : {"9", "10", "11", "12", "-"}) { s.check(s.ev({l, "-", now, "-"}), k++ & 1); s.check(s.ev({"-", l, now, "-"}), k++ & 1); s.check(s.ev({l, l, now, "true"}), k++ & 1); s.check(s.ev({"[[1, 9000000], [3, 9999999]]", l, now, "true"}), k++ & 1); }
        s.done();
    };
}
// long lists and every position of the wanted segment
static Body seg_long() {
    return [](Ex& ex) {
        static const int lens[] = {1, 2, 7, 16, 63, 64, 65, 200, 255, 256, 257, 600, 70000}; int n = lens[ex.choose(ex.tier ? 13 : 12)], pos = ex.choose(5), step = ex.choose(3); ex.gate();
        int64_t st = step == 0 ? 1 : step == 1 ? 2 : 1LL << 33; int at = pos == 0 ? 0 : pos == 1 ? n - 1 : pos == 2 ? n / 2 : pos == 3 ? n : -1;
        std::string l = "["; for(int i = 0; i < n; i++) l += (i ? ", " : "") + sg(i * st, i == at ? 5000000 : 1000000); l += "]";
        Scn s(ex, SD, cf(-1)); for(int64_t id : {(int64_t)0, (n - 1) * st, n / 2 * st, n * st, -st, (int64_t)1, at * st}) { s.add("segment_within(" + S(id) + ", 5)"); s.add("segment_before(" + S(id) + ", 5)", 1); }
        for(const char* now : {"9", "10", "11", "6", "5"}) for(int m = 0; m < 2; m++) s.check(s.ev({l, "-", now, "-"}), m);
        s.done();
    };
}
// ---- C11 ------------------------------------------------------------------------------------------
static const VS GD = {"latitude float ?", "longitude float ?", "b bool ?"};
static long double gdist(double la1, double lo1, double la2, double lo2) {
    const long double R = 6372.8L, rad = 3.1415926536L / 180; long double p1 = la1 * rad, p2 = la2 * rad, dl = (lo2 - lo1) * rad;
    long double h = sinl((p2 - p1) / 2) * sinl((p2 - p1) / 2) + cosl(p1) * cosl(p2) * sinl(dl / 2) * sinl(dl / 2); if(h > 1) h = 1; return 2 * R * asinl(sqrtl(h)); }
static std::string D(double x) { char b[64]; snprintf(b, sizeof b, "%.6f", x); return b; }
static Body geo_grid() {
    return [](Ex& ex) {
        static const std::vector<double> las = {-90, -89.5, -45, -0.001, 0, 0.001, 33.5, 45.5017, 89.999, 90}, los = {-180, -179.5, -90, -73.5673, -0.25, 0, 12.125, 90, 179.75, 180};
        double la = las[ex.choose(10)], lo = los[ex.choose(10)]; int shape = ex.choose(3), pos = ex.choose(ex.tier ? 10 : 5); ex.gate();
        // the expression is placed at (la, lo); events everywhere; radii around each true distance
        int k = 0;
        for(int i = 0; i < 10; i += 1) for(int j = ex.tier ? pos % 2 : pos; j < 10; j += ex.tier ? 10 : 5) {
            int jj = ex.tier ? (pos + i) % 10 : j;
            double ela = las[i], elo = los[jj]; long double d = gdist(la, lo, ela, elo);
            Scn s(ex, GD, cf(1));
            std::vector<double> rs; for(double m : {0.5, 0.9, 0.999, 1.001, 1.1, 2.0}) { double r = atof(D((double)d * m).c_str()); if(fabsl(r - d) > 1e-3L) rs.push_back(r); }
            rs.push_back(-1); rs.push_back(30000); if(d > 1e-3L) rs.push_back(0); if(la == ela && lo == elo) rs.push_back(0);
            for(double r : rs) { std::string g = "geo_within_radius(" + D(la) + ", " + D(lo) + ", " + D(r) + ")"; s.add(shape == 1 ? "not " + g : shape == 2 ? "b or not (b and " + g + ")" : g, k & 1); }
            s.check(s.ev({D(ela), D(elo), k % 2 ? "true" : "-"}), k & 1); k++;
            if(j == pos && i == 0) { s.check(s.ev({"-", D(elo), "true"}), k & 1); s.check(s.ev({D(ela), "-", "true"}), k & 1); s.check(s.ev({"-", "-", "-"}), k & 1); }
            s.hs = hmix(s.hs, k + pos * 1000); s.done();
        }
    };
}
// near the point itself and near its antipode, where the formula is ill-conditioned
static Body geo_extreme() {
    return [](Ex& ex) {
        int li = ex.choose(37), lj = ex.choose(25), anti = ex.choose(2), route = ex.choose(2); ex.gate();
        double la = -90 + li * 5 + (li % 3 == 1 ? 0.123456 : 0), lo = -180 + lj * 15 + (lj % 3 == 1 ? 0.654321 : 0); if(la > 90) la = 90; if(lo > 180) lo = 180;
        Scn s(ex, GD, cf(1)); for(double r : {1e-6, 0.01, 1.0, 12.0, 500.0, 15000.0, 20010.0, 20020.0, 20030.0, 100000.0}) { s.add("geo_within_radius(" + D(la) + ", " + D(lo) + ", " + D(r) + ")", route); }
        int k = 0;
        for(double da : {0.0, 0.00001, -0.001, 0.01, 0.2}) for(double db : {0.0, -0.00001, 0.002, 0.03}) {
            double ela = (anti ? -la : la) + da, elo = anti ? (lo <= 0 ? lo + 180 : lo - 180) + db : lo + db; if(ela > 90 || ela < -90 || elo < -180 || elo > 180) continue;
            long double d = gdist(la, lo, atof(D(ela).c_str()), atof(D(elo).c_str())); bool close = false; for(long double r : {1e-6L, 0.01L, 1.0L, 12.0L, 500.0L, 15000.0L, 20010.0L, 20020.0L, 20030.0L}) if(fabsl(d - r) < 1e-3L && !(r == 1e-6L && d == 0)) close = true;
            if(close && !(da == 0 && db == 0 && !anti)) continue; s.check(s.ev({D(ela), D(elo), "-"}), k++ & 1);
        }
        s.done();
    };
}
// in every direction from the point, with the radius just too small and just large enough
static Body geo_around() {
    return [](Ex& ex) {
        static const std::vector<double> las = {0, 0.5, 23.75, -45.5017, 60, -79.9, 85, 89.9, -90}, los = {0, -73.5673, 120.25, 179.9, -180}, ds = {0.05, 0.7, 5, 33, 111, 250, 1000, 3333, 5555, 9000, 10020, 13000, 19000};
        double la = ex.pick(las), lo = ex.pick(los), dist = ex.pick(ds); int shape = ex.choose(2); ex.gate(); Scn s(ex, GD, cf(-1)); const double rad = M_PI / 180; int k = 0; std::vector<std::pair<std::string, std::string>> at;
        for(int b = 0; b < 24; b++) {
            double ela, elo, th = dist / 6372.8; if(b % 12 == 0) { ela = la + (b ? -1 : 1) * th / rad; elo = lo; if(ela > 90 || ela < -90) continue; } // exactly on the meridian
            else { double t = b * 15 * rad; ela = asin(sin(la * rad) * cos(th) + cos(la * rad) * sin(th) * cos(t)) / rad; elo = lo + atan2(sin(t) * sin(th) * cos(la * rad), cos(th) - sin(la * rad) * sin(ela * rad)) / rad; if(b % 6 == 0) ela = la; if(elo > 180) elo -= 360; if(elo < -180) elo += 360; }
            std::string a = D(ela), o = D(elo); double xa = atof(a.c_str()), xo = atof(o.c_str()); long double d = gdist(la, lo, xa, xo); at.push_back({a, o});
            for(long double r : {d - 0.002L, d + 0.002L}) { std::string g = "geo_within_radius(" + D(la) + ", " + D(lo) + ", " + sfmt("%.7Lf", r) + ")"; s.add(shape ? "not " + g : g, k++ & 1); }
        }
        // an event exactly as far as another's radius is left out
        std::vector<long double> dd; for(auto& x : at) dd.push_back(gdist(la, lo, atof(x.first.c_str()), atof(x.second.c_str())));
        for(size_t i = 0; i < at.size(); i++) { bool close = false; for(size_t j = 0; j < at.size(); j++) if(fabsl(fabsl(dd[i] - dd[j]) - 0.002L) < 0.0005L) close = true; if(!close) s.check(s.ev({at[i].first, at[i].second, "-"}), k++ & 1); }
        s.done();
    };
}
// whole-number spellings
static Body geo_integers() {
    return [](Ex& ex) {
        static const int las[] = {-90, -45, 0, 1, 60, 90}, los[] = {-180, -73, 0, 12, 180}; static const int rs[] = {0, 1, 100, 1113, 5000, 10020, 20000, 20030, -5};
        int la = las[ex.choose(6)], lo = los[ex.choose(5)], r = rs[ex.choose(9)], neg = ex.choose(2); ex.gate();
        Scn s(ex, GD, cf(1)); std::string g = "geo_within_radius(" + S(la) + ", " + S(lo) + ", " + S(r) + ")"; s.add(neg ? "not " + g : g, neg); s.add("geo_within_radius(" + S(la) + ".0, " + S(lo) + ".0, " + S(r) + ".0)");
        int k = 0; for(double ela : {-90.0, -44.0, 0.0, 0.5, 10.0, 61.0}) for(double elo : {-180.0, -72.5, 0.0, 12.25, 179.0, 200.0, 359.5, -340.25}) { if(fabsl(gdist(la, lo, ela, elo) - r) < 1e-3L && !(la == ela && lo == elo && r == 0)) continue; s.check(s.ev({D(ela), D(elo), "-"}), k++ & 1); }
        s.done();
    };
}
static VS words(const std::string& al, int max) { VS o = {""}; size_t b = 0; for(int n = 0; n < max; n++) { size_t e = o.size(); for(size_t i = b; i < e; i++) for(char c : al) o.push_back(o[i] + c); b = e; } return o; }
static Body str_body() {
    return [](Ex& ex) {
        static const VS ps = words("ab", 3), ss = words("ab", 5); static const char* ops[] = {"contains", "starts_with", "ends_with"};
        int p = ex.choose((int)ps.size()), op = ex.choose(3), known = ex.choose(2), neg = ex.choose(2), q = ex.choose(ex.tier ? (int)ps.size() : 3); ex.gate();
        Scn s(ex, {"s str ?", "t str ?", "b bool ?"}, cf(1));
        std::string e = std::string(ops[op]) + "(s, \"" + ps[p] + "\")", e2 = std::string(ops[(op + 1) % 3]) + "(t, \"" + ps[(p + q) % ps.size()] + "\")";
        s.add(neg ? "not " + e : e, known); s.add(e2); s.add(e + " and not " + e2, 1); s.add(e); s.add("not (" + e + " or b)");
        if(known) for(auto& w : ss) if(w.size() < 4) s.add("s = \"" + w + "\" or t = \"" + w + "\"");
        int k = 0; int lim = ex.tier ? (int)ss.size() : 31;
        for(int i = 0; i < lim; i++) { s.check(s.ev({"\"" + ss[i] + "\"", "\"" + ss[(i * 7 + p) % lim] + "\"", k % 3 == 0 ? "-" : k % 3 == 1 ? "true" : "false"}), k & 1); k++; }
        s.check(s.ev({"-", "\"ab\"", "-"}), 0); s.check(s.ev({"\"ab\"", "-", "false"}), 1); s.check(s.ev({"-", "-", "false"}), 1);
        s.done();
    };
}
static Body str_spellings() {
    return [](Ex& ex) {
        static const VS ws = {"a", "A", " ", "a b", "b a", "%s", "a.b", "a*", "\xc3\xa9", "\xc3", "aa", "aaa", "aab", "abcabcabd", "abcabd", "0", "-", "x\ty", "{\"a\":1}", std::string(300, 'q'), std::string(299, 'q') + "r", "r"};
        auto esc = [](std::string w) { std::string o; for(char c : w) { if(c == '"') o += '\''; else o += c; } return o; };
        int p = ex.choose((int)ws.size()), op = ex.choose(3), w = ex.choose((int)ws.size()), known = ex.choose(2); ex.gate(); static const char* ops[] = {"contains", "starts_with", "ends_with"};
        Scn s(ex, {"s str ?"}, cf(1)); s.add(std::string(ops[op]) + "(s, \"" + esc(ws[p]) + "\")"); char qc = esc(ws[p]).find('\'') == std::string::npos ? '\'' : '"'; s.add("not " + std::string(ops[op]) + "(S, " + qc + esc(ws[p]) + qc + ")", 1); if(known) s.add("s = \"" + esc(ws[w]) + "\"");
        int k = 0; for(auto& v : {ws[w], ws[w] + ws[p], ws[p] + ws[w], ws[w] + ws[p] + ws[w], ws[p] + ws[p]}) s.check(s.ev({"\"" + esc(v) + "\""}), k++ & 1);
        s.done();
    };
}
// ids and counts around the limits of 8, 16, 32 and 64 bits
static Body freq_numbers() {
    return [](Ex& ex) {
        static const std::vector<int64_t> N = {0, 1, 14, -1, -14, 127, 128, 255, 256, 270, 32767, 65535, 65536, 65550, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 4294967310LL, 9223372036854775806LL, INT64_MAX, -2147483648LL, -4294967282LL, -INT64_MAX};
        int n = (int)N.size(), a = ex.choose(n), what = ex.choose(2), route = ex.choose(2), company = ex.choose(2); ex.gate();
        Scn s(ex, {"frequency_caps caps ?", "now int ?"}, cf(1), {{"flight_id", what ? 14 : N[a]}, {"campaign_id", 14}}); int64_t v = what ? N[a] : 5;
        if(company) s.add(wfc("campaign", "a", 5, 0), route);
        for(auto& e : {wfc("flight", "a", v, 0), wfc("flight", "a", v, 60), "not " + wfc("flight", "a", v, 0)}) s.add(e, route);
        for(int b = 0; b < n; b++) for(int k = 0; k < 3; k++) {
            std::string id = S(what ? 14 : N[b]), cnt = S(what ? N[b] : k == 1 ? 4 : 9), ts = k == 2 ? "1000000" : "90000000";
            std::string cap = "[\"flight\"," + id + ",\"a\"," + cnt + "," + ts + "]", other = "[\"flight\"," + S(N[(b + 1) % n]) + ",\"a\",0,1]";
            s.check(s.ev({"[" + cap + "]", "100"}), k & 1); s.check(s.ev({"[" + (what ? "[\"flight\",15,\"a\",0,1]," : other + ",") + cap + "]", "100"}), (k + b) & 1, b % 5 == 0);
        }
        s.hs = hmix(hmix(s.hs, a * 4 + what), company); s.done();
    };
}
// times and lengths as large as the types allow
static Body far_times(bool seg) {
    return [seg](Ex& ex) {
        static const std::vector<int64_t> NOW = {0, 1, 2147483647LL, 2147483648LL, 4294967295LL, 4294967297LL, 1000000000000LL, 9223372036853LL, 9223372036854LL, 9223372036855LL, 9007199254740993LL, INT64_MAX - 1, INT64_MAX};
        static const std::vector<int64_t> LEN = {0, 1, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 4294967297LL, 1000000000000LL, 9223372036854LL, 9223372036855LL, 18446744073709LL, 9007199254740993LL, INT64_MAX - 1, INT64_MAX};
        static const std::vector<int64_t> TS = {0, 1, 999999, 1000000, 2147483647LL, 4294967296LL, 2147483647000000LL, 4294967296000000LL, 4294967297000001LL, 999999999999999999LL, 9223372036853999999LL, 9223372036854000000LL, INT64_MAX - 1, INT64_MAX};
        int64_t now = ex.pick(NOW), len = ex.pick(LEN); int neg = ex.choose(2), route = ex.choose(2); ex.gate(); if(neg) now = -now;
        if(seg && now < 0 && len > INT64_MAX + now) throw Skip(); // the start of the time span is not a number any more
        if(now < -INT64_MAX + 9223372036854LL) throw Skip();
        std::set<int64_t> ts(TS.begin(), TS.end()); for(int64_t at : {now, now < 0 ? now : now - len}) for(int64_t x : {at - 1, at, at == INT64_MAX ? at : at + 1}) if(x >= 0 && x <= 9223372036853LL) for(int64_t y : {0, 1, 999999}) ts.insert(x * 1000000 + y);
        Scn s(ex, seg ? VS{"segments_with_timestamp segs ?", "seg segs ?", "now int ?"} : VS{"frequency_caps caps ?", "now int ?"}, cf(1), ALLC); int k = 0;
        VS e; if(seg) for(const char* f : {"segment_within(", "segment_before("}) { e.push_back(f + std::string("3, ") + S(len) + ")"); e.push_back(std::string("not ") + f + "seg, 3, " + S(len) + ")"); e.push_back(f + std::string("seg, 3, 5)")); }
        else for(int v : {10, 9}) { e.push_back(wfc("flight", "ns", v, len)); e.push_back("not " + wfc("flight", "ns", v, len)); e.push_back(wfc("campaign", "ns", v, 5)); }
        for(auto& x : e) s.add(x, route);
        for(int64_t x : ts) { if(seg) s.check(s.ev({"[" + sg(3, x) + "]", "[" + sg(3, x) + "," + sg(4, 1) + "]", S(now)}), k & 1); else s.check(s.ev({"[" + capt("flight", 14, "ns", 9, S(x)) + "," + capt("campaign", 12, "ns", 9, S(x)) + "]", S(now)}), k & 1); k++; }
        s.hs = hmix(hmix(s.hs, hstr(S(now))), hstr(S(len))); s.done();
    };
}
// long patterns far into long texts
static Body str_long() {
    return [](Ex& ex) {
        static const std::vector<int> pads = {0, 1, 7, 63, 64, 65, 127, 255, 256, 257, 511, 1023, 1024, 1025, 4095, 4097, 10000, 70000}, plens = {1, 2, 3, 8, 63, 64, 65, 256, 257, 1000};
        int np = ex.tier ? 18 : 16; int pre = pads[ex.choose(np)], post = pads[ex.choose(np)], fill = ex.choose(4), op = ex.choose(3), route = ex.choose(2); ex.gate();
        static const char* ops[] = {"contains", "starts_with", "ends_with"};
        for(int len : plens) {
            std::string pat; for(int i = 0; i < len; i++) pat += i == len - 1 && len > 1 ? 'z' : "abcabd"[i % 6];
            std::string bad = pat; bad[len / 2] = 'q'; std::string last = pat; last[len - 1] = 'y'; // the pattern with one other character
            auto pad = [&](int n) { std::string o; while((int)o.size() < n) o += fill == 0 ? std::string("q") : fill == 1 ? pat.substr(0, len - 1) + "q" : fill == 2 ? bad : pat; o.resize(n); return o; };
            Scn s(ex, {"s str ?"}, cf(1)); s.add(std::string(ops[op]) + "(s, \"" + pat + "\")", route); s.add("not " + std::string(ops[op]) + "(s, \"" + pat + "\")", route);
            int k = pre + post; for(auto& mid : {pat, bad, last, std::string()}) s.check(s.ev({"\"" + pad(pre) + mid + pad(post) + "\""}), k++ & 1);
            s.hs = hmix(hmix(s.hs, pre * 100003 + post), fill); s.done();
        }
    };
}
void register_props(std::vector<PropDef>& out) {
    out.push_back({"C09", {{"one-cap", freq_single(), 1, 3}, {"lists", freq_lists(), 1, 3}, {"long", freq_long(), 1, 3}, {"numbers", freq_numbers(), 3, 3}, {"far-times", far_times(false), 3, 3}, {"constants", freq_constants(), 1, 3}, {"namespaces", freq_namespaces(), 1, 3}, {"alike", wide::body(WCAP), 1, 3}}});
    out.push_back({"C10", {{"boundary", seg_boundary(), 1, 3}, {"lists", seg_lists(), 1, 3}, {"long", seg_long(), 1, 3}, {"far-times", far_times(true), 3, 3}, {"alike", wide::body(WSEG), 1, 3}}});
    out.push_back({"C11", {{"distance", geo_grid(), 1, 3}, {"distance-extremes", geo_extreme(), 1, 3}, {"distance-around", geo_around(), 1, 3}, {"distance-integers", geo_integers(), 1, 3}, {"patterns", str_body(), 1, 3}, {"pattern-spellings", str_spellings(), 1, 3}, {"long-texts", str_long(), 1, 3}, {"alike", wide::body(WGEO | WTEXT), 1, 3}}});
}
