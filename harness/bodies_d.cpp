// C12 expression language, C13 event forms.
#include "more.h"
#include <set>
static Cfg cf(int cap, int part = 0) { return Cfg{cap, part, false}; }
static const std::vector<Const> LC = {{"flight_id", 14}, {"campaign_id", 12}};
// ---- C12 ------------------------------------------------------------------------------------------
struct Lang { VS decls; Decls d; std::vector<Ev> ev; };
static Lang make_lang(const VS& decls, const std::vector<VS>& vals) { Lang l; l.decls = decls; l.d = parse_decls(decls); l.ev = ev_product(l.d, vals); return l; }
static const Lang& lang() {
    static Lang l = make_lang({"i int ?", "b bool ?", "s str ?", "l ilist ?", "f float ?", "m slist ?", "c bool ?"},
        {{"1", "-1", "2", "-"}, {"true", "false"}, {"\"x\"", "\"q\""}, {"[1]", "[]", "[-1,2]"}, {"2.5", "1"}, {"[\"x\"]", "[\"y\",\"q\"]"}, {"false"}});
    return l;
}
static const Lang& full_lang() { // for the special predicates
    static Lang l = make_lang({"i int ?", "b bool ?", "s str ?", "l ilist ?", "f float ?", "m slist ?", "g segs ?", "segments_with_timestamp segs ?", "frequency_caps caps ?", "now int ?", "latitude float ?", "longitude float ?", "e enum ?"},
        {{"1", "-2"}, {"true", "-"}, {"\"xy\"", "\"q\""}, {"[1,2]"}, {"2.5"}, {"[\"x\",\"y\"]", "[\"q\"]"}, {"[[1,20000000]]"}, {"[[1,99000000],[2,30000000]]"}, {"[[[\"flight\",14,\"ns\"],100,95000000]]", "[]"}, {"100"}, {"45.5"}, {"-73.5", "10.0"}, {"7"}});
    return l;
}
// Inserts every text into one tree, demanding the verdict of the reference grammar, then checks all events.
struct LangRun {
    Ex& ex; const Lang& L; Sut s; std::vector<std::pair<std::string, EP>> in; uint64_t hs = 0; uint64_t tried = 0;
    LangRun(Ex& ex, const Lang& L) : ex(ex), L(L), s(ex, L.d, cf(3)) {}
    void text(const std::string& t) {
        EP e = ref_parse(t); if(e && ref_unspecified(e, L.d)) return; bool want = e && ref_check(e, L.d, LC) == Verdict::OK; tried++;
        if(!want && getenv("MC_TEXTS") && ex.verbose) ex.note("  refused %s", t.c_str());
        if(in.size() < 64 || !want) {
            bool ok = s.insert(in.size(), t, LC); ex.checked();
            if(ok != want) { ex.note("  the text is:\n%s", t.c_str()); ex.fail("%s: accepted %d, expected %d", t.c_str(), ok, want); }
            if(ok) in.push_back({t, e});
        }
    }
    void events() {
        for(auto& x : in) hs = hmix(hs, hstr(x.first));
        if(in.empty()) return;
        for(size_t k = 0; k < L.ev.size(); k++) {
            std::vector<uint64_t> w; for(size_t i = 0; i < in.size(); i++) if(ref_eval(in[i].second, L.d, L.ev[k], LC)) w.push_back(i);
            Res r = s.search(L.ev[k], PROG); ex.checked();
            if(!r.ok || r.ids != w) { for(size_t i = 0; i < in.size(); i++) { bool got = std::count(r.ids.begin(), r.ids.end(), i), wt = std::count(w.begin(), w.end(), i); if(got != wt) { ex.note("  the text is:\n%s", in[i].first.c_str()); ex.fail("%s evaluates to %d, expected %d, for %s", in[i].first.c_str(), got, wt, ev_text(L.d, L.ev[k]).c_str()); } } ex.fail("search of %s failed", ev_text(L.d, L.ev[k]).c_str()); }
        }
    }
};
static const VS TOK = {"i", "b", "s", "l", "f", "1", "2.5", "\"x\"", "'y'", "-", "=", "<>", "<", "<=", ">", ">=", "(", ")", ",", "in", "not in", "one of", "none of", "all of", "and", "&&", "or", "||", "not", "is null", "is not null", "is empty", "true", "false", "contains", "segment_within"};
static const char* GLUE[] = {" ", "", "\t\n "};
static std::string join(const VS& t, const char* g) { std::string o; for(size_t i = 0; i < t.size(); i++) o += (i ? g : "") + t[i]; return o; }
static Body tokens_body() {
    return [](Ex& ex) {
        int len = ex.choose(ex.tier ? 5 : 4); VS p; for(int i = 0; i < len; i++) p.push_back(TOK[ex.choose((int)TOK.size())]); ex.gate();
        LangRun r(ex, lang()); ex.note("token sequences starting with %s", join(p, " ").c_str());
        p.push_back(""); for(auto& t : TOK) { p.back() = t; r.text(join(p, " ")); if(len < 4) { r.text(join(p, "")); if(len < 3) r.text("\n" + join(p, GLUE[2]) + "\t"); } }
        if(len == 0) { r.text(""); r.text(" "); r.text("\n\t"); }
        r.events(); ex.state(hmix(hstr(join(p, " ")), r.hs));
    };
}
// boolean structure only, longer
static Body structure_body() {
    return [](Ex& ex) {
        static const VS T1 = {"b", "c", "not", "and", "or", "(", ")", "i < 2"}; int n = 7, len = ex.choose(ex.tier ? 8 : 7); VS p; for(int i = 0; i < len; i++) p.push_back(T1[ex.choose(n)]); ex.gate();
        static Lang l2 = make_lang({"b bool", "c bool", "i int"}, {{"true", "false"}, {"true", "false"}, {"1", "3"}});
        LangRun r(ex, l2); ex.note("token sequences starting with %s", join(p, " ").c_str());
        p.push_back(""); for(auto& t : T1) { p.back() = t; r.text(join(p, " ")); }
        r.events(); ex.state(hmix(hstr(join(p, " ")), r.hs));
    };
}
// precedence: every operator skeleton over six atoms with every negation pattern, and one pair of parentheses anywhere
static Body precedence_body() {
    return [](Ex& ex) {
        int n = 2 + ex.choose(ex.tier ? 4 : 3); std::vector<int> op; VS atoms = {"b", "c", "i < 2", "s = \"x\"", "1 in l"}; for(int i = 0; i + 1 < n; i++) op.push_back(ex.choose(4)); int neg = ex.choose(1 << n); int lp = ex.choose(n), rp = lp + ex.choose(n - lp), pneg = ex.choose(2); ex.gate();
        static const char* o[] = {"and", "or", "&&", "||"}; VS t;
        for(int i = 0; i < n; i++) { if(i == lp) { if(pneg) t.push_back("not"); t.push_back("("); } if(neg >> i & 1) t.push_back("not"); t.push_back(atoms[i]); if(i == rp) t.push_back(")"); if(i + 1 < n) t.push_back(o[op[i]]); }
        LangRun r(ex, lang()); r.text(join(t, " ")); VS u = t; for(auto& x : u) if(x == "not") x = "not  not not"; r.text(join(u, "\n")); r.text("((" + join(t, " ") + "))");
        if(r.in.size() != 3) ex.fail("harness: %s is not in the language", join(t, " ").c_str());
        r.events(); ex.state(hmix(hstr(join(t, " ")), 7));
    };
}
static const VS& samples() {
    static const VS v = {"i = 1", "1 <> i", "f >= -2.5", "3 > f", "-1.25 <= f", "s = \"x\"", "'q' <> s", "i in (1, -2)", "s not in ('q', \"xy\")", "1 in l", "\"x\" not in m", "l one of (1, 2)", "m none of ('x')", "m all of (\"x\", \"y\")", "l is empty", "i is not null", "s is null", "b and not (i < 2 or f > 1.5)", "b && i <= 1 || not b", "not not b", "true or false", "e = 7",
        "contains(s, \"x\")", "starts_with(s, 'xy')", "ends_with(s, \"y\")", "segment_within(1, 20)", "segment_before(g, 1, 20)", "segment_within(g, -1, 5)", "within_frequency_cap(\"flight\", \"ns\", 100, 0)", "within_frequency_cap('campaign:ip', 'ns', 1, 600)", "geo_within_radius(45.5, -73.5, 10.0)", "geo_within_radius(45, -73, 100)", "not segment_within(2, 1) and b", "b or contains(s, \"q\") and i = 1"};
    return v;
}
static VS split_tokens(const std::string& t) { // at token boundaries, keeping strings, words, numbers and two-character operators
    VS o; size_t p = 0;
    while(p < t.size()) { char c = t[p]; size_t e = p + 1;
        if(c == ' ') { p++; continue; }
        if(c == '"' || c == '\'') { e = t.find(c, p + 1) + 1; }
        else if(isalpha((unsigned char)c) || c == '_') { while(e < t.size() && (isalnum((unsigned char)t[e]) || t[e] == '_')) e++; for(auto& w : VS{"not in", "one of", "none of", "all of", "is not null", "is null", "is empty"}) if(t.compare(p, w.size(), w) == 0 && (p + w.size() == t.size() || !isalnum((unsigned char)t[p + w.size()]))) { e = p + w.size(); break; } }
        else if(isdigit((unsigned char)c)) { while(e < t.size() && (isdigit((unsigned char)t[e]) || t[e] == '.')) e++; }
        else for(auto& w : VS{"<>", "<=", ">=", "&&", "||"}) if(t.compare(p, 2, w) == 0) e = p + 2;
        o.push_back(t.substr(p, e - p)); p = e; }
    return o;
}
static const VS& all_tokens() { static const VS v = cat({TOK, {"g", "m", "segment_before", "within_frequency_cap", "geo_within_radius", "starts_with", "ends_with", "'flight'", "\"ns\"", "undeclared", "0", "-1", "20", "2.0", "\"\""}}); return v; }
// every text one token edit away from a sample (thorough: two substitutions)
static Body edits_body() {
    return [](Ex& ex) {
        const std::string& base = ex.pick(samples()); VS t = split_tokens(base); int n = (int)t.size(); int kind = ex.choose(4), at = ex.choose(n + (kind == 1)); int second = 0, at2 = 0; if(ex.tier && kind == 0) { at2 = ex.choose(n); second = ex.choose((int)all_tokens().size()); } ex.gate();
        LangRun r(ex, full_lang()); ex.note("edits of %s", base.c_str());
        if(kind == 0) { VS u = t; if(ex.tier && at2 != at) u[at2] = all_tokens()[second]; for(auto& x : all_tokens()) { u[at] = x; r.text(join(u, " ")); r.text(join(u, "")); } }
        else if(kind == 1) for(auto& x : all_tokens()) { VS u = t; u.insert(u.begin() + at, x); r.text(join(u, " ")); r.text(join(u, "")); }
        else if(kind == 2) { VS u = t; u.erase(u.begin() + at); r.text(join(u, " ")); VS v(t.begin(), t.begin() + at); r.text(join(v, " ")); VS w(t.begin() + at, t.end()); r.text(join(w, " ")); for(int j = 0; j < at; j++) { VS x = t; std::swap(x[at], x[j]); r.text(join(x, " ")); } u = t; u.insert(u.begin() + at, t[at]); r.text(join(u, " ")); for(auto& y : samples()) { r.text(join(t, " ") + " " + y); } }
        else { VS u = t; for(const char* ws : {" ", "\t", "\n", "    ", ""}) { std::string o; for(int i = 0; i < n; i++) o += (i == at ? ws : " ") + t[i]; r.text(o); r.text(ws + join(t, " ") + ws); r.text(ws + join(t, ws) + ws); } r.text("(" + base + ")"); r.text("not (" + base + ")"); r.text("b and " + base); r.text(base + " or b"); r.text("( ( " + base + " ) )"); r.text("(" + base); r.text(base + ")"); r.text(base + " " + base); r.text(base + ","); r.text(base + ";"); r.text(base + " and"); }
        r.events(); ex.state(hmix(hmix(hstr(base), kind * 1000 + at), hmix(at2, second)));
    };
}
// every byte at every position, and every byte dropped or replaced
static Body bytes_body() {
    return [](Ex& ex) {
        const std::string& base = ex.pick(samples()); int at = ex.choose((int)base.size() + 1), kind = ex.choose(2); ex.gate(); LangRun r(ex, full_lang()); ex.note("bytes at %d of %s", at, base.c_str());
        for(int c = 1; c < 256; c++) { if(c == '\r' || c == '\v' || c == '\f') continue; std::string t = base; if(kind == 0) t.insert(t.begin() + at, (char)c); else if(at < (int)t.size()) t[at] = (char)c; else t += (char)c; r.text(t); }
        if(at < (int)base.size()) { std::string t = base; t.erase(at, 1); r.text(t); r.text(base.substr(0, at)); r.text(base.substr(at)); }
        r.events(); ex.state(hmix(hstr(base), at * 2 + kind));
    };
}
// all short strings over a small set of characters
static Body chars_body() {
    return [](Ex& ex) {
        static const std::string al = "bi1.-'\"\\ ()=<>&|,$"; int len = ex.choose(ex.tier ? 6 : 5); std::string p; for(int i = 0; i < len; i++) p += al[ex.choose((int)al.size())]; ex.gate();
        LangRun r(ex, lang()); ex.note("texts starting with >%s<", p.c_str()); for(char c : al) r.text(p + c); r.events(); ex.state(hmix(hstr(p), r.hs));
    };
}
// names that begin with, end with or contain a keyword; numbers, strings and names as written
static Body names_body() {
    return [](Ex& ex) {
        static const VS kw = {"in", "not", "and", "or", "true", "false", "is", "one", "none", "all", "of", "null", "empty", "contains", "starts_with", "segment_within", "within_frequency_cap", "not_in", "is_null"};
        static const VS pre = {"", "x", "_", "a_"}, suf = {"x", "_", "_a", "9", "-", "-x"};
        const std::string& k = ex.pick(kw); std::string n = ex.pick(pre) + k + ex.pick(suf); int ty = ex.choose(3); ex.gate();
        Lang l = make_lang({n + (ty == 0 ? " bool ?" : ty == 1 ? " int ?" : " slist ?"), "b bool"}, {ty == 0 ? VS{"true", "false", "-"} : ty == 1 ? VS{"1", "2", "-"} : VS{"[]", "[\"x\"]", "-"}, {"true", "false"}});
        LangRun r(ex, l);
        VS e = ty == 0 ? VS{n, "not " + n, "not " + n + " and b", "b and " + n, "b or " + n, "b and not " + n, "not(" + n + ")", "not\t" + n, n + " is null", "not " + n + " is not null", "b &&" + n, "b or not not " + n} : ty == 1 ? VS{n + " = 1", n + "=1", "1=" + n, "not " + n + " = 1", n + " in (1,3)", n + " not in (1)", "b and " + n + " > 1", "b or not " + n + ">1", "1<" + n, n + " is null", "2 = " + n + " or b"} : VS{"\"x\" in " + n, "'x' not in " + n, n + " one of ('x')", n + " none of ('x')", n + " all of ('x')", n + " is empty", "not " + n + " is null", "not 'x' in " + n + " and b"};
        for(auto& x : e) r.text(x); if(r.in.size() != e.size()) ex.fail("harness: name %s", n.c_str());
        r.events(); ex.state(hmix(hstr(n), ty));
    };
}
static Body literals_body() {
    return [](Ex& ex) {
        static const VS ints = {"0", "-0", "- 0", "1", "-1", "- 1", "-\t1", "007", "-007", "010", "-0012", "019", "2147483647", "-2147483648", "2147483648", "4294967296", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "00000000000000000000000012"};
        static const VS flts = {"0.", "0.0", "-0.0", "1.", "-1.", "1.5", "- 1.5", "001.50", "0.1", "0.30000000000000004", "123456789.0625", "-123456789.0625", "9007199254740993.0", "179769313486231570000000000000000000000000000.0", "0.00000000000000000001", "3", "-3"};
        static const VS strs = {"\"\"", "''", "\" \"", "\"x\"", "'x'", "\"a b\"", "\"'\"", "'\"'", "\"a\\\"b\"", "'a\\'b'", "\"\\\\\"", "\"a\nb\"", "\"\tx\"", "\"and\"", "\"(\"", "\"\xc3\xa9\"", "\"$%^\"", "\"//\"", "\"x \"", "\" x\"", "\"X\"", "\"a\\nb\"", "\"not in\""};
        int ty = ex.choose(3); const VS& v = ty == 0 ? ints : ty == 1 ? flts : strs; int a = ex.choose((int)v.size()), b = ex.choose((int)v.size()); ex.gate();
        auto value = [&](const std::string& lit) { EP e = ref_parse((ty == 0 ? "i = " : ty == 1 ? "f = " : "s = ") + lit); if(!e) ex.fail("harness: literal %s", lit.c_str()); Val x; x.t = ty == 0 ? T::I : ty == 1 ? T::F : T::S; x.i = e->n.i; x.f = e->n.isf ? e->n.f : (double)e->n.i; x.s = e->s; x.text_ok = false; return x; };
        Lang l; l.decls = {"i int ?", "f float ?", "s str ?", "l ilist ?", "m slist ?"}; l.d = parse_decls(l.decls);
        for(auto& lit : {v[a], v[b]}) { Val x = value(lit); Ev e; e.v.resize(5); e.v[ty] = x; if(ty == 0) { Val q; q.t = T::IL; q.il = {x.i}; e.v[3] = q; } if(ty == 2) { Val q; q.t = T::SL; q.sl = {x.s, "zz"}; e.v[4] = q; } l.ev.push_back(e);
            if(ty == 0) for(int64_t dlt : {-1, 1}) { Ev f = e; int64_t y; if(__builtin_add_overflow(x.i, dlt, &y)) continue; f.v[0]->i = y; f.v[3]->il = {y}; l.ev.push_back(f); }
            if(ty == 1) for(double dlt : {-1e300, 1e300}) { Ev f = e; f.v[1]->f = __builtin_nextafter(x.f, dlt); l.ev.push_back(f); } }
        LangRun r(ex, l); VS e;
        if(ty == 0) e = {"i = " + v[a], v[a] + " = i", "i < " + v[a], "i>" + v[a], v[a] + " >= i", "i in (" + v[a] + "," + v[b] + ")", v[a] + " in l", "l one of (" + v[b] + ", " + v[a] + ")", "i = " + v[a] + " or i = " + v[b], "i >= " + v[a] + " and i <= " + v[b], "f = " + v[a]};
        else if(ty == 1) e = {"f = " + v[a], v[a] + " = f", "f < " + v[a], "f>" + v[a], v[a] + " >= f", "f <= " + v[a] + " and f >= " + v[a], "f <= " + v[a] + " and " + v[b] + " <= f", "f <> " + v[b]};
        else e = {"s = " + v[a], v[a] + " <> s", "s in (" + v[a] + "," + v[b] + ")", v[a] + " in m", "m one of (" + v[b] + ", " + v[a] + ")", "m all of (" + v[a] + ")", "contains(s, " + v[a] + ")", "starts_with(s, " + v[a] + ") and ends_with(s," + v[b] + ")", "s not in (" + v[a] + ")"};
        for(auto& x : e) r.text(x); if(r.in.size() != e.size()) ex.fail("harness: literals %s %s", v[a].c_str(), v[b].c_str());
        r.events(); ex.state(hmix(hmix(hstr(v[a]), hstr(v[b])), ty));
    };
}
// nesting and length
static Body deep_body() {
    return [](Ex& ex) {
        static const int ns[] = {1, 2, 3, 10, 63, 64, 65, 127, 200, 500, 1000, 2000}; int n = ns[ex.choose(ex.tier ? 12 : 11)], kind = ex.choose(8), odd = ex.choose(2); ex.gate(); n += odd;
        std::string t; auto rep = [&](const std::string& x, int k) { std::string o; for(int i = 0; i < k; i++) o += x; return o; };
        switch(kind) { case 0: t = rep("(", n) + "i < 2" + rep(")", n); break; case 1: t = rep("not ", n) + "b"; break; case 2: t = rep("b and ", n) + "i < 2"; break; case 3: t = rep("c or ", n) + "i < 2"; break; case 4: t = rep("b and (", n) + "c" + rep(")", n); break; case 5: t = rep("not (c or ", n) + "b" + rep(")", n); break; case 6: t = "i in (" + rep("7, ", n) + "1)"; break; default: t = "s = \"" + rep("x", n) + "\""; }
        LangRun r(ex, lang()); r.text(t); r.text(t + ")"); r.text("(" + t); r.text(t + " and"); r.text(t + " and c"); r.text(t + " or b"); r.events(); ex.state(hmix(kind, n));
    };
}
// ---- C13 ------------------------------------------------------------------------------------------
static const VS ED = {"i int ?", "b bool ?", "f float ?", "s str ?", "il ilist ?", "sl slist ?", "segments_with_timestamp segs ?", "frequency_caps caps ?", "now int ?", "e enum ?"};
static const std::vector<VS> EV = {{"-5", "7"}, {"true", "false"}, {"-2.5", "3.0"}, {"\"x\"", "\"new\""}, {"[3,1,3]", "[]"}, {"[\"b\",\"a\"]", "[]"}, {"[[1,5000000],[2,9000000]]", "[]"}, {"[[[\"flight\",14,\"ns\"],100,8000000]]", "[]"}, {"10"}, {"4", "5"}};
static const VS EE = {"i = -5", "i > 0 or i is null", "b", "not b", "f < -1.5", "f >= 3", "s = \"x\"", "s <> \"x\"", "s is null", "1 in il", "il all of (1, 3)", "il is empty", "sl one of (\"a\")", "sl is empty", "sl none of (\"b\")", "segment_within(1, 5)", "segment_before(2, 0)", "within_frequency_cap(\"flight\", \"ns\", 100, 0)", "within_frequency_cap(\"flight\", \"ns\", 101, 5)", "e = 4", "e <> 5", "not (b and i < 0)", "e is null or now = 10"};
static std::vector<Const> EC = {{"flight_id", 14}};
static std::string upper(std::string s) { for(auto& c : s) c = (char)toupper((unsigned char)c); return s; }
static std::string camel(std::string s) { for(size_t i = 0; i < s.size(); i += 2) s[i] = (char)toupper((unsigned char)s[i]); return s; }
struct EvForm { std::vector<int> order; int names = 0; int nulls = 0; const char* sep = " "; bool single = false; };
static std::string ev_text2(const Decls& d, const Ev& ev, const EvForm& f) {
    std::string o = "{"; bool first = true;
    for(int i : f.order) { if(!ev.v[i] && !f.nulls) continue; std::string n = f.names == 0 ? d[i].name : f.names == 1 ? upper(d[i].name) : camel(d[i].name); std::string q = f.single ? "'" : "\""; o += (first ? "" : "," + std::string(f.sep)) + q + n + q + ":" + f.sep + (ev.v[i] ? ev.v[i]->text : "null"); first = false; }
    return o + "}";
}
static void fill(Scn& s) { s.cs = EC; for(size_t i = 0; i < EE.size(); i++) s.add(EE[i], i & 1); }
static std::vector<int> perm_of(Ex& ex, int n) { std::vector<int> left, o; for(int i = 0; i < n; i++) left.push_back(i); while(!left.empty()) { int k = ex.choose((int)left.size()); o.push_back(left[k]); left.erase(left.begin() + k); } return o; }
// every order of the variables (in blocks), every subset of undefined ones
static Body orders_body() {
    return [](Ex& ex) {
        int n = (int)ED.size(); std::vector<int> block; int w = ex.tier ? 6 : 5; int start = ex.choose(n); std::vector<int> p = perm_of(ex, w); int undef = ex.choose(8), rev = ex.choose(2), vals = ex.choose(3), names = ex.choose(3); ex.gate();
        EvForm f; std::vector<int> base; for(int i = 0; i < n; i++) base.push_back((start + i) % n); std::vector<int> o = base; for(int i = 0; i < w; i++) o[i] = base[p[i]]; if(rev) std::reverse(o.begin(), o.end()); f.order = o; f.names = names; f.nulls = undef & 1; f.sep = vals == 1 ? "" : vals == 2 ? "\n\t" : " ";
        VS v; for(int i = 0; i < n; i++) { bool u = (undef >> 1) == 1 ? i % 2 == 0 : (undef >> 1) == 2 ? i % 3 == 1 : (undef >> 1) == 3 ? i == start : false; v.push_back(u ? "-" : EV[i][(vals == 2 ? i : vals) % EV[i].size()]); }
        Scn s(ex, ED, cf(1)); fill(s); Ev e = s.ev(v);
        s.check_text(ev_text2(s.d, e, f), e);
        VS nm; for(auto& x : s.d) nm.push_back(names == 0 ? x.name : names == 1 ? upper(x.name) : camel(x.name));
        betree_event* be = s.s.build(e, &o, &nm); auto want = s.want(e); for(int rep = 0; rep < 2; rep++) { Res r = s.s.search_event(be); ex.checked(); if(!r.ok || r.ids != want) ex.fail("search %d of the built event %s returned %d %s, expected %s", rep + 1, ev_text(s.d, e).c_str(), r.ok, ids_text(r.ids).c_str(), ids_text(want).c_str()); } betree_free_event(be);
        s.hs = hmix(s.hs, hstr(ev_text2(s.d, e, f))); s.done();
    };
}
static VS ev_tokens(const std::string& t) { VS o; size_t p = 0; while(p < t.size()) { char c = t[p]; size_t e = p + 1; if(c == ' ') { p++; continue; } if(c == '"' || c == '\'') { while(t[e] != c) e += t[e] == '\\' ? 2 : 1; e++; } else if(isalnum((unsigned char)c)) while(e < t.size() && (isalnum((unsigned char)t[e]) || t[e] == '.')) e++; o.push_back(t.substr(p, e - p)); p = e; } return o; }
// white space at every token boundary
static Body space_body() {
    return [](Ex& ex) {
        int vals = ex.choose(3), ws = ex.choose(5), single = ex.choose(2); static const char* WS[] = {" ", "\n", "\t", "  \n\t ", ""};
        Decls d = parse_decls(ED); Ev e; for(size_t i = 0; i < ED.size(); i++) e.v.push_back(parse_val(d[i].t, EV[i][(vals == 2 ? i : vals) % EV[i].size()]));
        EvForm f; for(size_t i = 0; i < ED.size(); i++) f.order.push_back((int)i); f.sep = ""; f.single = single; VS t = ev_tokens(ev_text2(d, e, f)); int at = ex.choose((int)t.size() + 2); ex.gate();
        std::string o; for(size_t i = 0; i < t.size(); i++) { if((int)i == at || at == (int)t.size() + 1) o += WS[ws]; o += t[i]; } if(at >= (int)t.size()) o += WS[ws];
        Scn s(ex, ED, cf(1)); fill(s); s.check_text(o, e); s.hs = hmix(s.hs, hstr(o)); s.done();
    };
}
// every spelling of a value decodes to exactly that value
static Body values_body() {
    return [](Ex& ex) {
        struct V { T t; const char* text; }; static const std::vector<V> vs = {
            {T::I, "0"}, {T::I, "-0"}, {T::I, "1"}, {T::I, "-1"}, {T::I, "- 1"}, {T::I, "-\n1"}, {T::I, "007"}, {T::I, "010"}, {T::I, "-0012"}, {T::I, "019"}, {T::IE, "010"}, {T::IL, "[010,-0011]"}, {T::SEG, "[[010,020000000]]"}, {T::I, "0000000000000000000000000000011"}, {T::I, "2147483648"}, {T::I, "-2147483649"}, {T::I, "4294967301"}, {T::I, "9223372036854775807"}, {T::I, "-9223372036854775807"},
            {T::F, "0"}, {T::F, "5"}, {T::F, "-5"}, {T::F, "- 5"}, {T::F, "0.5"}, {T::F, "-0.5"}, {T::F, "5."}, {T::F, "-5.0"}, {T::F, "0.1"}, {T::F, "123456789.123456789"}, {T::F, "9007199254740993"}, {T::F, "00.250"}, {T::F, "-1000000"}, {T::F, "1000000000000"}, {T::F, "4617315517961601024"}, {T::F, "0.000001"},
            {T::S, "\"\""}, {T::S, "\"x\""}, {T::S, "'x'"}, {T::S, "\" x\""}, {T::S, "\"X\""}, {T::S, "\"a\\\"b\""}, {T::S, "'a\\'b'"}, {T::S, "\"a'b\""}, {T::S, "'a\"b'"}, {T::S, "\"{}[],:\""}, {T::S, "\"null\""}, {T::S, "\"true\""}, {T::S, "\"1\""}, {T::S, "\"\xc3\xa9\""}, {T::S, "\"a\nb\""}, {T::S, "\"\\\\\""},
            {T::IL, "[]"}, {T::IL, "[ ]"}, {T::IL, "[1]"}, {T::IL, "[-1]"}, {T::IL, "[- 1, 2]"}, {T::IL, "[2,1]"}, {T::IL, "[1,1]"}, {T::IL, "[3,-3,0,7,5]"}, {T::IL, "[9223372036854775807,-9223372036854775807]"},
            {T::SL, "[]"}, {T::SL, "[\"x\"]"}, {T::SL, "['x', \"y\"]"}, {T::SL, "[\"y\",\"x\"]"}, {T::SL, "[\"x\",\"x\"]"}, {T::SL, "[\"\", \"x\"]"}, {T::SL, "[\"q\",\"r\",\"q\"]"}, {T::SL, "[\"q\",\"x\",\"r\"]"}, {T::SL, "[\"X\"]"},
            {T::SEG, "[]"}, {T::SEG, "[[1,5000000]]"}, {T::SEG, "[[-1, 5000000], [1,6000000]]"}, {T::SEG, "[ [ 1 , 5000001 ] , [ 2 , 9000000 ] ]"}, {T::SEG, "[[1,0],[2147483648,5000000]]"},
            {T::FRQ, "[]"}, {T::FRQ, "[[[\"flight\",14,\"ns\"],100,8000000]]"}, {T::FRQ, "[[\"flight\",14,\"ns\",100,8000000]]"}, {T::FRQ, "[[['flight', 14, 'ns'], 4, 8000000], [\"campaign\", 12, \"ns\", 5, 0]]"}, {T::FRQ, "[[[\"flight\",14,\"other\"],100,8000000]]"}, {T::FRQ, "[[[\"flight\",15,\"ns\"],100,8000000],[[\"flight:ip\",14,\"ns\"],1,1]]"},
            {T::B, "true"}, {T::B, "false"}, {T::IE, "0"}, {T::IE, "5"}, {T::IE, "-5"}, {T::IE, "4294967301"}};
        int a = ex.choose((int)vs.size()), opt = ex.choose(2), lower = ex.choose(2); ex.gate(); T ty = vs[a].t;
        static const std::map<T, const char*> dn = {{T::I, "v int"}, {T::F, "v float"}, {T::S, "v str"}, {T::IL, "v ilist"}, {T::SL, "v slist"}, {T::SEG, "v segs"}, {T::FRQ, "frequency_caps caps"}, {T::B, "v bool"}, {T::IE, "v enum"}};
        Scn s(ex, {std::string(dn.at(ty)) + (opt ? " ?" : ""), "now int", "w int ?"}, cf(1), {{"flight_id", 14}, {"campaign_id", 12}});
        VS e;
        if(ty == T::I || ty == T::IE) { for(const char* c : {"0", "1", "-1", "7", "5", "-5", "8", "10", "-10", "-12", "19", "11", "2147483648", "-2147483649", "4294967301", "9223372036854775807", "-9223372036854775807"}) { e.push_back(std::string("v = ") + c); e.push_back(std::string("v <> ") + c); if(ty == T::I) { e.push_back(std::string("v < ") + c); e.push_back(std::string("v > ") + c); } } }
        if(ty == T::F) for(const char* c : {"0", "5", "-5.0", "0.5", "-0.5", "0.1", "123456789.123456789", "9007199254740993.0", "9007199254740992.0", "0.25", "-1000000", "1000000000000.0", "4617315517961601024.0", "0.000001"}) { e.push_back(std::string("v = ") + c); e.push_back(std::string("v < ") + c); e.push_back(std::string("v > ") + c); e.push_back(std::string("v <= ") + c); }
        if(ty == T::S) for(const char* c : {"\"\"", "\"x\"", "\" x\"", "\"X\"", "\"a\\\"b\"", "'a\\'b'", "\"a'b\"", "'a\"b'", "\"{}[],:\"", "\"null\"", "\"true\"", "\"1\"", "\"\xc3\xa9\"", "\"a\nb\"", "\"\\\\\""}) { e.push_back(std::string("v = ") + c); e.push_back(std::string("v <> ") + c); e.push_back(std::string("contains(v, ") + c + ")"); e.push_back(std::string("v not in (") + c + ", \"zz\")"); }
        if(ty == T::IL) { e = {"v is empty", "1 in v", "-1 in v", "10 in v", "8 in v", "-11 in v", "-9 in v", "v one of (2, 7)", "v all of (1, 2)", "v all of (1)", "v none of (1)", "v none of (0, 9)", "9223372036854775807 in v", "-9223372036854775807 in v", "v all of (-3, 0, 3, 5, 7)", "0 not in v"}; }
        if(ty == T::SL) { e = {"v is empty", "\"x\" in v", "\"\" in v", "v one of (\"x\",\"y\")", "v all of (\"x\",\"y\")", "v none of (\"x\")", "\"X\" not in v", "v all of (\"x\")"}; }
        if(ty == T::SEG) { e = {"segment_within(v, 1, 5)", "segment_before(v, 1, 4)", "segment_before(v, 1, 5)", "segment_within(v, -1, 5)", "segment_before(v, 10, 1)", "segment_within(v, 8, 100)", "segment_within(v, 2, 1)", "segment_within(v, 2147483648, 5)", "not segment_within(v, 2, 0)"}; }
        if(ty == T::FRQ) for(const char* n : {"ns", "other"}) for(const char* t : {"flight", "flight:ip", "campaign"}) for(const char* c : {"100, 0", "101, 0", "5, 0", "100, 2", "5, 1", "4, 100"}) e.push_back(std::string("within_frequency_cap(\"") + t + "\", \"" + n + "\", " + c + ")");
        if(ty == T::B) e = {"v", "not v", "v and now = 10"};
        for(size_t i = 0; i < e.size(); i++) s.add(e[i], i & 1);
        Ev ev; ev.v.push_back(parse_val(ty, vs[a].text)); ev.v.push_back(parse_val(T::I, "10")); ev.v.push_back(std::nullopt);
        std::string nm = s.d[0].name; std::string tx = std::string("{\"") + (lower ? upper(nm) : nm) + "\": " + vs[a].text + ", \"now\": 10}", t2 = std::string("{\"w\": null, \"now\":10,\"") + nm + "\":" + vs[a].text + "}";
        s.check_text(tx, ev); s.check_text(t2, ev); s.check(ev, 1); s.check(ev, 0); if(opt) { Ev u = ev; u.v[0].reset(); s.check_text("{\"" + nm + "\": null, \"now\": 10}", u); s.check_text("{\"now\": 10, \"w\":null}", u); s.check(u, 1); }
        s.hs = hmix(s.hs, hstr(tx)); s.done();
    };
}
// long values: lists of every type, texts
static Body long_values_body() {
    return [](Ex& ex) {
        static const std::vector<int> nq = {1, 9, 16, 17, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 513, 1000, 1025}, nt = {2, 3, 4, 8, 31, 32, 33, 63, 512, 1023, 1024, 2000, 4097, 10000, 40000};
        int which = ex.choose((int)nq.size() + (ex.tier ? (int)nt.size() : 0)), n = which < (int)nq.size() ? nq[which] : nt[which - nq.size()], type = ex.choose(6), how = ex.choose(3), at = ex.choose(6), cap = ex.choose(2); ex.gate();
        int p = at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? n / 2 : at == 3 ? std::min(n - 1, 255) : at == 4 ? std::min(n - 1, 100) : std::max(0, n - 2); // where the value of interest is
        static const char* dn[] = {"v ilist ?", "v slist ?", "v segs ?", "frequency_caps caps ?", "v str ?", "v slist ? 9"};
        Scn s(ex, {dn[type], "now int", "w int ?"}, cf(cap ? 1 : -1), {{"flight_id", 14}});
        switch(type) {
            case 0: for(const char* x : {"77 in v", "v one of (77, 999999)", "v all of (77, 5)", "v none of (77)", "888 in v"}) s.add(x); break;
            case 1: case 5: for(const char* x : {"\"x\" in v", "v one of (\"x\", \"y\")", "v all of (\"x\", \"u5\")", "v none of (\"x\")", "\"y\" in v"}) s.add(x, 1); break;
            case 2: s.add(sfmt("segment_within(v, %d, 5)", p * 2 + 10)); s.add(sfmt("segment_before(v, %d, 5)", p * 2 + 10)); s.add(sfmt("segment_within(v, %d, 5)", p * 2 + 11)); break;
            case 3: s.add("within_frequency_cap(\"flight\", \"ns\", 5, 10)"); s.add("within_frequency_cap(\"flight\", \"ns\", 100, 0)"); s.add("within_frequency_cap(\"flight:ip\", \"ns\", 5, 10)"); break;
            default: { std::string x(n, 'x'), y = x; y[p] = 'y'; for(auto& q : {x, y, x.substr(1), x + "x"}) { s.add("v = \"" + q + "\""); s.add("v <> \"" + q + "\"", 1); } s.add("contains(v, \"y\")"); s.add("ends_with(v, \"yx\")"); }
        }
        std::vector<std::string> vals; for(int miss = 0; miss < 2; miss++) {
            std::string t = "["; for(int k = 0; k < n; k++) { if(k) t += how == 1 ? " , " : ","; bool me = k == p && !miss; switch(type) {
                case 0: t += me ? "77" : std::to_string(how == 2 ? 1000 - k : k % 50 + (k % 50 == 27 ? 1000 : 0)); break; case 1: case 5: t += me ? "\"x\"" : how == 2 ? "\"u5\"" : sfmt("'u%d'", k); break;
                case 2: t += sfmt("[%d,%lld]", k * 2 + 10, me ? 96000000ll : 90000000ll + k % 3); break; case 3: t += sfmt("[[\"flight\",%d,\"%s\"],%d,%lld]", me ? 14 : how == 2 ? 15 + k : 14, me ? "ns" : sfmt("n%d", k).c_str(), 9, 95000000ll); break; } } t += "]";
            if(type == 4) { t = "\"" + std::string(n, 'x') + "\""; if(!miss) t[p + 1] = 'y'; } vals.push_back(t); }
        for(auto& x : vals) { Ev e = s.ev({x, "100", "-"}); s.check(e, 0, true); s.check(e, 1, true); s.check_text("{\"now\": 100, \"w\": null, \"" + s.d[0].name + "\": " + x + "}", e); } s.hs = hmix(s.hs, hstr(vals[0])); s.done();
    };
}
// the full product of values, all forms
static Body product_body() {
    return [](Ex& ex) {
        VS v; for(size_t i = 0; i < ED.size(); i++) { int k = ex.choose((int)EV[i].size() + 1); v.push_back(k == (int)EV[i].size() ? "-" : EV[i][k]); } ex.gate();
        Scn s(ex, ED, cf(1)); fill(s); Ev e = s.ev(v); s.check(e, 0); s.check(e, 1); EvForm f; for(int i = (int)ED.size(); i-- > 0;) f.order.push_back(i); f.names = 2; f.nulls = 1; f.sep = "\t"; s.check_text(ev_text2(s.d, e, f), e); s.hs = hmix(s.hs, hstr(ev_text(s.d, e))); s.done();
    };
}
void register_props(std::vector<PropDef>& out) {
    out.push_back({"C12", {{"tokens", tokens_body(), 1, 3}, {"structure", structure_body(), 1, 3}, {"precedence", precedence_body(), 1, 3}, {"edits", edits_body(), 1, 3}, {"bytes", bytes_body(), 1, 3}, {"characters", chars_body(), 1, 3}, {"names", names_body(), 1, 3}, {"literals", literals_body(), 1, 3}, {"deep", deep_body(), 1, 3}, {"chains", more::walk(), 1, 3}}});
    out.push_back({"C13", {{"orders", orders_body(), 1, 3}, {"white-space", space_body(), 1, 3}, {"values", values_body(), 1, 3}, {"product", product_body(), 1, 3}, {"long-values", long_values_body(), 1, 3}}});
}
