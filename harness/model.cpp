#include "model.h"
#include <cctype>
#include <cfloat>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <set>
#include <sstream>
#include <stdexcept>
using std::string; using std::vector;
static string lower(string s) { for(auto& c : s) c = (char)tolower((unsigned char)c); return s; }
Decl parse_decl(const string& s) {
    std::istringstream in(s); Decl d; string ty, a; vector<string> rest; in >> d.name >> ty;
    while(in >> a) { if(a == "?") d.opt = true; else rest.push_back(a); }
    static const std::map<string, T> m = {{"bool", T::B}, {"int", T::I}, {"float", T::F}, {"str", T::S}, {"ilist", T::IL}, {"slist", T::SL}, {"segs", T::SEG}, {"caps", T::FRQ}, {"enum", T::IE}};
    d.t = m.at(ty); d.fmin = -DBL_MAX; d.fmax = DBL_MAX;
    if((d.t == T::I || d.t == T::IL) && rest.size() == 2) { d.bounded = true; d.imin = strtoll(rest[0].c_str(), 0, 10); d.imax = strtoll(rest[1].c_str(), 0, 10); }
    if(d.t == T::F && rest.size() == 2) { d.bounded = true; d.fmin = atof(rest[0].c_str()); d.fmax = atof(rest[1].c_str()); }
    if((d.t == T::S || d.t == T::SL || d.t == T::IE) && rest.size() == 1) { d.bounded = true; d.count = strtoull(rest[0].c_str(), 0, 10); }
    return d;
}
Decls parse_decls(const vector<string>& v) { Decls d; for(auto& s : v) d.push_back(parse_decl(s)); return d; }
const Decl* find_decl(const Decls& d, const string& name) { string l = lower(name); for(auto& x : d) if(x.name == l) return &x; return nullptr; }
static int decl_index(const Decls& d, const string& name) { const Decl* p = find_decl(d, name); return p ? (int)(p - d.data()) : -1; }

// ---- values -------------------------------------------------------------------------------
struct VP { const string& s; size_t p = 0;
    void ws() { while(p < s.size() && isspace((unsigned char)s[p])) p++; }
    bool eat(char c) { ws(); if(p < s.size() && s[p] == c) { p++; return true; } return false; }
    void need(char c) { if(!eat(c)) throw std::runtime_error("bad value " + s); }
    int64_t i() { ws(); bool n = eat('-'); ws(); size_t b = p; while(p < s.size() && isdigit((unsigned char)s[p])) p++; if(b == p) throw std::runtime_error("bad int in " + s); string t = s.substr(b, p - b); if(n) t = "-" + t; return strtoll(t.c_str(), 0, 10); }
    string str() { ws(); char q = s.at(p++); string o; while(s.at(p) != q) { if(s[p] == '\\') o += s[p++]; o += s.at(p++); } p++; return o; }
};
std::optional<Val> parse_val(T t, const string& s) {
    if(s == "-" || s == "null") return std::nullopt;
    Val v; v.t = t; v.text = s; VP q{s};
    switch(t) {
        case T::B: v.b = s == "true"; if(s != "true" && s != "false") throw std::runtime_error("bad bool " + s); break;
        case T::I: case T::IE: v.i = q.i(); break;
        case T::F: { string c; for(char ch : s) if(!isspace((unsigned char)ch)) c += ch; v.f = strtod(c.c_str(), 0);
            for(char ch : c) if(ch == 'e' || ch == 'E' || ch == 'x') v.text_ok = false; break; }
        case T::S: v.s = q.str(); break;
        case T::IL: q.need('['); if(!q.eat(']')) { do v.il.push_back(q.i()); while(q.eat(',')); q.need(']'); } break;
        case T::SL: q.need('['); if(!q.eat(']')) { do v.sl.push_back(q.str()); while(q.eat(',')); q.need(']'); } break;
        case T::SEG: q.need('['); if(!q.eat(']')) { do { q.need('['); int64_t a = q.i(); q.need(','); int64_t b = q.i(); q.need(']'); v.seg.push_back({a, b}); } while(q.eat(',')); q.need(']'); } break;
        case T::FRQ: q.need('['); if(!q.eat(']')) { do {
            q.need('['); bool dbl = q.eat('['); Cap c; c.type = q.str(); q.need(','); c.id = q.i(); q.need(','); c.ns = q.str(); if(dbl) q.need(']'); q.need(',');
            c.value = q.i(); q.need(','); q.ws(); c.ts = 0; if(s.at(q.p) == 'u') { q.p++; c.ts_def = false; v.text_ok = false; } else { c.ts_def = true; c.ts = q.i(); }
            q.need(']'); v.caps.push_back(c); } while(q.eat(',')); q.need(']'); } break;
    }
    return v;
}
// ---- lexer / parser ------------------------------------------------------------------------
struct Tok { string k; string s; int64_t i = 0; double f = 0; }; // k: punctuation/keyword text, ID, INT, FLT, STR, END
static bool is_idstart(char c) { return isalpha((unsigned char)c) || c == '_'; }
static bool is_id(char c) { return isalnum((unsigned char)c) || c == '_' || c == '-'; }
static bool lex(const string& s, vector<Tok>& out) {
    static const vector<string> two = {"not in", "one of", "none of", "all of", "is not null", "is null", "is empty"};
    static const std::set<string> kw = {"within_frequency_cap", "segment_within", "segment_before", "geo_within_radius", "contains", "starts_with", "ends_with", "in", "and", "or", "not", "true", "false"};
    size_t p = 0;
    while(p < s.size()) {
        char c = s[p];
        if(c == ' ' || c == '\t' || c == '\n') { p++; continue; }
        if(is_idstart(c)) {
            size_t e = p; while(e < s.size() && is_id(s[e])) e++;
            string w = s.substr(p, e - p); bool done = false;
            for(auto& t : two) if(s.compare(p, t.size(), t) == 0 && t.compare(0, w.size(), w) == 0 && t[w.size()] == ' ' && (p + t.size() == s.size() || !is_id(s[p + t.size()]))) { out.push_back({t, "", 0, 0}); p += t.size(); done = true; break; }
            if(done) continue;
            if(kw.count(w)) out.push_back({w, "", 0, 0}); else out.push_back({"ID", w, 0, 0});
            p = e; continue;
        }
        if(isdigit((unsigned char)c)) {
            size_t e = p; while(e < s.size() && isdigit((unsigned char)s[e])) e++;
            if(e < s.size() && s[e] == '.') { e++; while(e < s.size() && isdigit((unsigned char)s[e])) e++; Tok t{"FLT", s.substr(p, e - p), 0, 0}; t.f = strtod(t.s.c_str(), 0); out.push_back(t); }
            else { Tok t{"INT", s.substr(p, e - p), 0, 0}; t.i = strtoll(t.s.c_str(), 0, 10); out.push_back(t); }
            p = e; continue;
        }
        if(c == '"' || c == '\'') {
            size_t e = p + 1; while(e < s.size() && s[e] != c) { if(s[e] == '\\') { e++; if(e >= s.size() || s[e] == '\n') return false; } e++; }
            if(e >= s.size()) return false;
            out.push_back({"STR", s.substr(p + 1, e - p - 1), 0, 0}); p = e + 1; continue;
        }
        static const vector<string> ops = {"<>", ">=", "<=", "&&", "||", "-", "=", ">", "<", "(", ")", ","};
        bool ok = false; for(auto& o : ops) if(s.compare(p, o.size(), o) == 0) { out.push_back({o == "&&" ? "and" : o == "||" ? "or" : o, "", 0, 0}); p += o.size(); ok = true; break; }
        if(!ok) return false;
    }
    out.push_back({"END", "", 0, 0}); return true;
}
namespace {
struct Bad {};
struct P {
    const vector<Tok>& t; size_t p = 0;
    const string& k(size_t o = 0) const { return t[std::min(p + o, t.size() - 1)].k; }
    bool eat(const char* s) { if(k() == s) { p++; return true; } return false; }
    void need(const char* s) { if(!eat(s)) throw Bad{}; }
    const Tok& take(const char* s) { if(k() != s) throw Bad{}; return t[p++]; }
    static int64_t neg(const Tok& x) { string s = "-" + x.s; return strtoll(s.c_str(), 0, 10); }
    bool num_ahead() const { size_t o = k() == "-" ? 1 : 0; return k(o) == "INT" || k(o) == "FLT"; }
    Num num() { Num n; bool m = eat("-"); if(k() == "INT") { const Tok& x = t[p++]; n.i = m ? neg(x) : x.i; } else { const Tok& x = take("FLT"); n.isf = true; n.f = m ? -x.f : x.f; } return n; }
    int64_t integer() { Num n = num(); if(n.isf) throw Bad{}; return n.i; }
    void list(E& e) {
        need("(");
        if(k() == "STR") { e.is_list_str = true; do e.sl.push_back(take("STR").s); while(eat(",")); }
        else { do e.il.push_back(integer()); while(eat(",")); }
        need(")");
    }
    EP expr() { EP l = conj(); while(eat("or")) { EP r = conj(); auto e = std::make_shared<E>(); e->k = K::OR; e->l = l; e->r = r; l = e; } return l; }
    EP conj() { EP l = neg_(); while(eat("and")) { EP r = neg_(); auto e = std::make_shared<E>(); e->k = K::AND; e->l = l; e->r = r; l = e; } return l; }
    EP neg_() { if(eat("not")) { EP x = neg_(); auto e = std::make_shared<E>(); e->k = K::NOT; e->l = x; return e; } return atom(); }
    EP atom() {
        auto e = std::make_shared<E>();
        if(eat("(")) { EP x = expr(); need(")"); return x; }
        if(eat("true")) { e->k = K::LIT; e->b = true; return e; }
        if(eat("false")) { e->k = K::LIT; e->b = false; return e; }
        if(k() == "STR" || num_ahead()) { // literal first
            bool st = k() == "STR"; Num n; string s; if(st) s = take("STR").s; else n = num();
            e->is_str = st; e->n = n; e->s = s; string o = k(); p++;
            if(o == "=" || o == "<>") { e->k = K::EQ; e->b = o == "<>"; e->var = take("ID").s; return e; }
            if(o == "in" || o == "not in") { if(!st && n.isf) throw Bad{}; e->b = o == "not in";
                if(k() == "ID") { e->k = K::VALIN; e->var = take("ID").s; } else { e->k = K::VALIN; e->var = ""; list(*e); } return e; }
            if(!st && (o == "<" || o == "<=" || o == ">" || o == ">=")) { e->k = K::CMP; e->op = o == "<" ? ">" : o == "<=" ? ">=" : o == ">" ? "<" : "<="; e->var = take("ID").s; return e; }
            throw Bad{};
        }
        if(k() == "ID") {
            e->var = take("ID").s; string o = k();
            if(o == "is null" || o == "is not null" || o == "is empty") { p++; e->k = K::NUL; e->op = o; return e; }
            if(o == "<" || o == "<=" || o == ">" || o == ">=") { p++; e->k = K::CMP; e->op = o; e->n = num(); return e; }
            if(o == "=" || o == "<>") { p++; e->k = K::EQ; e->b = o == "<>"; if(k() == "STR") { e->is_str = true; e->s = take("STR").s; } else e->n = num(); return e; }
            if(o == "in" || o == "not in") { p++; e->k = K::VARIN; e->b = o == "not in"; if(k() == "ID") { e->s = take("ID").s; e->op = "var"; } else list(*e); return e; }
            if(o == "one of" || o == "none of" || o == "all of") { p++; e->k = K::LIST; e->op = o; list(*e); return e; }
            e->k = K::VAR; return e;
        }
        if(eat("within_frequency_cap")) { e->k = K::FREQ; need("("); e->ftype = take("STR").s; need(","); e->ns = take("STR").s; need(","); e->a1 = integer(); need(","); e->a2 = integer(); need(")"); return e; }
        if(k() == "segment_within" || k() == "segment_before") { e->k = K::SEG; e->b = k() == "segment_before"; p++; need("("); e->var = "segments_with_timestamp"; if(k() == "ID") { e->var = take("ID").s; need(","); } e->a1 = integer(); need(","); e->a2 = integer(); need(")"); return e; }
        if(eat("geo_within_radius")) { e->k = K::GEO; need("("); Num a = num(); need(","); Num b = num(); need(","); Num c = num(); need(")"); if(a.isf != b.isf || b.isf != c.isf) throw Bad{}; e->g1 = a.isf ? a.f : (double)a.i; e->g2 = b.isf ? b.f : (double)b.i; e->g3 = c.isf ? c.f : (double)c.i; return e; }
        if(k() == "contains" || k() == "starts_with" || k() == "ends_with") { e->k = K::STR; e->op = k(); p++; need("("); e->var = take("ID").s; need(","); e->s = take("STR").s; need(")"); return e; }
        throw Bad{};
    }
};
}
EP ref_parse(const string& text) {
    vector<Tok> t; if(!lex(text, t)) return nullptr;
    try { P p{t}; EP e = p.expr(); if(p.k() != "END") return nullptr; return e; } catch(Bad&) { return nullptr; }
}
// ---- evaluation ------------------------------------------------------------------------------
static const char* freq_const(const string& t) {
    if(t == "advertiser" || t == "advertiser:ip") return "advertiser_id";
    if(t == "campaign" || t == "campaign:ip") return "campaign_id";
    if(t == "campaign_group" || t == "campaign_group:ip") return "campaign_group_id";
    if(t == "flight" || t == "flight:ip") return "flight_id";
    if(t == "product" || t == "product:ip") return "product_id";
    return nullptr;
}
static const Val* get(const Decls& d, const Ev& ev, const string& n) { int i = decl_index(d, n); if(i < 0 || !ev.v[i]) return nullptr; return &*ev.v[i]; }
bool ref_eval(const EP& e, const Decls& d, const Ev& ev, const vector<Const>& cs) {
    switch(e->k) {
        case K::LIT: return e->b;
        case K::NOT: return !ref_eval(e->l, d, ev, cs);
        case K::AND: return ref_eval(e->l, d, ev, cs) & ref_eval(e->r, d, ev, cs);
        case K::OR: return ref_eval(e->l, d, ev, cs) | ref_eval(e->r, d, ev, cs);
        default: break;
    }
    const Val* v = e->var.empty() ? nullptr : get(d, ev, e->var);
    switch(e->k) {
        case K::NUL:
            if(e->op == "is null") return !v;
            if(e->op == "is not null") return v;
            return v && ((v->t == T::IL && v->il.empty()) || (v->t == T::SL && v->sl.empty()) || (v->t == T::SEG && v->seg.empty()) || (v->t == T::FRQ && v->caps.empty()));
        case K::VAR: return v && v->b;
        case K::CMP: {
            if(!v) return false;
            auto c = [&](auto a, auto b) { return e->op == "<" ? a < b : e->op == "<=" ? a <= b : e->op == ">" ? a > b : a >= b; };
            if(v->t == T::F) return c(v->f, e->n.isf ? e->n.f : (double)e->n.i);
            return c(v->i, e->n.i);
        }
        case K::EQ: {
            if(!v) return false;
            bool q;
            if(v->t == T::S) q = v->s == e->s;
            else if(v->t == T::F) q = std::fabs(v->f - (e->n.isf ? e->n.f : (double)e->n.i)) < DBL_EPSILON;
            else q = v->i == e->n.i;
            return q != e->b;
        }
        case K::VALIN: {
            if(!v) return false;
            bool q = e->is_str ? std::count(v->sl.begin(), v->sl.end(), e->s) > 0 : std::count(v->il.begin(), v->il.end(), e->n.i) > 0;
            return q != e->b;
        }
        case K::VARIN: {
            if(!v) return false;
            bool q = e->is_list_str ? std::count(e->sl.begin(), e->sl.end(), v->s) > 0 : std::count(e->il.begin(), e->il.end(), v->i) > 0;
            return q != e->b;
        }
        case K::LIST: {
            if(!v) return false;
            size_t hit = 0, n = 0;
            if(e->is_list_str) { n = e->sl.size(); for(auto& x : e->sl) hit += std::count(v->sl.begin(), v->sl.end(), x) > 0; }
            else { n = e->il.size(); for(auto& x : e->il) hit += std::count(v->il.begin(), v->il.end(), x) > 0; }
            return e->op == "one of" ? hit > 0 : e->op == "none of" ? hit == 0 : hit == n;
        }
        case K::FREQ: {
            const Val* c = get(d, ev, "frequency_caps"); if(!c) return false;
            if(c->caps.empty()) return true;
            const Val* now = get(d, ev, "now"); if(!now) return false;
            int64_t id = 0; const char* cn = freq_const(e->ftype); for(auto& k : cs) if(cn && k.name == cn) { id = k.value; break; }
            string want = e->ftype;
            for(auto& x : c->caps) {
                string xt = x.type;
                if(xt != want || x.ns != e->ns || x.id != id) continue;
                bool above = e->a1 > x.value;
                if(e->a2 == 0) return above;
                if(!x.ts_def) return true;
                return now->i - x.ts / 1000000 > e->a2 || above;
            }
            return true;
        }
        case K::SEG: {
            const Val* now = get(d, ev, "now"); if(!v || !now) return false;
            for(auto& x : v->seg) if(x.first == e->a1) return e->b ? now->i - e->a2 > x.second / 1000000 : now->i - e->a2 <= x.second / 1000000;
            return false;
        }
        case K::GEO: {
            const Val* la = get(d, ev, "latitude"); const Val* lo = get(d, ev, "longitude"); if(!la || !lo) return false;
            const long double R = 6372.8L, rad = 3.1415926536L / 180;
            long double p1 = e->g1 * rad, p2 = la->f * rad, dl = (lo->f - e->g2) * rad;
            long double h = sinl((p2 - p1) / 2) * sinl((p2 - p1) / 2) + cosl(p1) * cosl(p2) * sinl(dl / 2) * sinl(dl / 2);
            if(h > 1) h = 1;
            return 2 * R * asinl(sqrtl(h)) <= e->g3;
        }
        case K::STR: {
            if(!v) return false;
            size_t n = v->s.size(), m = e->s.size();
            if(e->op == "contains") { for(size_t i = 0; i + m <= n; i++) { size_t j = 0; while(j < m && v->s[i + j] == e->s[j]) j++; if(j == m) return true; } return false; }
            if(m > n) return false;
            for(size_t j = 0; j < m; j++) if(v->s[e->op == "starts_with" ? j : n - m + j] != e->s[j]) return false;
            return true;
        }
        default: throw std::logic_error("eval");
    }
}
Verdict ref_check(const EP& e, const Decls& d, const vector<Const>& cs) {
    auto both = [&](Verdict a, Verdict b) { return a == Verdict::UNDECLARED || b == Verdict::UNDECLARED ? Verdict::UNDECLARED : a == Verdict::TYPE || b == Verdict::TYPE ? Verdict::TYPE : a == Verdict::OK ? b : a; };
    auto is = [&](const string& n, T t) { const Decl* p = find_decl(d, n); return !p ? Verdict::UNDECLARED : p->t == t ? Verdict::OK : Verdict::TYPE; };
    const Decl* v = e->var.empty() ? nullptr : find_decl(d, e->var);
    auto ty = [&](bool b) { return b ? Verdict::OK : Verdict::TYPE; };
    switch(e->k) {
        case K::LIT: return Verdict::OK;
        case K::NOT: return ref_check(e->l, d, cs);
        case K::AND: case K::OR: return both(ref_check(e->l, d, cs), ref_check(e->r, d, cs));
        case K::VAR: return is(e->var, T::B);
        case K::NUL: if(!v) return Verdict::UNDECLARED; if(e->op == "is empty") return ty(v->t == T::IL || v->t == T::SL || v->t == T::SEG || v->t == T::FRQ); return ty(v->opt);
        case K::CMP: if(!v) return Verdict::UNDECLARED; return ty((v->t == T::I && !e->n.isf) || v->t == T::F);
        case K::EQ: if(!v) return Verdict::UNDECLARED; return ty(e->is_str ? v->t == T::S : ((v->t == T::I || v->t == T::IE) && !e->n.isf) || v->t == T::F);
        case K::VALIN: if(e->var.empty()) return Verdict::TYPE; if(!v) return Verdict::UNDECLARED; return ty(e->is_str ? v->t == T::SL : v->t == T::IL);
        case K::VARIN: if(!v) return Verdict::UNDECLARED; if(e->op == "var") return Verdict::TYPE; return ty(e->is_list_str ? v->t == T::S : v->t == T::I);
        case K::LIST: if(!v) return Verdict::UNDECLARED; return ty(e->is_list_str ? v->t == T::SL : v->t == T::IL);
        case K::FREQ: { Verdict r = both(is("frequency_caps", T::FRQ), is("now", T::I)); const char* c = freq_const(e->ftype); if(!c) return both(r, Verdict::TYPE); bool f = false; for(auto& k : cs) f |= k.name == c; return both(r, f ? Verdict::OK : Verdict::CONSTANT); }
        case K::SEG: return both(is(e->var, T::SEG), is("now", T::I));
        case K::GEO: return both(is("latitude", T::F), is("longitude", T::F));
        case K::STR: return is(e->var, T::S);
    }
    throw std::logic_error("check");
}
bool ref_unspecified(const EP& e, const Decls& d) {
    if((e->l && ref_unspecified(e->l, d)) || (e->r && ref_unspecified(e->r, d))) return true;
    if(e->k != K::NUL) return false;
    const Decl* v = find_decl(d, e->var); if(!v) return false;
    return e->op == "is empty" ? v->t == T::SEG || v->t == T::FRQ : !v->opt;
}
void ref_strings(const EP& e, const Decls& d, std::map<string, vector<string>>& out) {
    if(e->l) ref_strings(e->l, d, out);
    if(e->r) ref_strings(e->r, d, out);
    string n = lower(e->var);
    if(e->k == K::EQ && e->is_str) out[n].push_back(e->s);
    if(e->k == K::EQ && !e->is_str) { const Decl* v = find_decl(d, n); if(v && v->t == T::IE) out[n].push_back(std::to_string(e->n.i)); }
    if(e->k == K::VALIN && e->is_str) out[n].push_back(e->s);
    if((e->k == K::VARIN || e->k == K::LIST) && e->is_list_str) for(auto& s : e->sl) out[n].push_back(s);
}
static string num_text(const Num& n) { char b[400]; if(!n.isf) { snprintf(b, sizeof b, "%lld", (long long)n.i); return b; } snprintf(b, sizeof b, "%.17f", n.f); return b; }
string to_text(const EP& e) {
    auto par = [&](const EP& x) { bool c = x->k == K::AND || x->k == K::OR || x->k == K::NOT; return c ? "(" + to_text(x) + ")" : to_text(x); };
    auto lst = [&] { string o = "("; if(e->is_list_str) for(auto& s : e->sl) o += (o.size() > 1 ? ", \"" : "\"") + s + "\""; else for(auto i : e->il) o += (o.size() > 1 ? ", " : "") + std::to_string(i); return o + ")"; };
    switch(e->k) {
        case K::LIT: return e->b ? "true" : "false";
        case K::NOT: return "not " + par(e->l);
        case K::AND: return par(e->l) + " and " + par(e->r);
        case K::OR: return par(e->l) + " or " + par(e->r);
        case K::VAR: return e->var;
        case K::NUL: return e->var + " " + e->op;
        case K::CMP: return e->var + " " + e->op + " " + num_text(e->n);
        case K::EQ: return e->var + (e->b ? " <> " : " = ") + (e->is_str ? "\"" + e->s + "\"" : num_text(e->n));
        case K::VALIN: return (e->is_str ? "\"" + e->s + "\"" : num_text(e->n)) + (e->b ? " not in " : " in ") + (e->var.empty() ? lst() : e->var);
        case K::VARIN: return e->var + (e->b ? " not in " : " in ") + (e->op == "var" ? e->s : lst());
        case K::LIST: return e->var + " " + e->op + " " + lst();
        case K::FREQ: return "within_frequency_cap(\"" + e->ftype + "\", \"" + e->ns + "\", " + std::to_string(e->a1) + ", " + std::to_string(e->a2) + ")";
        case K::SEG: return string(e->b ? "segment_before(" : "segment_within(") + e->var + ", " + std::to_string(e->a1) + ", " + std::to_string(e->a2) + ")";
        case K::GEO: { char b[200]; snprintf(b, sizeof b, "geo_within_radius(%.10f, %.10f, %.10f)", e->g1, e->g2, e->g3); return b; }
        case K::STR: return e->op + "(" + e->var + ", \"" + e->s + "\")";
    }
    return "?";
}
string ev_text(const Decls& d, const Ev& ev) { string o = "{"; for(size_t i = 0; i < d.size(); i++) if(ev.v[i]) o += (o.size() > 1 ? ", \"" : "\"") + d[i].name + "\": " + ev.v[i]->text; return o + "}"; }
