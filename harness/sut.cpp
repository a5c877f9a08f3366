#include "sut.h"
#include <algorithm>
#include <cfloat>
Consts::Consts(const std::vector<Const>& v) { for(auto& x : v) c.push_back(betree_make_integer_constant(x.name.c_str(), x.value)); }
Consts::~Consts() { betree_free_constants(c.size(), c.data()); }
// Half of the ids do not fit in 32 bits, and each of these shares its low half with another one.
static int id_shift(uint64_t k) { static const int s[] = {32, 33, 48, 63}; return s[k & 3]; }
uint64_t lib_id(uint64_t id) { if(id >> 32) return id; uint64_t k = id >> 1; return id & 1 ? k | 1ull << id_shift(k) : k; }
uint64_t our_id(uint64_t id) { uint64_t k = (uint32_t)id, hi = id >> 32; if(!hi) return k << 1; return hi == 1ull << (id_shift(k) - 32) ? k << 1 | 1 : id; }
void (*sut_line)(betree*, const char*) = nullptr;
std::string decl_line(const Decl& x) {
    static const char* ty[] = {"boolean", "integer", "float", "string", "integer list", "string list", "segments", "frequency", "integer enum"}; // in the order of T
    std::string l = x.name + "|" + ty[(int)x.t] + "|" + (x.opt ? "true" : "false");
    if(!x.bounded) return l;
    if(x.t == T::F) return l + sfmt("|%.17g|%.17g", x.fmin, x.fmax);
    if(x.t == T::I || x.t == T::IL) return l + sfmt("|%lld|%lld", (long long)x.imin, (long long)x.imax);
    return l + sfmt("|%llu", (unsigned long long)x.count);
}
Sut::Sut(Ex& ex, const Decls& d, Cfg cfg) : ex(ex), d(d), cfg(cfg) {
    if(cfg.init_in_place) { betree_init(&inplace); t = &inplace; }
    else t = cfg.cap < 0 ? betree_make() : betree_make_with_parameters((uint64_t)cfg.cap, (uint64_t)cfg.part);
    for(auto& x : d) declare(x);
    ex.op(1);
}
void Sut::declare(const Decl& x) {
    {
        if(cfg.lines) { sut_line(t, (decl_line(x) + (cfg.lines == 2 ? "\n" : "")).c_str()); return; }
        const char* n = x.name.c_str();
        switch(x.t) {
            case T::B: betree_add_boolean_variable(t, n, x.opt); break;
            case T::I: betree_add_integer_variable(t, n, x.opt, x.imin, x.imax); break;
            case T::F: betree_add_float_variable(t, n, x.opt, x.fmin, x.fmax); break;
            case T::S: betree_add_string_variable(t, n, x.opt, x.count); break;
            case T::IL: betree_add_integer_list_variable(t, n, x.opt, x.imin, x.imax); break;
            case T::SL: betree_add_string_list_variable(t, n, x.opt, x.count); break;
            case T::IE: betree_add_integer_enum_variable(t, n, x.opt, x.count); break;
            case T::SEG: betree_add_segments_variable(t, n, x.opt); break;
            case T::FRQ: betree_add_frequency_caps_variable(t, n, x.opt); break;
        }
    }
}
Sut::~Sut() { if(t == &inplace) betree_deinit(t); else if(t) betree_free(t); }
bool Sut::insert(uint64_t id, const std::string& text, const std::vector<Const>& cs) {
    ex.op();
    if(cs.empty()) return betree_insert(t, (raw ? id : lib_id(id)), text.c_str());
    Consts c(cs);
    return betree_insert_with_constants(t, (raw ? id : lib_id(id)), c.c.size(), (const betree_constant**)c.c.data(), text.c_str());
}
const betree_sub* Sut::make_sub(uint64_t id, const std::string& text, const std::vector<Const>& cs) {
    ex.op();
    Consts c(cs);
    return betree_make_sub(t, (raw ? id : lib_id(id)), c.c.size(), (const betree_constant**)c.c.data(), text.c_str());
}
bool Sut::insert_sub(const betree_sub* s) { ex.op(); return betree_insert_sub(t, s); }
bool Sut::change_boundaries(const std::string& text) { ex.op(); return betree_change_boundaries(t, text.c_str()); }
betree_variable* make_var(const std::string& name, const Val& v) {
    const char* n = name.c_str();
    switch(v.t) {
        case T::B: return betree_make_boolean_variable(n, v.b);
        case T::I: case T::IE: return betree_make_integer_variable(n, v.i);
        case T::F: return betree_make_float_variable(n, v.f);
        case T::S: return betree_make_string_variable(n, v.s.c_str());
        case T::IL: { auto* l = betree_make_integer_list(v.il.size()); for(size_t i = 0; i < v.il.size(); i++) betree_add_integer(l, i, v.il[i]); return betree_make_integer_list_variable(n, l); }
        case T::SL: { auto* l = betree_make_string_list(v.sl.size()); for(size_t i = 0; i < v.sl.size(); i++) betree_add_string(l, i, v.sl[i].c_str()); return betree_make_string_list_variable(n, l); }
        case T::SEG: { auto* l = betree_make_segments(v.seg.size()); for(size_t i = 0; i < v.seg.size(); i++) betree_add_segment(l, i, betree_make_segment(v.seg[i].first, v.seg[i].second)); return betree_make_segments_variable(n, l); }
        case T::FRQ: { auto* l = betree_make_frequency_caps(v.caps.size()); for(size_t i = 0; i < v.caps.size(); i++) { auto& c = v.caps[i]; betree_add_frequency_cap(l, i, betree_make_frequency_cap(c.type.c_str(), c.id, c.ns.c_str(), c.ts_def, c.ts, c.value)); } return betree_make_frequency_caps_variable(n, l); }
    }
    return nullptr;
}
betree_event* Sut::build(const Ev& ev, const std::vector<int>* order, const std::vector<std::string>* names) {
    betree_event* e = betree_make_event(t);
    size_t k = 0;
    for(size_t j = 0; j < d.size(); j++) {
        size_t i = order ? (size_t)(*order)[j] : j;
        if(!ev.v[i]) { if(!order) k++; continue; }
        betree_set_variable(e, order ? k : i, make_var(names ? (*names)[i] : d[i].name, *ev.v[i]));
        k++;
    }
    ex.op();
    return e;
}
static Res take(bool ok, report* r, bool raw) {
    Res x; x.ok = ok; x.evaluated = r->evaluated; x.matched = r->matched; x.memoized = r->memoized; x.shorted = r->shorted;
    for(size_t i = 0; i < r->matched; i++) x.ids.push_back(raw ? r->subs[i] : our_id(r->subs[i]));
    std::sort(x.ids.begin(), x.ids.end());
    free_report(r);
    return x;
}
Res Sut::search_text(const std::string& s) { ex.op(); report* r = make_report(); bool ok = betree_search(t, s.c_str(), r); return take(ok, r, raw); }
Res Sut::search_event(betree_event* e) { ex.op(); report* r = make_report(); bool ok = betree_search_with_event(t, e, r); return take(ok, r, raw); }
Res Sut::search(const Ev& ev, Mode m) {
    if(m == TEXT) return search_text(ev_text(d, ev));
    betree_event* e = build(ev);
    Res r = search_event(e);
    betree_free_event(e);
    return r;
}
bool Sut::exists(const Ev& ev, Mode m) {
    ex.op();
    if(m == TEXT) return betree_exists(t, ev_text(d, ev).c_str());
    betree_event* e = build(ev);
    bool r = betree_exists_with_event(t, e);
    betree_free_event(e);
    return r;
}
bool valid_event(const Decls& d, const Ev& ev) { for(size_t i = 0; i < d.size(); i++) if(!d[i].opt && !ev.v[i]) return false; return true; }
