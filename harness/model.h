// Reference model: written from the README and the property statements, sharing no code with the
// library. Declarations, values, events, expressions, an evaluator and a recursive-descent parser.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

enum class T { B, I, F, S, IL, SL, SEG, FRQ, IE };
struct Decl {
    std::string name; T t = T::B; bool opt = false;
    bool bounded = false; int64_t imin = INT64_MIN, imax = INT64_MAX; double fmin = 0, fmax = 0; bool fb = false; uint64_t count = SIZE_MAX;
};
// "i int 0 10", "i int", "i int ? -5 5", "f float 0 1.5", "s str 3", "b bool ?", "il ilist", "sl slist 4",
// "e enum 2", "g segs", "frequency_caps caps"
Decl parse_decl(const std::string& s);
typedef std::vector<Decl> Decls;
Decls parse_decls(const std::vector<std::string>& v);
const Decl* find_decl(const Decls& d, const std::string& name); // case-insensitive

struct Cap { std::string type; int64_t id; std::string ns; bool ts_def; int64_t ts; int64_t value; };
struct Val {
    T t = T::B; bool b = false; int64_t i = 0; double f = 0; std::string s;
    std::vector<int64_t> il; std::vector<std::string> sl; std::vector<std::pair<int64_t,int64_t>> seg; std::vector<Cap> caps;
    std::string text;       // JSON spelling
    bool text_ok = true;    // expressible as text
};
// Parses an event-syntax spelling for a declared type; "-" or "null" gives nullopt (undefined).
std::optional<Val> parse_val(T t, const std::string& s);
struct Ev { // one entry per declaration
    std::vector<std::optional<Val>> v;
};
struct Const { std::string name; int64_t value; };

struct Num { bool isf = false; int64_t i = 0; double f = 0; };
enum class K { LIT, VAR, CMP, EQ, VALIN, VARIN, LIST, NUL, FREQ, SEG, GEO, STR, NOT, AND, OR };
struct E;
typedef std::shared_ptr<const E> EP;
struct E {
    K k; bool b = false;         // LIT value; EQ/IN negation; SEG: before
    std::string var, op;         // op: < <= > >= | one of,none of,all of | is null.. | contains..
    bool is_str = false, is_list_str = false; Num n; std::string s; std::vector<int64_t> il; std::vector<std::string> sl;
    std::string ftype, ns; int64_t a1 = 0, a2 = 0; double g1 = 0, g2 = 0, g3 = 0;
    EP l, r;
};
// Parses a complete text; null if it is not in the language.
EP ref_parse(const std::string& text);
// Truth value for an event. `constants` are those supplied with the expression.
bool ref_eval(const EP& e, const Decls& d, const Ev& ev, const std::vector<Const>& constants);
enum class Verdict { OK, UNDECLARED, TYPE, CONSTANT };
// Static validity: declared variables, operand types, constants.
Verdict ref_check(const EP& e, const Decls& d, const std::vector<Const>& constants);
// Forms whose verdict neither documentation nor code settles: `is empty` on segments and caps, `is [not] null` on required variables.
bool ref_unspecified(const EP& e, const Decls& d);
// Strings / enum values mentioned per variable (capacity).
void ref_strings(const EP& e, const Decls& d, std::map<std::string, std::vector<std::string>>& out);
std::string to_text(const EP& e);
std::string ev_text(const Decls& d, const Ev& ev);
