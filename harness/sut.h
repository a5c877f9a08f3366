// Thin driver of the public API (betree.h).
#pragma once
#include "explore.h"
#include "model.h"
extern "C" {
#include "betree.h"
}
struct Cfg { int cap = -1, part = 0; bool init_in_place = false; int lines = 0; }; // lines 1, 2: declare by text lines (2: ending in a newline) // cap -1: betree_make()
struct Res { bool ok = false; size_t evaluated = 0, matched = 0, memoized = 0, shorted = 0; std::vector<uint64_t> ids; };
enum Mode { TEXT = 0, PROG = 1 };
struct Consts { // owns betree_constant objects
    std::vector<betree_constant*> c;
    explicit Consts(const std::vector<Const>& v);
    ~Consts();
    Consts(const Consts&) = delete;
};
extern void (*sut_line)(betree*, const char*); // set where trees are declared by lines
std::string decl_line(const Decl& d);
uint64_t lib_id(uint64_t id); // the id the library is given for ours
uint64_t our_id(uint64_t id);
struct Sut {
    Ex& ex; const Decls& d; betree* t = nullptr; Cfg cfg; betree inplace{};
    Sut(Ex& ex, const Decls& d, Cfg cfg);
    ~Sut();
    Sut(const Sut&) = delete;
    void declare(const Decl& x);
    bool insert(uint64_t id, const std::string& text, const std::vector<Const>& cs = {});
    bool raw = false; // give the library our ids as they are
    const betree_sub* make_sub(uint64_t id, const std::string& text, const std::vector<Const>& cs = {});
    bool insert_sub(const betree_sub* s);
    bool change_boundaries(const std::string& text);
    betree_event* build(const Ev& ev, const std::vector<int>* order = nullptr, const std::vector<std::string>* names = nullptr);
    Res search(const Ev& ev, Mode m);
    Res search_text(const std::string& s);
    Res search_event(betree_event* e);
    bool exists(const Ev& ev, Mode m);
};
betree_variable* make_var(const std::string& name, const Val& v);
bool valid_event(const Decls& d, const Ev& ev); // all required variables present
