// Profiles (declarations, expression alphabet, event product) and the generic history body.
#pragma once
#include "sut.h"
#include <memory>
typedef std::vector<std::string> VS;
struct Profile {
    std::string name;
    VS decls;
    VS exprs;
    std::vector<VS> vals; // per declaration: value spellings, "-" undefined
    std::vector<Const> consts;
    VS fillers;           // expressions that are not part of the alphabet, used for base trees
};
struct Compiled {
    Profile p; Decls d; std::vector<EP> ex; std::vector<Ev> ev; std::vector<std::vector<uint8_t>> truth; // [expr][event]
    std::vector<std::string> evtext; std::vector<uint8_t> valid, text_ok;
    std::vector<betree_event*> reuse; // built once per process, used on every tree
    Sut* home = nullptr;
    const std::vector<uint8_t>& truth_of(const std::string& text); // cached
    std::map<std::string, std::vector<uint8_t>> cache;
};
typedef std::shared_ptr<Compiled> CP;
// Lazily compiled per process.
Compiled& compiled(const Profile& p);
enum { CH_SEARCH = 1, CH_EXISTS = 2, CH_REPORT = 4 };
struct HistOpts {
    std::vector<Cfg> cfgs = {{1, 0}};
    int depth[2] = {3, 4};
    int routes = 1;         // 1: insert only, 3: also build+insert one by one and in batch
    int checks = CH_SEARCH;
    bool exact_depth = false;
    std::vector<VS> bases = {{}}; // expressions inserted first
    bool dup_ids = false;   // choose ids from a small set
    bool all_modes = false; // each event in all forms (otherwise the form rotates)
    int stride = 1;         // check only every stride-th event (offset rotates with the scenario)
};
Body hist_body(Profile p, HistOpts o);
struct Item { uint64_t id; const std::vector<uint8_t>* truth; };
// Checks every event of the product against the inserted items.
void check_all(Ex& ex, Sut& s, Compiled& c, const std::vector<Item>& items, int checks, uint64_t salt, bool all_modes = false, int stride = 1);
std::string ids_text(const std::vector<uint64_t>& v);
VS cat(std::initializer_list<VS> l);
