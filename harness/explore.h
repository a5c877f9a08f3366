// Stateless exhaustive exploration: a body is a function of a sequence of bounded choices; the
// engine runs it for every sequence (depth-first), split over worker processes. Every run drives
// the real library and compares it with the model. The choices made so far are kept in shared
// memory, so a crash, an abort or a hang is attributed to the exact run that caused it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>
struct Skip {};
struct Violation { std::string msg; };
struct Shared;
struct Ex {
    int tier = 0;          // 0 quick, 1 thorough
    bool verbose = false;  // replay: describe the run
    int worker = 0, workers = 1;
    Shared* sh = nullptr;
    std::vector<std::pair<int,int>> st; // (choice, arity)
    size_t pos = 0;
    size_t changed = 0;    // position of the choice that differs from the previous run
    bool gated = false;
    uint64_t gate_no = 0;
    std::string text; // description of the run when verbose
    // n-way choice, 0..n-1
    int choose(int n);
    template<class V> const typename V::value_type& pick(const V& v) { return v[choose((int)v.size())]; }
    bool flip() { return choose(2) == 1; }
    // End of scenario generation: continue only in the worker that owns this scenario.
    void gate();
    void op(uint64_t n = 1);        // real API operations executed
    void checked(uint64_t n = 1);   // observations compared with the model
    void state(uint64_t hash);      // a model state reached
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // A listed known finding shows up: record it, do not fail. Returns false if not listed.
    bool known(const std::string& key);
};
typedef std::function<void(Ex&)> Body;
struct BodyDef {
    std::string name;
    Body fn;
    int variants = 3; // 1 plain, 2 asan
    int tiers = 3;    // 1 quick, 2 thorough
    bool small = false; // with the quick bounds in both tiers
};
struct PropDef { std::string id; std::vector<BodyDef> bodies; };
uint64_t hmix(uint64_t h, uint64_t v);
uint64_t hstr(const std::string& s);
std::string sfmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
