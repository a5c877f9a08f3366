// Runtime of the "sched" variant: the library is compiled with -fsanitize=thread, but the hooks the
// compiler inserts before every memory access come here. They record accesses, and hand control
// from one thread to the other where a schedule says so. Only one thread runs at a time.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
struct RtRec { uintptr_t addr; uint8_t r, w; }; // an 8-byte granule and the bytes of it read and written
struct RtShared { // shared with the forked child
    int status;              // 0 running, 1 done, 2 deadlock
    uint32_t nrec; RtRec rec[1 << 18]; bool rec_full;
    int nchoice; uint8_t choice[4096]; // choices made at visible points
    uint64_t accesses, switches, visible;
    char text[2][1 << 17];  // what each thread observed
};
extern RtShared* rt_sh;
void rt_init();              // once per process
void rt_main_arena_reset();
// RECORD: run `f` alone as thread `tid` (1 or 2).
void rt_run_alone(int tid, const std::function<void()>& f);
// EXPLORE: run both; `conf` are the granules whose accesses are visible; `prefix` the choices.
void rt_run_both(const std::function<void()>& f1, const std::function<void()>& f2, int first, const RtRec* conf, size_t nconf, const uint8_t* prefix, size_t nprefix, int preemptions);
