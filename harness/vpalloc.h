// Debug allocator the library under test is linked against (its malloc family is renamed by
// objcopy). It counts live blocks, fills fresh memory with junk and freed memory with poison,
// and checks a header and a trailing canary, so that leaks, double frees, frees of foreign
// pointers, small overruns and reads of uninitialised memory show up deterministically.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
extern uint64_t vp_live_blocks;
extern uint64_t vp_total_allocs;
extern uint8_t vp_junk; // fill byte for fresh memory
void vp_reset_quarantine();
void* vp_malloc(size_t);
void* vp_calloc(size_t, size_t);
void* vp_realloc(void*, size_t);
void vp_free(void*);
char* vp_strdup(const char*);
char* vp_strndup(const char*, size_t);
}
