#include "vpalloc.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" {
uint64_t vp_live_blocks = 0;
uint64_t vp_total_allocs = 0;
uint8_t vp_junk = 0xA5;
[[noreturn]] void vp_alloc_error(const char* what);
#if defined(__SANITIZE_ADDRESS__)
void vp_reset_quarantine() {}
void* vp_malloc(size_t n) { vp_live_blocks++; vp_total_allocs++; void* p = malloc(n); if(p) memset(p, vp_junk, n); return p; }
void* vp_calloc(size_t a, size_t b) { vp_live_blocks++; vp_total_allocs++; return calloc(a, b); }
void* vp_realloc(void* p, size_t n) { if(!p) { return vp_malloc(n); } vp_total_allocs++; if(n == 0) { vp_live_blocks--; free(p); return nullptr; } return realloc(p, n); }
void vp_free(void* p) { if(p) vp_live_blocks--; free(p); }
#else
struct Hdr { uint64_t size; uint64_t magic; };
static const uint64_t LIVE = 0x5afe5afe5afe5afeULL, DEAD = 0xdeaddeaddeaddeadULL, CANARY = 0xc0ffee0ddba11ULL;
// Freed blocks stay poisoned for a while before going back to malloc.
static Hdr* ring[64]; static unsigned ring_pos = 0;
static void retire(Hdr* h) { Hdr* o = ring[ring_pos]; ring[ring_pos] = h; ring_pos = (ring_pos + 1) & 63; if(o) {
        uint8_t* u = (uint8_t*)(o + 1); size_t m = o->size < 256 ? o->size : 256;
        for(size_t i = 0; i < m; i++) if(u[i] != 0xDD) vp_alloc_error("write to freed memory");
        free(o); } }
void vp_reset_quarantine() { for(auto& o : ring) { if(o) free(o); o = nullptr; } ring_pos = 0; }
static void put_canary(Hdr* h) { memcpy((uint8_t*)(h + 1) + h->size, &CANARY, 8); }
static Hdr* check(void* p, const char* op) {
    Hdr* h = (Hdr*)p - 1;
    if(h->magic == DEAD) vp_alloc_error("double free or use of freed block");
    if(h->magic != LIVE) vp_alloc_error(op);
    if(memcmp((uint8_t*)(h + 1) + h->size, &CANARY, 8) != 0) vp_alloc_error("write past the end of a block");
    return h;
}
static void* raw(size_t n, int fill) {
    if(n > (1ULL << 40)) return nullptr;
    Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n + 8);
    if(!h) return nullptr;
    h->size = n; h->magic = LIVE; put_canary(h);
    memset(h + 1, fill, n);
    vp_live_blocks++; vp_total_allocs++;
    return h + 1;
}
void* vp_malloc(size_t n) { return raw(n, vp_junk); }
void* vp_calloc(size_t a, size_t b) { if(b && a > SIZE_MAX / b) return nullptr; return raw(a * b, 0); }
void vp_free(void* p) {
    if(!p) return;
    Hdr* h = check(p, "free of a pointer that is not a live block");
    h->magic = DEAD; memset(h + 1, 0xDD, h->size); vp_live_blocks--;
    retire(h);
}
void* vp_realloc(void* p, size_t n) {
    if(!p) return vp_malloc(n);
    if(n == 0) { vp_free(p); return nullptr; }
    Hdr* h = check(p, "realloc of a pointer that is not a live block");
    void* q = raw(n, vp_junk); if(!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    vp_free(p);
    return q;
}
#endif
char* vp_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)vp_malloc(n); memcpy(p, s, n); return p; }
char* vp_strndup(const char* s, size_t n) { size_t l = strnlen(s, n); char* p = (char*)vp_malloc(l + 1); memcpy(p, s, l); p[l] = 0; return p; }
int vp_vasprintf(char** out, const char* f, va_list ap) { char* t; int r = vasprintf(&t, f, ap); if(r < 0) return r; *out = vp_strdup(t); free(t); return r; }
int vp_asprintf(char** out, const char* f, ...) { va_list ap; va_start(ap, f); int r = vp_vasprintf(out, f, ap); va_end(ap); return r; }
}
