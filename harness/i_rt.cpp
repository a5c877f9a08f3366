#include "i_rt.h"
#include "vpalloc.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <strings.h>
#include <ctime>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
RtShared* rt_sh = nullptr;
extern "C" {
uint64_t vp_live_blocks = 0, vp_total_allocs = 0; uint8_t vp_junk = 0xA5;
[[noreturn]] void vp_alloc_error(const char* what);
void vp_reset_quarantine() {}
}
enum { OFF, RECORD, EXPLORE };
static int mode = OFF; static thread_local int tid = 0;
static const size_t ARENA[3] = {256u << 20, 128u << 20, 128u << 20}, STACK = 8u << 20;
static uint8_t* arena[3]; static size_t used[3]; static uint8_t* stk[3];
static std::unordered_map<uintptr_t, uint16_t>* rec; static std::unordered_map<uintptr_t, uint8_t>* conf;
static sem_t sem[3]; static bool finished[3]; static int preempt_left; static const uint8_t* pre; static size_t npre; static uint64_t streak;
extern "C" char __data_start, _end;
void rt_init() {
    if(rt_sh) return;
    rt_sh = (RtShared*)mmap(nullptr, sizeof *rt_sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for(int k = 0; k < 3; k++) { arena[k] = (uint8_t*)mmap(nullptr, ARENA[k], PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); stk[k] = (uint8_t*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
}
static bool in(const void* p, uint8_t* b, size_t n) { return (uint8_t*)p >= b && (uint8_t*)p < b + n; }
static void switch_to(int t) { int me = tid; rt_sh->switches++; streak = 0; sem_post(&sem[t]); while(sem_wait(&sem[me])) {} }
static void deadlock() { rt_sh->status = 2; _exit(0); }
static void point() {
    rt_sh->visible++;
    int o = 3 - tid; if(finished[o]) { if(++streak > 50000000) deadlock(); return; }
    if(++streak > 200000) { switch_to(o); return; } // a thread that spins lets the other one go on
    if(preempt_left == 0 || rt_sh->nchoice >= 4000) return;
    int k = rt_sh->nchoice, c = (size_t)k < npre ? pre[k] : 0; rt_sh->choice[k] = (uint8_t)c; rt_sh->nchoice = k + 1;
    if(c) { preempt_left--; switch_to(o); }
}
static void access(const void* a, size_t n, bool w) {
    if(mode == OFF || !tid || !n) return;
    rt_sh->accesses++;
    if(in(a, stk[tid], STACK) || in(a, arena[tid], ARENA[tid])) return;
    bool foreign = in(a, stk[3 - tid], STACK) || in(a, arena[3 - tid], ARENA[3 - tid]);
    if(!foreign && !in(a, arena[0], ARENA[0]) && !((char*)a >= &__data_start && (char*)a < &_end)) return;
    uintptr_t p = (uintptr_t)a, e = p + n; bool vis = false;
    for(uintptr_t g = p >> 3; g <= (e - 1) >> 3; g++) {
        uintptr_t lo = g << 3; unsigned f = p > lo ? p - lo : 0, t = e < lo + 8 ? e - lo : 8; uint8_t m = (uint8_t)((0xff << f) & (0xff >> (8 - t)));
        if(mode == RECORD) (*rec)[g] |= (uint16_t)(w ? m << 8 : m);
        else { auto it = conf->find(g); if(foreign || (it != conf->end() && (it->second & m))) { vis = true; break; } }
    }
    if(vis) point();
}
// a call that uses hidden state inside libc: an access to a location that stands for that state
static uint64_t hidden[64];
static void hidden_state(int k) { access(&hidden[k], 8, true); }
static std::function<void()> fn[3];
static void* body(void* p) { int t = (int)(intptr_t)p; while(sem_wait(&sem[t])) {} tid = t; fn[t](); tid = 0; finished[t] = true; if(!finished[3 - t]) sem_post(&sem[3 - t]); return nullptr; }
static void start(int t, pthread_t* th) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk[t], STACK); if(pthread_create(th, &at, body, (void*)(intptr_t)t)) { fprintf(stderr, "no thread\n"); abort(); } }
static void setup(int m) { mode = m; rt_sh->status = 0; rt_sh->nrec = 0; rt_sh->rec_full = false; rt_sh->nchoice = 0; rt_sh->accesses = rt_sh->switches = rt_sh->visible = 0; streak = 0; for(auto& s : sem) sem_init(&s, 0, 0); finished[1] = finished[2] = false; }
void rt_run_alone(int t, const std::function<void()>& f) {
    setup(RECORD); rec = new std::unordered_map<uintptr_t, uint16_t>; finished[3 - t] = true; fn[t] = f; pthread_t th; start(t, &th); sem_post(&sem[t]); pthread_join(th, nullptr); mode = OFF;
    for(auto& x : *rec) { if(rt_sh->nrec == sizeof rt_sh->rec / sizeof *rt_sh->rec) { rt_sh->rec_full = true; break; } rt_sh->rec[rt_sh->nrec++] = {x.first, (uint8_t)x.second, (uint8_t)(x.second >> 8)}; }
    rt_sh->status = 1;
}
void rt_run_both(const std::function<void()>& f1, const std::function<void()>& f2, int first, const RtRec* c, size_t nc, const uint8_t* prefix, size_t nprefix, int preemptions) {
    setup(EXPLORE); conf = new std::unordered_map<uintptr_t, uint8_t>; for(size_t k = 0; k < nc; k++) (*conf)[c[k].addr] |= c[k].r | c[k].w;
    pre = prefix; npre = nprefix; preempt_left = preemptions; fn[1] = f1; fn[2] = f2; pthread_t a, b; start(1, &a); start(2, &b);
    sem_post(&sem[first]); pthread_join(a, nullptr); pthread_join(b, nullptr); mode = OFF; rt_sh->status = 1;
}
extern "C" {
// ---- allocator: one arena per thread, nothing is reused ----
struct Hdr { uint64_t size, magic; };
static const uint64_t LIVE = 0x5afe5afe5afe5afeULL, DEAD = 0xdeaddeaddeaddeadULL;
static void* raw(size_t n, int fill) {
    size_t z = (sizeof(Hdr) + n + 31) & ~(size_t)15; if(n > ARENA[0] || used[tid] + z > ARENA[tid]) return nullptr;
    Hdr* h = (Hdr*)(arena[tid] + used[tid]); used[tid] += z; h->size = n; h->magic = LIVE; memset(h + 1, fill, n); vp_live_blocks++; vp_total_allocs++; return h + 1;
}
void* vp_malloc(size_t n) { return raw(n, vp_junk); }
void* vp_calloc(size_t a, size_t b) { return raw(a * b, 0); }
void vp_free(void* p) { if(!p) return; Hdr* h = (Hdr*)p - 1; access(p, 1, true); if(h->magic == DEAD) vp_alloc_error("double free"); if(h->magic != LIVE) vp_alloc_error("free of a pointer that is not a live block"); h->magic = DEAD; memset(p, 0xDD, h->size); vp_live_blocks--; }
void* vp_realloc(void* p, size_t n) { if(!p) return vp_malloc(n); if(!n) { vp_free(p); return nullptr; } Hdr* h = (Hdr*)p - 1; if(h->magic != LIVE) vp_alloc_error("realloc of a pointer that is not a live block"); access(p, h->size, false); void* q = raw(n, vp_junk); if(!q) return q; memcpy(q, p, h->size < n ? h->size : n); vp_free(p); return q; }
char* vp_strdup(const char* s) { size_t n = strlen(s) + 1; access(s, n, false); char* p = (char*)vp_malloc(n); memcpy(p, s, n); return p; }
char* vp_strndup(const char* s, size_t n) { size_t l = strnlen(s, n); access(s, l, false); char* p = (char*)vp_malloc(l + 1); memcpy(p, s, l); p[l] = 0; return p; }
int vp_vasprintf(char** out, const char* f, va_list ap) { char* t; int r = vasprintf(&t, f, ap); if(r < 0) return r; *out = vp_strdup(t); free(t); return r; }
int vp_asprintf(char** out, const char* f, ...) { va_list ap; va_start(ap, f); int r = vp_vasprintf(out, f, ap); va_end(ap); return r; }
// ---- libc functions that touch memory ----
void* vp_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* vp_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* vp_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
int vp_memcmp(const void* a, const void* b, size_t n) { access(a, n, false); access(b, n, false); return memcmp(a, b, n); }
size_t vp_strlen(const char* s) { access(s, 1, false); size_t n = strlen(s); access(s, n + 1, false); return n; }
static void rd(const char* s) { access(s, strlen(s) + 1, false); }
static void rdn(const char* s, size_t n) { access(s, strnlen(s, n), false); }
int vp_strcmp(const char* a, const char* b) { rd(a); rd(b); return strcmp(a, b); }
int vp_strncmp(const char* a, const char* b, size_t n) { rdn(a, n); rdn(b, n); return strncmp(a, b, n); }
int vp_strcasecmp(const char* a, const char* b) { rd(a); rd(b); return strcasecmp(a, b); }
int vp_strncasecmp(const char* a, const char* b, size_t n) { rdn(a, n); rdn(b, n); return strncasecmp(a, b, n); }
char* vp_strcpy(char* d, const char* s) { rd(s); access(d, strlen(s) + 1, true); return strcpy(d, s); }
char* vp_strncpy(char* d, const char* s, size_t n) { rdn(s, n); access(d, n, true); return strncpy(d, s, n); }
char* vp_strcat(char* d, const char* s) { rd(s); rd(d); access(d + strlen(d), strlen(s) + 1, true); return strcat(d, s); }
char* vp_strncat(char* d, const char* s, size_t n) { rdn(s, n); rd(d); access(d + strlen(d), strnlen(s, n) + 1, true); return strncat(d, s, n); }
char* vp_strchr(const char* s, int c) { rd(s); return (char*)strchr(s, c); }
char* vp_strrchr(const char* s, int c) { rd(s); return (char*)strrchr(s, c); }
char* vp_strstr(const char* a, const char* b) { rd(a); rd(b); return (char*)strstr(a, b); }
int vp_vsnprintf(char* d, size_t n, const char* f, va_list ap) { va_list a2; va_copy(a2, ap); int r = vsnprintf(nullptr, 0, f, a2); va_end(a2); if(n) access(d, (size_t)r + 1 < n ? (size_t)r + 1 : n, true); return vsnprintf(d, n, f, ap); }
int vp_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vp_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int vp_vsprintf(char* d, const char* f, va_list ap) { return vp_vsnprintf(d, 1 << 20, f, ap); }
int vp_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = vp_vsnprintf(d, 1 << 20, f, ap); va_end(ap); return r; }
char* vp_strtok_r(char* s, const char* d, char** sv) { if(s) access(s, strlen(s) + 1, true); else if(*sv) access(*sv, strlen(*sv) + 1, true); access(sv, 8, true); return strtok_r(s, d, sv); }
char* vp_strtok(char* s, const char* d) { if(s) access(s, strlen(s) + 1, true); hidden_state(0); return strtok(s, d); }
int vp_rand() { hidden_state(1); return rand(); }
void vp_srand(unsigned x) { hidden_state(1); srand(x); }
long vp_random() { hidden_state(2); return random(); }
void vp_srandom(unsigned x) { hidden_state(2); srandom(x); }
double vp_drand48() { hidden_state(3); return drand48(); }
struct tm* vp_localtime(const time_t* t) { hidden_state(4); return localtime(t); }
struct tm* vp_gmtime(const time_t* t) { hidden_state(4); return gmtime(t); }
char* vp_ctime(const time_t* t) { hidden_state(4); return ctime(t); }
void vp_qsort(void* b, size_t n, size_t z, int (*c)(const void*, const void*)) { access(b, n * z, true); qsort(b, n, z, c); }
// ---- synchronisation ----
static void wait_turn() { int o = 3 - tid; if(mode != EXPLORE || !tid || finished[o]) deadlock(); static uint64_t spins; if(++spins > 2000000) deadlock(); switch_to(o); }
int vp_pthread_mutex_lock(pthread_mutex_t* m) { if(!tid) return pthread_mutex_lock(m); if(mode == EXPLORE) point(); while(pthread_mutex_trylock(m)) wait_turn(); return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t* m) { if(tid && mode == EXPLORE) point(); return pthread_mutex_trylock(m); }
int vp_pthread_mutex_unlock(pthread_mutex_t* m) { int r = pthread_mutex_unlock(m); if(tid && mode == EXPLORE) point(); return r; }
int vp_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if(!tid) return pthread_rwlock_rdlock(m); if(mode == EXPLORE) point(); while(pthread_rwlock_tryrdlock(m)) wait_turn(); return 0; }
int vp_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if(!tid) return pthread_rwlock_wrlock(m); if(mode == EXPLORE) point(); while(pthread_rwlock_trywrlock(m)) wait_turn(); return 0; }
int vp_pthread_rwlock_unlock(pthread_rwlock_t* m) { int r = pthread_rwlock_unlock(m); if(tid && mode == EXPLORE) point(); return r; }
int vp_pthread_spin_lock(pthread_spinlock_t* m) { if(!tid) return pthread_spin_lock(m); if(mode == EXPLORE) point(); while(pthread_spin_trylock(m)) wait_turn(); return 0; }
// pthread_once: 0 not run, 1 running, 2 done, kept per control object
int vp_pthread_once(pthread_once_t* c, void (*f)()) { static std::unordered_map<void*, int>* st; if(!st) st = new std::unordered_map<void*, int>; if(tid && mode == EXPLORE) point(); for(;;) { int& s = (*st)[c]; if(s == 2) return 0; if(s == 0) { s = 1; f(); (*st)[c] = 2; return 0; } wait_turn(); } }
// ---- compiler hooks ----
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T* a, int) { access((void*)a, b / 8, false); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { access((void*)a, b / 8, true); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { access((void*)a, b / 8, true); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { access((void*)a, b / 8, true); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { access((void*)a, b / 8, true); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { access((void*)a, b / 8, true); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { access((void*)a, b / 8, true); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { access((void*)a, b / 8, true); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { access((void*)a, b / 8, true); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { access((void*)a, b / 8, true); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { access((void*)a, b / 8, true); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) { access((void*)a, b / 8, true); __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
void rt_main_arena_reset() { for(auto& u : used) u = 0; }
