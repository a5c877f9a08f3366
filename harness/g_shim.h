// C access to internal parts (value.h uses a C++ keyword as a field name).
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct betree; struct betree_sub;
void* gs_expr(const struct betree_sub* s);
int gs_eq(const void* a, const void* b);
int gs_cmp(const void* a, const void* b);
void* gs_clone(const void* a);
void gs_free_node(void* a);
bool gs_insert_node(struct betree* t, uint64_t id, void* node);
void* gs_parse(const char* text); // null if refused
char* gs_print(const void* node); void gs_free_text(char* s);
// declaration lines, emptied trees
void gs_line(struct betree* t, const char* line); void gs_empty(struct betree* t);
struct gs_dom { char name[400]; bool opt; int kind; int64_t imin, imax; double fmin, fmax; size_t smax, emax; };
size_t gs_domains(struct betree* t); void gs_domain(struct betree* t, size_t i, struct gs_dom* out);
// map of 64-bit values
void* gm_new(void); void gm_delete(void* m); int gm_set(void* m, const char* k, uint64_t v); bool gm_get(void* m, const char* k, uint64_t* v); void gm_remove(void* m, const char* k);
size_t gm_keys(void* m, const char** out, size_t max); unsigned gm_count(void* m);
// map of values of another size
void* gm24_new(void); void gm24_delete(void* m); int gm24_set(void* m, const char* k, uint64_t v); bool gm24_get(void* m, const char* k, uint64_t* v);
// ordered set of ints, ordering by absolute key
void* gr_new(void); void gr_delete(void* t); int gr_insert(void* t, int* p); int gr_erase(void* t, int* p); int* gr_find(void* t, int* p); size_t gr_size(void* t);
#ifdef __cplusplus
}
#endif
