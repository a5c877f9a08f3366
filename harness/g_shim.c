#include "g_shim.h"
#include "alloc.h"
#include "ast.h"
#include "ast_compare.h"
#include "betree.h"
#include "clone.h"
#include "config.h"
#include "helper.h"
#include "printer.h"
#include "jsw_rbtree.h"
#include "map.h"
#include "tree.h"
#include <stdlib.h>
#include <string.h>
int parse(const char* text, struct ast_node** node);
void* gs_expr(const struct betree_sub* s) { return (void*)s->expr; }
int gs_eq(const void* a, const void* b) { return eq_expr(a, b); }
int gs_cmp(const void* a, const void* b) { return expr_cmp(a, b); }
void* gs_clone(const void* a) { return clone_node(a); }
void gs_free_node(void* a) { free_ast_node(a); }
bool gs_insert_node(struct betree* t, uint64_t id, void* node) { return insert_be_tree(t->config, make_sub(t->config, id, node), t->cnode, NULL); }
void* gs_parse(const char* text) { struct ast_node* n = NULL; return parse(text, &n) ? NULL : n; }
char* gs_print(const void* n) { return ast_to_string(n); }
void gs_free_text(char* s) { bfree(s); }
void gs_line(struct betree* t, const char* line) { add_variable_from_string(t, line); }
void gs_empty(struct betree* t) { empty_tree(t); }
size_t gs_domains(struct betree* t) { return t->config->attr_domain_count; }
void gs_domain(struct betree* t, size_t i, struct gs_dom* o) {
    const struct attr_domain* d = t->config->attr_domains[i]; memset(o, 0, sizeof *o); strncpy(o->name, d->attr_var.attr, sizeof o->name - 1); o->opt = d->allow_undefined; o->kind = (int)d->bound.value_type;
    switch(d->bound.value_type) {
        case BETREE_INTEGER: case BETREE_INTEGER_LIST: o->imin = d->bound.imin; o->imax = d->bound.imax; break;
        case BETREE_FLOAT: o->fmin = d->bound.fmin; o->fmax = d->bound.fmax; break;
        case BETREE_STRING: case BETREE_STRING_LIST: o->smax = d->bound.smax; break;
        case BETREE_INTEGER_ENUM: o->emax = d->bound.smax; break;
        default: break;
    }
}
typedef map_t(uint64_t) m64; struct v24 { uint64_t a, b, c; }; typedef map_t(struct v24) m24;
void* gm_new(void) { m64* m = malloc(sizeof *m); map_init(m); return m; }
void gm_delete(void* m) { map_deinit((m64*)m); free(m); }
int gm_set(void* m, const char* k, uint64_t v) { return map_set((m64*)m, k, v); }
bool gm_get(void* m, const char* k, uint64_t* v) { uint64_t* p = map_get((m64*)m, k); if(!p) return false; *v = *p; return true; }
void gm_remove(void* m, const char* k) { map_remove((m64*)m, k); }
size_t gm_keys(void* m, const char** out, size_t max) { map_iter_t it = map_iter((m64*)m); const char* k; size_t n = 0; while((k = map_next((m64*)m, &it))) { if(n < max) out[n] = k; if(++n > max + 8) break; } return n; }
unsigned gm_count(void* m) { return ((m64*)m)->base.nnodes; }
void* gm24_new(void) { m24* m = malloc(sizeof *m); map_init(m); return m; }
void gm24_delete(void* m) { map_deinit((m24*)m); free(m); }
int gm24_set(void* m, const char* k, uint64_t v) { struct v24 x = {v, ~v, v * 3}; return map_set((m24*)m, k, x); }
bool gm24_get(void* m, const char* k, uint64_t* v) { struct v24* p = map_get((m24*)m, k); if(!p) return false; *v = p->b == ~p->a && p->c == p->a * 3 ? p->a : (uint64_t)-99; return true; }
static int cmp(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -7 : x > y ? 3 : 0; }
void* gr_new(void) { return jsw_rbnew(cmp); }
void gr_delete(void* t) { jsw_rbdelete(t); }
int gr_insert(void* t, int* p) { return jsw_rbinsert(t, p); }
int gr_erase(void* t, int* p) { return jsw_rberase(t, p); }
int* gr_find(void* t, int* p) { return jsw_rbfind(t, p); }
size_t gr_size(void* t) { return jsw_rbsize(t); }
