/* run time of generated calls: what a captured call holds goes back into a structure of the passed arguments */
#include "tagrt.h"
struct cf { const char *sig, *name; size_t size; metac_entry_t *(*entry)(void); metac_value_t *(*wrap)(const void*, metac_tag_map_t*);
    int (*un)(metac_value_t*, void*); void (*mk)(void*); int (*eq)(const void*, const void*, int); void (*lf)(void*); };
static char *c_str(void) { size_t n = vt_below(4) ? vt_below(9) : vt_below(60); char *s = t_blk(n + 1); for (size_t i = 0; i < n; i++) s[i] = "abcz09 \n\t\\\"'?%{},"[vt_below(17)]; s[n] = 0; return s; }
static int c_take(metac_value_t *v, int i, void *to, size_t n) {
    metac_value_t *p = metac_value_parameter_new_item(v, i); if (!p) return t_bad("no parameter %d", i);
    vt_count("parameters", 1); memcpy(to, metac_value_addr(p), n); metac_value_delete(p); return 1;
}
static int c_takeva(metac_value_t *v, int i, int j, void *to, size_t n, int str) {
    metac_value_t *p = metac_value_parameter_new_item(v, i); if (!p) return t_bad("no variadic part");
    metac_value_t *q = metac_value_parameter_count(p) > j ? metac_value_parameter_new_item(p, j) : NULL; vt_count("variadic", 1); metac_value_delete(p);
    if (!q) return t_bad("no variadic argument %d", j);
    if (str) *(void**)to = metac_value_addr(q); else { metac_size_t z = 0; metac_entry_byte_size(metac_value_entry(q), &z); memset(to, 0, n); memcpy(to, metac_value_addr(q), z < n ? z : n); }
    metac_value_delete(q); return 1;
}
