/* captured arguments against the passed ones */
#include "vt.h"
#include <complex.h>
#include <stdbool.h>
#include "metac/reflect.h"
#define A_KEY(k) (A_ODD ? k "-by-value-class" : k)
#define A_REFUSED(m) VT_CHECK(A_ODD, "args-refused", m)
static char a_mem[4096];
static void *a_ptr(void) { return vt_below(5) ? (void*)(a_mem + vt_below(4000)) : NULL; }
static double a_dbl(void) { switch (vt_below(6)) { case 0: return 0; case 1: return -1.5; case 2: return 1e30; case 3: return -1e-30; default: return ((int)vt_below(2000001) - 1000000) / 64.0; } }
static unsigned long long a_int(void) { switch (vt_below(5)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << vt_below(64); case 3: return vt_below(256); default: return vt_rnd(); } }
static void a_num(const char *f, metac_value_t *p, int i, const char *name, const void *want, size_t n, int same) {
    VT_CHECK(same, A_KEY("args-value"), "%s: argument %d (%s) differs", f, i, name);
    VT_CHECK(metac_value_entry(p) && metac_entry_is_parameter(metac_value_entry(p)), "args-kind", "%s: argument %d is no parameter", f, i);
    metac_name_t m = metac_value_name(p); metac_size_t sz = 0;
    VT_CHECK(!m || !strcmp(m, name), "args-name", "%s: argument %d is %s, not %s", f, i, m, name);
    VT_CHECK(metac_entry_byte_size(metac_entry_parameter_entry(metac_value_entry(p)), &sz) == 0 && sz == n, "args-size", "%s: argument %d has size %d, not %d", f, i, (int)sz, (int)n);
    vt_count("arguments", 1); metac_value_delete(p);
}
static void a_text(const char *f, char **want, metac_value_t *x, int i) {
    char *s = x ? metac_value_string(x) : NULL; if (x) metac_value_delete(x);
    if (!s) { if (*want && **want == 1) return; free(*want); *want = strdup("\1"); return; }
    if (*want && **want == 1) { free(s); return; }
    size_t l = *want ? strlen(*want) : 0; *want = realloc(*want, l + strlen(s) + 3); sprintf(*want + l, "%s%s", l ? ", " : "", s); free(s);
}
static void a_calltext(const char *f, const char *want, metac_value_t *c) {
    char *s = metac_value_string(c);
    if (want && *want == 1) { free(s); return; }
    size_t l = strlen(f) + (want ? strlen(want) : 0) + 3; char *w = malloc(l); sprintf(w, "%s(%s)", f, want ? want : "");
    VT_CHECK(s && !strcmp(s, w), "args-text", "text of the call is %s, expected %s", s ? s : "nothing", w); vt_count("texts", 1);
    free(w); free(s);
}
static void a_pair(const char *f, metac_value_t *c, metac_value_t *c2, metac_parameter_storage_t *st2, metac_entry_t *e) {
    metac_parameter_storage_t *st3 = metac_new_parameter_storage();
    int rc = metac_parameter_storage_copy(st2, st3);
    VT_CHECK(rc == 0 && metac_parameter_storage_size(st3) == metac_parameter_storage_size(st2), "args-storage-copy", "%s: copy of the arguments: %d", f, rc);
    metac_num_t n = metac_parameter_storage_size(st2);
    for (metac_num_t i = 0; i < n && rc == 0; i++) {
        metac_value_t *a = metac_parameter_storage_new_param_value(st2, i), *b = metac_parameter_storage_new_param_value(st3, i); metac_size_t z = 0;
        VT_CHECK(a && b && metac_value_addr(a) != metac_value_addr(b) && metac_value_entry(a) == metac_value_entry(b) && metac_entry_byte_size(metac_entry_parameter_entry(metac_value_entry(a)), &z) == 0 && !memcmp(metac_value_addr(a), metac_value_addr(b), z), "args-storage-copy", "%s: argument %d of the copy differs", f, (int)i);
        if (a) metac_value_delete(a); if (b) metac_value_delete(b);
    }
    metac_parameter_storage_cleanup(st3);
    VT_CHECK(metac_parameter_storage_size(st3) == 0, "args-storage-cleanup", "%s: arguments left after the clean-up", f);
    rc = metac_parameter_storage_copy(st2, st3);        /* and it can be used again */
    VT_CHECK(rc == 0 && metac_parameter_storage_size(st3) == n, "args-storage-reuse", "%s: second use of the storage: %d, %d of %d arguments", f, rc, (int)metac_parameter_storage_size(st3), (int)n);
    for (metac_num_t i = 0; i < n && rc == 0; i++) {
        metac_value_t *a = metac_parameter_storage_new_param_value(st2, i), *b = metac_parameter_storage_new_param_value(st3, i); metac_size_t z = 0;
        VT_CHECK(a && b && metac_entry_byte_size(metac_entry_parameter_entry(metac_value_entry(a)), &z) == 0 && !memcmp(metac_value_addr(a), metac_value_addr(b), z), "args-storage-reuse", "%s: argument %d differs in a storage that was cleaned up", f, (int)i);
        if (a) metac_value_delete(a); if (b) metac_value_delete(b);
    }
    metac_parameter_storage_delete(st3);
    metac_value_delete(c2);
}
/* the list is still complete after the capture: captures it once more */
static void a_again(metac_value_t *v, metac_value_t *r, metac_tag_map_t *m, va_list ap) {
    metac_parameter_storage_t *st = metac_new_parameter_storage(), *was = metac_value_addr(r);
    metac_value_t *c = metac_value_parameter_vwrap(metac_new_value(metac_value_entry(r), st), m, ap);
    metac_num_t n = metac_parameter_storage_size(was); vt_count("lists_used_again", 1);
    VT_CHECK(c && metac_parameter_storage_size(st) == n, A_KEY("args-list-used-up"), "second capture of a list: %d arguments, %d before", (int)metac_parameter_storage_size(st), (int)n);
    for (metac_num_t i = 0; c && i < n && i < metac_parameter_storage_size(st); i++) {
        metac_value_t *a = metac_parameter_storage_new_param_value(was, i), *b = metac_parameter_storage_new_param_value(st, i); metac_size_t z = 0;
        VT_CHECK(a && b && metac_entry_byte_size(metac_entry_parameter_entry(metac_value_entry(a)), &z) == 0 && !memcmp(metac_value_addr(a), metac_value_addr(b), z == sizeof(long double) || z == 32 ? 8 : z), A_KEY("args-list-used-up"), "second capture of a list: argument %d differs", (int)i);
        if (a) metac_value_delete(a); if (b) metac_value_delete(b);
    }
    if (c) metac_value_delete(c);
    metac_parameter_storage_delete(st);
}
