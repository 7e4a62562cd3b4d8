/* captured variadic arguments */
#define _GNU_SOURCE
#include "vt.h"
#include <stdbool.h>
#include <wchar.h>
#include "metac/reflect.h"
#include "metac/backend/printf_format.h"
static char a_mem[4096]; static void *a_own[64]; static int a_nown; static metac_tag_map_t *map;
static void *a_ptr(void) { return vt_below(5) ? (void*)(a_mem + vt_below(4000)) : NULL; }
static double a_frac(void) { return ((int)vt_below(2000001) - 1000000) / 64.0; }
static unsigned long long a_int(void) { switch (vt_below(5)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << vt_below(64); case 3: return vt_below(256); default: return vt_rnd(); } }
/* prec >= 0: exactly as long as it may be read, often without a terminating zero */
static char *a_str(int prec) {
    size_t n = vt_below(3) ? vt_below(14) : vt_below(200); int open = 0;
    if (prec >= 0 && vt_below(2)) { n = prec; open = 1; }
    char *s = malloc(n + !open + (n == 0)); for (size_t i = 0; i < n; i++) s[i] = "abcdz0189 \n\t\\\"'?%{},:"[vt_below(22)];
    if (!open) s[n] = 0;
    a_own[a_nown++] = s; return s;
}
static void a_release(void) { while (a_nown) free(a_own[--a_nown]); }
void pf1(const char *format, ...) {} METAC_GSYM_LINK(pf1);
int pf2(int lvl, double d, const char *fmt, ...) { return 0; } METAC_GSYM_LINK(pf2);
void pl1(const char *format, va_list vl) {} METAC_GSYM_LINK(pl1);
int pl2(long lvl, const char *fmt, va_list ap, int tail) { return 0; } METAC_GSYM_LINK(pl2);
void (*pq)(int, const char *, va_list, long) = NULL; METAC_GSYM_LINK(pq);
int (*pv)(const char *, ...) = NULL; METAC_GSYM_LINK(pv);
#define FN_PTR(f) metac_entry_pointer_entry(METAC_GSYM_LINK_ENTRY(f))
void pn1(const char *format, ...) {} METAC_GSYM_LINK(pn1);
void pn2(const char *format, va_list vl, int tail, double d) {} METAC_GSYM_LINK(pn2);
METAC_TAG_MAP_NEW(fmt_map, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member)},)
    METAC_TAG_MAP_ENTRY(METAC_GSYM_LINK_ENTRY(pf1))
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.n = "format"}), METAC_ZERO_ENDED_STRING())
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.i = 1}), METAC_FORMAT_BASED_VA_ARG())
    METAC_TAG_MAP_ENTRY_END
    METAC_TAG_MAP_ENTRY(METAC_GSYM_LINK_ENTRY(pf2))
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.i = 3}), METAC_FORMAT_BASED_VA_ARG())
    METAC_TAG_MAP_ENTRY_END
    METAC_TAG_MAP_ENTRY(METAC_GSYM_LINK_ENTRY(pl1))
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.n = "format"}), METAC_ZERO_ENDED_STRING())
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.n = "vl"}), METAC_FORMAT_BASED_VA_ARG())
    METAC_TAG_MAP_ENTRY_END
    METAC_TAG_MAP_ENTRY(METAC_GSYM_LINK_ENTRY(pl2))
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.n = "ap"}), METAC_FORMAT_BASED_VA_ARG())
    METAC_TAG_MAP_ENTRY_END
    METAC_TAG_MAP_ENTRY(FN_PTR(pq))
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.i = 2}), METAC_FORMAT_BASED_VA_ARG())
    METAC_TAG_MAP_ENTRY_END
    METAC_TAG_MAP_ENTRY(FN_PTR(pv))
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.i = 1}), METAC_FORMAT_BASED_VA_ARG())
    METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_END
/* (not asprintf: strings with a precision may be open, %n may be in the format) */
extern int __vasprintf_chk(char **, int, const char *, va_list);
/* the call itself comes after the capture and needs its list: prints with the list before and after */
static void v_same(const char *fmt, char *before, va_list ap) {
    char *after = NULL; int w = __vasprintf_chk(&after, 0, fmt, ap); (void)w; vt_count("lists_used_again", 1);
    VT_CHECK(after && before && !strcmp(after, before), "fmt-list-used-up", "\"%s\": the list gives %.60s after the capture, %.60s before", fmt, after, before);
    free(after); free(before);
}
static int v_store(metac_parameter_storage_t *st, const char *fmt, ...) { va_list ap, aq; va_start(ap, fmt); va_copy(aq, ap); char *b = NULL; int w = __vasprintf_chk(&b, 0, fmt, aq); (void)w; va_end(aq);
    int r = metac_store_vprintf_params(st, fmt, ap); v_same(fmt, b, ap); va_end(ap); return r; }
static metac_value_t *v_wrap(int tail, metac_value_t *c, const char *fmt, ...) {
    va_list ap, aq; va_start(ap, fmt); va_copy(aq, ap); char *b = NULL; int w = __vasprintf_chk(&b, 0, fmt, aq); (void)w; va_end(aq);
    metac_value_t *r = tail == 0 ? metac_value_parameter_wrap(c, map, fmt, ap) : tail == 1 ? metac_value_parameter_wrap(c, map, 5L, fmt, ap, 77) : tail == 2 ? metac_value_parameter_wrap(c, map, fmt, ap, 78, 2.5) : metac_value_parameter_wrap(c, map, 3, fmt, ap, 91L);
    v_same(fmt, b, ap); va_end(ap); return r;
}
static const char *x_f; static int x_way;
#define X_ITEM metac_value_t *p = metac_parameter_storage_new_param_value(L, i); vt_count("arguments", 1); if (!p) { vt_v("fmt-missing", "\"%s\" (%d): no argument %d", x_f, x_way, i); return; } \
    metac_entry_t *e = metac_value_entry(p); (void)e; void *A = metac_value_addr(p)
static void x_num(metac_parameter_storage_t *L, int i, const void *want, size_t n, const char *type) {
    X_ITEM; metac_name_t t = metac_entry_base_type_name(e); metac_size_t z = 0; metac_entry_byte_size(e, &z);
    VT_CHECK(t && !strcmp(t, type) && z == n, "fmt-type", "\"%s\" (%d): argument %d is %s of %d bytes, not %s", x_f, x_way, i, t ? t : "no number", (int)z, type);
    VT_CHECK(z == n && !memcmp(A, want, n), "fmt-value", "\"%s\" (%d): argument %d differs", x_f, x_way, i); metac_value_delete(p);
}
static void x_ld(metac_parameter_storage_t *L, int i, long double want) {
    X_ITEM; metac_name_t t = metac_entry_base_type_name(e);
    VT_CHECK(t && !strcmp(t, "long double"), "fmt-type", "\"%s\" (%d): argument %d is %s", x_f, x_way, i, t ? t : "no number");
    VT_CHECK(*(long double*)A == want, "fmt-value", "\"%s\" (%d): argument %d differs", x_f, x_way, i); metac_value_delete(p);
}
static void x_ptr(metac_parameter_storage_t *L, int i, const void *want, const char *to) {
    X_ITEM; void *a = &x_f; int rc = metac_value_pointer(p, &a);
    metac_name_t t = !to || metac_entry_is_void_pointer(e) || !metac_entry_is_pointer(e) ? NULL : metac_entry_base_type_name(metac_entry_pointer_entry(e));
    VT_CHECK(to ? t && !strcmp(t, to) : metac_entry_is_void_pointer(e), "fmt-type", "\"%s\" (%d): argument %d points to %s, not %s", x_f, x_way, i, t ? t : "void", to ? to : "void");
    VT_CHECK(rc == 0 && a == want, "fmt-value", "\"%s\" (%d): pointer %d is %p, not %p (%d)", x_f, x_way, i, a, want, rc); metac_value_delete(p);
}
static void x_str(metac_parameter_storage_t *L, int i, const char *s, int prec) {
    if (!s) { x_ptr(L, i, NULL, "char"); return; }
    X_ITEM; size_t n = prec >= 0 ? strnlen(s, prec) : strlen(s);
    VT_CHECK(metac_value_has_elements(p) && metac_value_element_count(p) >= (metac_num_t)n + 1 && !memcmp(A, s, n) && (prec >= 0 || ((char*)A)[n] == 0) && strlen(A) >= n, "fmt-string", "\"%s\" (%d): string %d of %d characters is wrong", x_f, x_way, i, (int)n);
    VT_CHECK(A != s, "fmt-string", "\"%s\" (%d): string %d is not a copy", x_f, x_way, i); metac_value_delete(p);
}
static void x_tail(metac_value_t *c, int want) { metac_value_t *p = metac_value_parameter_new_item(c, 3); VT_CHECK(p && *(int*)metac_value_addr(p) == want, "fmt-tail", "parameter behind the list differs"); if (p) metac_value_delete(p);
    p = metac_value_parameter_new_item(c, 0); VT_CHECK(p && *(long*)metac_value_addr(p) == 5, "fmt-tail", "parameter before the list differs"); if (p) metac_value_delete(p); }
static void x_tail3(metac_value_t *c) {
    metac_value_t *p = metac_value_parameter_new_item(c, 3); VT_CHECK(p && *(long*)metac_value_addr(p) == 91, "fmt-tail", "parameter behind the list differs"); if (p) metac_value_delete(p);
    p = metac_value_parameter_new_item(c, 0); VT_CHECK(p && *(int*)metac_value_addr(p) == 3, "fmt-tail", "parameter before the list differs"); if (p) metac_value_delete(p);
}
static void x_twice(metac_parameter_storage_t *L, int i, int j) {
    metac_value_t *a = metac_parameter_storage_new_param_value(L, i), *b = metac_parameter_storage_new_param_value(L, j); int r = -1;
    if (a && b) { metac_size_t z = 0, y = 0; metac_entry_byte_size(metac_value_entry(a), &z); metac_entry_byte_size(metac_value_entry(b), &y); if (z == sizeof(long double) && !metac_value_has_elements(a)) y = z = 10;
        r = metac_value_has_elements(a) == metac_value_has_elements(b) && z == y && z > 0 && metac_value_addr(a) != metac_value_addr(b) && !memcmp(metac_value_addr(a), metac_value_addr(b), z); }
    VT_CHECK(r == 1, "fmt-append", "\"%s\": argument %d and its second capture: %d", x_f, i, r);
    if (a) metac_value_delete(a); if (b) metac_value_delete(b);
}
static void x_copy(metac_value_t *c, metac_parameter_storage_t *L) {
    metac_parameter_storage_t *st = metac_new_parameter_storage(), *top = metac_value_addr(c);
    int rc = metac_parameter_storage_copy(top, st); metac_value_t *d = metac_new_value(metac_value_entry(c), st);
    char *s = metac_value_string_ex(c, METAC_WMODE_deep, map), *t = d ? metac_value_string_ex(d, METAC_WMODE_deep, map) : NULL;
    VT_CHECK(rc == 0 && s && t && !strcmp(s, t), "fmt-copy", "copy of the arguments gives %s instead of %s", t ? t : "nothing", s ? s : "nothing");
    vt_count("copies", 1); free(s); free(t); if (d) metac_value_delete(d); metac_parameter_storage_delete(st);
}
static void x_show(const char *k, int site, int round, int way, const char *s) { printf("%s\t%d\t%d\t%d\t%s\n", k, site, round, way, s); }
static void x_hex(const char *k, int site, int round, int way, const char *s) { printf("%s\t%d\t%d\t%d\t", k, site, round, way); for (; *s; s++) printf("%02x", (unsigned char)*s); printf("\n"); }
/* no handler for the list: nothing is captured for it, and the rest is right */
static void nohandler(void) {
    metac_parameter_storage_t *st = metac_new_parameter_storage(); metac_value_t *c = metac_value_parameter_wrap(metac_new_value(METAC_GSYM_LINK_ENTRY(pn1), st), map, "%d", 1); vt_count("evals", 2);
    if (c) { metac_value_t *l = metac_value_parameter_new_item(c, 1); VT_CHECK(metac_value_parameter_count(c) == 2 && l && metac_value_parameter_count(l) == 0, "fmt-nohandler", "variadic part without a handler"); if (l) metac_value_delete(l); metac_value_delete(c); }
    metac_parameter_storage_delete(st);
    st = metac_new_parameter_storage(); c = v_wrap(2, metac_new_value(METAC_GSYM_LINK_ENTRY(pn2), st), "%d", 1);
    if (c) {
        metac_value_t *a = metac_value_parameter_new_item(c, 2), *b = metac_value_parameter_new_item(c, 3);
        VT_CHECK(a && b && *(int*)metac_value_addr(a) == 78 && *(double*)metac_value_addr(b) == 2.5, "fmt-nohandler", "parameters behind a list without a handler differ");
        if (a) metac_value_delete(a); if (b) metac_value_delete(b); metac_value_delete(c);
    }
    metac_parameter_storage_delete(st);
    st = metac_new_parameter_storage(); c = metac_value_parameter_wrap(metac_new_value(METAC_GSYM_LINK_ENTRY(pn1), st), NULL, "%d", 1);
    if (c) metac_value_delete(c);
    metac_parameter_storage_delete(st);
}
