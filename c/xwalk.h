/* walks a metac value and the compiler's descriptor of the same object side by side */
#ifndef VT_XWALK_H
#define VT_XWALK_H
#include "vt.h"
#include "xt.h"
struct leaf {
    metac_value_t *v;        /* the value, as reached by navigation */
    struct xt *t;            /* its final type */
    int quals;               /* 1 const 2 volatile 4 restrict, of the whole chain */
    unsigned char *addr;     /* expected address (NULL for bit-fields) */
    unsigned char *sbase;    /* enclosing struct base, for bit-fields */
    struct xt *st; struct xm *m;
    int in_union;            /* inside (or of) a union */
    const char *path;
};
typedef void (*leaf_fn)(struct leaf *l, void *ctx);
static const char *w_cur = "?";
static int w_nav;            /* also check navigation */
static int w_max_elems = 6;
static void w_walk(metac_value_t *v, int xi, unsigned char *addr, struct leaf *up, leaf_fn fn, void *ctx, const char *path) {
    int q = 0; struct xt *t = xfinal(XT(xi), &q);
    struct leaf l = {.v = v, .t = t, .quals = q, .addr = addr, .path = path, .in_union = up ? up->in_union : 0};
    if (w_nav) {
        vt_count("nav_steps", 1); vt_count("evals", 1);
        metac_kind_t k = metac_value_final_kind(v, NULL);
        int ok = t == NULL ? 1 :
            t->kind == XK_BASE ? k == METAC_KND_base_type && metac_value_is_base_type(v) :
            t->kind == XK_PTR ? k == METAC_KND_pointer_type && metac_value_is_pointer(v) :
            t->kind == XK_ARR ? k == METAC_KND_array_type && metac_value_has_elements(v) :
            t->kind == XK_ENUM ? k == METAC_KND_enumeration_type && metac_value_is_enumeration(v) :
            t->kind == XK_STRUCT ? k == METAC_KND_struct_type && metac_value_has_members(v) :
            t->kind == XK_UNION ? k == METAC_KND_union_type && metac_value_has_members(v) : 1;
        VT_CHECK(ok, "nav-kind", "%s %s: final kind %d", w_cur, path, k);
        VT_CHECK(metac_value_addr(v) == addr, "nav-addr", "%s %s: address off by %ld", w_cur, path, (long)((unsigned char*)metac_value_addr(v) - addr));
        metac_value_t *cp = metac_new_value_from_value(v);
        VT_CHECK(cp && metac_value_addr(cp) == addr && metac_value_final_kind(cp, NULL) == k, "nav-copy", "%s %s: value handle copy differs", w_cur, path);
        if (cp) metac_value_delete(cp);
        if (t && t->kind != XK_STRUCT && t->kind != XK_UNION)
            VT_CHECK(metac_value_has_members(v) == 0 && metac_new_value_by_member_id(v, 0) == NULL && metac_value_member_count(v) < 0, "nav-mismatch", "%s %s: members of a non-struct", w_cur, path);
        if (t && t->kind != XK_ARR)
            VT_CHECK(metac_value_has_elements(v) == 0 && metac_new_value_by_element_id(v, 0) == NULL && metac_value_element_count(v) < 0 , "nav-mismatch", "%s %s: elements of a non-array", w_cur, path);
    }
    if (!t) return;
    char p2[1500];
    if (t->kind == XK_STRUCT || t->kind == XK_UNION) {
        int n = metac_value_member_count(v);
        if (w_nav) {
            VT_CHECK(n == t->nm, "nav-member-count", "%s %s: %d members, %d declared", w_cur, path, n, t->nm);
            int bad[] = {-1, n, n + 1, 1 << 20, -2147483647 - 1, 2147483647};
            for (unsigned i = 0; i < sizeof(bad) / sizeof(bad[0]); i++) {
                metac_value_t *b = metac_new_value_by_member_id(v, bad[i]);
                if (b) { vt_v("nav-bounds", "%s %s: member id %d of %d answered", w_cur, path, bad[i], n); metac_value_delete(b); }
            }
        }
        for (int i = 0; i < t->nm; i++) {
            struct xm *m = &t->m[i];
            metac_value_t *mv = metac_new_value_by_member_id(v, i);
            snprintf(p2, sizeof(p2), "%s.%s", path, m->name ? m->name : "<anon>");
            if (!mv) { vt_v("nav-member", "%s %s: no value", w_cur, p2); continue; }
            if (w_nav) {
                const char *nm = metac_value_name(mv);
                VT_CHECK(m->name ? nm && !strcmp(nm, m->name) : !nm || !*nm, "nav-name", "%s %s: named %s", w_cur, p2, nm ? nm : "-");
            }
            if (m->set) {
                int mq = 0; struct leaf b = {.v = mv, .t = xfinal(XT(m->xt), &mq), .sbase = addr, .st = t, .m = m, .path = p2, .in_union = l.in_union || t->kind == XK_UNION};
                b.quals = mq;
                if (w_nav) { vt_count("nav_bitfields", 1);
                    VT_CHECK(metac_value_is_base_type(mv) != 0 || metac_value_is_enumeration(mv) != 0, "nav-kind", "%s %s: bit-field kind", w_cur, p2); }
                fn(&b, ctx);
            } else {
                struct leaf u = l; u.in_union = l.in_union || t->kind == XK_UNION;
                w_walk(mv, m->xt, addr + m->off, &u, fn, ctx, p2);
            }
            metac_value_delete(mv);
        }
        return;
    }
    if (t->kind == XK_ARR) {
        long n = t->count;
        struct xt *et = XT(t->to);
        if (w_nav) {
            VT_CHECK(metac_value_element_count(v) == n, "nav-count", "%s %s: %d elements, %ld declared", w_cur, path, metac_value_element_count(v), n);
            int bad[] = {-1, (int)n, (int)n + 1, 1 << 28, -2147483647 - 1, 2147483647};
            for (unsigned i = 0; i < sizeof(bad) / sizeof(bad[0]); i++) {
                metac_value_t *b = metac_new_value_by_element_id(v, bad[i]);
                if (b && !(n < 0 && 0)) { vt_v("nav-bounds", "%s %s: element %d of %ld answered", w_cur, path, bad[i], n); metac_value_delete(b); }
            }
            int c = 1 + vt_below(n > 0 ? (unsigned)n : 3);
            metac_value_t *cv = metac_new_element_count_value(v, c);
            if (!cv) vt_v("nav-recount", "%s %s: cannot set element count", w_cur, path);
            else {
                VT_CHECK(metac_value_element_count(cv) == c && metac_value_addr(cv) == addr, "nav-recount", "%s %s: element count %d after setting %d", w_cur, path, metac_value_element_count(cv), c);
                metac_value_t *a = metac_new_value_by_element_id(cv, c - 1), *b = metac_new_value_by_element_id(cv, c);
                VT_CHECK(b == NULL, "nav-bounds", "%s %s: element %d of re-counted %d answered", w_cur, path, c, c);
                VT_CHECK(a != NULL && metac_value_addr(a) == addr + (size_t)(c - 1) * et->size, "nav-recount", "%s %s: last element of re-counted array misplaced", w_cur, path);
                if (a) metac_value_delete(a); if (b) metac_value_delete(b);
                metac_value_delete(cv);
            }
            /* the caller may know better than the declaration: more elements, or none */
            int cs[] = {0, (int)(n > 0 ? n : 0) + 1, (int)(n > 0 ? n : 0) + 1 + (int)vt_below(100)};
            for (unsigned i = 0; i < 3; i++) {
                cv = metac_new_element_count_value(v, cs[i]);
                VT_CHECK(cv && metac_value_element_count(cv) == cs[i] && metac_value_addr(cv) == addr && metac_entry_element_entry(metac_value_entry(cv)) != NULL, "nav-recount", "%s %s: cannot set element count %d of %ld", w_cur, path, cs[i], n);
                if (cv && cs[i]) { metac_value_t *a = metac_new_value_by_element_id(cv, cs[i] - 1); VT_CHECK(a && metac_value_addr(a) == addr + (size_t)(cs[i] - 1) * et->size, "nav-recount", "%s %s: last of %d elements misplaced", w_cur, path, cs[i]); if (a) metac_value_delete(a); }
                if (cv) { metac_value_t *b = metac_new_value_by_element_id(cv, cs[i]); VT_CHECK(!b, "nav-bounds", "%s %s: element %d of re-counted %d answered", w_cur, path, cs[i], cs[i]); if (b) metac_value_delete(b); metac_value_delete(cv); }
            }
        }
        for (long i = 0; i < n; i++) {
            if (n > w_max_elems && i >= 2 && i < n - 2 && vt_below((unsigned)n) > 2) continue;
            metac_value_t *ev = metac_new_value_by_element_id(v, (metac_num_t)i);
            snprintf(p2, sizeof(p2), "%s[%ld]", path, i);
            if (!ev) { vt_v("nav-element", "%s %s: no value", w_cur, p2); continue; }
            w_walk(ev, t->to, addr + (size_t)i * et->size, &l, fn, ctx, p2);
            metac_value_delete(ev);
        }
        return;
    }
    fn(&l, ctx);
}
/* puts a valid bool/long double/... pattern wherever the type needs one */
static void w_sane_base(struct xt *t, unsigned char *p) {
    if (!t->acc) return;
    if (!strcmp(t->acc, "bool")) { p[0] &= 1; return; }
    if (!strcmp(t->acc, "float")) { float f = (float)((int)vt_below(2000001) - 1000000) / (float)(1 << vt_below(12)); memcpy(p, &f, sizeof f); }
    if (!strcmp(t->acc, "double")) { double f = (double)((int)vt_below(2000000001) - 1000000000) / (double)(1 << vt_below(30)); memcpy(p, &f, sizeof f); }
    if (!strcmp(t->acc, "ldouble")) { long double f = (long double)((int)vt_below(2000000001) - 1000000000) / (long double)(1 << vt_below(30)); memset(p, 0, sizeof f); memcpy(p, &f, 10); }
    if (!strcmp(t->acc, "float_complex")) { float f[2]; for (int i = 0; i < 2; i++) f[i] = (float)((int)vt_below(2000001) - 1000000) / (float)(1 << vt_below(12)); memcpy(p, f, sizeof f); }
    if (!strcmp(t->acc, "double_complex")) { double f[2]; for (int i = 0; i < 2; i++) f[i] = (double)((int)vt_below(2000001) - 1000000) / (double)(1 << vt_below(12)); memcpy(p, f, sizeof f); }
    if (!strcmp(t->acc, "ldouble_complex")) { long double f[2]; for (int i = 0; i < 2; i++) f[i] = (long double)((int)vt_below(2000001) - 1000000) / (long double)(1 << vt_below(12)); memset(p, 0, sizeof f); memcpy(p, &f[0], 10); memcpy(p + 16, &f[1], 10); }
}
#endif
