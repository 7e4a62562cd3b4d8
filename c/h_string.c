/* text of values: gen prints the text of random objects, cmp regenerates the same objects and
   compares them with what the compiler made of the texts.
   usage: h_string <gen|cmp> <shallow|deep> <seed> <rounds> [rt.so] */
#include "xgraph.h"
#include <dlfcn.h>
#include <math.h>
struct rt { int var, round; const void *obj; };
static int deep, cyc, amb;
static void *lp_a[600]; static struct xt *lp_t[600];
static void loops(int xi, unsigned char *a, int np) {
    struct xt *t = xfinal(XT(xi), NULL); if (!t || cyc) return;
    if (t->kind == XK_STRUCT) for (int i = 0; i < t->nm; i++) { if (!t->m[i].set) loops(t->m[i].xt, a + t->m[i].off, np); }
    else if (t->kind == XK_ARR && t->count > 0) for (long i = 0; i < t->count; i++) loops(t->to, a + i * XT(t->to)->size, np);
    else if (t->kind == XK_PTR) {
        void *p; memcpy(&p, a, sizeof p); struct xt *pt = xfinal(XT(t->to), NULL);
        if (!p || !g_complete(pt) || np >= 500) return;
        for (int i = 0; i < np; i++) if (lp_a[i] == p) { if (g_same(lp_t[i], pt)) { cyc = 1; return; } amb = 1; }
        lp_a[np] = p; lp_t[np] = pt; loops(t->to, p, np + 1);
    }
}
static void setup(int v, unsigned long long seed, int r) {
    vt_seed(seed * 977 + r * 131 + v); memset(&go, 0, sizeof go);
    go.text = 1; go.null = 10 + vt_below(30); go.maxblk = 1 + vt_below(12);
    if (deep) { go.unk = 1; if (vt_below(2)) { go.share = vt_below(40); go.interior = vt_below(40); go.loop = vt_below(4) == 0 ? 20 : 0; go.late = vt_below(60); } }
    else go.fake_ptrs = 1;
    g_make(xvars[v].xt, seed * 1000003 + r * 131 + v, 1 + vt_below(5), 250);
    cyc = amb = 0; if (deep) loops(xvars[v].xt, gtop, 0);
}
static const char *why; static char whybuf[600];
static int bad(const char *f, ...) { if (why) return 0; va_list ap; va_start(ap, f); vsnprintf(whybuf, sizeof whybuf, f, ap); va_end(ap); why = whybuf; return 0; }
static int nearf(long double a, long double b, long double eps) { long double d = a > b ? a - b : b - a, m = a < 0 ? -a : a; return d <= 5.01e-7L + eps * m; }
static int basesame(struct xt *t, const unsigned char *a, const unsigned char *b, const char *path) {
    const char *k = t->acc;
#define F_(T, eps) { T x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); return nearf(x, y, eps) || bad("%s: %Lg became %Lg", path, (long double)x, (long double)y); }
#define C_(T, eps) { T x[2], y[2]; memcpy(x, a, sizeof x); memcpy(y, b, sizeof y); return (nearf(x[0], y[0], eps) && nearf(x[1], y[1], eps)) || bad("%s: %Lg,%Lg became %Lg,%Lg", path, (long double)x[0], (long double)x[1], (long double)y[0], (long double)y[1]); }
    if (!strcmp(k, "float")) F_(float, 1.2e-7L)
    if (!strcmp(k, "double")) F_(double, 3e-16L)
    if (!strcmp(k, "ldouble")) F_(long double, 3e-16L)
    if (!strcmp(k, "float_complex")) C_(float, 1.2e-7L)
    if (!strcmp(k, "double_complex")) C_(double, 3e-16L)
    if (!strcmp(k, "ldouble_complex")) C_(long double, 3e-16L)
    if (!memcmp(a, b, t->size)) return 1;
    long long x = 0, y = 0; memcpy(&x, a, t->size < 8 ? t->size : 8); memcpy(&y, b, t->size < 8 ? t->size : 8);
    return bad("%s (%s): 0x%llx became 0x%llx", path, t->name, x, y);
}
static int same(int xi, const unsigned char *a, const unsigned char *b, const char *path, int np) {
    struct xt *t = xfinal(XT(xi), NULL); char p2[700]; if (!t) return 1;
    vt_count("leaves_and_nodes", 1);
    switch (t->kind) {
    case XK_BASE: return basesame(t, a, b, path);
    case XK_ENUM: return !memcmp(a, b, t->size) || bad("%s: enumeration differs", path);
    case XK_STRUCT:
        for (int i = 0; i < t->nm; i++) {
            struct xm *m = &t->m[i]; snprintf(p2, sizeof p2, "%s.%s", path, m->name ? m->name : "<anon>");
            if (m->set) { if (m->get(a) != m->get(b)) return bad("%s: bit-field %llx became %llx", p2, m->get(a), m->get(b)); }
            else if (!same(m->xt, a + m->off, b + m->off, p2, np)) return 0;
        }
        return 1;
    case XK_ARR:
        for (long i = 0; i < t->count; i++) { snprintf(p2, sizeof p2, "%s[%ld]", path, i); if (!same(t->to, a + i * XT(t->to)->size, b + i * XT(t->to)->size, p2, np)) return 0; }
        return 1;
    case XK_PTR: break;
    default: return 1;
    }
    void *pa, *pb; memcpy(&pa, a, sizeof pa); memcpy(&pb, b, sizeof pb);
    if (!deep || !pa || !g_complete(XT(t->to))) return pa == pb || bad("%s: pointer %p became %p", path, pa, pb);
    if (!pb) return bad("%s: pointer became NULL", path);
    if (np > 500) return 1;
    snprintf(p2, sizeof p2, "(*%s)", path);
    return same(t->to, pa, pb, p2, np + 1);
}
int main(int argc, char **argv) {
    int gen = !strcmp(argv[1], "gen"); deep = !strcmp(argv[2], "deep");
    unsigned long long seed = strtoull(argv[3], 0, 10); int rounds = atoi(argv[4]);
    if (gen) {
        for (int v = 0; v < xnvars; v++) for (int r = 0; r < rounds; r++) {
            if (xvars[v].isfn) continue;
            setup(v, seed, r);
            metac_value_t *mv = metac_new_value(xvars[v].entry(), gtop);
            char *s = metac_value_string_ex(mv, deep ? METAC_WMODE_deep : METAC_WMODE_shallow, NULL);
            vt_count("evals", 1); vt_count("texts", 1);
            VT_CHECK(g_unchanged(), "source-changed", "%s round %d: rendering changed the object", xvars[v].name, r);
            if (cyc) { vt_count("cyclic_values", 1); VT_CHECK(s == NULL, "cycle-rendered", "%s round %d: a cyclic value was rendered: %.300s", xvars[v].name, r, s); }
            else if (amb) vt_count("ambiguous_values", 1);
            else {
                VT_CHECK(s != NULL, "not-rendered", "%s round %d seed %llu: no text (%d blocks)", xvars[v].name, r, seed, gnb);
                if (s) { printf("str\t%d\t%d\t%s\n", v, r, s); vt_count("text_bytes", strlen(s)); vt_distinct(vt_hash(s, strlen(s), 77)); vt_count("blocks", gnb); vt_sample("%s = %.200s", xvars[v].name, s); }
            }
            free(s); metac_value_delete(mv); g_free();
        }
        return vt_end();
    }
    void *h = dlopen(argv[5], RTLD_NOW); if (!h) { printf("X\t%s\n", dlerror()); return 7; }
    struct rt *rts = dlsym(h, "rts"); int n = *(int*)dlsym(h, "nrts");
    for (int i = 0; i < n; i++) {
        setup(rts[i].var, seed, rts[i].round); why = NULL;
        vt_count("evals", 1); vt_count("round_trips", 1);
        if (!same(xvars[rts[i].var].xt, gtop, rts[i].obj, xvars[rts[i].var].name, 0)) vt_v("text-differs", "round %d seed %llu: %s", rts[i].round, seed, why);
        g_free();
    }
    return vt_end();
}
