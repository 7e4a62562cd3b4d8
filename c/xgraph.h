/* random heap object graphs over the compiler's type descriptors, and an independent
   walker over two of them (the oracle of the deep operations) */
#ifndef VT_XGRAPH_H
#define VT_XGRAPH_H
#include "xwalk.h"
struct gblk { unsigned char *addr; size_t size; int xi; unsigned char *snap; };
static struct gblk *gb; static int gnb, gcb;
static unsigned char *gtop; static size_t gtopsz; static unsigned char *gtopsnap; static int gtopxi;
static struct gopt { int share, interior, loop, null, maxblk; /* percent, percent, percent, percent */
    int unk;        /* unknown pointers: 0 always NULL, 1 fake values, 2 one byte blocks / aliases */
    int text;       /* make char arrays printable often */
    int fake_ptrs;  /* every pointer is a fake constant */
    int only_null;
    int pool;       /* adjacent blocks */
    int late;       /* percent of NULL pointers retargeted once all blocks exist */
} go;
static struct gseen { int uni, flex, unk, func, incomplete, loops, shared, interior, fresh, nulls, aliases, late; } gs;
/* pool: blocks directly next to each other, as a pool or arena allocator places them */
#define POOLSZ (1 << 18)
struct pool { unsigned char *mem; size_t used; };
static void *pool_get(struct pool *p, size_t n) {
    size_t al = 1; if (!n) n = 1;
    while (al < 64 && n % (al * 2) == 0) al *= 2;
    if (!p->mem) p->mem = aligned_alloc(64, POOLSZ);
    size_t at = (p->used + al - 1) / al * al;
    if (at + n > POOLSZ) return NULL;
    p->used = at + n; memset(p->mem + at, 0, n); return p->mem + at;
}
static int pool_has(struct pool *p, const void *a) { return p->mem && (unsigned char*)a >= p->mem && (unsigned char*)a < p->mem + POOLSZ; }
static void pool_reset(struct pool *p) { p->used = 0; }
static void pool_free(struct pool *p) { free(p->mem); p->mem = NULL; p->used = 0; }
static struct pool gpool;
static unsigned char *g_blk(int xi, size_t n) {
    if (gnb == gcb) { gcb = gcb ? gcb * 2 : 64; gb = realloc(gb, gcb * sizeof(*gb)); }
    void *m = go.pool ? pool_get(&gpool, n) : NULL;
    gb[gnb].addr = m ? m : calloc(1, n ? n : 1); gb[gnb].size = n; gb[gnb].xi = xi; gb[gnb].snap = NULL;
    return gb[gnb++].addr;
}
static void g_free(void) {
    for (int i = 0; i < gnb; i++) { if (!pool_has(&gpool, gb[i].addr)) free(gb[i].addr); free(gb[i].snap); }
    pool_reset(&gpool);
    gnb = 0; free(gtop); free(gtopsnap); gtop = gtopsnap = NULL;
    if (gcb) { free(gb); gb = NULL; gcb = 0; }
}
static int g_find(const void *p) {
    for (int i = 0; i < gnb; i++) if ((unsigned char*)p >= gb[i].addr && (unsigned char*)p < gb[i].addr + (gb[i].size ? gb[i].size : 1)) return i;
    return -1;
}
/* candidates: every sub-object of the type `want` inside blocks */
static unsigned char *gcand[512]; static int gcandb[512]; static int gncand;
static int g_same(struct xt *a, struct xt *b) {
    a = xfinal(a, NULL); b = xfinal(b, NULL);
    if (a == b) return 1;
    if (!a || !b || a->kind != b->kind) return 0;
    if (a->kind == XK_BASE) return !strcmp(a->name, b->name);
    if (a->kind == XK_PTR) return g_same(XT(a->to), XT(b->to));
    if (a->kind == XK_ARR) return a->count == b->count && a->count > 0 && g_same(XT(a->to), XT(b->to));
    return 0;
}
static void g_cands(struct xt *want, int xi, unsigned char *a, int b) {
    struct xt *t = xfinal(XT(xi), NULL); if (!t || gncand >= 512) return;
    if (g_same(t, want)) { gcand[gncand] = a; gcandb[gncand++] = b; }
    if (t->kind == XK_STRUCT) for (int i = 0; i < t->nm; i++) if (!t->m[i].set) g_cands(want, t->m[i].xt, a + t->m[i].off, b);
    if (t->kind == XK_ARR && t->count > 0) for (long i = 0; i < t->count && i < 6; i++) g_cands(want, t->to, a + i * XT(t->to)->size, b);
}
static int gstack[256]; static int gnstack;
static int g_onstack(int b) { for (int i = 0; i < gnstack; i++) if (gstack[i] == b) return 1; return 0; }
static int g_complete(struct xt *t) {
    t = xfinal(t, NULL);
    if (!t || t->kind == XK_FWD || t->kind == XK_FUNC || t->nosize) return 0;
    if (t->kind == XK_ARR && (t->count < 0 || !g_complete(XT(t->to)))) return 0;
    return t->size > 0;
}
static void g_setp(unsigned char *a, void *p) { memcpy(a, &p, sizeof p); }
static void g_fill(int xi, unsigned char *a, int depth) {
    struct xt *t = xfinal(XT(xi), NULL); if (!t) return;
    switch (t->kind) {
    case XK_BASE:
        vt_fill(a, t->size); w_sane_base(t, a);
        if (go.text && t->acc && vt_below(6) == 0) {      /* extreme numbers */
            static const double ex[] = {1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 1e300, -3.5e120, 1e15, 123456789012345.0, -0.000001, 0.0};
            static const float fx[] = {3.402823466e38f, -3.402823466e38f, 1.17549435e-38f, 1e30f, -16777216.0f, 0.0f};
            int c = strstr(t->acc, "complex") != NULL;
            for (int i = 0; i <= c; i++) {
                if (!strncmp(t->acc, "float", 5)) memcpy(a + i * 4, &fx[vt_below(6)], 4);
                else if (!strncmp(t->acc, "double", 6)) memcpy(a + i * 8, &ex[vt_below(9)], 8);
                else if (!strncmp(t->acc, "ldouble", 7)) { long double l = ex[vt_below(9)]; memcpy(a + i * 16, &l, 10); }
                else if (!c && t->enc != METAC_ENC_boolean) { memset(a, vt_below(2) ? 0xff : 0, t->size); if (vt_below(2)) a[t->size - 1] ^= 0x80; }
            }
        }
        if (go.text && t->acc && !strcmp(t->acc, "char") && vt_below(2)) *a = vt_below(4) ? " ~azAZ09'\"\\?%{},"[vt_below(16)] : 0;
        return;
    case XK_ENUM: {
        long long v = t->ne && vt_below(4) ? t->e[vt_below(t->ne)].v : (long long)vt_rnd();
        memcpy(a, &v, t->size < 8 ? t->size : 8); return; }
    case XK_UNION: gs.uni++; vt_fill(a, t->size); return;
    case XK_STRUCT:
        vt_fill(a, t->size);
        for (int i = 0; i < t->nm; i++) {
            struct xm *m = &t->m[i];
            if (m->set) { struct xt *mt = xfinal(XT(m->xt), NULL);
                if (mt->kind == XK_ENUM && vt_below(2)) m->set(a, (unsigned long long)mt->e[vt_below(mt->ne)].v);
                else m->set(a, vt_rnd()); }
            else g_fill(m->xt, a + m->off, depth);
        }
        return;
    case XK_ARR:
        if (t->count < 0) { gs.flex++; return; }
        { struct xt *et = XT(t->to);
          for (long i = 0; i < t->count; i++) g_fill(t->to, a + i * et->size, depth);
          struct xt *fe = xfinal(et, NULL);
          if (go.text && fe->kind == XK_BASE && fe->acc && !strcmp(fe->acc, "char") && vt_below(3)) {
              static const char cs[] = "abcZ09 \n\r\t\v\b\f\a\\'\"?%{},=x";
              for (long i = 0; i + 1 < t->count; i++) a[i] = cs[vt_below(sizeof(cs) - 1)];
              int how = vt_below(6);      /* 0: not terminated, 1, 2: ends early */
              if (how) a[t->count - 1] = 0;
              if (how == 1) a[vt_below(t->count)] = 0;
              if (how == 2) { long at = vt_below(t->count); memset(a + at, 0, t->count - at); }
          } }
        return;
    case XK_PTR: break;
    default: return;
    }
    struct xt *pt = xfinal(XT(t->to), NULL);
    g_setp(a, NULL);
    if (go.fake_ptrs) { g_setp(a, vt_below(4) ? (void*)(uintptr_t)(vt_rnd() >> (vt_below(60))) : NULL); return; }
    if (vt_below(100) < (unsigned)go.null || go.only_null) { gs.nulls++; return; }
    if (pt && pt->kind == XK_FUNC) { gs.func++; return; }         /* left NULL */
    if (!pt || pt->kind == XK_FWD) {
        if (go.unk == 1) { gs.unk++; g_setp(a, (void*)(uintptr_t)(0x1000 + vt_below(1 << 20) * 16)); }
        else if (go.unk == 2) {
            gs.unk++;
            if (gnb && vt_below(2)) { gs.aliases++; int b = vt_below(gnb); if (gb[b].xi < 0) { g_setp(a, gb[b].addr + vt_below(gb[b].size)); return; } }
            unsigned char *n = g_blk(-1, 1); vt_fill(n, 1); g_setp(a, n);
        }
        return;
    }
    if (!g_complete(pt)) { gs.incomplete++; return; }            /* left NULL */
    unsigned r = vt_below(100);
    gncand = 0;
    if (r < (unsigned)(go.share + go.interior + go.loop)) {
        for (int b = 0; b < gnb; b++) if (gb[b].xi >= 0) g_cands(pt, gb[b].xi, gb[b].addr, b);
        for (int tries = 0; tries < 8 && gncand; tries++) {
            int c = vt_below(gncand), b = gcandb[c], on = g_onstack(b), base = gcand[c] == gb[b].addr && g_same(XT(gb[b].xi), pt);
            if (on && r >= (unsigned)go.loop) continue;
            if (!on && !base && go.interior == 0) continue;
            if (!on && base && go.share == 0) continue;
            if (on) gs.loops++; else if (base) gs.shared++; else gs.interior++;
            g_setp(a, gcand[c]); return;
        }
    }
    if (gnb >= go.maxblk || depth <= 0) { gs.nulls++; return; }
    gs.fresh++;
    int b = gnb; unsigned char *n = g_blk(t->to, pt->size);
    g_setp(a, n);
    gstack[gnstack++] = b; g_fill(t->to, n, depth - 1); gnstack--;
}
/* once all blocks exist, lets some NULL pointers lead into them: such pointers are met
   by a traversal before or after the pointer that owns the block */
static void g_late(int xi, unsigned char *a) {
    struct xt *t = xfinal(XT(xi), NULL); if (!t) return;
    if (t->kind == XK_STRUCT) for (int i = 0; i < t->nm; i++) { if (!t->m[i].set) g_late(t->m[i].xt, a + t->m[i].off); }
    else if (t->kind == XK_ARR && t->count > 0) for (long i = 0; i < t->count; i++) g_late(t->to, a + i * XT(t->to)->size);
    else if (t->kind == XK_PTR) {
        void *p; memcpy(&p, a, sizeof p); struct xt *pt = xfinal(XT(t->to), NULL);
        if (p || !pt || pt->kind == XK_FUNC || !g_complete(pt) || vt_below(100) >= (unsigned)go.late) return;
        gncand = 0;
        for (int b = 0; b < gnb; b++) if (gb[b].xi >= 0) g_cands(pt, gb[b].xi, gb[b].addr, b);
        if (!gncand) return;
        int c = vt_below(gncand);
        if (gcand[c] == gb[gcandb[c]].addr && g_same(XT(gb[gcandb[c]].xi), pt)) gs.shared++; else gs.interior++;
        gs.late++; g_setp(a, gcand[c]);
    }
}
/* number of nodes of the unfolded object tree (as the library visits it), capped */
static void *gp_stack[512]; static long g_tree_n, g_tree_cap;
static void g_tree(int xi, unsigned char *a, int np) {
    struct xt *t = xfinal(XT(xi), NULL); if (!t || ++g_tree_n > g_tree_cap) return;
    if (t->kind == XK_STRUCT) for (int i = 0; i < t->nm; i++) { if (!t->m[i].set) g_tree(t->m[i].xt, a + t->m[i].off, np); else g_tree_n++; }
    else if (t->kind == XK_ARR && t->count > 0) for (long i = 0; i < t->count; i++) g_tree(t->to, a + i * XT(t->to)->size, np);
    else if (t->kind == XK_PTR) {
        void *p; memcpy(&p, a, sizeof p);
        if (!p || !g_complete(XT(t->to)) || np >= 500) return;
        for (int i = 0; i < np; i++) if (gp_stack[i] == p) return;
        gp_stack[np] = p; g_tree(t->to, p, np + 1);
    }
}
/* makes a graph for the type xi; returns the top object (own block, never a pointer target) */
static void g_make(int xi, unsigned long long seed, int depth, long cap) {
    struct gopt keep = go;
    for (int tries = 0; ; tries++) {
        memset(&gs, 0, sizeof gs); vt_seed(seed + 7919 * tries); gnb = 0; gnstack = 0;
        struct xt *t = XT(xi); gtopsz = t->size; gtopxi = xi;
        gtop = malloc(gtopsz ? gtopsz : 1); vt_fill(gtop, gtopsz);
        if (tries == 6) { go.share = go.interior = go.loop = 0; }
        if (tries > 8) go.maxblk = 2;
        if (tries > 10) go.only_null = 1;
        g_fill(xi, gtop, depth);
        if (go.late && !go.only_null && tries < 6) { g_late(xi, gtop); if (go.loop) for (int i = 0, n = gnb; i < n; i++) if (gb[i].xi >= 0) g_late(gb[i].xi, gb[i].addr); }
        g_tree_n = 0; g_tree_cap = cap; if (!go.fake_ptrs) g_tree(xi, gtop, 0);
        if (g_tree_n <= cap || tries > 12) break;
        g_free();
    }
    go = keep;
    gtopsnap = malloc(gtopsz ? gtopsz : 1); memcpy(gtopsnap, gtop, gtopsz);
    for (int i = 0; i < gnb; i++) { gb[i].snap = malloc(gb[i].size + 1); memcpy(gb[i].snap, gb[i].addr, gb[i].size); }
}
static int g_unchanged(void) {
    if (memcmp(gtop, gtopsnap, gtopsz)) return 0;
    for (int i = 0; i < gnb; i++) if (memcmp(gb[i].addr, gb[i].snap, gb[i].size)) return 0;
    return 1;
}
static int g_base_same(struct xt *t, const unsigned char *a, const unsigned char *b) {
    if (t->acc && !strcmp(t->acc, "ldouble")) return !memcmp(a, b, 10);
    if (t->acc && !strcmp(t->acc, "ldouble_complex")) return !memcmp(a, b, 10) && !memcmp(a + 16, b + 16, 10);
    return !memcmp(a, b, t->size);
}
#endif
