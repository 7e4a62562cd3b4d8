/* deep copy / compare / free of random object graphs against the oracle walker.
   usage: h_deep <what> <seed> <rounds>   what: copy equal free fault modes */
#include "xgraph.h"
static const char *what;
struct dl { unsigned char *addr; size_t size; int freed; int used; };
static struct dl *dlog_; static int dn, dc;
static int d_fail_at = -1, d_calls; static int foreign, twice;
static int watch_src;    /* frees are of the source graph */
static int *srcfreed;
static struct pool dpool; static int d_pool;
static void *my_calloc(size_t n, size_t sz) {
    int c = d_calls++;
    if (c == d_fail_at) return NULL;
    if (dn == dc) { dc = dc ? dc * 2 : 64; dlog_ = realloc(dlog_, dc * sizeof(*dlog_)); }
    void *p = d_pool ? pool_get(&dpool, n * sz) : NULL;
    if (!p) p = calloc(1, n * sz ? n * sz : 1);
    dlog_[dn].addr = p; dlog_[dn].size = n * sz; dlog_[dn].freed = 0; dlog_[dn].used = 0; dn++;
    return p;
}
static void my_free(void *p) {
    if (watch_src) {
        for (int i = 0; i < gnb; i++) if (gb[i].addr == p) { if (srcfreed[i]++) twice++; return; }
        foreign++; return;
    }
    for (int i = dn - 1; i >= 0; i--) if (dlog_[i].addr == p && !dlog_[i].freed) { dlog_[i].freed = 1; if (!pool_has(&dpool, p)) free(p); return; }
    for (int i = 0; i < dn; i++) if (dlog_[i].addr == p) { twice++; return; }
    foreign++;
}
static int d_find(const void *p) {
    for (int i = 0; i < dn; i++) if (!dlog_[i].freed && (unsigned char*)p >= dlog_[i].addr && (unsigned char*)p < dlog_[i].addr + (dlog_[i].size ? dlog_[i].size : 1)) return i;
    return -1;
}
static int d_live(void) { int n = 0; for (int i = 0; i < dn; i++) n += !dlog_[i].freed; return n; }
static void d_reset(void) { for (int i = 0; i < dn; i++) if (!dlog_[i].freed && !pool_has(&dpool, dlog_[i].addr)) free(dlog_[i].addr); pool_reset(&dpool); dn = 0; d_calls = 0; d_fail_at = -1; foreign = twice = 0; if (dc) { free(dlog_); dlog_ = NULL; dc = 0; } }
static metac_value_memory_map_mode_t mm;
static int *smap;   /* source block -> log index */
static void *pa_st[512], *pb_st[512];
static const char *why; static char whybuf[400];
static int bad(const char *f, ...) { if (why) return 0; va_list ap; va_start(ap, f); vsnprintf(whybuf, sizeof whybuf, f, ap); va_end(ap); why = whybuf; return 0; }
static int iso(int xi, unsigned char *a, unsigned char *b, int np, const char *path) {
    struct xt *t = xfinal(XT(xi), NULL); char p2[700]; if (!t) return 1;
    vt_count("nodes_compared", 1);
    switch (t->kind) {
    case XK_BASE: return g_base_same(t, a, b) || bad("%s: value differs", path);
    case XK_ENUM: return !memcmp(a, b, t->size) || bad("%s: enum value differs", path);
    case XK_UNION:
        if (mm.union_mode == METAC_UNION_as_mem) return !memcmp(a, b, t->size) || bad("%s: union bytes differ", path);
        for (size_t i = 0; i < t->size; i++) if (b[i]) return bad("%s: ignored union is not zeroed", path);
        return 1;
    case XK_STRUCT:
        for (int i = 0; i < t->nm; i++) {
            struct xm *m = &t->m[i]; snprintf(p2, sizeof p2, "%s.%s", path, m->name ? m->name : "<anon>");
            if (m->set) { if (m->get(a) != m->get(b)) return bad("%s: bit-field %llx, was %llx", p2, m->get(b), m->get(a)); }
            else if (!iso(m->xt, a + m->off, b + m->off, np, p2)) return 0;
        }
        return 1;
    case XK_ARR:
        if (t->count < 0) return 1;
        for (long i = 0; i < t->count; i++) { snprintf(p2, sizeof p2, "%s[%ld]", path, i); if (!iso(t->to, a + i * XT(t->to)->size, b + i * XT(t->to)->size, np, p2)) return 0; }
        return 1;
    case XK_PTR: break;
    default: return 1;
    }
    void *pa, *pb; memcpy(&pa, a, sizeof pa); memcpy(&pb, b, sizeof pb);
    if (!pa) return !pb || bad("%s: NULL became %p", path, pb);
    struct xt *pt = xfinal(XT(t->to), NULL); int unk = !pt || pt->kind == XK_FWD;
    if (unk && mm.unknown_ptr_mode == METAC_UPTR_as_values) return pa == pb || bad("%s: opaque pointer value changed", path);
    if (unk && mm.unknown_ptr_mode == METAC_UPTR_ignore) return !pb || bad("%s: ignored pointer is not NULL in the copy", path);
    if (!pb) return bad("%s: pointer became NULL", path);
    size_t sz = unk ? 1 : pt->size;
    if (mm.memory_block_mode == METAC_MMODE_tree) {
        for (int i = np - 1; i >= 0; i--) if (pa_st[i] == pa) return pb_st[i] == pb || bad("%s: back pointer leads elsewhere", path);
        int d = d_find(pb);
        if (d < 0 || dlog_[d].addr != pb) return bad("%s: copy points outside of the allocated blocks", path);
        if (dlog_[d].used++) return bad("%s: block used by two pointers in tree mode", path);
        if (dlog_[d].size < sz || dlog_[d].size > sz + 16) return bad("%s: block of %zu bytes for an object of %zu", path, dlog_[d].size, sz);
    } else {
        int s = g_find(pa), d = d_find(pb);
        if (d < 0) return bad("%s: copy points outside of the allocated blocks", path);
        if ((unsigned char*)pb - dlog_[d].addr != (unsigned char*)pa - gb[s].addr) return bad("%s: points at offset %ld of its block, was %ld", path, (long)((unsigned char*)pb - dlog_[d].addr), (long)((unsigned char*)pa - gb[s].addr));
        if (smap[s] < 0) {
            if (dlog_[d].used++) return bad("%s: two source blocks share one copy", path);
            smap[s] = d;
            if (dlog_[d].size < gb[s].size || dlog_[d].size > gb[s].size + 16) return bad("%s: block of %zu bytes copied as %zu", path, gb[s].size, dlog_[d].size);
        } else if (smap[s] != d) return bad("%s: sharing lost: one source block has two copies (offset %ld of %zu)", path, (long)((unsigned char*)pa - gb[s].addr), gb[s].size);
        for (int i = np - 1; i >= 0; i--) if (pa_st[i] == pa) return 1;
    }
    if (unk) return *(unsigned char*)pa == *(unsigned char*)pb || bad("%s: first byte of the opaque block differs", path);
    if (np >= 500) return 1;
    pa_st[np] = pa; pb_st[np] = pb; snprintf(p2, sizeof p2, "(*%s)", path);
    return iso(t->to, pa, pb, np + 1, p2);
}
/* random leaf of the copy to change */
struct lf { struct xt *t; unsigned char *a; struct xm *m; int kind; };   /* kind 0 base 1 enum 2 bits 3 ptr 4 union 5 unknown ptr */
static struct lf pick; static long npick;
static void cand(struct xt *t, unsigned char *a, struct xm *m, int k) { npick++; if (vt_below((unsigned)npick) == 0) pick = (struct lf){t, a, m, k}; }
static void leaves(int xi, unsigned char *a, int np) {
    struct xt *t = xfinal(XT(xi), NULL); if (!t) return;
    if (t->kind == XK_BASE) cand(t, a, NULL, 0);
    else if (t->kind == XK_ENUM) cand(t, a, NULL, 1);
    else if (t->kind == XK_UNION) cand(t, a, NULL, 4);
    else if (t->kind == XK_STRUCT) { for (int i = 0; i < t->nm; i++) { struct xm *m = &t->m[i]; if (m->set) cand(xfinal(XT(m->xt), NULL), a, m, 2); else leaves(m->xt, a + m->off, np); } }
    else if (t->kind == XK_ARR && t->count > 0) { for (long i = 0; i < t->count; i++) leaves(t->to, a + i * XT(t->to)->size, np); }
    else if (t->kind == XK_PTR) {
        void *p; memcpy(&p, a, sizeof p); if (!p) return;
        struct xt *pt = xfinal(XT(t->to), NULL); int unk = !pt || pt->kind == XK_FWD;
        cand(t, a, NULL, unk ? 5 : 3);
        if (unk || np >= 500) return;
        for (int i = 0; i < np; i++) if (gp_stack[i] == p) return;
        gp_stack[np] = p; leaves(t->to, p, np + 1);
    }
}
static unsigned char undo_buf[64]; static unsigned char *undo_a; static size_t undo_n; static struct xm *undo_m; static unsigned long long undo_v;
static void undo(void) { if (undo_m) undo_m->set(undo_a, undo_v); else memcpy(undo_a, undo_buf, undo_n); }
/* returns expected equality afterwards */
static int mutate(char *desc, size_t dsz) {
    undo_m = NULL; undo_a = pick.a; undo_n = pick.m ? 0 : pick.t->size > 64 ? 64 : pick.t->size; memcpy(undo_buf, undo_a, undo_n);
    switch (pick.kind) {
    case 0:
        snprintf(desc, dsz, "a %s was changed", pick.t->name);
        if (!strcmp(pick.t->acc, "bool")) *pick.a ^= 1;
        else if (strstr(pick.t->acc, "complex")) pick.a[vt_below(2) ? 0 : pick.t->size / 2] ^= 1;
        else if (!strcmp(pick.t->acc, "float") || strstr(pick.t->acc, "double")) pick.a[0] ^= 1;
        else pick.a[vt_below(pick.t->size)] ^= 1 << vt_below(8);
        return 0;
    case 1: snprintf(desc, dsz, "an enumeration was changed"); pick.a[vt_below(pick.t->size)] ^= 1 << vt_below(8); return 0;
    case 2: snprintf(desc, dsz, "bit-field %s was changed", pick.m->name); undo_m = pick.m; undo_v = pick.m->get(pick.a); pick.m->set(pick.a, undo_v ^ 1); return 0;
    case 3: snprintf(desc, dsz, "a pointer was cleared"); g_setp(pick.a, NULL); undo_n = 8; return 0;
    case 4: snprintf(desc, dsz, "a union was changed"); { size_t i = vt_below(undo_n); pick.a[i] ^= 1 << vt_below(8); } return mm.union_mode != METAC_UNION_as_mem;
    case 5:
        snprintf(desc, dsz, "an opaque pointer was cleared"); g_setp(pick.a, NULL); undo_n = 8;
        return mm.unknown_ptr_mode == METAC_UPTR_ignore;
    }
    return 1;
}
static unsigned long long dig; static void digest(int b) { dig = vt_hash(gb[b].addr, gb[b].size < 64 ? gb[b].size : 64, dig); }
static void one(struct xv *x, unsigned long long seed) {
    static const char *un[] = {"fail", "ignore", "as_values", "one_byte"};
    w_cur = x->name;
    vt_seed(seed * 31 + 5);
    int okmodes = strcmp(what, "modes") != 0;
    mm.memory_block_mode = vt_below(3) == 0 ? METAC_MMODE_tree : METAC_MMODE_dag;
    mm.unknown_ptr_mode = vt_below(4);
    mm.union_mode = okmodes ? 1 + vt_below(2) : vt_below(3);
    mm.flex_array_mode = okmodes ? 1 : vt_below(2);
    memset(&go, 0, sizeof go);
    go.null = 10 + vt_below(30); go.maxblk = 1 + vt_below(24);
    if (vt_below(4)) { go.share = vt_below(40); go.interior = vt_below(40); go.loop = vt_below(25); go.late = vt_below(100); }
    go.pool = vt_below(3) == 0; d_pool = vt_below(4) == 0;
    go.unk = mm.unknown_ptr_mode == METAC_UPTR_as_one_byte_ptr ? 2 :
             mm.unknown_ptr_mode == METAC_UPTR_fail ? (okmodes ? 0 : vt_below(2)) : 1;
    g_make(x->xt, seed, 2 + vt_below(6), !strcmp(what, "fault") ? 600 : 3000);
    int expect = !(gs.uni && mm.union_mode == METAC_UNION_fail) && !(gs.flex && mm.flex_array_mode == METAC_FLXARR_fail) &&
                 !(gs.unk && mm.unknown_ptr_mode == METAC_UPTR_fail);
    vt_count("evals", 1); vt_count("graphs", 1); vt_count("blocks", gnb); vt_count("shared_pointers", gs.shared);
    vt_count("interior_pointers", gs.interior); vt_count("back_pointers", gs.loops); vt_count("late_pointers", gs.late); if (go.pool) vt_count("pool_graphs", 1); vt_count("unfolded_nodes", g_tree_n);
    if (mm.memory_block_mode == METAC_MMODE_tree) vt_count("tree_mode", 1);
    if (!expect) vt_count("expected_refusals", 1);
    dig = vt_hash(&mm, sizeof mm, 1469598103934665603ull); dig = vt_hash(x->name, strlen(x->name), dig);
    dig = vt_hash(&gs, sizeof gs, dig); (void)digest;
    if (gnb || gs.uni || gs.unk) vt_distinct(dig);
    char ctx[200]; snprintf(ctx, sizeof ctx, "%s seed %llu (%s%s, unknown=%s, union=%d, flex=%d, %d blocks, %d shared, %d interior, %d back)", x->name, seed,
        mm.memory_block_mode == METAC_MMODE_tree ? "tree" : "dag", go.pool ? " adjacent blocks" : "", un[mm.unknown_ptr_mode], mm.union_mode, mm.flex_array_mode, gnb, gs.shared, gs.interior, gs.loops);
    metac_entry_t *e = x->entry();
    metac_value_t *sv = metac_new_value(e, gtop);
    unsigned char *dtop = malloc(gtopsz ? gtopsz : 1);
    int dirty = vt_below(2); if (dirty) vt_fill(dtop, gtopsz); else memset(dtop, 0, gtopsz);
    metac_value_t *dv = metac_new_value(e, dtop);
    if (!sv || !dv) { vt_v("no-value", "%s: no value handle", ctx); goto out; }
    metac_value_memory_map_non_handled_mode_t nh = {mm.unknown_ptr_mode, mm.union_mode, mm.flex_array_mode};
    int isdef = mm.memory_block_mode == METAC_MMODE_dag && !mm.unknown_ptr_mode && !mm.union_mode && !mm.flex_array_mode;
    if (!strcmp(what, "fault")) {
        if (!expect) goto out;
        d_reset(); if (metac_value_copy_ex(sv, dv, &mm, my_calloc, my_free, NULL) == NULL) { vt_v("copy-refused", "%s: copy failed", ctx); goto out; }
        int n = d_calls; vt_count("allocations_on_success", n);
        for (int k = 0; k < 8 && n; k++) {
            d_reset(); d_fail_at = k == 0 ? n - 1 : k == 1 ? 0 : (int)vt_below(n); memset(dtop, 0, gtopsz);
            metac_value_t *r = metac_value_copy_ex(sv, dv, &mm, my_calloc, my_free, NULL);
            vt_count("faults_injected", 1); vt_count("evals", 1);
            VT_CHECK(r == NULL, "fault-success", "%s: allocation %d of %d failed, copy reports success", ctx, d_fail_at, n);
            VT_CHECK(foreign == 0, "fault-foreign-free", "%s: allocation %d of %d failed: %d blocks freed that were not allocated", ctx, d_fail_at, n, foreign);
            VT_CHECK(twice == 0, "fault-double-free", "%s: allocation %d of %d failed: %d blocks freed twice", ctx, d_fail_at, n, twice);
            if (r == NULL) VT_CHECK(d_live() == 0, "fault-leak", "%s: allocation %d of %d failed: %d of %d blocks never freed", ctx, d_fail_at, n, d_live(), dn);
            VT_CHECK(g_unchanged(), "source-changed", "%s: failed copy changed the source", ctx);
        }
        goto out;
    }
    if (!strcmp(what, "modes")) {
        /* no mode is the strictest one */
        if (gs.uni || gs.flex || gs.unk) {
            srcfreed = calloc(gnb + 1, sizeof(int)); watch_src = 1; foreign = twice = 0; d_reset();
            int fr = metac_value_free_ex(sv, NULL, my_free, NULL), c = metac_value_equal_ex(sv, sv, NULL, NULL); watch_src = 0;
            metac_value_t *cp = metac_value_copy_ex(sv, dv, NULL, my_calloc, my_free, NULL);
            int any = foreign; for (int i = 0; i < gnb; i++) any += srcfreed[i];
            free(srcfreed); vt_count("without_mode", 1);
            VT_CHECK(fr == 0 && any == 0 && c < 0 && cp == NULL && d_live() == 0 && g_unchanged(), "no-mode", "%s: without a mode free gives %d (%d blocks freed), comparison %d, copy %s", ctx, fr, any, c, cp ? "done" : "refused");
        }
        /* a missing side is refused */
        { d_reset(); metac_value_t *c1 = metac_value_copy_ex(sv, NULL, &mm, my_calloc, my_free, NULL), *c2 = metac_value_copy_ex(NULL, dv, &mm, my_calloc, my_free, NULL); int e1 = metac_value_equal_ex(sv, NULL, &mm, NULL), e2 = metac_value_equal_ex(NULL, sv, &mm, NULL);
          VT_CHECK(!c1 && !c2 && e1 < 0 && e2 < 0 && d_live() == 0 && g_unchanged(), "no-side", "%s: without one of the values copy gives %s and %s, comparison %d and %d", ctx, c1 ? "a value" : "nothing", c2 ? "a value" : "nothing", e1, e2); }
        /* another type is no place for a copy */
        struct xv *y = &xvars[vt_below(xnvars)]; struct xt *tx = xfinal(XT(x->xt), NULL), *ty = y->isfn ? NULL : xfinal(XT(y->xt), NULL);
        if (tx && ty && tx != ty && (tx->kind == XK_STRUCT || tx->kind == XK_UNION) && (ty->kind == XK_STRUCT || ty->kind == XK_UNION) && tx->name && ty->name && *tx->name && *ty->name && strcmp(tx->name, ty->name)) {
            size_t z = ty->size > gtopsz ? ty->size : gtopsz; unsigned char *o = malloc(z), *k = malloc(z); vt_fill(o, z); memcpy(k, o, z); d_reset();
            metac_value_t *ov = metac_new_value(y->entry(), o), *cp = ov ? metac_value_copy_ex(sv, ov, &mm, my_calloc, my_free, NULL) : NULL;
            VT_CHECK(cp == NULL && !memcmp(o, k, z) && d_live() == 0, "other-type", "%s: copied to %s, a value of another type", ctx, y->name); vt_count("other_types", 1);
            if (ov) metac_value_delete(ov);
            free(o); free(k);
        }
    }
    d_reset();
    metac_value_t *r = metac_value_copy_ex(sv, dv, isdef && vt_below(2) ? NULL : &mm, my_calloc, my_free, NULL);
    if (!expect) {
        VT_CHECK(r == NULL, "unsupported-copied", "%s: copy must be refused", ctx);
        VT_CHECK(d_live() == 0, "refusal-leak", "%s: refused copy keeps %d blocks", ctx, d_live());
        VT_CHECK(metac_value_equal_ex(sv, sv, isdef && vt_below(2) ? NULL : &mm, NULL) < 0, "unsupported-compared", "%s: comparison must be refused", ctx);
        srcfreed = calloc(gnb + 1, sizeof(int)); watch_src = 1; foreign = twice = 0;
        int fr = metac_value_free_ex(sv, &nh, my_free, NULL); watch_src = 0;
        int any = foreign; for (int i = 0; i < gnb; i++) any += srcfreed[i];
        free(srcfreed);
        VT_CHECK(fr == 0 && any == 0, "unsupported-freed", "%s: free must be refused and free nothing (rc %d, %d frees)", ctx, fr, any);
        VT_CHECK(g_unchanged(), "source-changed", "%s: refused operation changed the source", ctx);
        goto out;
    }
    if (r != dv) { vt_v("copy-refused", "%s: copy failed", ctx); goto out; }
    VT_CHECK(g_unchanged(), "source-changed", "%s: copy changed the source", ctx);
    smap = malloc((gnb + 1) * sizeof(int)); for (int i = 0; i < gnb; i++) smap[i] = -1;
    why = NULL;
    if (!iso(x->xt, gtop, dtop, 0, x->name)) vt_v("copy-differs", "%s%s: %s", ctx, dirty ? " into used memory" : "", why);
    else {
        for (int i = 0; i < dn; i++) if (!dlog_[i].used) { vt_v("copy-extra-block", "%s: copy allocated a block nothing points to", ctx); break; }
        if (!strcmp(what, "copy")) vt_sample("%s: %ld nodes, %d blocks copied", ctx, g_tree_n, dn);
    }
    free(smap);
    if (why) goto out;
    if (!strcmp(what, "equal")) {
        int c;
        VT_CHECK((c = metac_value_equal_ex(sv, dv, &mm, NULL)) == 1, "equal-copy", "%s: value and its copy compare %d", ctx, c);
        VT_CHECK((c = metac_value_equal_ex(dv, sv, &mm, NULL)) == 1, "equal-sym", "%s: copy and its source compare %d", ctx, c);
        VT_CHECK((c = metac_value_equal_ex(sv, sv, &mm, NULL)) == 1, "equal-refl", "%s: value compares %d with itself", ctx, c);
        for (int k = 0; k < 6; k++) {
            npick = 0; leaves(x->xt, dtop, 0); if (!npick) break;
            char desc[100]; int want = mutate(desc, sizeof desc);
            int c1 = metac_value_equal_ex(sv, dv, &mm, NULL), c2 = metac_value_equal_ex(dv, sv, &mm, NULL);
            undo();
            vt_count("single_differences", 1); vt_count("evals", 1);
            VT_CHECK(c1 == want && c2 == want, "equal-diff", "%s: %s at depth: compares %d/%d, must be %d", ctx, desc, c1, c2, want);
        }
        VT_CHECK((c = metac_value_equal_ex(sv, dv, &mm, NULL)) == 1, "equal-copy", "%s: value and its copy compare %d", ctx, c);
        VT_CHECK(g_unchanged(), "source-changed", "%s: comparison changed the source", ctx);
        vt_sample("%s: %ld nodes compared", ctx, g_tree_n);
    }
    { /* free the copy: every block exactly once */
        int n = dn; foreign = twice = 0;
        /* opaque pointers kept by value are not blocks */
        int fr = metac_value_free_ex(dv, &nh, my_free, NULL);
        if (!strcmp(what, "free") || !strcmp(what, "modes")) {
            VT_CHECK(fr != 0, "free-refused", "%s: free of the copy refused", ctx);
            VT_CHECK(foreign == 0, "free-foreign", "%s: free released %d addresses that were never allocated", ctx, foreign);
            VT_CHECK(twice == 0, "free-twice", "%s: free released %d blocks twice", ctx, twice);
            VT_CHECK(d_live() == 0, "free-leak", "%s: free left %d of %d blocks", ctx, d_live(), n);
            srcfreed = calloc(gnb + 1, sizeof(int)); watch_src = 1; foreign = twice = 0;
            fr = metac_value_free_ex(sv, &nh, my_free, NULL); watch_src = 0;
            int left = 0; for (int i = 0; i < gnb; i++) left += !srcfreed[i];
            free(srcfreed);
            vt_count("blocks_freed", n + gnb - left);
            VT_CHECK(fr != 0 && foreign == 0 && twice == 0 && left == 0, "free-source", "%s: free of the original: rc %d, %d foreign, %d twice, %d of %d left", ctx, fr, foreign, twice, left, gnb);
            VT_CHECK(g_unchanged(), "source-changed", "%s: free changed the object", ctx);
            vt_sample("%s: %d + %d blocks freed once", ctx, n, gnb);
        }
    }
out:
    d_reset();
    if (sv) metac_value_delete(sv);
    if (dv) metac_value_delete(dv);
    free(dtop); g_free();
}
int main(int argc, char **argv) {
    what = argv[1]; unsigned long long seed = strtoull(argv[2], 0, 10); int rounds = atoi(argv[3]);
    for (int r = 0; r < rounds; r++)
        for (int i = 0; i < xnvars; i++) if (!xvars[i].isfn) one(&xvars[i], seed * 1000003 + r * 131 + i);
    pool_free(&gpool); pool_free(&dpool);
    return vt_end();
}
