/* tag maps against a model: layered categories, external maps, final entries, ownership.
   usage: h_tagmap <seed> <rounds> <faults> */
#include "vt.h"
#include "oom.h"
#include <errno.h>
#include "xt.h"
#define MAXE 400
static metac_entry_t *ent[MAXE]; static int kindbit[MAXE]; static int ne;
struct ctxo { int id; };
static int nctx; static int *freed; static int cap;
static void ctx_free(void *p) { freed[((struct ctxo*)p)->id]++; }
static int h_dummy(metac_value_walker_hierarchy_t *h, metac_value_event_t *e, void *c) { return 0; }
static struct ctxo *new_ctx(void) {
    if (nctx == cap) { cap = cap ? cap * 2 : 256; freed = realloc(freed, cap * sizeof *freed); }
    struct ctxo *c = malloc(sizeof *c); c->id = nctx; freed[nctx++] = 0; return c;
}
#define MAXC 5
#define MAXM 4
struct mt { int used; struct ctxo *c; char str[1200]; int nostr; metac_entry_t *key; };
struct mm { metac_tag_map_t *m; int nc; int mask[MAXC]; int ext[MAXC]; struct mt t[MAXC][MAXE * 2]; int nt[MAXC]; struct mt def; };
static struct mm *mp; static int nm;
static struct ctxo **all; static int nall;
static void mktag(struct mt *x, metac_entry_tag_t *t) {
    memset(x, 0, sizeof *x); memset(t, 0, sizeof *t);
    x->used = 1; x->nostr = vt_below(4) == 0; snprintf(x->str, sizeof x->str, "t%u:\"%u\"", vt_below(9), vt_below(1000));
    if (vt_below(6) == 0) { size_t l = strlen(x->str), m = vt_below(2) ? vt_below(100) : vt_below(1100); x->str[l++] = ' '; while (m--) x->str[l++] = 'a' + vt_below(26); x->str[l] = 0; }
    if (vt_below(5)) { x->c = new_ctx(); all = realloc(all, ++nall * sizeof *all); all[nall - 1] = x->c; t->p_context = x->c; t->context_free_handler = ctx_free; }
    t->p_tagstring = x->nostr ? NULL : x->str; t->handler = h_dummy;
}
static struct mt *find(struct mm *m, int c, metac_entry_t *k) { for (int i = 0; i < m->nt[c]; i++) if (m->t[c][i].used && m->t[c][i].key == k) return &m->t[c][i]; return NULL; }
static struct mt *model(struct mm *m, int e) {
    for (int c = 0; c < m->nc; c++) {
        if (!(m->mask[c] & kindbit[e])) continue;
        if (m->ext[c] >= 0) { struct mt *x = model(&mp[m->ext[c]], e); if (x) { vt_count("found_in_external", 1); return x; } vt_count("missed_in_external", 1); continue; }
        struct mt *x = find(m, c, ent[e]); if (x) { vt_count("found_direct", 1); return x; }
        if (m->mask[c] & METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)) { x = find(m, c, metac_entry_final_entry(ent[e], NULL)); if (x) { vt_count("found_final", 1); return x; } }
    }
    if (m->def.used) { vt_count("found_default", 1); return &m->def; }
    vt_count("not_found", 1); return NULL;
}
static int same(metac_entry_tag_t *t, struct mt *x) {
    if (!x) return t == NULL;
    if (!t) return 0;
    return t->p_context == x->c && t->handler == h_dummy && (x->nostr ? t->p_tagstring == NULL : t->p_tagstring && !strcmp(t->p_tagstring, x->str) && t->p_tagstring != x->str);
}
static void verify(int only) {
    for (int i = 0; i < nm; i++) for (int e = 0; e < ne; e++) {
        if (only >= 0 && vt_below(8)) continue;
        vt_count("evals", 1);
        struct mt *x = model(&mp[i], e); metac_entry_tag_t *t = metac_tag_map_tag(mp[i].m, ent[e]);
        VT_CHECK(same(t, x), "tagmap-lookup", "map %d of %d, entry %s (kind %d): tag %.80s, expected %.80s", i, nm, metac_entry_name(ent[e]) ? metac_entry_name(ent[e]) : "-", metac_entry_kind(ent[e]), t ? t->p_tagstring ? t->p_tagstring : "(no text)" : "none", x ? x->nostr ? "(no text)" : x->str : "none");
    }
    VT_CHECK(metac_tag_map_tag(NULL, ent[0]) == NULL, "tagmap-null", "tag from no map");
}
static void add(metac_entry_t *e, int bit) { if (!e || ne >= MAXE) return; for (int i = 0; i < ne; i++) if (ent[i] == e) return; ent[ne] = e; kindbit[ne++] = bit; }
static void members(metac_entry_t *e, int depth) {
    metac_entry_t *f = metac_entry_final_entry(e, NULL); if (!f || depth > 3) return;
    if (!metac_entry_has_members(f)) return;
    for (int i = 0; i < metac_entry_member_count(f); i++) { metac_entry_t *m = metac_entry_by_member_id(f, i); add(m, METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member)); members(m, depth + 1); }
}
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[1], 0, 10); int rounds = atoi(argv[2]), faults = atoi(argv[3]);
    for (int v = 0; v < xnvars; v++) {
        metac_entry_t *e = xvars[v].entry();
        if (xvars[v].isfn) { for (int i = 0; i < metac_entry_parameters_count(e); i++) add(metac_entry_by_paremeter_id(e, i), METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter)); add(e, 0); }
        else { add(e, METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable)); add(metac_entry_final_entry(e, NULL), 0); members(e, 0); }
    }
    vt_count("entries", ne);
    mp = calloc(MAXM, sizeof *mp);
    {   /* a map without categories is none, a cast without a selector has no context */
        metac_tag_map_entry_t ce[1]; memset(ce, 0, sizeof ce); ce[0].mask = 15;
        metac_tag_map_t *a = metac_new_tag_map_ex(0, ce, NULL), *b = metac_new_tag_map_ex(-1, ce, NULL), *c = metac_new_tag_map_ex(1, NULL, NULL), *d = metac_new_tag_map_ex(0, NULL, NULL);
        VT_CHECK(!a && !b && !c && !d, "tagmap-none", "a map without categories is made: %d%d%d%d", !!a, !!b, !!c, !!d);
        struct metac_ptr_cast_case k0[1]; memset(k0, 0, sizeof k0); void *pc = metac_new_ptr_cast_context("n", NULL, k0, sizeof k0);
        VT_CHECK(!pc, "tagmap-none", "a cast without a selector has a context");
        metac_tag_map_delete(NULL);
    }
    for (int r = 0; r < rounds; r++) {
        vt_seed(seed * 1000 + r); nm = 1 + vt_below(MAXM); memset(mp, 0, MAXM * sizeof *mp);
        for (int i = 0; i < nm; i++) {
            struct mm *m = &mp[i]; metac_tag_map_entry_t ce[MAXC]; memset(ce, 0, sizeof ce);
            m->nc = 1 + vt_below(MAXC);
            int simple = vt_below(6) == 0;
            if (simple) { m->nc = 1; m->mask[0] = 7; m->ext[0] = -1; }
            else for (int c = 0; c < m->nc; c++) {
                m->mask[c] = vt_below(4) ? vt_below(16) : 15; m->ext[c] = i > 0 && vt_below(4) == 0 ? (int)vt_below(i) : -1;
                ce[c].mask = m->mask[c]; ce[c].p_ext_map = m->ext[c] >= 0 ? mp[m->ext[c]].m : NULL;
            }
            metac_entry_tag_t dt; int hasdef = vt_below(3) == 0; struct mt d = {0}; if (hasdef) mktag(&d, &dt);
            m->m = simple ? metac_new_tag_map(hasdef ? &dt : NULL) : metac_new_tag_map_ex(m->nc, ce, hasdef ? &dt : NULL);
            m->def = d;
            if (!m->m) { vt_v("tagmap-new", "no map"); return vt_end(); }
        }
        int nops = 5 + vt_below(ne * 3);
        for (int o = 0; o < nops; o++) {
            struct mm *m = &mp[vt_below(nm)]; int c = vt_below(m->nc), e = vt_below(ne), ov = vt_below(2), fin = vt_below(3) == 0;
            metac_entry_tag_t t; struct mt x; mktag(&x, &t);
            int bad = vt_below(12) == 0 ? 1 + vt_below(4) : 0, rc, want;
            metac_entry_t *k = fin ? metac_entry_final_entry(ent[e], NULL) : ent[e];
            struct mt *old = find(m, c, k);
            if (faults) oom_arm(vt_below(4), vt_below(2));
            rc = metac_tag_map_set_tag(bad == 1 ? NULL : m->m, bad == 2 ? vt_below(2) ? -1 : m->nc : c, ov, bad == 3 ? NULL : ent[e], fin ? METAC_TEO_final_entry : METAC_TEO_entry, bad == 4 ? NULL : &t);
            long of = 0; if (faults) { oom_disarm(); of = oom_failed; }
            vt_count("evals", 1);
            if (bad || m->ext[c] >= 0) { VT_CHECK(rc == -(EINVAL), "tagmap-invalid", "invalid request %d (external %d) answered %d", bad, m->ext[c], rc); vt_count("refused", 1); continue; }
            if (!k) { VT_CHECK(rc != 0, "tagmap-invalid", "no final entry, answered %d", rc); continue; }
            if (old && !ov) { VT_CHECK(rc != 0, "tagmap-override", "existing tag replaced without asking: %d", rc);
                if (!of) VT_CHECK(rc == -(EALREADY), "tagmap-override", "answer %d, expected -EALREADY", rc); vt_count("already", 1); continue; }
            if (of) vt_count("failed_allocations", 1);
            if (rc != 0) { VT_CHECK(of, "tagmap-set", "set answered %d", rc); continue; }
            x.key = k;
            if (old) { if (old->c) VT_CHECK(freed[old->c->id] == 1, "tagmap-owner", "replaced tag: context freed %d times", freed[old->c->id]);
                x.used = 1; *old = x; vt_count("replaced", 1); }
            else { m->t[c][m->nt[c]++] = x; vt_count("set", 1); }
            if (vt_below(10) == 0) verify(1);
        }
        verify(-1);
        for (int i = 0; i < nm; i++) {
            vt_distinct(vt_hash(mp[i].nt, sizeof mp[i].nt, vt_hash(mp[i].mask, sizeof mp[i].mask, seed * 31 + r)));
            metac_tag_map_delete(mp[i].m);
            for (int c = 0; c < mp[i].nc; c++) for (int j = 0; j < mp[i].nt[c]; j++) if (mp[i].t[c][j].c) { VT_CHECK(freed[mp[i].t[c][j].c->id] == 1, "tagmap-owner", "context freed %d times with its map", freed[mp[i].t[c][j].c->id]); freed[mp[i].t[c][j].c->id] = -1; }
            if (mp[i].def.c) { VT_CHECK(freed[mp[i].def.c->id] == 1, "tagmap-owner", "context of the default tag freed %d times", freed[mp[i].def.c->id]); freed[mp[i].def.c->id] = -1; }
        }
        for (int i = 0; i < nctx; i++) VT_CHECK(freed[i] <= 1, "tagmap-owner", "context freed %d times", freed[i]);
        for (int i = 0; i < nall; i++) free(all[i]);
        free(all); all = NULL; nall = 0; nctx = 0;
    }
    metac_tag_map_delete(NULL);
    free(freed); free(mp);
    return vt_end();
}
