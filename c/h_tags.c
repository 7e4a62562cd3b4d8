/* included by the generated tag programs.
   usage: <what> <seed> <rounds> [rt.so]   what: deep | gen | cmp */
#include <dlfcn.h>
metac_tag_map_t *new_map(void);
static unsigned char *top; static size_t topn;
struct snap { unsigned char *a; size_t n; };
static void make_obj(int k, unsigned long long seed) {
    vt_seed(seed); t_budget = 1 + vt_below(40); t_shared = t_lists = 0;
    topn = tt[k].size; top = malloc(topn); vt_fill(top, topn); tt[k].mk(top);
}
static unsigned long long hash_all(void) { unsigned long long h = vt_hash(top, topn, 7); for (int i = 0; i < ntb; i++) h = vt_hash(tb[i].a, tb[i].n, h); return h; }
static void deep(int k, unsigned long long seed, metac_tag_map_t *map) {
    make_obj(k, seed);
    const char *nm = tt[k].name;
    unsigned long long h0 = hash_all(); vt_distinct(h0);
    metac_value_memory_map_mode_t mm = {.memory_block_mode = vt_below(3) ? METAC_MMODE_dag : METAC_MMODE_tree};
    t_tree = mm.memory_block_mode == METAC_MMODE_tree;
    if (t_tree) vt_count("tree_mode", 1); else vt_count("dag_mode", 1);
    unsigned char *dst = malloc(topn); vt_fill(dst, topn);
    metac_value_t *sv = metac_new_value(tt[k].entry(), top), *dv = metac_new_value(tt[k].entry(), dst);
    metac_value_t *r = metac_value_copy_ex(sv, dv, &mm, t_calloc, t_release, map);
    vt_count("evals", 1); vt_count("blocks", ntb);
    if (!r) vt_v("tag-copy-refused", "%s: copy of a described object is refused (%s, %d blocks)", nm, t_tree ? "tree" : "dag", ntb);
    else {
        t_why = NULL;
        if (!tt[k].eq(top, dst, 1)) vt_v("tag-copy", "%s (%s): %s", nm, t_tree ? "tree" : "dag", t_why);
        else if (!t_tree && t_live() != ntb) vt_v("tag-copy-blocks", "%s: %d blocks copied as %d", nm, ntb, t_live());
        if (hash_all() != h0) vt_v("tag-source", "%s: the source was changed", nm);
        int e1 = metac_value_equal_ex(sv, dv, &mm, map), e2 = metac_value_equal_ex(dv, sv, &mm, map);
        if (e1 != 1 || e2 != 1) vt_v("tag-equal", "%s (%s): copy compares %d/%d", nm, t_tree ? "tree" : "dag", e1, e2);
        for (int round = 0; round < 3; round++) {
            memset(t_npick, 0, sizeof t_npick); tt[k].lf(dst);
            for (int kind = 0; kind < 3; kind++) if (t_npick[kind]) {
                struct tl *l = &t_pick[kind]; unsigned char sv8[16]; int isb = l->n < 0; if (isb) l->n = 1; memcpy(sv8, l->a, l->n);
                if (isb) *l->a ^= 1;
                else if (kind == 2) memset(l->a, 0, l->n);
                else if (l->n == 1 && kind == 0) { if (*l->a <= 1) *l->a ^= 1; else *l->a ^= 1; if (!*l->a) *l->a = 3; if (*l->a == sv8[0]) *l->a ^= 2; }
                else l->a[l->n > 2 && kind == 0 ? l->n - 2 : 0] ^= 1;
                /* floating zeros etc. never arise from flipping one mantissa bit */
                int e = metac_value_equal_ex(sv, dv, &mm, map), e3 = metac_value_equal_ex(dv, sv, &mm, map), want = kind == 1;
                vt_count(kind == 0 ? "number_changes" : kind == 1 ? "dead_byte_changes" : "pointer_clears", 1); vt_count("evals", 2);
                if (e != want || e3 != want) vt_v(kind == 0 ? "tag-equal-number" : kind == 1 ? "tag-equal-dead" : "tag-equal-pointer", "%s (%s): %s, comparison says %d/%d", nm, t_tree ? "tree" : "dag",
                    kind == 0 ? "a number was changed" : kind == 1 ? "a byte outside of the selected union member was changed" : "a pointer was cleared", e, e3);
                memcpy(l->a, sv8, l->n);
            }
        }
        metac_value_memory_map_non_handled_mode_t fm = {0};
        t_foreign = t_twice = 0;
        if (!metac_value_free_ex(dv, &fm, t_release, map)) vt_v("tag-free-refused", "%s: free is refused", nm);
        else if (t_foreign || t_twice || t_live()) vt_v("tag-free", "%s: %d blocks of the copy left, %d foreign, %d twice", nm, t_live(), t_foreign, t_twice);
        t_reset(); t_watch = 1;
        if (metac_value_free_ex(sv, &fm, t_release, map)) {
            int left = 0; for (int i = 0; i < ntb; i++) left += !tb[i].freed;
            if (t_foreign || t_twice || left) vt_v("tag-free", "%s: %d of %d blocks left, %d foreign, %d twice", nm, left, ntb, t_foreign, t_twice);
        } else vt_v("tag-free-refused", "%s: free is refused", nm);
        t_watch = 0;
    }
    t_reset();
    /* links into the middle of a node cannot be written as initializers */
    if (t_lists) {
        char *s = metac_value_string_ex(sv, METAC_WMODE_deep, map);
        vt_count("texts_of_lists", 1); vt_count("evals", 1);
        if (s) { vt_v("tag-text-container", "%s: text of an intrusive list: %.200s", nm, s); free(s); }
    }
    /* failing allocation */
    t_fail_at = vt_below(ntb + 1); int fa = t_fail_at;
    vt_fill(dst, topn);
    r = metac_value_copy_ex(sv, dv, &mm, t_calloc, t_release, map);
    if (fa < t_calls) { vt_count("failed_allocations", 1);
        if (r) vt_v("tag-oom-ok", "%s: copy succeeded without memory", nm);
        if (t_live() || t_foreign || t_twice) vt_v("tag-oom", "%s: %d blocks left, %d foreign, %d twice after a failed copy", nm, t_live(), t_foreign, t_twice); }
    if (hash_all() != h0) vt_v("tag-source", "%s: the source was changed", nm);
    t_reset();
    /* a count or selector that describes nothing: everything is refused, nothing happens */
    if (tt[k].pk(top)) {
        h0 = hash_all(); vt_count("undescribed", 1); vt_count("evals", 4);
        r = metac_value_copy_ex(sv, dv, &mm, t_calloc, t_release, map);
        if (r || t_live() || t_foreign || t_twice) vt_v("tag-bad-copy", "%s: undescribed object: copy %s, %d blocks left, %d foreign, %d twice", nm, r ? "succeeds" : "fails", t_live(), t_foreign, t_twice);
        t_reset();
        int e = metac_value_equal_ex(sv, sv, &mm, map);
        if (e >= 0) vt_v("tag-bad-equal", "%s: undescribed object: comparison says %d", nm, e);
        metac_value_memory_map_non_handled_mode_t fm = {0}; t_watch = 1; int freed = 0;
        metac_flag_t fr = metac_value_free_ex(sv, &fm, t_release, map);
        for (int i = 0; i < ntb; i++) freed += tb[i].freed;
        if (fr || freed || t_foreign) vt_v("tag-bad-free", "%s: undescribed object: free says %d, %d blocks freed", nm, fr, freed);
        t_watch = 0; t_reset();
        if (hash_all() != h0) vt_v("tag-source", "%s: the source was changed", nm);
    }
    metac_value_delete(sv); metac_value_delete(dv); free(dst); free(top); t_free();
}
struct rt { int var, round; const void *obj; };
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[2], 0, 10); int rounds = atoi(argv[3]);
    metac_tag_map_t *map = new_map();
    if (!map) { vt_v("tag-map", "no tag map"); return vt_end(); }
    if (!strcmp(argv[1], "deep")) {
        for (int k = 0; k < ntt; k++) for (int r = 0; r < rounds; r++) deep(k, seed * 7919 + k * 1009 + r, map);
    } else if (!strcmp(argv[1], "gen")) {
        for (int k = 0; k < ntt; k++) for (int r = 0; r < rounds; r++) {
            make_obj(k, seed * 7919 + k * 1009 + r);
            unsigned long long h0 = hash_all();
            metac_value_t *v = metac_new_value(tt[k].entry(), top);
            char *s = metac_value_string_ex(v, METAC_WMODE_deep, map);
            vt_count("evals", 1);
            if (!s) vt_v("tag-text-refused", "%s: no text", tt[k].name);
            else { vt_distinct(vt_hash(s, strlen(s), 5)); vt_sample("%s", s); printf("str\t%d\t%d\t%s\n", k, r, s); free(s); }
            if (hash_all() != h0) vt_v("tag-source", "%s: the source was changed", tt[k].name);
            metac_value_delete(v); free(top); t_free();
        }
    } else {
        void *h = dlopen(argv[4], RTLD_NOW); struct rt *rts = dlsym(h, "rts"); int n = *(int*)dlsym(h, "nrts");
        for (int i = 0; i < n; i++) {
            int k = rts[i].var; make_obj(k, seed * 7919 + k * 1009 + rts[i].round); t_why = NULL;
            vt_count("evals", 1);
            if (!tt[k].eq(top, rts[i].obj, 0)) vt_v("tag-text", "%s: %s", tt[k].name, t_why);
            free(top); t_free();
        }
        dlclose(h);
    }
    metac_tag_map_delete(map);
    return vt_end();
}
