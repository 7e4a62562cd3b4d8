/* deep operations on captured calls.  usage: <seed> <rounds> */
metac_tag_map_t *new_map(void);
static void flip(struct tl *l, int kind) {
    if (l->n < 0) *l->a ^= 1;
    else if (kind == 2) memset(l->a, 0, l->n);
    else if (l->n == 1) { unsigned char o = *l->a; *l->a ^= 1; if (!*l->a) *l->a = 3; if (*l->a == o) *l->a ^= 2; }
    else l->a[l->n > 2 ? l->n - 2 : 0] ^= 1;
}
static unsigned long long hash_blocks(void) { unsigned long long h = 7; for (int i = 0; i < ntb; i++) h = vt_hash(tb[i].a, tb[i].n, h); return h; }
static void one(struct cf *f, unsigned long long seed, metac_tag_map_t *map) {
    vt_seed(seed); t_budget = 1 + vt_below(30); t_shared = 0;
    unsigned char *a = malloc(f->size), *b = malloc(f->size); vt_fill(a, f->size); f->mk(a);
    unsigned long long h0 = hash_blocks(); vt_distinct(vt_hash(&h0, 8, vt_hash(f->sig, strlen(f->sig), seed)));
    metac_value_t *c = f->wrap(a, map), *d = NULL, *e = NULL; vt_count("evals", 1);
    if (!c) { vt_v("call-refused", "%s: arguments refused", f->sig); goto out; }
    t_why = NULL; vt_fill(b, f->size);
    if (!f->un(c, b) || !f->eq(a, b, 0)) { vt_v("call-capture", "%s: %s", f->sig, t_why); goto out; }
    metac_value_memory_map_mode_t mm = {.memory_block_mode = vt_below(3) ? METAC_MMODE_dag : METAC_MMODE_tree};
    t_tree = mm.memory_block_mode == METAC_MMODE_tree; vt_count(t_tree ? "tree_mode" : "dag_mode", 1);
    const char *md = t_tree ? "tree" : "dag";
    /* a second capture of the same arguments is the same call */
    e = f->wrap(a, map);
    if (!e || metac_value_equal_ex(c, e, &mm, map) != 1) vt_v("call-equal", "%s (%s): the same call compares %d", f->sig, md, e ? metac_value_equal_ex(c, e, &mm, map) : -1);
    if (e) metac_value_with_call_params_delete(e);
    d = metac_new_value_with_call_params(f->entry());
    metac_value_t *r = metac_value_copy_ex(c, d, &mm, t_calloc, t_release, map); vt_count("evals", 2); vt_count("blocks", ntb);
    if (r != d) vt_v("call-copy-refused", "%s (%s): copy refused", f->sig, md);
    else {
        t_why = NULL; vt_fill(b, f->size);
        if (!f->un(d, b) || !f->eq(a, b, 1)) vt_v("call-copy", "%s (%s): %s", f->sig, md, t_why);
        else if (t_twice || t_foreign) vt_v("call-copy", "%s (%s): released %d foreign, %d twice", f->sig, md, t_foreign, t_twice);
        if (hash_blocks() != h0) vt_v("call-source", "%s: arguments were changed", f->sig);
        int e1 = metac_value_equal_ex(c, d, &mm, map), e2 = metac_value_equal_ex(d, c, &mm, map);
        if (e1 != 1 || e2 != 1) vt_v("call-equal", "%s (%s): copy compares %d/%d", f->sig, md, e1, e2);
        if (!t_shared) {
            char *s = metac_value_string_ex(c, METAC_WMODE_deep, map), *t = metac_value_string_ex(d, METAC_WMODE_deep, map);
            if ((s == NULL) != (t == NULL) || (s && strcmp(s, t))) vt_v("call-text", "%s: text of the copy is %s instead of %s", f->sig, t ? t : "nothing", s ? s : "nothing");
            if (s) { vt_count("texts", 1); if (strncmp(s, f->name, strlen(f->name)) || s[strlen(f->name)] != '(') vt_v("call-text", "%s: text is %s", f->sig, s); }
            free(s); free(t);
        }
        for (int round = 0; round < 3; round++) {
            memset(t_npick, 0, sizeof t_npick); f->lf(a);
            for (int kind = 0; kind < 3; kind += 2) if (t_npick[kind]) {
                struct tl *l = &t_pick[kind]; unsigned char sv8[16]; memcpy(sv8, l->a, l->n < 0 ? 1 : l->n); flip(l, kind);
                if (l->a >= a && l->a < a + f->size) vt_count("argument_changes", 1); else vt_count("reached_changes", 1);
                metac_value_t *x = f->wrap(a, map);
                if (!x) vt_v("call-refused", "%s: changed arguments refused", f->sig);
                else { int q1 = metac_value_equal_ex(x, d, &mm, map), q2 = metac_value_equal_ex(d, x, &mm, map); vt_count("evals", 2);
                    if (q1 != 0 || q2 != 0) vt_v("call-equal-different", "%s (%s): %s was changed, comparison says %d/%d", f->sig, md, kind ? "a pointer" : "a number", q1, q2);
                    t_why = NULL; vt_fill(b, f->size); f->un(d, b); memcpy(l->a, sv8, l->n < 0 ? 1 : l->n);
                    for (int i = 0; i < ntb; i++) tb[i].to = NULL; for (int i = 0; i < ntd; i++) td[i].to = NULL;
                    if (!f->eq(a, b, 1)) vt_v("call-copy", "%s (%s): copy depends on the source: %s", f->sig, md, t_why);
                    metac_value_with_call_params_delete(x); }
                memcpy(l->a, sv8, l->n < 0 ? 1 : l->n);
            }
        }
        metac_value_memory_map_non_handled_mode_t fm = {0}; t_foreign = t_twice = 0;
        if (!metac_value_free_ex(d, &fm, t_release, map)) vt_v("call-free-refused", "%s: free is refused", f->sig);
        else if (t_foreign || t_twice || t_live()) vt_v("call-free", "%s: %d blocks of the copy left, %d foreign, %d twice", f->sig, t_live(), t_foreign, t_twice);
    }
    metac_value_with_call_params_delete(d); d = NULL;
    t_reset(); t_fail_at = vt_below(ntb + 1); int fa = t_fail_at;
    d = metac_new_value_with_call_params(f->entry());
    r = metac_value_copy_ex(c, d, &mm, t_calloc, t_release, map);
    if (fa < t_calls) { vt_count("failed_allocations", 1);
        if (r) vt_v("call-oom-ok", "%s: copy succeeded without memory", f->sig);
        if (t_live() || t_foreign || t_twice) vt_v("call-oom", "%s: %d blocks left, %d foreign, %d twice after a failed copy", f->sig, t_live(), t_foreign, t_twice); }
    metac_value_with_call_params_delete(d);
out:
    t_reset(); if (c) metac_value_with_call_params_delete(c); free(a); free(b); t_free();
}
/* several threads capture, print, copy and compare the same calls: <seed> <rounds> threads <n> */
#include <pthread.h>
static struct tjob { struct cf *f; unsigned char *a; metac_value_t *c; char *text; metac_value_memory_map_mode_t mm; } tj[64]; static int ntj, trounds;
static metac_tag_map_t *tmap; static pthread_barrier_t tbar;
struct cth { int id; unsigned long long rs, ops; char why[400]; };
static unsigned crnd(struct cth *t, unsigned n) { t->rs ^= t->rs << 13; t->rs ^= t->rs >> 7; t->rs ^= t->rs << 17; return n ? (unsigned)((t->rs >> 20) % n) : 0; }
static void *crun(void *p) {
    struct cth *t = p; pthread_barrier_wait(&tbar);
    for (int r = 0; r < trounds * ntj && !t->why[0]; r++) {
        struct tjob *j = &tj[crnd(t, ntj)]; t->ops++;
        metac_value_t *c = j->f->wrap(j->a, tmap);
        if (!c) { snprintf(t->why, sizeof t->why, "%s: arguments refused", j->f->sig); break; }
        int e = metac_value_equal_ex(c, j->c, &j->mm, tmap);
        if (e != 1) snprintf(t->why, sizeof t->why, "%s: the same call compares %d", j->f->sig, e);
        char *s = metac_value_string_ex(c, METAC_WMODE_deep, tmap);
        if ((s == NULL) != (j->text == NULL) || (s && strcmp(s, j->text))) snprintf(t->why, sizeof t->why, "%s: text is %.120s instead of %.120s", j->f->sig, s ? s : "nothing", j->text ? j->text : "nothing");
        free(s);
        metac_value_t *d = metac_new_value_with_call_params(j->f->entry());
        if (metac_value_copy_ex(c, d, &j->mm, calloc, free, tmap) != d) snprintf(t->why, sizeof t->why, "%s: copy refused", j->f->sig);
        else { metac_value_memory_map_non_handled_mode_t fm = {0}; e = metac_value_equal_ex(j->c, d, &j->mm, tmap);
            if (e != 1) snprintf(t->why, sizeof t->why, "%s: copy compares %d", j->f->sig, e);
            if (!metac_value_free_ex(d, &fm, free, tmap)) snprintf(t->why, sizeof t->why, "%s: free refused", j->f->sig); }
        metac_value_with_call_params_delete(d); metac_value_with_call_params_delete(c);
    }
    return NULL;
}
static int threads(unsigned long long seed, int rounds, int nth) {
    tmap = new_map(); trounds = rounds;
    if (!tmap) { vt_v("call-map", "no tag map"); return vt_end(); }
    vt_seed(seed);
    for (int k = 0; k < ncf && ntj < 64; k++) {
        struct tjob *j = &tj[ntj]; j->f = &cf[k]; t_budget = 1 + vt_below(30); t_shared = 0;
        j->a = malloc(cf[k].size); vt_fill(j->a, cf[k].size); cf[k].mk(j->a);
        j->mm.memory_block_mode = t_shared || vt_below(2) ? METAC_MMODE_dag : METAC_MMODE_tree;
        j->c = cf[k].wrap(j->a, tmap); if (!j->c) { vt_v("call-refused", "%s: arguments refused", cf[k].sig); free(j->a); continue; }
        j->text = metac_value_string_ex(j->c, METAC_WMODE_deep, tmap); vt_distinct(vt_hash(cf[k].sig, strlen(cf[k].sig), 5)); ntj++;
    }
    static struct cth th[16]; pthread_t tid[16]; pthread_barrier_init(&tbar, NULL, nth);
    if (!ntj) return vt_end();
    for (int i = 0; i < nth; i++) { th[i].id = i; th[i].rs = seed * 7919 + i * 104729 + 88172645463325252ull; pthread_create(&tid[i], NULL, crun, &th[i]); }
    for (int i = 0; i < nth; i++) pthread_join(tid[i], NULL);
    for (int i = 0; i < nth; i++) { vt_count("evals", th[i].ops); vt_count("concurrent_calls", th[i].ops); if (th[i].why[0]) vt_v("thread-call", "%s", th[i].why); }
    vt_count("threads", nth);
    for (int k = 0; k < ntj; k++) { metac_value_with_call_params_delete(tj[k].c); free(tj[k].text); free(tj[k].a); }
    t_free(); metac_tag_map_delete(tmap);
    return vt_end();
}
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[1], 0, 10); int rounds = atoi(argv[2]);
    if (argc > 4) return threads(seed, rounds, atoi(argv[4]));
    metac_tag_map_t *map = new_map();
    if (!map) { vt_v("call-map", "no tag map"); return vt_end(); }
    for (int k = 0; k < ncf; k++) { for (int r = 0; r < rounds; r++) one(&cf[k], seed * 7919 + k * 1009 + r, map); vt_sample("%s", cf[k].sig); }
    metac_tag_map_delete(map);
    return vt_end();
}
