/* containers, parsers and tag strings of several threads: private ones, and one map that all only read.
   usage: h_tpriv <seed> <threads> <rounds> */
#include "vt.h"
#include <pthread.h>
#include "metac/reflect.h"
#include "metac/backend/hashmap.h"
#include "metac/backend/iterator.h"
#include "metac/backend/printf_format.h"
static pthread_barrier_t bar; static int rounds; static Hashmap *shared; static int skeys[400];
struct th { int id; unsigned long long rs, ops; char why[300]; };
static unsigned rnd(struct th *t, unsigned n) { t->rs ^= t->rs << 13; t->rs ^= t->rs >> 7; t->rs ^= t->rs << 17; return n ? (unsigned)((t->rs >> 20) % n) : 0; }
struct node { long val; int n; struct node *k[4]; };
static struct node *mknode(struct th *t, int d) { struct node *x = calloc(1, sizeof *x); x->val = rnd(t, 1000); x->n = d > 0 ? rnd(t, 4) : 0; for (int i = 0; i < x->n; i++) x->k[i] = mknode(t, d - 1); return x; }
static long sumnode(struct node *x) { long s = x->val; for (int i = 0; i < x->n; i++) s += sumnode(x->k[i]); return s; }
static void delnode(struct node *x) { for (int i = 0; i < x->n; i++) delnode(x->k[i]); free(x); }
static bool count_cb(void *k, void *v, void *c) { if (v == k) ++*(int *)c; return true; }
#define BAD(...) do { if (!t->why[0]) snprintf(t->why, sizeof t->why, __VA_ARGS__); return; } while (0)
static void maps(struct th *t) {
    static __thread int keys[300]; int n = 1 + rnd(t, 300);
    Hashmap *m = hashmapCreate(rnd(t, 20), hashmapIntHash, hashmapIntEquals);
    for (int i = 0; i < n; i++) { keys[i] = i * 7 + t->id; hashmapPut(m, &keys[i], &keys[i], NULL); }
    int bad = hashmapSize(m) != (size_t)n;
    for (int i = 0; i < n; i++) bad += hashmapGet(m, &keys[i]) != &keys[i];
    for (int i = 0; i < n; i += 2) bad += hashmapRemove(m, &keys[i]) != &keys[i];
    bad += hashmapSize(m) != (size_t)(n / 2); hashmapFree(m);
    for (int i = 0; i < 100; i++) { int q = rnd(t, 800), is = q < 400; bad += hashmapContainsKey(shared, &q) != is; bad += hashmapGet(shared, &q) != (is ? &skeys[q] : NULL); }
    int c = 0; hashmapForEach(shared, count_cb, &c); bad += c != 400; bad += hashmapSize(shared) != 400;
    if (bad) BAD("%d wrong answers of hash maps", bad);
}
static void tree(struct th *t) {
    struct node *x = mknode(t, 4); long want = sumnode(x);
    metac_recursive_iterator_t *it = metac_new_recursive_iterator(x); long got = -1;
    for (struct node *p = metac_recursive_iterator_next(it); p; p = metac_recursive_iterator_next(it)) {
        if (metac_recursive_iterator_get_state(it) == METAC_R_ITER_start) {
            for (int i = 0; i < p->n; i++) metac_recursive_iterator_create_and_append_dep(it, p->k[i]);
            metac_recursive_iterator_set_state(it, 1);
        } else {
            long s = p->val; for (int i = 0; i < p->n; i++) s += (long)metac_recursive_iterator_dequeue_and_delete_dep(it, NULL, NULL);
            metac_recursive_iterator_done(it, (void *)s);
        }
    }
    int f = 0; got = (long)metac_recursive_iterator_get_out(it, NULL, &f);
    metac_recursive_iterator_free(it); delnode(x);
    if (got != want || f) BAD("a tree sums up to %ld instead of %ld", got, want);
}
static void texts(struct th *t) {
    char f[200] = "", tag[200]; int n = rnd(t, 9), c = 0;
    for (int i = 0; i < n; i++) { static const char *p[] = {"%d", "x", "%-5.2lf", "%%", "%#llx ", "%c"}; static const char is[] = {1, 0, 1, 0, 1, 1}; int k = rnd(t, 6); strcat(f, p[k]); c += is[k]; }
    if ((int)metac_count_format_specifiers(f) != c) BAD("format %s has %d specifiers", f, (int)metac_count_format_specifiers(f));
    int a = rnd(t, 1000); char w[20]; snprintf(w, sizeof w, "v%d", a); snprintf(tag, sizeof tag, "a:\"1\" k%d:\"%s\" z:\"2\"", t->id, w);
    metac_entry_tag_t g = {.p_tagstring = tag}; char key[20]; snprintf(key, sizeof key, "k%d", t->id);
    metac_name_t r = metac_entry_tag_string_lookup(&g, key); int ok = r && !strcmp(r, w);
    if (!ok && !t->why[0]) snprintf(t->why, sizeof t->why, "%s: value of %s is %.100s", tag, key, r ? r : "missing");
    free(r);
}
static void *run(void *p) {
    struct th *t = p; pthread_barrier_wait(&bar);
    for (int r = 0; r < rounds; r++) { switch (rnd(t, 3)) { case 0: maps(t); break; case 1: tree(t); break; default: for (int i = 0; i < 20; i++) texts(t); } t->ops++; }
    return NULL;
}
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[1], 0, 10); int nth = atoi(argv[2]); rounds = atoi(argv[3]);
    shared = hashmapCreate(1, hashmapIntHash, hashmapIntEquals);
    for (int i = 0; i < 400; i++) { skeys[i] = i; hashmapPut(shared, &skeys[i], &skeys[i], NULL); }
    static struct th th[16]; pthread_t tid[16]; pthread_barrier_init(&bar, NULL, nth);
    for (int i = 0; i < nth; i++) { th[i].id = i; th[i].rs = seed * 7919 + i * 104729 + 88172645463325252ull; pthread_create(&tid[i], NULL, run, &th[i]); }
    for (int i = 0; i < nth; i++) pthread_join(tid[i], NULL);
    for (int i = 0; i < nth; i++) { vt_count("evals", th[i].ops); vt_count("private_rounds", th[i].ops); vt_distinct(th[i].rs); if (th[i].why[0]) vt_v("thread-private", "%s", th[i].why); }
    hashmapFree(shared);
    return vt_end();
}
