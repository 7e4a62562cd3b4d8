/* recursive iterator: online checker of its scheduling, result passing and failure contract */
#include "vt.h"
#include "oom.h"
#include <errno.h>
#include <pthread.h>
#include "metac/backend/iterator.h"
struct task { struct task *parent; int state; int ended; int failed; void *out; void *ctx;
              struct task *first, *last, *next; int ndeps; int left; int depth; int id; };
static int ids; static struct task *cur; static metac_recursive_iterator_t *it;
static struct task *mk(struct task *p, int left) { struct task *t = calloc(1, sizeof *t); t->parent = p; t->left = left; t->depth = p ? p->depth + 1 : 0; t->id = ++ids; t->ctx = NULL; return t; }
static void append(struct task *p, struct task *t) {
    int rc = metac_recursive_iterator_create_and_append_dep(it, t);
    VT_CHECK(rc == 0, "append", "rc %d", rc);
    if (p->last) p->last->next = t; else p->first = t;
    p->last = t; p->ndeps++;
}
static struct task *expected(void) {
    struct task *t = cur;
    while (t && t->ended) { if (!t->parent) return NULL; t = t->parent; }
    for (;;) {
        struct task *d = t->first; while (d && d->ended) d = d->next;
        if (!d) return t; t = d;
    }
}
static unsigned long long trace;
static void end(struct task *t) {
    if (vt_below(5) == 0) { t->ended = t->failed = 1; VT_CHECK(metac_recursive_iterator_fail(it) == it, "fail", "task %d", t->id); }
    else { t->ended = 1; t->out = vt_below(6) ? (void*)(uintptr_t)(t->id * 2 + 1) : NULL; VT_CHECK(metac_recursive_iterator_done(it, t->out) == it, "done", "task %d", t->id); }
}
static void drop(struct task *t, int n) {
    while (n-- > 0 && t->first) {
        struct task *d = t->first; void *in = NULL; int f = 55;
        int skip = vt_below(4) == 0;
        void *o = metac_recursive_iterator_dequeue_and_delete_dep(it, skip ? NULL : &in, skip ? NULL : &f);
        VT_CHECK(o == d->out, "dequeue-out", "task %d result %p, gave %p", d->id, d->out, o);
        if (!skip) VT_CHECK(in == d && f == d->failed, "dequeue", "task %d: in %d fail %d, expected %d fail %d", t->id, in ? ((struct task*)in)->id : -1, f, d->id, d->failed);
        t->first = d->next; if (!t->first) t->last = NULL; t->ndeps--; free(d); vt_count("evals", 1); vt_count("results_passed", 1);
    }
    if (!t->first) { void *in = &in; VT_CHECK(metac_recursive_iterator_dequeue_and_delete_dep(it, NULL, NULL) == NULL, "dequeue-empty", "task %d", t->id); }
}
static void probe(struct task *t) {
    VT_CHECK(metac_recursive_iterator_dep_queue_size(it) == t->ndeps, "queue-size", "task %d: %d, expected %d", t->id, metac_recursive_iterator_dep_queue_size(it), t->ndeps);
    VT_CHECK((metac_recursive_iterator_dep_queue_is_empty(it) != 0) == (t->ndeps == 0), "queue-empty", "task %d", t->id);
    int i = 0; for (struct task *d = t->first; d; d = d->next, i++) if (d->ended && (i < 12 || i % 29 == 0)) {
        void *in = NULL; int f = 55; void *o = metac_recursive_iterator_get_dep_out(it, i, &in, &f);
        VT_CHECK(in == d && f == d->failed && o == d->out, "peek", "task %d dep %d: in %p fail %d out %p", t->id, i, in, f, o); vt_count("evals", 1);
    }
    VT_CHECK(metac_recursive_iterator_get_dep_out(it, t->ndeps, NULL, NULL) == NULL, "peek-bounds", "task %d", t->id);
    VT_CHECK(metac_recursive_iterator_level(it) == t->depth, "level", "task %d: %d, is %d", t->id, metac_recursive_iterator_level(it), t->depth);
    struct task *a = t; for (int l = 0; a; l++, a = a->parent) if (l < 12 || l % 37 == 0 || !a->parent) VT_CHECK(metac_recursive_iterator_get_in(it, l) == a, "ancestor", "task %d level %d", t->id, l);
    VT_CHECK(metac_recursive_iterator_get_in(it, t->depth + 1) == NULL && metac_recursive_iterator_get_in(it, -1) == NULL, "ancestor-bounds", "task %d", t->id);
}
static void one(int budget, int wide) {
    int made = 1; trace = 1469598103934665603ull;
    struct task *root = mk(NULL, 1 + vt_below(3)); root->depth = 0; cur = root;
    it = metac_new_recursive_iterator(root);
    if (!it) { vt_v("new", "no iterator"); return; }
    for (;;) {
        struct task *e = expected(); struct task *t = metac_recursive_iterator_next(it);
        vt_count("evals", 1); vt_count("steps", 1);
        VT_CHECK(t == e, "schedule", "task %d runs, task %d expected", t ? t->id : -1, e ? e->id : -1);
        if (t != e || !t) break;
        cur = t; int what[4] = {t->id, t->state, t->ndeps, t->depth}; trace = vt_hash(what, sizeof what, trace);
        VT_CHECK(metac_recursive_iterator_get_state(it) == t->state, "state", "task %d: state %d, was set to %d", t->id, metac_recursive_iterator_get_state(it), t->state);
        VT_CHECK(metac_recursive_iterator_get_context(it) == t->ctx, "context", "task %d: context %p, was set to %p", t->id, metac_recursive_iterator_get_context(it), t->ctx);
        probe(t);
        if (vt_below(3) == 0) { t->ctx = (void*)(uintptr_t)vt_rnd(); metac_recursive_iterator_set_context(it, t->ctx); }
        drop(t, vt_below(3) == 0 ? (int)vt_below(3) : 1 << 20);
        if (t->left > 0 && made < budget) {
            int k = wide ? vt_below(9) : vt_below(3);
            if (vt_below(7) == 0) k = 0;
            for (int i = 0; i < k && made < budget; i++, made++) append(t, mk(t, t->left - (int)vt_below(2)));
            t->left--; t->state = 1 + vt_below(1000);
            VT_CHECK(metac_recursive_iterator_set_state(it, t->state) == it, "set-state", "task %d", t->id);
            VT_CHECK(metac_recursive_iterator_set_state(it, METAC_R_ITER_error) == NULL, "set-state", "error state accepted");
            probe(t);
        } else { drop(t, 1 << 20); end(t); }
    }
    if (!vt_nviol) {
        void *in = NULL; int f = 55; void *o = metac_recursive_iterator_get_out(it, &in, &f);
        VT_CHECK(in == root && f == root->failed && o == root->out, "root-out", "in %p fail %d out %p", in, f, o);
        VT_CHECK(metac_recursive_iterator_next(it) == NULL, "end", "iterator goes on after the end");
        metac_recursive_iterator_free(it);
    }
    free(root); vt_distinct(trace); vt_count("histories", 1); vt_count("tasks", made);
}
static void *deep(void *a) {
    long n = (long)a, seen = 0, up = 0; static char x;
    it = metac_new_recursive_iterator(&x);
    for (char *p = metac_recursive_iterator_next(it); p; p = metac_recursive_iterator_next(it)) {
        int st = metac_recursive_iterator_get_state(it);
        if (st == METAC_R_ITER_start && ++seen < n) { metac_recursive_iterator_create_and_append_dep(it, p); metac_recursive_iterator_set_state(it, 1); continue; }
        if (st == 1) { int f = 0; long o = (long)metac_recursive_iterator_dequeue_and_delete_dep(it, NULL, &f); up++; metac_recursive_iterator_done(it, (void*)(o + 1)); continue; }
        metac_recursive_iterator_done(it, (void*)1);
    }
    long o = (long)metac_recursive_iterator_get_out(it, NULL, NULL);
    VT_CHECK(seen == n && up == n - 1 && o == n, "deep", "chain of %ld: visited %ld, unwound %ld, result %ld", n, seen, up, o);
    metac_recursive_iterator_free(it); vt_count("evals", n); vt_count("deepest_chain", n);
    return NULL;
}
static void nulls(void) {
    void *in = NULL; int f = 7;
    VT_CHECK(metac_recursive_iterator_next(NULL) == NULL && metac_recursive_iterator_get_context(NULL) == NULL && metac_recursive_iterator_set_context(NULL, &in) == NULL &&
        metac_recursive_iterator_level(NULL) == -1 && metac_recursive_iterator_get_in(NULL, 0) == NULL && metac_recursive_iterator_get_out(NULL, &in, &f) == NULL &&
        metac_recursive_iterator_get_state(NULL) == METAC_R_ITER_error && metac_recursive_iterator_set_state(NULL, 1) == NULL && metac_recursive_iterator_fail(NULL) == NULL &&
        metac_recursive_iterator_done(NULL, NULL) == NULL && metac_recursive_iterator_dep_queue_is_empty(NULL) < 0 && metac_recursive_iterator_dep_queue_size(NULL) < 0 &&
        metac_recursive_iterator_create_and_append_dep(NULL, &in) < 0 && metac_recursive_iterator_dequeue_and_delete_dep(NULL, &in, &f) == NULL && metac_recursive_iterator_get_dep_out(NULL, 0, &in, &f) == NULL,
        "null-iterator", "a call on no iterator is not refused");
    static char x; oom_arm(0, 1); void *i = metac_new_recursive_iterator(&x); oom_disarm(); VT_CHECK(i == NULL, "new-oom", "iterator returned");
    it = metac_new_recursive_iterator(&x); metac_recursive_iterator_next(it);
    oom_arm(0, 1); int rc = metac_recursive_iterator_create_and_append_dep(it, &x); oom_disarm();
    VT_CHECK(rc == -(ENOMEM) && metac_recursive_iterator_dep_queue_size(it) == 0, "append-oom", "rc %d", rc);
    metac_recursive_iterator_done(it, NULL); VT_CHECK(metac_recursive_iterator_next(it) == NULL, "append-oom", "queue changed");
    metac_recursive_iterator_free(it); vt_count("evals", 18);
}
int main(int argc, char **argv) {
    vt_seed(strtoull(argv[1], 0, 10)); int rounds = atoi(argv[2]);
    for (int r = 0; r < rounds && vt_nviol == 0; r++) { ids = 0; one(r % 10 == 9 ? 3000 : 3 + vt_below(120), r & 1); }
    nulls();
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 * 1024);
    pthread_t th; if (pthread_create(&th, &at, deep, (void*)200000L) == 0) pthread_join(th, NULL);
    return vt_end();
}
