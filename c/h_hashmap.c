/* hash map against a reference association list; hostile hashes, growth, failing allocations */
#include "vt.h"
#include "oom.h"
#include <errno.h>
#include "metac/backend/hashmap.h"
enum { KIND_PTR, KIND_INT, KIND_STR, KIND_CONST, KIND_LOW, KIND_SIGN, NKINDS };
static int kind;
struct mkey { int i; char s[12]; };
static int h_ptr(void *k) { return hashmapHash(&k, sizeof k); }
static int h_str(void *k) { return hashmapHash(((struct mkey*)k)->s, strlen(((struct mkey*)k)->s)); }
static int h_const(void *k) { return 0; }
static int h_low(void *k) { return ((struct mkey*)k)->i << 20; }
static int h_sign(void *k) { return ((struct mkey*)k)->i & 1 ? -2147483647 - 1 : 2147483647; }
static bool e_ptr(void *a, void *b) { return a == b; }
static bool e_int(void *a, void *b) { return ((struct mkey*)a)->i == ((struct mkey*)b)->i; }
static bool e_str(void *a, void *b) { return !strcmp(((struct mkey*)a)->s, ((struct mkey*)b)->s); }
static int (*hashes[])(void*) = {h_ptr, hashmapIntHash, h_str, h_const, h_low, h_sign};
static bool (*eqs[])(void*, void*) = {e_ptr, hashmapIntEquals, e_str, e_int, e_int, e_int};
static const char *kn[] = {"pointer", "int", "string", "constant", "lowbits", "sign"};
#define MAXK 6000
static struct mkey *ka, *kb;  /* two representations of each key */
static unsigned char *in; static void **val;
static size_t live;
static int memo_calls; static void *memo_val; static void *memo_key;
static void *memo(void *k, void *c) { memo_calls++; memo_key = k; VT_CHECK(c == &memo_val, "memo-context", "context lost"); return memo_val; }
struct fe { unsigned char *seen; int n; int stop; };
static int keyid(void *k) { struct mkey *m = k; return m >= ka && m < ka + MAXK ? (int)(m - ka) : m >= kb && m < kb + MAXK ? (int)(m - kb) : -1; }
static bool each(void *k, void *v, void *c) {
    struct fe *f = c; int id = keyid(k);
    if (id < 0) vt_v("foreach-key", "%s: unknown key", kn[kind]);
    else {
        VT_CHECK(in[id] && val[id] == v, "foreach-entry", "%s: key %d value %p present %d", kn[kind], id, v, in[id]);
        VT_CHECK(!f->seen[id], "foreach-twice", "%s: key %d visited twice", kn[kind], id); f->seen[id] = 1;
    }
    f->n++;
    return f->stop == 0 || f->n < f->stop;
}
static void *rep(int id) { return kind == KIND_PTR ? (void*)&ka[id] : vt_below(2) ? (void*)&ka[id] : (void*)&kb[id]; }
static void whole(Hashmap *m, int nk) {
    for (int i = 0; i < nk; i++) {
        void *k = rep(i);
        VT_CHECK(hashmapContainsKey(m, k) == (in[i] != 0), "contains", "%s: key %d present %d, answer %d", kn[kind], i, in[i], hashmapContainsKey(m, k));
        VT_CHECK(hashmapGet(m, k) == (in[i] ? val[i] : NULL), "get", "%s: key %d: %p, stored %p", kn[kind], i, hashmapGet(m, k), in[i] ? val[i] : NULL);
    }
    vt_count("evals", nk);
}
static void round1(int nk, int nops, size_t cap, int faults) {
    Hashmap *m = hashmapCreate(cap, hashes[kind], eqs[kind]);
    if (!m) { vt_v("create", "%s: no map", kn[kind]); return; }
    memset(in, 0, MAXK); live = 0;
    unsigned char *seen = malloc(MAXK);
    for (int o = 0; o < nops; o++) {
        int id = vt_below(nk), op = vt_below(20); void *k = rep(id);
        void *v = vt_below(8) == 0 ? NULL : (void*)(uintptr_t)(o + 1), *res = (void*)0x55;
        int fail = 0;
        if (faults && vt_below(5) == 0) { fail = 1; oom_arm(vt_below(2), vt_below(2)); }
        vt_count("evals", 1);
        if (op < 8) {
            int wr = vt_below(6) != 0; int rc = hashmapPut(m, k, v, wr ? &res : NULL);
            long nf = 0; if (fail) { oom_disarm(); nf = oom_failed; }
            if (rc == 0) {
                VT_CHECK(!wr || res == (in[id] ? val[id] : NULL), "put-old", "%s: previous value %p of key %d, was %p", kn[kind], res, id, in[id] ? val[id] : NULL);
                if (!in[id]) { in[id] = 1; live++; } val[id] = v;
            } else {
                VT_CHECK(rc == -(ENOMEM) && nf > 0 && !in[id], "put-fail", "%s: rc %d, injected failures %ld, key present %d", kn[kind], rc, nf, in[id]);
                VT_CHECK(!wr || res == NULL, "put-fail-out", "%s: %p", kn[kind], res);
                vt_count("put_oom", 1);
            }
        } else if (op < 12) {
            memo_calls = 0; memo_val = v;
            int wr = vt_below(6) != 0; int rc = hashmapMemoize(m, k, memo, &memo_val, wr ? &res : NULL);
            long nf = 0; if (fail) { oom_disarm(); nf = oom_failed; }
            if (rc == 0) {
                VT_CHECK(memo_calls == !in[id], "memo-calls", "%s: initialiser called %d times, key present %d", kn[kind], memo_calls, in[id]);
                if (!in[id]) { in[id] = 1; val[id] = v; live++; VT_CHECK(memo_key == k, "memo-key", "%s", kn[kind]); }
                VT_CHECK(!wr || res == val[id], "memo-value", "%s: key %d: %p, expected %p", kn[kind], id, res, val[id]);
            } else { VT_CHECK(rc == -(ENOMEM) && nf > 0 && !in[id] && memo_calls == 0, "memo-fail", "%s: rc %d calls %d", kn[kind], rc, memo_calls); vt_count("memo_oom", 1); }
        } else if (op < 16) {
            if (fail) oom_disarm();
            void *r = hashmapRemove(m, k);
            VT_CHECK(r == (in[id] ? val[id] : NULL), "remove", "%s: key %d gave %p, stored %p", kn[kind], id, r, in[id] ? val[id] : NULL);
            if (in[id]) { in[id] = 0; live--; }
        } else if (op < 18) {
            if (fail) oom_disarm();
            VT_CHECK(hashmapGet(m, k) == (in[id] ? val[id] : NULL) && hashmapContainsKey(m, k) == (in[id] != 0), "get", "%s: key %d", kn[kind], id);
        } else if (op == 18 && vt_below(8) == 0) {
            if (fail) oom_disarm();
            struct fe f = {.seen = seen, .stop = vt_below(2) ? 0 : (int)vt_below(5) + 1}; memset(seen, 0, MAXK);
            hashmapForEach(m, each, &f);
            int ex = f.stop && (size_t)f.stop < live ? f.stop : (int)live;
            VT_CHECK(f.n == ex, "foreach-count", "%s: visited %d entries, expected %d", kn[kind], f.n, ex);
        } else if (op == 19 && vt_below(40) == 0) { if (fail) oom_disarm(); whole(m, nk); }
        if (fail) oom_disarm();
        VT_CHECK(hashmapSize(m) == live, "size", "%s: size %zu, expected %zu", kn[kind], hashmapSize(m), live);
    }
    whole(m, nk);
    { struct fe f = {.seen = seen}; memset(seen, 0, MAXK); hashmapForEach(m, each, &f); VT_CHECK((size_t)f.n == live, "foreach-count", "%s: visited %d of %zu", kn[kind], f.n, live); }
    unsigned long long h = vt_hash(in, nk, kind); h = vt_hash(val, nk * sizeof(*val), h); vt_distinct(h);
    vt_count("final_entries", live); vt_count("histories", 1);
    hashmapFree(m); free(seen);
}
int main(int argc, char **argv) {
    vt_seed(strtoull(argv[1], 0, 10)); int rounds = atoi(argv[2]);
    ka = calloc(MAXK, sizeof *ka); kb = calloc(MAXK, sizeof *kb); in = calloc(MAXK, 1); val = calloc(MAXK, sizeof *val);
    for (int r = 0; r < rounds; r++) {
        kind = r % NKINDS;
        for (int i = 0; i < MAXK; i++) {
            ka[i].i = kind == KIND_LOW ? i : r & 8 ? (int)((unsigned)i * 2654435761u) : i * 7 - 3000;
            if (i == 0) ka[i].i = -2147483647 - 1;
            if (i == 1) ka[i].i = 2147483647;
            snprintf(ka[i].s, sizeof ka[i].s, r & 1 ? "%d" : "\xf0%x\xff", i); kb[i] = ka[i];
        }
        int big = kind != KIND_CONST && kind != KIND_SIGN && (r / NKINDS) % 3 == 2;
        int nk = big ? 2000 + (int)vt_below(MAXK - 2000) : 1 + (int)vt_below(r % 2 ? 12 : 300);
        round1(nk, big ? 12000 : 1500, r % 5 == 0 ? 0 : r % 5 == 1 ? 1 : vt_below(2000), (r / NKINDS) % 2);
        if (r < 3) vt_sample("%s keys, %d distinct, %zu left", kn[kind], nk, live);
    }
    /* creation under failing allocation */
    for (int i = 0; i < 2; i++) { oom_arm(i, 0); Hashmap *m = hashmapCreate(10, hashes[0], eqs[0]); oom_disarm(); VT_CHECK(m == NULL, "create-oom", "map returned"); vt_count("evals", 1); }
    free(ka); free(kb); free(in); free(val);
    return vt_end();
}
