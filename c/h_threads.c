/* the same objects used by several threads at once; what each call says alone is the oracle.
   usage: h_threads <seed> <objects> <threads> <rounds> */
#include "xgraph.h"
#include <pthread.h>
#include <sched.h>
#include "metac/backend/iterator.h"
struct job { int v; unsigned char *top; struct gblk *gb; int n; metac_value_t *val; metac_value_memory_map_mode_t mm;
    char *sh, *dp, *cd, *name; int eq, cp, kind; };
static struct job jobs[64]; static int njobs, rounds, nth;
static pthread_barrier_t bar;
struct th { int id; unsigned long long rs, ops, copies; char why[400]; };
static unsigned rnd(struct th *t, unsigned n) { t->rs ^= t->rs << 13; t->rs ^= t->rs >> 7; t->rs ^= t->rs << 17; return n ? (unsigned)((t->rs >> 20) % n) : 0; }
static int streq(const char *a, const char *b) { return (a == NULL) == (b == NULL) && (!a || !strcmp(a, b)); }
static int same_copy(struct job *j, int want_cp) {
    size_t n = XT(xvars[j->v].xt)->size; unsigned char *dst = calloc(1, n ? n : 1); int res = 0;
    metac_value_t *dv = metac_new_value(xvars[j->v].entry(), dst);
    metac_value_t *r = dv ? metac_value_copy_ex(j->val, dv, &j->mm, calloc, free, NULL) : NULL;
    if (r) {
        res = 1 + (metac_value_equal_ex(j->val, dv, &j->mm, NULL) == 1) * 2;
        metac_value_memory_map_non_handled_mode_t nh = {j->mm.unknown_ptr_mode, j->mm.union_mode, j->mm.flex_array_mode};
        res += 4 * (metac_value_free_ex(dv, &nh, free, NULL) != 0);
    }
    if (dv) metac_value_delete(dv);
    free(dst); return res;
}
static long walk(metac_value_t *v, int depth) {
    long h = metac_value_kind(v) * 31 + metac_value_final_kind(v, NULL);
    const char *nm = metac_value_name(v); if (nm) h = h * 33 + strlen(nm);
    if (metac_value_has_members(v)) for (int i = 0; i < metac_value_member_count(v); i++) {
        metac_value_t *m = metac_new_value_by_member_id(v, i); if (!m) { h = h * 7 + 1; continue; }
        if (depth > 0) h = h * 17 + walk(m, depth - 1); metac_value_delete(m); }
    else if (metac_value_has_elements(v) && metac_value_element_count(v) > 0) {
        metac_value_t *m = metac_new_value_by_element_id(v, metac_value_element_count(v) - 1); if (m) { if (depth > 0) h = h * 19 + walk(m, depth - 1); metac_value_delete(m); } }
    else if (metac_value_is_enumeration(v)) { metac_const_value_t c = 0; metac_value_enumeration(v, &c); const char *s = metac_value_enumeration_to_name(v, c); h = h * 5 + (long)c + (s ? s[0] : 0); }
    else if (metac_value_is_base_type(v)) { char *s = metac_value_base_type_string(v); h = h * 3 + (s ? (long)strlen(s) : -1); free(s); }
    return h;
}
static long walks[64];
#define BAD(...) do { snprintf(t->why, sizeof t->why, __VA_ARGS__); return NULL; } while (0)
static void *run(void *p) {
    struct th *t = p;
    pthread_barrier_wait(&bar);
    for (int r = 0; r < rounds; r++) {
        int start = rnd(t, njobs);
        for (int k = 0; k < njobs; k++) {
            struct job *j = &jobs[(start + k * (t->id % 2 ? 1 : njobs - 1)) % njobs]; char *s; t->ops++;
            const char *nm = xvars[j->v].name;
            switch (rnd(t, 6)) {
            case 0: s = metac_value_string_ex(j->val, METAC_WMODE_shallow, NULL); { int q = streq(s, j->sh); if (!q) { snprintf(t->why, sizeof t->why, "text of %s is %.150s instead of %.150s", nm, s ? s : "nothing", j->sh ? j->sh : "nothing"); } free(s); if (!q) return NULL; } break;
            case 1: s = metac_value_string_ex(j->val, METAC_WMODE_deep, NULL); { int q = streq(s, j->dp); if (!q) { snprintf(t->why, sizeof t->why, "deep text of %s is %.150s instead of %.150s", nm, s ? s : "nothing", j->dp ? j->dp : "nothing"); } free(s); if (!q) return NULL; } break;
            case 2: s = metac_entry_cdecl(xvars[j->v].entry()); { int q = streq(s, j->cd); if (!q) { snprintf(t->why, sizeof t->why, "declaration of %s is %.150s instead of %.150s", nm, s ? s : "nothing", j->cd ? j->cd : "nothing"); } free(s); if (!q) return NULL; } break;
            case 3: { int e = metac_value_equal_ex(j->val, j->val, &j->mm, NULL); if (e != j->eq) BAD("%s compares %d with itself, alone %d", nm, e, j->eq); } break;
            case 4: { int c = same_copy(j, j->cp); t->copies++; if (c != j->cp) BAD("copy of %s ends with %d, alone with %d", nm, c, j->cp); } break;
            default: { metac_value_t *v = metac_new_value_from_value(j->val); long h = v ? walk(v, 4) : -1; if (v) metac_value_delete(v); if (h != walks[j - jobs]) BAD("walk over %s saw something else than alone", nm);
                metac_recursive_iterator_t *it = metac_new_recursive_iterator((void*)nm); if (it) metac_recursive_iterator_free(it); } break;
            }
            if (rnd(t, 4) == 0) sched_yield();
        }
    }
    return NULL;
}
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[1], 0, 10); int want = atoi(argv[2]); nth = atoi(argv[3]); rounds = atoi(argv[4]);
    if (want > 64) want = 64;
    for (int k = 0; k < want; k++) {
        int v = k % xnvars; if (xvars[v].isfn) continue;
        struct job *j = &jobs[njobs];
        vt_seed(seed * 131 + k); memset(&go, 0, sizeof go);
        go.text = 1; go.null = 10; go.maxblk = 1 + vt_below(10); go.unk = 1;
        if (vt_below(2)) { go.share = vt_below(40); go.interior = vt_below(30); go.loop = vt_below(3) == 0 ? 10 : 0; go.late = vt_below(40); }
        memset(&j->mm, 0, sizeof j->mm);
        j->mm.memory_block_mode = vt_below(2) ? METAC_MMODE_dag : METAC_MMODE_tree;
        if (go.loop || go.share || go.interior) j->mm.memory_block_mode = METAC_MMODE_dag;
        j->mm.unknown_ptr_mode = METAC_UPTR_ignore; j->mm.union_mode = METAC_UNION_ignore; j->mm.flex_array_mode = METAC_FLXARR_ignore;
        g_make(xvars[v].xt, seed * 1000003 + k, 1 + vt_below(4), 200);
        j->v = v; j->top = gtop; j->gb = gb; j->n = gnb; free(gtopsnap); for (int i = 0; i < gnb; i++) free(gb[i].snap);
        gtop = gtopsnap = NULL; gb = NULL; gnb = gcb = 0;
        j->val = metac_new_value(xvars[v].entry(), j->top);
        if (!j->val) { vt_v("thread-value", "no value of %s", xvars[v].name); continue; }
        j->sh = metac_value_string_ex(j->val, METAC_WMODE_shallow, NULL); j->dp = metac_value_string_ex(j->val, METAC_WMODE_deep, NULL);
        j->cd = metac_entry_cdecl(xvars[v].entry()); j->eq = metac_value_equal_ex(j->val, j->val, &j->mm, NULL); j->cp = same_copy(j, 0);
        walks[njobs] = walk(j->val, 4);
        if (j->dp) vt_count("deep_texts", 1); if (j->cp == 7) vt_count("copyable_objects", 1); if (j->n) vt_count("objects_with_blocks", 1);
        vt_distinct(vt_hash(j->cd ? j->cd : "", j->cd ? strlen(j->cd) : 0, 7 + j->n));
        njobs++;
    }
    if (!njobs) return vt_end();
    pthread_t tid[16]; static struct th th[16];
    pthread_barrier_init(&bar, NULL, nth);
    for (int i = 0; i < nth; i++) { th[i].id = i; th[i].rs = seed * 7919 + i * 104729 + 88172645463325252ull; pthread_create(&tid[i], NULL, run, &th[i]); }
    for (int i = 0; i < nth; i++) pthread_join(tid[i], NULL);
    for (int i = 0; i < nth; i++) { vt_count("evals", th[i].ops); vt_count("concurrent_operations", th[i].ops); vt_count("concurrent_copies", th[i].copies); if (th[i].why[0]) vt_v("thread-result", "%s", th[i].why); }
    vt_count("threads", nth); vt_sample("%d objects, %d threads, %d rounds", njobs, nth, rounds);
    for (int k = 0; k < njobs; k++) { struct job *j = &jobs[k]; metac_value_delete(j->val); free(j->sh); free(j->dp); free(j->cd); for (int i = 0; i < j->n; i++) free(j->gb[i].addr); free(j->gb); free(j->top); }
    return vt_end();
}
