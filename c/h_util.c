/* intrusive lists under random histories against a model; formatted text of every length.  usage: h_util <seed> <rounds> */
#include "vt.h"
#include "metac/backend/list.h"
#include "metac/backend/string.h"
dsprintf_render_with_buf(1)
dsprintf_render_with_buf(8)
dsprintf_render_with_buf(64)
dsprintf_render_with_buf(256)
struct el { int pad; LIST_ENTRY(el) a; long id; LIST_ENTRY(el) b; };
LIST_HEAD(ha, el); LIST_HEAD(hb, el);
#define MAXE 60
static struct el *pool[MAXE]; static int where[MAXE];        /* 0 free, 1 + list */
static struct { struct ha h; int m[MAXE], n; } la[3];
static struct { struct hb h; int m[MAXE], n; } lb;
static int at(int l, int id) { for (int i = 0; i < la[l].n; i++) if (la[l].m[i] == id) return i; return -1; }
static void ins(int l, int pos, int id) { for (int i = la[l].n++; i > pos; i--) la[l].m[i] = la[l].m[i - 1]; la[l].m[pos] = id; }
static void verify(const char *op) {
    for (int l = 0; l < 3; l++) {
        int k = 0; struct el *e, **back = &la[l].h.lh_first;
        VT_CHECK(LIST_EMPTY(&la[l].h) == (la[l].n == 0), "list-empty", "after %s", op);
        VT_CHECK(LIST_FIRST(&la[l].h) == (la[l].n ? pool[la[l].m[0]] : NULL), "list-first", "after %s", op);
        LIST_FOREACH(e, &la[l].h, a) {
            if (k >= la[l].n || e != pool[la[l].m[k]]) { vt_v("list-order", "after %s: element %d is not the expected one", op, k); return; }
            if (e->a.le_prev != back || *e->a.le_prev != e) { vt_v("list-back", "after %s: element %d does not know its predecessor", op, k); return; }
            VT_CHECK(LIST_NEXT(e, a) == (k + 1 < la[l].n ? pool[la[l].m[k + 1]] : NULL), "list-next", "after %s", op);
            back = &e->a.le_next; k++;
        }
        VT_CHECK(k == la[l].n, "list-length", "after %s: %d elements instead of %d", op, k, la[l].n);
    }
    int k = 0; struct el *e; LIST_FOREACH(e, &lb.h, b) { if (k >= lb.n || e != pool[lb.m[k]]) { vt_v("list-second", "after %s: the list over the other link is damaged", op); return; } k++; }
    VT_CHECK(k == lb.n, "list-second", "after %s: the list over the other link has %d elements instead of %d", op, k, lb.n);
}
static void lists(unsigned long long seed, int ops) {
    vt_seed(seed);
    for (int i = 0; i < MAXE; i++) { pool[i] = malloc(sizeof(struct el)); vt_fill(pool[i], sizeof(struct el)); pool[i]->id = i; where[i] = 0; }
    for (int l = 0; l < 3; l++) { if (l) LIST_INIT(&la[l].h); else { struct ha t = LIST_HEAD_INITIALIZER(t); la[l].h = t; } la[l].n = 0; }
    LIST_INIT(&lb.h); lb.n = 0;
    for (int i = 0; i < MAXE; i += 3) { LIST_INSERT_HEAD(&lb.h, pool[i], b); for (int j = lb.n++; j > 0; j--) lb.m[j] = lb.m[j - 1]; lb.m[0] = i; }
    for (int o = 0; o < ops; o++) {
        int id = vt_below(MAXE), l = vt_below(3); const char *op; vt_count("evals", 1);
        if (!where[id]) {
            int c = vt_below(3); if (!la[l].n) c = 0;
            if (c == 0) { op = "insert at head"; LIST_INSERT_HEAD(&la[l].h, pool[id], a); ins(l, 0, id); }
            else { int p = vt_below(la[l].n); struct el *r = pool[la[l].m[p]];
                if (c == 1) { op = "insert after"; LIST_INSERT_AFTER(r, pool[id], a); ins(l, p + 1, id); }
                else { op = "insert before"; LIST_INSERT_BEFORE(r, pool[id], a); ins(l, p, id); } }
            where[id] = l + 1;
        } else {
            op = "remove"; l = where[id] - 1; int p = at(l, id); LIST_REMOVE(pool[id], a);
            for (la[l].n--; p < la[l].n; p++) la[l].m[p] = la[l].m[p + 1];
            where[id] = 0;
        }
        vt_count("list_operations", 1); vt_distinct(vt_hash(la[l].m, la[l].n * sizeof(int), l + (int)strlen(op)));
        verify(op);
    }
    for (int i = 0; i < MAXE; i++) free(pool[i]);
}
typedef char *(*df)(const char *, ...);
static void texts(int n) {
    static const df f[] = {dsprintf1, dsprintf8, dsprintf64, dsprintf256}; static const int bs[] = {1, 8, 64, 256};
    char *s = malloc(n + 1); for (int i = 0; i < n; i++) s[i] = 'a' + vt_below(26); s[n] = 0;
    for (int k = 0; k < 4; k++) {
        char *r = f[k]("%s", s); vt_count("evals", 2); vt_count("texts", 2);
        VT_CHECK(r && !strcmp(r, s), "text-format", "text of %d bytes over a buffer of %d came out as %d bytes", n, bs[k], r ? (int)strlen(r) : -1); free(r);
        int a = (int)vt_rnd(); long long b = (long long)vt_rnd(); double d = vt_below(100000) / 8.0; char *w = malloc(n + 200); sprintf(w, "%d<%s>%lld %.3f%c%%", a, s, b, d, 'q');
        r = f[k]("%d<%s>%lld %.3f%c%%", a, s, b, d, 'q'); VT_CHECK(r && !strcmp(r, w), "text-format", "text over a buffer of %d is %.80s instead of %.80s", bs[k], r ? r : "nothing", w);
        free(r); free(w);
    }
    /* trimming */
    int t = vt_below(6), m = vt_below(3) ? n : 0; char *x = malloc(m + t + 1); memcpy(x, s, m); for (int i = 0; i < m; i++) if (vt_below(4) == 0) x[i] = ' ';
    if (m && vt_below(4) == 0) x[m - 1] = '\t'; else if (m) x[m - 1] = 'e';
    memset(x + m, ' ', t); x[m + t] = 0; char *w = strndup(x, m); char *r = trim_trailing_spaces(x); vt_count("evals", 1); vt_count("trims", 1);
    VT_CHECK(r == x && !strcmp(x, w), "text-trim", "%d spaces behind '%s' were trimmed to '%s'", t, w, x);
    free(w); free(x); free(s); vt_distinct(n * 8 + t);
}
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[1], 0, 10); int rounds = atoi(argv[2]);
    for (int r = 0; r < rounds; r++) lists(seed * 1009 + r, 300);
    VT_CHECK(trim_trailing_spaces(NULL) == NULL, "text-trim", "NULL");
    vt_seed(seed); for (int n = 0; n < 300; n++) texts(n); for (int i = 0; i < 20; i++) texts(vt_below(100000));
    vt_sample("%d histories of 300 operations on 3 lists and a fourth over a second link", rounds);
    return vt_end();
}
