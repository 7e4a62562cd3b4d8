/* run time of the generated tag programs: block lists, pointer pairing, leaves */
#ifndef VT_TAGRT_H
#define VT_TAGRT_H
#include "vt.h"
#include "metac/reflect.h"
struct tb { unsigned char *a; size_t n; unsigned char *to; int freed; };
static struct tb *tb; static int ntb, ctb;          /* blocks of the source graph */
static struct tb *td; static int ntd, ctd;          /* blocks made by the library */
static int t_foreign, t_twice, t_watch, t_fail_at = -1, t_calls, t_tree, t_budget, t_shared, t_lists;
static void *t_blk(size_t n) {
    if (ntb == ctb) { ctb = ctb ? ctb * 2 : 64; tb = realloc(tb, ctb * sizeof *tb); }
    tb[ntb] = (struct tb){calloc(1, n ? n : 1), n, NULL, 0}; vt_fill(tb[ntb].a, n); return tb[ntb++].a;
}
static void t_free(void) { for (int i = 0; i < ntb; i++) free(tb[i].a); free(tb); tb = NULL; ntb = ctb = 0; }
static void *t_calloc(size_t a, size_t b) {
    if (t_calls++ == t_fail_at) return NULL;
    if (ntd == ctd) { ctd = ctd ? ctd * 2 : 64; td = realloc(td, ctd * sizeof *td); }
    td[ntd] = (struct tb){calloc(1, a * b ? a * b : 1), a * b, NULL, 0}; return td[ntd++].a;
}
static void t_release(void *p) {
    if (t_watch) { for (int i = 0; i < ntb; i++) if (tb[i].a == p) { if (tb[i].freed++) t_twice++; return; } t_foreign++; return; }
    for (int i = ntd - 1; i >= 0; i--) if (td[i].a == p && !td[i].freed) { td[i].freed = 1; free(p); return; }
    for (int i = 0; i < ntd; i++) if (td[i].a == p) { t_twice++; return; }
    t_foreign++;
}
static int t_live(void) { int n = 0; for (int i = 0; i < ntd; i++) n += !td[i].freed; return n; }
static void t_reset(void) { for (int i = 0; i < ntd; i++) if (!td[i].freed) free(td[i].a); free(td); td = NULL; ntd = ctd = 0; t_foreign = t_twice = t_calls = 0; t_fail_at = -1; for (int i = 0; i < ntb; i++) { tb[i].to = NULL; tb[i].freed = 0; } }
static const char *t_why; static char t_whyb[500];
static int t_bad(const char *f, ...) { if (t_why) return 0; va_list ap; va_start(ap, f); vsnprintf(t_whyb, sizeof t_whyb, f, ap); va_end(ap); t_why = t_whyb; return 0; }
/* pointers pa (source) and pb (copy) to n bytes */
static int t_pair(const void *va, const void *vb, size_t n, int ind, const char *path) {
    const unsigned char *pa = va, *pb = vb;
    vt_count("pointers_followed", 1);
    if (!pb) return t_bad("%s: pointer became NULL", path);
    if (!ind) return 1;
    int s = -1, d = -1;
    for (int i = 0; i < ntb; i++) if (pa >= tb[i].a && pa < tb[i].a + (tb[i].n ? tb[i].n : 1)) s = i;
    for (int i = 0; i < ntd; i++) if (!td[i].freed && pb >= td[i].a && pb < td[i].a + (td[i].n ? td[i].n : 1)) d = i;
    if (s < 0) { printf("oracle: source pointer outside of its blocks\n"); exit(3); }
    if (d < 0) return t_bad("%s: copy points outside of the allocated blocks", path);
    if (t_tree) {
        if (td[d].a != pb) return t_bad("%s: copy points into the middle of a block", path);
        if (td[d].to) return t_bad("%s: block used twice in tree mode", path);
        td[d].to = (unsigned char*)1;
        if (td[d].n < n || td[d].n > n + 16) return t_bad("%s: block of %zu bytes for %zu bytes", path, td[d].n, n);
        return 1;
    }
    if (pb - td[d].a != pa - tb[s].a) return t_bad("%s: offset %ld in its block, was %ld", path, (long)(pb - td[d].a), (long)(pa - tb[s].a));
    if (!tb[s].to) {
        if (td[d].to) return t_bad("%s: two blocks became one", path);
        tb[s].to = td[d].a; td[d].to = tb[s].a;
        if (td[d].n < tb[s].n || td[d].n > tb[s].n + 16) return t_bad("%s: block of %zu bytes became %zu bytes", path, tb[s].n, td[d].n);
        return 1;
    }
    return tb[s].to == td[d].a || t_bad("%s: sharing lost", path);
}
/* leaves that decide equality, and bytes that must not */
struct tl { unsigned char *a; int n; int kind; };   /* kind 0 live number, 1 dead byte, 2 pointer */
static struct tl t_pick[3]; static long t_npick[3];
static void t_leaf(void *a, int n, int kind) { if (n && vt_below((unsigned)++t_npick[kind]) == 0) t_pick[kind] = (struct tl){a, n, kind}; }
#endif
