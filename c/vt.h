/* reporting protocol of the harnesses: one record per line on stdout */
#ifndef VT_H
#define VT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <inttypes.h>
static unsigned long long vt_state = 88172645463325252ull;
static inline void vt_seed(unsigned long long s) { vt_state = s * 6364136223846793005ull + 1442695040888963407ull; if (!vt_state) vt_state = 1; }
static inline unsigned long long vt_rnd(void) { vt_state ^= vt_state << 13; vt_state ^= vt_state >> 7; vt_state ^= vt_state << 17; return vt_state * 2685821657736338717ull; }
static inline unsigned vt_below(unsigned n) { return n ? (unsigned)((vt_rnd() >> 20) % n) : 0; }
static inline void vt_fill(void *p, size_t n) { unsigned char *c = p; for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(vt_rnd() >> 30); }
static int vt_nviol;
static inline void vt_v(const char *key, const char *fmt, ...) {
    if (vt_nviol++ > 200) return;
    va_list ap; va_start(ap, fmt);
    printf("V\t%s\t", key); 
    char buf[2000]; vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
    for (char *c = buf; *c; c++) if (*c == '\n') *c = ' ';
    printf("%s\n", buf); fflush(stdout);
}
#define VT_CHECK(c, key, ...) do { if (!(c)) vt_v(key, __VA_ARGS__); } while (0)
/* counters */
static struct { const char *n; unsigned long long v; } vt_c[64]; static int vt_nc;
static inline void vt_count(const char *n, unsigned long long k) {
    for (int i = 0; i < vt_nc; i++) if (!strcmp(vt_c[i].n, n)) { vt_c[i].v += k; return; }
    if (vt_nc < 64) { vt_c[vt_nc].n = n; vt_c[vt_nc++].v = k; }
}
/* distinct case keys, hashed */
static unsigned long long *vt_d; static size_t vt_nd, vt_cd;
static inline unsigned long long vt_hash(const void *p, size_t n, unsigned long long h) {
    const unsigned char *c = p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h;
}
static inline void vt_distinct(unsigned long long h) {
    if (!h) h = 1;
    if (vt_nd * 2 >= vt_cd) {
        size_t nc = vt_cd ? vt_cd * 2 : 4096; unsigned long long *n = calloc(nc, sizeof(*n));
        for (size_t i = 0; i < vt_cd; i++) if (vt_d[i]) { size_t j = vt_d[i] & (nc - 1); while (n[j]) j = (j + 1) & (nc - 1); n[j] = vt_d[i]; }
        free(vt_d); vt_d = n; vt_cd = nc;
    }
    size_t j = h & (vt_cd - 1);
    while (vt_d[j]) { if (vt_d[j] == h) return; j = (j + 1) & (vt_cd - 1); }
    vt_d[j] = h; vt_nd++;
}
static int vt_ns;
static inline void vt_sample(const char *fmt, ...) {
    if (vt_ns++ >= 4) return;
    va_list ap; va_start(ap, fmt); char buf[800]; vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
    for (char *c = buf; *c; c++) if (*c == '\n') *c = ' ';
    printf("S\t%s\n", buf); fflush(stdout);
}
static inline int vt_end(void) {
    for (int i = 0; i < vt_nc; i++) printf("C\t%s\t%llu\n", vt_c[i].n, vt_c[i].v);
    printf("D\t%zu\n", vt_nd);
    printf("END\n"); fflush(stdout);
    free(vt_d); vt_d = NULL; vt_cd = vt_nd = 0;
    return 0;
}
#endif
