/* allocation interposer (linked with --wrap): counts, logs and fails allocations on request */
#ifndef VT_OOM_H
#define VT_OOM_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
static long oom_n;            /* allocations seen since armed */
static long oom_fail_at = -1; /* fail the n-th (0-based), -1: never */
static int oom_all_after;     /* keep failing afterwards */
static int oom_armed;
static long oom_failed;
static int oom_hit(void) {
    if (!oom_armed) return 0;
    long n = oom_n++;
    if (oom_fail_at >= 0 && (n == oom_fail_at || (oom_all_after && n > oom_fail_at))) { oom_failed++; return 1; }
    return 0;
}
static inline void oom_arm(long at, int all) { oom_n = 0; oom_failed = 0; oom_fail_at = at; oom_all_after = all; oom_armed = 1; }
static inline long oom_disarm(void) { oom_armed = 0; return oom_n; }
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n);
char *__real_strdup(const char *s); char *__real_strndup(const char *s, size_t n);
void *__wrap_malloc(size_t n) { return oom_hit() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return oom_hit() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return oom_hit() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return oom_hit() ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return oom_hit() ? NULL : __real_strndup(s, n); }
#endif
