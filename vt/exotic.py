"""C beyond plain declarations: every feature a program may use without asking for reflection of it.
The variables and functions of each program are compared with what the compiler says about them."""
import os

RT = r'''
#include "vt.h"
#include "metac/reflect.h"
#ifdef _METAC_OFF_
#define V(x) METAC_GSYM_LINK(x);
#define F(x, n) METAC_GSYM_LINK(x);
#else
static void ex_var(metac_entry_t *e, const char *name, unsigned long sz, void *at) {
    vt_count("exotic", 1); vt_count("evals", 1); vt_distinct(vt_hash(name, strlen(name), sz));
    metac_size_t s = 0;
    VT_CHECK(e != NULL, "exotic-link", "%s: no entry", name);
    if (!e) return;
    VT_CHECK(metac_entry_name(e) && !strcmp(metac_entry_name(e), name), "exotic-name", "%s: named %s", name, metac_entry_name(e));
    int r = metac_entry_byte_size(e, &s);
    if (sz) VT_CHECK(!r && s == sz, "exotic-size", "%s: size %llu rc %d, sizeof %lu", name, (unsigned long long)s, r, sz);
    metac_value_t *v = metac_new_value(e, at);
    VT_CHECK(v != NULL, "exotic-value", "%s: no value", name);
    if (v) metac_value_delete(v);
}
static void ex_fun(metac_entry_t *e, const char *name, int n) {
    vt_count("exotic", 1); vt_count("evals", 1); vt_distinct(vt_hash(name, strlen(name), n));
    VT_CHECK(e != NULL, "exotic-link", "%s: no entry", name);
    if (!e) return;
    VT_CHECK(metac_entry_name(e) && !strcmp(metac_entry_name(e), name), "exotic-name", "%s: named %s", name, metac_entry_name(e));
    VT_CHECK(metac_entry_has_parameters(e) && metac_entry_parameters_count(e) == n, "exotic-parameters", "%s: %d parameters, has %d", name, n, (int)metac_entry_parameters_count(e));
}
static void ex_mem(metac_entry_t *e, const char *name, unsigned long off, unsigned long sz) {
    vt_count("exotic", 1); vt_count("evals", 1); vt_distinct(vt_hash(name, strlen(name), off * 64 + sz));
    metac_num_t id = e ? metac_entry_member_name_to_id(e, (char*)name) : -1;
    VT_CHECK(id >= 0, "exotic-member", "no member %s", name);
    metac_entry_t *m = id >= 0 ? metac_entry_by_member_id(e, id) : NULL;
    if (!m) return;
    metac_offset_t o = -1; metac_size_t s = 0;
    struct metac_member_raw_location_info li = {0};
    int r = metac_entry_member_raw_location_info(m, &li); o = li.byte_offset;
    VT_CHECK(!r && (unsigned long)o == off, "exotic-offset", "%s: offset %ld rc %d, offsetof %lu", name, (long)o, r, off);
    r = metac_entry_byte_size(m, &s);
    if (sz) VT_CHECK(!r && s == sz, "exotic-size", "%s: size %llu rc %d, sizeof %lu", name, (unsigned long long)s, r, sz);
}
#define V(x) METAC_GSYM_LINK(x); __attribute__((constructor)) static void exc_##x(void) { ex_var(METAC_GSYM_LINK_ENTRY(x), #x, sizeof(x), (void*)&x); }
#define F(x, n) METAC_GSYM_LINK(x); __attribute__((constructor)) static void exc_##x(void) { ex_fun(METAC_GSYM_LINK_ENTRY(x), #x, n); }
#define M(x, m) __attribute__((constructor)) static void exm_##x##_##m(void) { ex_mem(METAC_GSYM_LINK_ENTRY(x), #m, offsetof(__typeof__(x), m), sizeof(x.m)); }
#endif
#ifndef M
#define M(x, m)
#endif
#include <stddef.h>
'''

#: name, compilers that know it, standard, text
PROGS = [
    ("atomic", "gcc clang", "gnu11", r'''
_Atomic int av; V(av) _Atomic(char *) ap; V(ap) int *_Atomic aq; V(aq) const _Atomic short ac = 3; V(ac)
struct s { char c; _Atomic long m; _Atomic int arr[3]; _Atomic _Bool b; _Atomic double d; volatile _Atomic char vc; } sv; V(sv) M(sv, m) M(sv, arr) M(sv, b) M(sv, d) M(sv, vc)
typedef _Atomic unsigned au; au tv[4]; V(tv) au f(au *p, _Atomic int *q) { return *p + (unsigned)*q; } F(f, 2)'''),
    ("cint", "gcc", "gnu11", r'''
_Complex int d; V(d) _Complex long double u; V(u) _Complex short cs; V(cs) struct s { _Complex char c; _Complex unsigned long l; float _Complex f; } sv; V(sv) M(sv, c) M(sv, l) M(sv, f)'''),
    ("vector", "gcc clang", "gnu11", r'''
typedef int v4 __attribute__((vector_size(16))); v4 vv; V(vv) struct s { char c; v4 m; double __attribute__((vector_size(32))) w; } sv; V(sv) M(sv, m) M(sv, w) int f(v4 a) { return a[0]; } F(f, 1)'''),
    ("floats", "gcc", "gnu11", r'''
_Float16 h; V(h) __float128 q; V(q) _Float32x x; V(x) _Decimal64 d; V(d) struct s { _Decimal32 a; _Decimal128 b; _Float64 c; } sv; V(sv) M(sv, a) M(sv, b) M(sv, c)'''),
    ("int128", "gcc clang", "gnu11", r'''
__int128 i; V(i) unsigned __int128 u; V(u) struct s { char c; __int128 m; unsigned __int128 b : 100; } sv; V(sv) M(sv, m)'''),
    ("nested", "gcc", "gnu11", r'''
int f(int a) { int g(int b) { struct gz { int q, r; } z = { a, b }; return z.q + z.r; } struct z { int q; } s = { g(1) }; return s.q; } F(f, 1)
struct z { double d; } zv; V(zv) M(zv, d)'''),
    ("vla", "gcc clang", "gnu11", r'''
int f(int n, int a[n][n], int (*b)[n], int (*c)[*]); int f(int n, int a[n][n], int (*b)[n], int (*c)[n]) { int v[n][n + 1]; typedef int T[n]; T t; int (*p)[n] = a; return (int)(sizeof(v) + sizeof(t) + sizeof(*p)); } F(f, 4)
int after[3][2]; V(after)'''),
    ("control", "gcc clang", "gnu11", r'''
int f(int n) { void *t[] = { &&a, &&b }; goto *t[n & 1]; a: return 1; b: return ({ struct q { int z; } x = { n }; x.z; }); } F(f, 1)
__attribute__((noreturn)) static void die(void) { for (;;) ; } F(die, 0)
int sw(int n, ...) { switch (n) { case 1 ... 5: { enum in { I0, I9 = 9 } e = I9; return e; } default: if (n > 100) die(); return __builtin_choose_expr(1, n, 0); } } F(sw, 2)
static inline __attribute__((always_inline)) int ai(int a) { return a; } F(ai, 1) int user(void) { return ai(2) + f(1); } F(user, 0)
__attribute__((constructor(200))) static void ctor(void) { } F(ctor, 0)'''),
    ("c2x", "gcc", "gnu2x", r'''
enum e : unsigned char { A, B = 200 }; enum e ev; V(ev) enum big : long { C = 1ll << 40 }; enum big bv; V(bv) constexpr int k = 3; V(k) bool bo; V(bo) typeof(k) ty; V(ty)
struct s { enum e a; enum big b; typeof_unqual(k) c; } sv; V(sv) M(sv, a) M(sv, b) M(sv, c) [[nodiscard]] int f(int, [[maybe_unused]] char) { return 0; } F(f, 2)'''),
    ("zero", "gcc clang", "gnu11", r'''
struct z { } zv; V(zv) struct y { int a; int b[0]; struct { } e; char c; } yv; V(yv) M(yv, a) M(yv, c) union u { } uv; V(uv) struct x { char n; struct z in; long l[]; } *xp; V(xp) int za[0]; V(za) int zb[3][0]; V(zb)'''),
    ("old", "gcc clang", "gnu11", r'''
int f(a, b) int a; char *b; { return a + !b; } F(f, 2) int (*fp)(); V(fp) int g(); int h(int a) { return g(a, 2); } int g(a, b) int a, b; { return a; } F(g, 2) struct { int a; } x[2]; V(x)'''),
    ("chars", "gcc clang", "gnu11", r'''
#include <wchar.h>
#include <uchar.h>
wchar_t w; V(w) char16_t c; V(c) struct s { char32_t x[3]; wint_t q; signed char s; } sv; V(sv) M(sv, x) M(sv, q) M(sv, s) const wchar_t *str = L"x"; V(str)'''),
    ("headers", "gcc clang", "gnu11", r'''
#include <stdlib.h>
#include <pthread.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <signal.h>
#include <time.h>
#include <math.h>
#include <complex.h>
#include <setjmp.h>
#include <sys/stat.h>
#include <locale.h>
#include <ucontext.h>
#include <sys/select.h>
#include <semaphore.h>
#include <netdb.h>
#include <dirent.h>
#include <regex.h>
FILE *file; V(file) pthread_mutex_t mu; V(mu) pthread_cond_t co; V(co) struct sockaddr_in6 s6; V(s6) M(s6, sin6_addr) M(s6, sin6_port) siginfo_t si; V(si) M(si, si_signo) jmp_buf jb; V(jb) struct stat st; V(st) M(st, st_size) M(st, st_mtim)
struct lconv lc; V(lc) M(lc, p_sep_by_space) ucontext_t uc; V(uc) M(uc, uc_mcontext) fd_set fs; V(fs) struct sigaction sa; V(sa) M(sa, sa_flags) div_t dv; V(dv) double complex dc; V(dc) sem_t sem; V(sem) struct addrinfo ai; V(ai) M(ai, ai_next) struct dirent de; V(de) M(de, d_name) regex_t rx; V(rx) struct tm tm; V(tm) M(tm, tm_zone)'''),
    ("linkage", "gcc clang", "gnu11", r'''
int x __attribute__((section(".foo"), used, aligned(64))) = 1; V(x) int weakv __attribute__((weak)); V(weakv) static const struct { int a; long b; } anon = { 1 }; V(anon) M(anon, b)
extern int al __attribute__((alias("x"))); int afn(int a) { return a; } F(afn, 1) int bfn(int a) __attribute__((alias("afn")));
int common; V(common) extern int common; static int tent; static int tent; V(tent) struct later; extern struct later lv; struct later { char a; long b; }; struct later lv; V(lv) M(lv, b)
extern int many[]; extern int many[7]; int many[7]; V(many) static int hid[3] __attribute__((unused)); V(hid) __thread int tls; int *ptls(void) { return &tls; } F(ptls, 0)'''),
    ("asm", "gcc clang", "gnu11", r'''
int named __asm__("named_otherwise"); V(named) int fn(int a) __asm__("fn_otherwise"); int fn(int a) { int r; __asm__("" : "=r"(r) : "0"(a)); return r; } F(fn, 1)'''),
    ("macros", "gcc clang", "gnu11", r'''
#define METAC(x) x##_v
#define const_ const
int METAC(in) = __COUNTER__; V(in_v) const_ char *s1 = __FILE__; V(s1)
#line 77 "some \"odd\" name.c"
struct ln { int a; } lnv; V(lnv) M(lnv, a)
#line 1 "dir\\back.h"
int bk; V(bk)'''),
]


def source(name):
    for n, ccs, std, text in PROGS:
        if n == name:
            return RT + text + "\nint main(void) { vt_sample(\"%s\", \"" + name + "\"); return vt_end(); }\n"


def check(ctx, build_error, pmap):
    jobs = []
    for k, (n, ccs, std, text) in enumerate(PROGS):
        f = os.path.join(ctx.dir("exotic"), "ex_%s.c" % n)
        with open(f, "w") as o:
            o.write(source(n))
        for c in ccs.split():
            for j, (dw, opt) in enumerate([(5, "-O0"), (4, "-O2"), (5, "-O3"), (3, "-O0"), (4, "-Os"), (3, "-O2")]):
                if ctx.quick and j >= 3 and (j + k) % 3:
                    continue
                jobs.append((n, f, c, dw, opt, std, "clang" if ccs == "clang" else "gcc"))

    def one(j):
        n, f, c, dw, opt, std, cc = j
        label = "exotic-%s/%s/dwarf%d/%s" % (n, c, dw, opt)
        try:
            exe, _ = ctx.program("ex_%s_%s%d%s" % (n, c, dw, opt[1:]), [f], cc=cc, meta_cc=c, dwarf=dw,
                                 meta_flags=["-std=" + std, opt], extra=["-std=" + std])
            return label, f, exe, None
        except build_error as e:
            return label, f, None, e
    for label, f, exe, e in pmap(one, jobs, workers=8):
        if e:
            ctx.violation("no-reflection", "%s: %s" % (label, e), replay=open(f).read())
            continue
        ctx.harness(exe, label=label, witness=lambda: open(f).read())
        ctx.count("exotic programs")
