from . import exotic, progs
from .common import BuildError, pmap
from .tgen import BASES, T


def huge(g, vs):
    """types that nothing can be allocated for, behind pointers"""
    r = g.r
    b = lambda: T("base", base=r.choice(BASES))
    for c in ((1 << r.randint(31, 50),), (r.randint(1 << 31, 1 << 33), r.randint(1, 9)), (r.randint(3, 9), (1 << 32) + r.randint(-1, 1)), ((1 << 31) - r.randint(0, 1),)):
        t = b()
        for n in reversed(c):
            t = T("arr", to=t, count=n)
        vs.append(T("ptr", to=t))


# functions that optimisers take apart: inlined, cloned, partly inlined, with tail calls, labels, blocks
# and types of their own; nothing of it may confuse the generator
BODIES = r"""
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
struct o_pt { int x, y; long w[2]; };
static int o_acc;
static inline int o_small(struct o_pt *p, int k) { struct o_loc { int q; struct o_pt *p; } l = { k, p }; static struct o_loc keep; keep = l; return l.p->x * k + keep.q; }
static int o_var(const char *f, ...) {
    if (!f) return 0;
    char b[64]; va_list ap; va_start(ap, f); int r = vsnprintf(b, sizeof(b), f, ap); va_end(ap);
    for (int i = 0; i < r; i++) o_acc += b[i];
    return r;
}
static void o_log(const char *f, ...) {
    if (o_acc++ >= 4) return;
    va_list ap; va_start(ap, f); char buf[800]; vsnprintf(buf, sizeof(buf), f, ap); va_end(ap);
    for (char *c = buf; *c; c++) if (*c == '\n') *c = ' ';
    printf("S\t%s\n", buf); fflush(stdout); printf("END\n");
}
void o_log1(const char *a) { o_log("%s", a); o_acc--; o_log("%s", a + 1); }
void o_log2(const char *a) { o_log("%s", a); for (int i = 0; a[i]; i++) o_log("%s", a + i); printf("end\n"); printf("\n"); }
__attribute__((noinline)) static int o_clone(struct o_pt p, int unused, int k) { return p.x + k + (int)p.w[1]; }
__attribute__((noreturn, cold)) static void o_die(const char *m) { fputs(m, stderr); abort(); }
static int o_rec(int n) { return n < 2 ? n : o_rec(n - 1) + o_rec(n - 2); }
int o_mid(struct o_pt *p, long n, char c) {
    int acc = 0;
    for (int i = 0; i < n; i++) {
        enum o_en { o_A, o_B = 5 } e = i & 1 ? o_A : o_B;
        acc += o_small(p, i) + c + e;
        if (acc > 1000) goto out;
        if (acc < -1000) o_die("low");
    }
    switch (n) { case 1: { struct o_blk { int z; } b = { 3 }; acc += b.z; break; } case 2: acc += o_var(0); break; default: acc++; }
out:
    return acc + o_var("%d %ld", acc, n) + o_var(c ? "x" : 0) + o_clone(*p, 1, 2) + o_rec(c);
}
METAC_GSYM_LINK(o_mid); METAC_GSYM_LINK(o_small); METAC_GSYM_LINK(o_var); METAC_GSYM_LINK(o_clone);
int o_tail(struct o_pt *p, long n, char c) { int vla[n & 7 | 1]; vla[0] = c; o_acc += vla[0]; return o_mid(p, n, c); }
static double o_fl(double a, float b) { return a * b > 1 ? o_fl(a / 2, b) : a; }
double o_use(int n) { o_log("%s", n ? "a" : "bc"); o_log1("x"); o_log2("y"); struct o_pt p = { n, 2 }; return o_tail(&p, n, (char)n) + o_fl(n, 2.5f) + o_small(&p, 4); }
"""


def check_layout(ctx):
    n = 12 if ctx.quick else 80
    combos = [("gcc", 5), ("gcc", 4), ("clang", 5), ("clang", 4), ("gcc", 3)]
    ctx.lib()

    # small programs with the optimisers at work
    opts = [("gcc", d, [o]) for o in ("-O2", "-O3", "-Os") for d in (5, 4, 3)] + [("clang", d, [o]) for o in ("-O2", "-O3") for d in (5, 4)]

    def one(i):
        if i >= n:
            mcc, dw, fl = opts[i - n]
            label = "opt%d/%s/dwarf%d/%s" % (i - n, mcc, dw, fl[0])
            p = progs.make(ctx, "o%d" % i, i, nvars=4, nfns=6, opts=dict(nstruct=2), main_extra=BODIES)
            try:
                progs.build(ctx, p, ["h_layout.c"], meta_cc=mcc, dwarf=dw, meta_flags=fl)
            except BuildError as e:
                return (label, p, None, e)
            return (label, p, p.exe, None)
        mcc, dw = combos[i % len(combos)]
        label = "prog%d/%s/dwarf%d" % (i, mcc, dw)
        p = progs.make(ctx, "l%d" % i, i, opts=dict(big_arrays=i % 3 == 1, maxmem=(30 if i % 7 == 3 else 7)), mutate=huge, main_extra=BODIES)
        try:
            progs.build(ctx, p, ["h_layout.c"], meta_cc=mcc, dwarf=dw)
        except BuildError as e:
            return (label, p, None, e)
        return (label, p, p.exe, None)
    for label, p, exe, e in pmap(one, range(n + len(opts)), workers=4):
        if e:
            ctx.violation("no-reflection", "%s: %s" % (label, e), replay=p.types + open(p.main).read())
            continue
        ctx.harness(exe, label=label, witness=lambda: p.types + open(p.main).read())
        ctx.count("programs")
    exotic.check(ctx, BuildError, pmap)
