"""Independent use from several threads, under the race detector."""
from . import callprog
from .c_deep import gopts
from .c_values import COMBOS, random_programs
from .common import BuildError, Inconclusive, pmap


def check_threads(ctx):
    ctx.rule = ("random programs of interlinked types and of functions with tags; 8 threads do random operations on the same "
                "unchanging objects and calls, results are private to a thread; each operation is compared with what it says "
                "alone, and ThreadSanitizer watches all accesses; distinct = objects and functions")
    ctx.assumptions = ["no thread changes objects or tag maps in use by another; tag handlers are those of the library",
                       "schedules are those of the machine with random yields"]
    q = ctx.quick
    random_programs(ctx, 4 if q else 24, ["h_threads.c"], lambda c, i: [(c.seed * 100 + i, 40, 8, 4 if q else 40)],
                    opts=gopts, tag="th", san="tsan", libs=("-lpthread",), nvars=16)
    exe = ctx.plain("tpriv", ["h_tpriv.c"], san="tsan", libs=("-lpthread",), reflect=True)
    ctx.harness_many([(exe, (ctx.seed * 100 + i, 8, 60 if q else 1000), "private/%d" % i) for i in range(2 if q else 8)], workers=2)
    n = 2 if q else 10

    def one(i):
        g = callprog.make(ctx, "tcall%d" % i, 5000 + i, 12)
        mcc, dw = COMBOS[i % len(COMBOS)]
        try:
            g.exe, _ = ctx.program(g.name, [g.main, g.oracle], meta_cc=mcc, dwarf=dw, meta_sources=[g.main], san="tsan", libs=("-lpthread",))
        except BuildError as e:
            raise Inconclusive("%s: %s" % (g.name, e))
        return "%s/%s/dwarf%d" % (g.name, mcc, dw), g
    ps = pmap(one, range(n), workers=4)
    ctx.harness_many([(g.exe, (ctx.seed * 100 + i, 12 if q else 100, "threads", 8), label, dict(witness=lambda g=g: g.decls))
                      for i, (label, g) in enumerate(ps)], workers=2)
    ctx.count("programs", n)
