from . import progs
from .common import BuildError, Inconclusive, pmap

COMBOS = [("gcc", 5), ("clang", 5), ("gcc", 4), ("clang", 4), ("gcc", 3)]


def random_programs(ctx, n, harness, runs, opts=None, tag="p", san="asan", workers=4, libs=(),
                    nvars=14, nfns=0, timeout=300, extra=(), lib_extra=()):
    """n random programs, each reflected by the real generator and run under the harness"""
    ctx.lib(san=san, extra=lib_extra)

    def one(i):
        mcc, dw = COMBOS[i % len(COMBOS)]
        label = "%s%d/%s/dwarf%d" % (tag, i, mcc, dw)
        p = progs.make(ctx, "%s%d" % (tag, i), i, opts=opts(i) if callable(opts) else opts,
                       nvars=nvars, nfns=nfns)
        try:
            progs.build(ctx, p, harness, meta_cc=mcc, dwarf=dw, libs=libs, san=san, extra=extra,
                        lib_extra=lib_extra)
        except BuildError as e:
            return (label, p, e)
        return (label, p, None)
    jobs = []
    for i, (label, p, e) in enumerate(pmap(one, range(n), workers=workers)):
        if e:
            raise Inconclusive("%s: %s" % (label, e))
        for args in runs(ctx, i):
            jobs.append((p.exe, args, label + "/" + " ".join(map(str, args)),
                         dict(timeout=timeout, witness=lambda p=p: p.types + open(p.main).read())))
        ctx.count("programs")
    ctx.harness_many(jobs)


def _mode(mode, opts, nq, nt):
    def f(ctx):
        random_programs(ctx, nq if ctx.quick else nt, ["h_values.c"],
                        lambda c, i: [(mode, c.seed * 1000 + i)], opts=opts, tag=mode[0])
    return f


check_base = _mode("base", dict(funcs=False), 15, 80)
check_bits = _mode("bits", dict(funcs=False, maxmem=12, ptrs=False, int8=False), 20, 100)
check_enum = _mode("enum", dict(funcs=False, maxmem=10, ptrs=False), 20, 100)
check_nav = _mode("nav", dict(big_arrays=True), 15, 80)
