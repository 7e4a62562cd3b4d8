"""The text of a value, compiled again, gives the same value."""
import os
from . import progs
from .common import BuildError, Inconclusive, pmap, sh
from .c_values import COMBOS
from .tgen import decl

SH = dict(funcs=True, int8=False, fwds=True, maxmem=8)
DP = dict(funcs=False, int8=False, graph=True, fwds=False, nstruct=6, depth=4, maxmem=6)


def _rt(ctx, deep, n, rounds):
    mode = "deep" if deep else "shallow"
    ctx.lib()

    def one(i):
        mcc, dw = COMBOS[i % len(COMBOS)]
        label = "%s%d/%s/dwarf%d" % (mode, i, mcc, dw)
        o = dict(DP if deep else SH)
        o["unions"] = i % 3 == 1
        o["flex"] = i % 4 == 1
        o["anchor"] = True
        p = progs.make(ctx, "%s%d" % (mode, i), i, opts=o, nvars=18, nfns=0)
        try:
            progs.build(ctx, p, ["h_string.c"], meta_cc=mcc, dwarf=dw)
        except BuildError as e:
            raise Inconclusive("%s: %s" % (label, e))
        return label, p
    ps = pmap(one, range(n), workers=4)
    seed = lambda i: ctx.seed * 1000 + i
    wit = lambda p: (lambda: p.types + open(p.main).read())
    outs = ctx.harness_many([(p.exe, ("gen", mode, seed(i), rounds), label + "/gen", dict(witness=wit(p)))
                             for i, (label, p) in enumerate(ps)])

    def comp(i):
        label, p = ps[i]
        rows = [l.split("\t", 3) for l in outs[i][1].split("\n") if l.startswith("str\t")]
        if not rows:
            return None
        head = '#include <stddef.h>\n#include <stdbool.h>\n#include <complex.h>\n#include "%s_types.h"\n' % p.name

        def text(rs):
            s = head
            for _, v, r, t in rs:
                s += "static %s = %s;\n" % (decl(p.vs[int(v)], "rt_%s_%s" % (v, r)), t)
            s += "struct rt { int var, round; const void *obj; };\nstruct rt rts[] = {%s};\nint nrts = %d;\n" % (
                ", ".join("{%s,%s,(const void*)&rt_%s_%s}" % (v, r, v, r) for _, v, r, t in rs), len(rs))
            return s
        src = os.path.join(p.dir, "rt.c")
        so = os.path.join(p.dir, "rt.so")

        def cc(rs):
            open(src, "w").write(text(rs))
            return sh(["gcc", "-Wno-all", "-Werror=incompatible-pointer-types", "-O0", "-fPIC", "-shared", "-I" + p.dir, src, "-o", so], timeout=600)
        rc, o, e = cc(rows)
        badrows = []
        if rc != 0:     # find which texts are no initializers
            good = []
            for r in rows:
                open(src, "w").write(text([r]))
                if sh(["gcc", "-Wno-all", "-Werror=incompatible-pointer-types", "-fsyntax-only", "-I" + p.dir, src])[0] == 0:
                    good.append(r)
                else:
                    badrows.append((r, sh(["gcc", "-Wno-all", "-Werror=incompatible-pointer-types", "-fsyntax-only", "-I" + p.dir, src])[2].decode(errors="replace")))
            if not badrows:
                raise Inconclusive("%s: rt.c: %s" % (label, e.decode(errors="replace")[:600]))
            rc, o, e = cc(good)
            if rc != 0:
                raise Inconclusive("%s: rt.c: %s" % (label, e.decode(errors="replace")[:600]))
        return so, badrows
    jobs = []
    for i, r in enumerate(pmap(comp, range(n), workers=8)):
        if not r:
            continue
        so, badrows = r
        label, p = ps[i]
        for row, err in badrows[:3]:
            ctx.violation("not-an-initializer", "%s: %s: the text is no initializer: %s\n%s" % (label, p.name, row[3][:600], err[:600]),
                          replay=decl(p.vs[int(row[1])], "x") + " = " + row[3] + ";\n" + p.types)
        jobs.append((p.exe, ("cmp", mode, seed(i), rounds, so), label + "/cmp", dict(witness=wit(p))))
        ctx.count("programs")
    ctx.harness_many(jobs)


def check_shallow(ctx):
    ctx.rule = ("random programs x random contents; distinct = rendered texts. Every text is compiled as the "
                "initializer of a variable of the same type and compared leaf by leaf with the original")
    ctx.assumptions = ["floating point numbers are finite; they are compared to six decimals",
                       "contents of unions without a selector and of arrays of unknown length are not rendered",
                       "signed char is not used (no accessor)"]
    _rt(ctx, False, 10 if ctx.quick else 50, 12 if ctx.quick else 30)


def check_deep(ctx):
    ctx.rule = ("random programs x random heap graphs; distinct = rendered texts. Every text is compiled and the "
                "resulting object graph is compared with the original, following all pointers; cyclic graphs must be refused")
    ctx.assumptions = ["as for shallow texts; function pointers and pointers to incomplete types are NULL",
                       "graphs where a pointer repeats the address of an enclosing pointer of another type are not judged"]
    _rt(ctx, True, 10 if ctx.quick else 50, 12 if ctx.quick else 30)
