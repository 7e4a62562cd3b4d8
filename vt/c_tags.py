"""Tags: handlers in deep operations, tag maps, tag strings."""
import os
from . import tagprog, progs
from .common import BuildError, Inconclusive, pmap, sh
from .c_values import COMBOS


def _build(ctx, name, i, text):
    mcc, dw = COMBOS[i % len(COMBOS)]
    g = tagprog.make(ctx, name, i, text=text)
    try:
        exe, rc = ctx.program(name, [g.main, g.oracle], meta_cc=mcc, dwarf=dw, meta_sources=[g.main])
    except BuildError as e:
        raise Inconclusive("%s: %s" % (name, e))
    g.exe = exe
    return "%s/%s/dwarf%d" % (name, mcc, dw), g


def check_handlers(ctx):
    ctx.rule = ("random programs with count-by, zero-ended string, union selection, pointer cast and container-of "
                "tags x random heap objects; distinct = object contents. Copy, comparison, free and text are judged "
                "by comparison code compiled from the same declarations")
    ctx.assumptions = ["counts are not negative and fit metac_num_t; a selector always has one of the listed values"]
    ctx.lib()
    n = 8 if ctx.quick else 48
    rounds = 30 if ctx.quick else 80
    ps = pmap(lambda i: _build(ctx, "tag%d" % i, i, i % 2 == 1), range(n), workers=4)
    wit = lambda g: (lambda: g.decls + open(g.main).read())
    ctx.harness_many([(g.exe, ("deep", ctx.seed * 100 + i, rounds), label + "/deep", dict(witness=wit(g)))
                      for i, (label, g) in enumerate(ps)])
    tx = [(i, label, g) for i, (label, g) in enumerate(ps) if g.text]
    tr = max(4, rounds // 4)
    outs = ctx.harness_many([(g.exe, ("gen", ctx.seed * 100 + i, tr), label + "/gen", dict(witness=wit(g)))
                             for i, label, g in tx])
    jobs = []

    def comp(j):
        i, label, g = tx[j]
        rows = [l.split("\t", 3) for l in outs[j][1].split("\n") if l.startswith("str\t")]
        src, so = os.path.join(g.dir, "rt.c"), os.path.join(g.dir, "rt.so")

        def text(rs):
            return '#include <stdbool.h>\n#include "%s_types.h"\n' % g.name + "".join(
                "static struct %s rt_%s_%s = %s;\n" % (g.structs[g.tops[int(v)]], v, r, t) for _, v, r, t in rs) + \
                "struct rt { int var, round; const void *obj; };\nstruct rt rts[] = {%s};\nint nrts = %d;\n" % (
                    ", ".join("{%s,%s,&rt_%s_%s}" % (v, r, v, r) for _, v, r, t in rs), len(rs))
        cc = ["gcc", "-w", "-O0", "-fPIC", "-shared", "-I" + g.dir, src, "-o", so]
        open(src, "w").write(text(rows))
        rc, o, e = sh(cc, timeout=600)
        bad = []
        if rc != 0:
            good = []
            for r in rows:
                open(src, "w").write(text([r]))
                x = sh(["gcc", "-w", "-fsyntax-only", "-I" + g.dir, src])
                (good if x[0] == 0 else bad).append(r if x[0] == 0 else (r, x[2].decode(errors="replace")))
            open(src, "w").write(text(good))
            rc, o, e = sh(cc, timeout=600)
            if rc != 0:
                raise Inconclusive("%s: rt.c: %s" % (label, e.decode(errors="replace")[:600]))
        return so, bad
    for j, (so, bad) in enumerate(pmap(comp, range(len(tx)), workers=8)):
        i, label, g = tx[j]
        for row, err in bad[:2]:
            ctx.violation("tag-not-an-initializer", "%s: the text is no initializer: %s\n%s" % (label, row[3][:500], err[:500]), replay=g.decls)
        jobs.append((g.exe, ("cmp", ctx.seed * 100 + i, tr, so), label + "/cmp", dict(witness=wit(g))))
    ctx.harness_many(jobs)
    ctx.count("programs", n)


def check_map(ctx):
    from .c_values import COMBOS
    from .common import WRAP
    ctx.rule = ("random histories of tag assignments over layered maps of every shape (categories, masks, external "
                "maps, default tags) for the entries of random programs; every lookup compared with a model, every "
                "context counted; distinct = shapes and fills of the maps")
    ctx.assumptions = ["when an allocation fails the assignment may fail or succeed, but nothing else changes"]
    ctx.lib()
    n = 4 if ctx.quick else 16

    def one(i):
        p = progs.make(ctx, "map%d" % i, i, opts=dict(nstruct=5, maxmem=6), nvars=12, nfns=4)
        mcc, dw = COMBOS[i % len(COMBOS)]
        try:
            progs.build(ctx, p, ["h_tagmap.c"], meta_cc=mcc, dwarf=dw, libs=WRAP)
        except BuildError as e:
            raise Inconclusive(str(e))
        return p
    ps = pmap(one, range(n), workers=4)
    ctx.harness_many([(p.exe, (ctx.seed * 10 + i, 40 if ctx.quick else 300, f), "%s/faults%d" % (p.name, f))
                      for i, p in enumerate(ps) for f in (0, 1)])


def check_string(ctx):
    ctx.rule = ("random tag strings of key:\"value\" pairs (repeated keys, prefixes of keys, escaped quotes, pairs "
                "inside of values) looked up for all, other and shortened keys, plus arbitrary bytes; distinct = strings")
    ctx.assumptions = ["values are returned as written, escapes included; malformed strings only have to be handled safely"]
    exe = ctx.plain("tagstr", ["h_tagstr.c"], reflect=True)
    ctx.harness_many([(exe, (ctx.seed * 100 + i, 4000 if ctx.quick else 60000), "tagstr/%d" % i) for i in range(8)])
