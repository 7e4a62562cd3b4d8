"""Lookups: declaration locations, symbol links, name database."""
import os

from . import locprog
from .common import BuildError, Inconclusive, REPO, CDIR, SAN, pmap, meta_opt, sh
from .c_values import COMBOS


def opt(mcc, name):
    """clang drops unused variables, the locations among them, when it optimises"""
    return [] if mcc == "clang" else meta_opt(name)


def build(ctx, g, mcc, dw):
    """compiles every unit with the path the program asks for; a generator failure is a violation"""
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + CDIR, "-w"]
    runf = inc + ["-g", "-O1"] + [f.replace("address,undefined", "address") for f in SAN["asan"]]
    wds = ["/usr/lib", g.dir, "/usr/lib", os.path.join(g.dir, "sub"), "/usr/lib", "/", None, os.path.dirname(g.dir)]
    os.makedirs(os.path.join(g.dir, "sub"), exist_ok=True)

    def cc(c, path, obj, fl, cwd=None):
        try:
            ctx.compile(c, path, obj, fl, cwd=cwd)
        except BuildError as e:
            raise Inconclusive(str(e))
    def group(g):
        """units of one library: their objects and those of the reflection data"""
        mo, ro = [], []
        for k, (p, tag, *mod) in enumerate(g.units):
            m, r = os.path.join(g.dir, "m%d.o" % k), os.path.join(g.dir, "r%d.o" % k)
            mf = ["-DMETAC_MODULE_NAME=" + mod[0]] if mod and mod[0] else []
            cc(mcc, p, m, inc + ["-I" + g.dir, "-g3", "-D_METAC_OFF_"] + mf + opt(mcc, g.name + os.path.basename(p)) + (["-gdwarf-%d" % dw] if dw else []), wds[(k + sum(map(ord, g.name))) % len(wds)])
            cc("gcc", p, r, runf + ["-I" + g.dir] + mf)
            mo.append(m); ro.append(r)
        elf = ctx.link(mcc, mo, os.path.join(g.dir, "_meta"), ["-Wl,--unresolved-symbols=ignore-all", "-lm"] + (["-nostartfiles", "-Wl,-e,0"] if getattr(g, "style", "") == "lib" else []))
        src = ctx.reflect(elf, os.path.join(g.dir, "all.reflect.c"))
        return ro + [ctx.compile("gcc", src, src[:-2] + ".o", runf + (["-DMETAC_MODULE_NAME=" + g.module] if getattr(g, "module", None) else []))]
    try:
        objs = group(g) + (group(g.other) if getattr(g, "other", None) else [])
        return ctx.link("gcc", objs + ctx.lib(), os.path.join(g.dir, "exe"), SAN["asan"] + ["-lm"])
    except BuildError as e:
        ctx.violation("lookup-build", "%s/%s/dwarf%s: %s" % (g.name, mcc, dw, e), replay=listing(g))
        return None


def listing(g):
    return "\n".join("// ---- %s\n%s" % kv for kv in g.src.items()) + (listing(g.other) if getattr(g, "other", None) else "")


def check_lookup(ctx):
    ctx.rule = ("random programs of 3 to 5 units in nested directories, compiled from several working directories, with nested and "
                "shadowed declarations, several declarations per line, macros over several lines, statics, functions, "
                "headers; every declared variable has a type of its own size; distinct = lookups")
    ctx.assumptions = ["a location and the variables belong to the same block and line, as documented",
                       "a location in a header that several units include has another __COUNTER__ in each of them (the generator refuses equal ones)"]
    ctx.lib()
    n = 12 if ctx.quick else 80

    def one(i):
        g = locprog.make(ctx, "loc%d" % i, i)
        mcc, dw = COMBOS[i % len(COMBOS)]
        ctx.count("style_" + g.style, 1)
        return "%s/%s/dwarf%d/%s" % (g.name, mcc, dw, g.style), g, build(ctx, g, mcc, dw)
    ps = pmap(one, range(n), workers=4)
    ctx.harness_many([(exe, (), label, dict(witness=lambda g=g: listing(g))) for label, g, exe in ps if exe])
    ctx.count("programs", n)
