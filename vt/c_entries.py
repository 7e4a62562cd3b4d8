"""Entries: where they are declared, paths into them, copies."""
from . import entprog
from .common import pmap
from .c_values import COMBOS
from .c_lookup import build, listing


def check_entries(ctx):
    ctx.rule = ("random programs of 1 to 4 units sharing a header; each unit uses some of its types (which other types they use is "
                "followed), types of its own and types of blocks of its functions; random paths, valid and not, into the "
                "variables; distinct = entries and paths asked for")
    ctx.assumptions = ["types are described in a unit when a variable or parameter of the unit uses them, directly or through other types"]
    ctx.lib()
    n = 12 if ctx.quick else 100

    def one(i):
        g = entprog.make(ctx, "ent%d" % i, i)
        mcc, dw = COMBOS[i % len(COMBOS)]
        return "%s/%s/dwarf%d" % (g.name, mcc, dw), g, build(ctx, g, mcc, dw)
    ps = pmap(one, range(n), workers=4)
    ctx.harness_many([(exe, (), label, dict(witness=lambda g=g: listing(g))) for label, g, exe in ps if exe])
    ctx.count("programs", n)
