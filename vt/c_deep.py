"""Deep operations over random object graphs."""
from .c_values import random_programs

GRAPH = dict(funcs=False, int8=False, graph=True, nstruct=6, depth=4, maxmem=6)


def gopts(i):
    o = dict(GRAPH)
    o["unions"] = i % 3 == 0
    o["flex"] = i % 4 == 0
    o["fwds"] = o["voidp"] = i % 2 == 0
    o["anchor"] = i % 3 == 1
    return o


def _deep(what, nq, nt, rounds, rule, opts=gopts):
    def f(ctx):
        ctx.rule = rule
        ctx.assumptions = [
            "pointers lead to separately allocated blocks or into them, never into the top object",
            "function pointers and pointers to incomplete arrays are NULL; signed char is not used (no accessor)",
        ]
        random_programs(ctx, nq if ctx.quick else nt, ["h_deep.c"],
                        lambda c, i: [(what, c.seed * 1000 + i, rounds if c.quick else rounds * 2)],
                        opts=opts, tag="d" + what[0], nvars=12)
    return f


_R = ("random programs of interlinked types x random heap graphs (fresh, shared, interior and back "
      "pointers) x traversal modes; distinct = mode, type and pointer mix of graphs with at least one "
      "block, union or opaque pointer. ")
check_copy = _deep("copy", 10, 60, 25, _R + "Each copy is walked against its source by an independent oracle.")
check_equal = _deep("equal", 10, 60, 12, _R + "Each copy is compared with its source before and after single-leaf changes.")
check_free = _deep("free", 10, 60, 25, _R + "Every release call is logged and matched with the block list.")
check_fault = _deep("fault", 10, 60, 12, _R + "The n-th allocation of the copy is made to fail.")


def mopts(i):
    o = dict(GRAPH)
    o["unions"] = i % 2 == 0
    o["flex"] = i % 3 != 1
    o["anchor"] = i % 5 == 1
    return o


check_modes = _deep("modes", 10, 60, 25, _R + "All combinations of handling modes, refusals included.", opts=mopts)
