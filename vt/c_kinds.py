"""Accessors on every kind of entry and value."""
from .c_values import random_programs


def check_kinds(ctx):
    ctx.rule = ("random programs with all kinds of types; every entry reachable from their variables and functions, values of "
                "them, pairs of values of different types, and NULL; each with all accessors; distinct = entries")
    ctx.assumptions = ["values are made at valid addresses; deleting a NULL value is not covered"]
    random_programs(ctx, 10 if ctx.quick else 80, ["h_kinds.c"], lambda c, i: [(c.seed * 1000 + i,)], opts=dict(big_arrays=False), tag="k", nfns=6)
