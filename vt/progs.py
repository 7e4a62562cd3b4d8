"""Builds complete reflected programs out of random types."""
import os
import random
from . import tgen
from .tgen import T, M, decl, final, is_anon


class Prog:
    pass


def make(ctx, name, seed, nvars=14, nfns=4, opts=None, main_extra="", types_extra=None, vprefix=None, mutate=None, stream=None):
    """Writes types.h, main.c, oracle.c for a random program; returns a Prog."""
    rng = random.Random(stream or "%s/%s/%s" % (ctx.seed, name, seed))
    g = tgen.Gen(rng, **(opts or {}))
    g.o["prefix"] = (opts or {}).get("prefix", "")
    for _ in range(g.o["nstruct"]):
        if g.o["anon"] and g.o["typedefs"] and rng.random() < .2:
            g.typedef_anon()
        else:
            g.struct(g.o["depth"])
    vs = []
    if g.o["anchor"]:
        vs += [t for t in g.anchors() if not (t in g.pool)]
    if g.o["decl_anchor"]:
        vs += g.decl_anchors()
    if g.o["graph"]:
        # hubs: structures of pointers to whole blocks and to parts of the same blocks, in
        # any order, so that a traversal meets a part before, after or without its block
        parts = [m.t for t in g.pool for m in (final(t).members or ())
                 if m.name and m.bits is None and not is_anon(final(m.t))
                 and not (final(m.t).kind == "arr" and (final(m.t).count is None or is_anon(final(final(m.t).to))))
                 and not tgen.has_qual(m.t)]
        firsts = [t for t in parts if any((final(q).members or [None])[0] is not None
                                          and final(q).members[0].t is t for q in g.pool)]
        whole = list(g.pool)
        for h in range(3):
            hub = T("struct", name=g.nm("hub"), members=[])
            own = rng.sample(whole, min(len(whole), 2))
            near = [p for p in parts if any(p is m.t for q in own for m in final(q).members)] or parts
            for k in range(rng.randint(4, 9)):
                x = rng.random()
                to = rng.choice(own) if x < .4 or not near else rng.choice(firsts) if x < .55 and firsts else rng.choice(near)
                pt = T("ptr", to=to)
                if rng.random() < .15:
                    pt = T("arr", to=pt, count=rng.randint(1, 3))
                hub.members.append(M(g.nm("f"), pt))
            g.order.append(hub)
            vs.append(hub)
    for t in list(g.pool):
        vs.append(t)
    while len(vs) < nvars:
        t = g.type(g.o["depth"])
        if is_anon(t):
            continue
        vs.append(t)
    for t in g.order:
        if getattr(t, "flex", False):
            vs.append(T("ptr", to=t))
    fns = []
    if g.o["funcs"]:
        for i in range(nfns):
            f = g.func(2)
            f.params = [("p%d" % j, p) for j, (n, p) in enumerate(f.params)]
            fns.append(f)
    p = Prog()
    p.g, p.vs, p.fns, p.name = g, vs, fns, name
    d = ctx.dir("p_" + name)
    p.dir = d
    pre = g.o["prefix"] if vprefix is None else vprefix
    if mutate:
        mutate(g, vs)
    twins = tgen.assign_spells(g.order)
    types = tgen.emit_types(g)
    with open(os.path.join(d, name + "_types.h"), "w") as f:
        f.write("#pragma once\n" + types)
    m = '#include "%s_types.h"\n#include "metac/reflect.h"\n' % name
    drng = random.Random("ahead/%s/%s" % (name, seed))
    for i, t in enumerate(vs):
        vn = "%sv%d" % (pre, i)
        q = t
        # the same variable declared before it is defined: with its type, or, for arrays, without
        # the number of elements
        ahead, link = None, "METAC_GSYM_LINK(%s);\n" % vn
        if "{" not in decl(t, vn) and drng.random() < .45:
            ahead = "extern %s;\n" % decl(T("arr", to=t.to) if t.kind == "arr" else t, vn)
            if drng.random() < .3:
                ahead, link = ahead + link, ""
        m += (ahead or "") + "%s;\n" % decl(t, vn) + link
        m += "metac_entry_t *xent_%s(void){ return METAC_GSYM_LINK_ENTRY(%s); }\n" % (vn, vn)
        m += "void *xadr_%s(void){ return (void*)&%s; }\n" % (vn, vn)
    for i, t in enumerate(fns):
        fn = "%sfn%d" % (pre, i)
        m += "%s {" % decl(t, fn)
        if t.to is not None:
            m += " static %s; return r;" % decl(t.to, "r")
        m += " }\nMETAC_GSYM_LINK(%s);\n" % fn
        m += "metac_entry_t *xent_%s(void){ return METAC_GSYM_LINK_ENTRY(%s); }\n" % (fn, fn)
    m += main_extra
    with open(os.path.join(d, name + "_main.c"), "w") as f:
        f.write(m)
    o = tgen.Oracle(twins)
    rows = []
    ext = ""
    for i, t in enumerate(vs):
        vn = "%sv%d" % (pre, i)
        ext += "metac_entry_t *xent_%s(void); void *xadr_%s(void);\n" % (vn, vn)
        rows.append('{"%s",%d,xent_%s,xadr_%s,sizeof(%s),0}' % (vn, o.index(t), vn, vn, decl(t, "", oracle=True)))
    for i, t in enumerate(fns):
        fn = "%sfn%d" % (pre, i)
        ext += "metac_entry_t *xent_%s(void);\n" % fn
        rows.append('{"%s",%d,xent_%s,0,0,1}' % (fn, o.index(t), fn))
    for t in g.pool:
        o.index(t)
    oc = '#include "%s_types.h"\n#include "xt.h"\n' % name
    oc += o.text() + ext
    oc += "struct xv xvars[] = {\n %s\n};\nint xnvars = sizeof(xvars)/sizeof(xvars[0]);\n" % ",\n ".join(rows)
    with open(os.path.join(d, name + "_oracle.c"), "w") as f:
        f.write(oc)
    p.main = os.path.join(d, name + "_main.c")
    p.oracle = os.path.join(d, name + "_oracle.c")
    p.types = types
    p.o = o
    return p


def build(ctx, p, harness, san="asan", cc="gcc", meta_cc=None, dwarf=None, libs=(), extra=(), **kw):
    from .common import CDIR
    srcs = [p.main, p.oracle] + [os.path.join(CDIR, h) for h in harness]
    exe, rc = ctx.program(p.name, srcs, san=san, cc=cc, meta_cc=meta_cc, dwarf=dwarf,
                          meta_sources=[p.main], libs=libs, extra=extra, **kw)
    p.exe, p.reflect = exe, rc
    return p
