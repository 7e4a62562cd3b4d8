"""Programs of several units: types of the same name, equal or not."""
import os
import random

from . import progs
from .common import BuildError, Inconclusive, REPO, CDIR, SAN, pmap, meta_opt
from .tgen import BASES, M, T, final
from .c_values import COMBOS


def mutator(rng, log):
    """changes one definition of a program a little; the rest keeps its text"""
    def run(g, vs):
        structs = [t for t in g.order if t.kind in ("struct", "union") and t.members]
        enums = [t for t in g.order if t.kind == "enum"]
        bf = set()

        def bitty(t):
            for m in (t.members or ()) if t is not None else ():
                if m.bits is not None:
                    bf.add(id(m.t))
                else:
                    q = m.t
                    while q is not None and q.kind in ("arr", "ptr", "qual"):
                        q = q.to
                    if q is not None and q.name is None and q.members:
                        bitty(q)
        for t in g.order:
            bitty(t if t.kind != "typedef" else t.to)
        tds = [t for t in g.order if t.kind == "typedef" and t.to is not None and t.to.kind == "base"
               and id(t) not in bf]
        for _ in range(rng.randint(1, 2)):
            x = rng.random()
            if x < .12 and enums:
                e = rng.choice(enums)
                e.enums.append(("%s_more%d" % (e.name, _), e.enums[0][0]))
                log.append("enum %s" % e.name)
            elif x < .22 and tds:
                t = rng.choice(tds)
                t.to = T("base", base=rng.choice([b for b in BASES if b is not t.to.base]))
                log.append("typedef %s" % t.name)
            elif x < .34 and g.fw:
                t = rng.choice(g.fw)
                g.fw.remove(t)
                t.kind, t.members = "struct", [M(t.name + "_in", T("base", base=BASES[5]))]
                g.order.insert(0, t)
                log.append("definition of %s" % t.name)
            elif structs:
                t = rng.choice(structs)
                named = [m for m in t.members if m.name]
                how = rng.choice(["name", "type", "front", "count", "bits", "swap"])
                plain = [m for m in named if m.bits is None and m.t.kind == "base"]
                arrs = [m for m in named if m.t.kind == "arr" and m.t.count]
                bits = [m for m in named if m.bits and m.bits > 1 and final(m.t).kind == "base"]
                solid = [k for k, m in enumerate(t.members) if not (m.t.kind == "arr" and m.t.count is None)]
                if how == "type" and plain:
                    m = rng.choice(plain)
                    m.t = T("base", base=rng.choice([b for b in BASES if b is not m.t.base]))
                elif how == "count" and arrs:
                    m = rng.choice(arrs)
                    m.t = T("arr", to=m.t.to, count=m.t.count + 1)
                elif how == "bits" and bits:
                    rng.choice(bits).bits -= 1
                elif how == "swap" and len(solid) > 1:
                    a, b = rng.sample(solid, 2)
                    t.members[a], t.members[b] = t.members[b], t.members[a]
                elif how == "name" and named:
                    m = rng.choice(named)
                    m.name += "_"
                else:
                    t.members.insert(0, M("%s_front%d" % (t.name, _), T("base", base=BASES[5])))
                log.append("%s %s (%s)" % (t.kind, t.name, how))
    return run


def variants(rng, k, log, opq):
    """types of the same name that differ in as little as possible, often without another size; each unit has one of them"""
    BT = {b[0]: b for b in BASES}
    B = lambda n: T("base", base=BT[n])
    A = lambda t, *c: t if not c else T("arr", to=A(t, *c[1:]), count=c[0])
    P = lambda t: T("ptr", to=t)
    Q = lambda q, t: T("qual", qual=q, to=t)
    F = lambda to, *ps, **kw: T("func", to=to, params=[(None, p) for p in ps], variadic=kw.get("va", False))

    def run(g, vs):
        def S(name, *ms, **kw):
            t = T(kw.get("kind", "struct"), name=name, members=[m if isinstance(m, M) else M("m%d" % i, m) for i, m in enumerate(ms)])
            t.packed = kw.get("packed", False)
            g.order.append(t)
            return t

        def anon(kind, *ms):
            return T(kind, name=None, members=[M(n, t) for n, t in ms])

        def E(name, *vals, **kw):
            t = T("enum", name=name, enums=[("%s%s" % (n, name), v) for n, v in vals])
            t.packed = kw.get("packed", False)
            g.order.append(t)
            return t

        def D(name, to):
            t = T("typedef", name=name, to=to)
            g.order.append(t)
            return t

        def al(n, t, a):
            m = M(n, t)
            m.align = a
            return m
        I, U, C, L = B("int"), B("unsigned int"), B("char"), B("long")
        pick = []

        def one(n, *fs):
            i = rng.randrange(len(fs))
            pick.append("%s.%d" % (n, i))
            x = fs[i](n)
            vs.append(x)
            return x
        # place of a bit-field
        one("ua_bf", lambda n: S(n, M("a", U, 3), M(None, U, 29), M(None, U, 32)), lambda n: S(n, M(None, U, 32), M("a", U, 3)),
            lambda n: S(n, M(None, U, 2), M("a", U, 3), M(None, U, 27), M(None, U, 32)))
        one("ua_bf2", lambda n: S(n, M("a", U, 3), M("b", U, 3), M(None, U, 0), M("c", U)), lambda n: S(n, M("a", U, 3), M(None, U, 1), M("b", U, 3), M(None, U, 0), M("c", U)))
        one("ua_bfl", lambda n: S(n, M("a", B("unsigned long"), 9)), lambda n: S(n, M("a", B("unsigned long"), 10)), lambda n: S(n, M("a", B("unsigned long long"), 9)))
        # where a pointer leads to
        x1, x2 = S("ua_x%d" % rng.randint(1, 2), I), S("ua_x3", I)
        one("ua_ptr", lambda n: S(n, P(I)), lambda n: S(n, P(U)), lambda n: S(n, P(Q("const", I))), lambda n: S(n, P(P(I))), lambda n: S(n, P(None)),
            lambda n: S(n, P(x1)), lambda n: S(n, P(x2)), lambda n: S(n, P(A(I, 3))))
        one("ua_dim", lambda n: S(n, A(I, 2, 6)), lambda n: S(n, A(I, 3, 4)), lambda n: S(n, A(I, 12)), lambda n: S(n, A(I, 2, 3, 2)))
        one("ua_fn", lambda n: S(n, P(F(I, I, L))), lambda n: S(n, P(F(I, L, I))), lambda n: S(n, P(F(L, I, L))), lambda n: S(n, P(F(I, I))),
            lambda n: S(n, P(F(I, I, va=True))), lambda n: S(n, P(F(None, I, L))))
        one("ua_in", lambda n: S(n, anon("struct", ("a", I), ("b", U))), lambda n: S(n, anon("struct", ("b", I), ("a", U))), lambda n: S(n, anon("struct", ("a", U), ("b", I))),
            lambda n: S(n, anon("union", ("a", L), ("b", U))))
        e1 = one("ua_en", lambda n: E(n, ("A", "1"), ("B", "2")), lambda n: E(n, ("A", "2"), ("B", "1")), lambda n: E(n, ("B", "1"), ("A", "2")),
                 lambda n: E(n, ("A", "1"), ("B", "2"), packed=True), lambda n: E(n, ("A", "1"), ("B", "2"), ("C", "2")),
                 lambda n: E(n, ("A", "1"), ("B", "0x100000002")), lambda n: E(n, ("A", "1"), ("B", "0x200000002")))
        one("ua_enw", lambda n: E(n, ("A", "0x100000001")), lambda n: E(n, ("A", "0x200000001")), lambda n: E(n, ("A", "-0xffffffff")))
        one("ua_ens", lambda n: S(n, e1, A(e1, 2), P(e1)))
        one("ua_al", lambda n: S(n, M("c", C), al("x", I, 8), M("y", I)), lambda n: S(n, M("c", C), M("x", I), al("y", I, 8)), lambda n: S(n, M("c", C), M("x", I), M("y", I)))
        one("ua_pk", lambda n: S(n, C, I, C), lambda n: S(n, C, I, C, packed=True))
        one("ua_sz", lambda n: S(n, I, C), lambda n: S(n, I, C, packed=True))
        t1 = one("ua_td", lambda n: D(n, x1), lambda n: D(n, x2), lambda n: D(n, I), lambda n: D(n, P(I)))
        one("ua_tds", lambda n: S(n, t1, P(t1)), lambda n: S(n, P(t1), t1))
        one("ua_q", lambda n: S(n, Q("const", I)), lambda n: S(n, Q("volatile", I)), lambda n: S(n, I), lambda n: S(n, Q("const", Q("volatile", I))))
        one("ua_k", lambda n: S(n, M("a", I)), lambda n: S(n, M("a", I), kind="union"))
        # difference only at the far end of a circle
        z, m, n1 = T("struct", name="ua_z", members=[]), T("struct", name="ua_m", members=[]), T("struct", name="ua_n", members=[])
        n1.members = [M("next", P(n1)), M("m", P(m))]
        m.members = [M("back", P(n1)), M("z", P(z)), M("v", D("ua_v", Q("const", P(A(P(z), 2)))))]
        far = rng.randint(0, 2)
        z.members = [M("n", P(n1)), M("x", [I, U, B("float")][far])]
        pick.append("ua_z.%d" % far)
        g.fw += [T("fwd", name=q.name) for q in (z, m, n1)]
        g.order += [n1, m, z]
        vs.extend([n1, P(m), A(P(P(n1)), 2)])
        # the same at the end of a chain of types of one name each
        t = S("ua_c0", rng.choice([I, U, B("float")]), I)
        for i in range(1, rng.randint(6, 12)):
            t = S("ua_c%d" % i, P(t), I)
            vs.append(t)
        # declared here, defined elsewhere: once, several times, never
        for j in range(4):
            n = "ua_o%d" % j
            v = rng.choice([None, None, 0] if j == 0 else [None, 0, 1] if j == 1 else [None, None, 0, 1, 2] if j == 2 else [None])
            t = T("fwd", name=n) if v is None else S(n, [I, P(I), A(C, 4)][v])
            if v is None:
                g.fw.append(t)
            h = S("ua_oh%d" % j, P(t), A(P(P(t)), 2))
            opq.append((j, k, v, len(vs), len(vs) + 1))
            vs.extend([P(t), h])
            pick.append("%s.%s" % (n, v))
        log.append("variants %s" % " ".join(pick))
    return run


OPQ = r'''#include "vt.h"
#include "metac/reflect.h"
%s
static metac_entry_t *to(metac_entry_t *p) { return metac_entry_final_entry(metac_entry_pointer_entry(metac_entry_final_entry(p, NULL)), NULL); }
int main(void) {
    struct { int name, unit, v; metac_entry_t *(*ptr)(void), *(*hold)(void); } p[] = { %s };
    int n = sizeof(p) / sizeof(p[0]);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (p[i].name == p[j].name) {
        unsigned defs = 0;
        for (int k = 0; k < n; k++) if (p[k].name == p[i].name && p[k].v >= 0) defs |= 1u << p[k].v;
        int nd = __builtin_popcount(defs);
        metac_entry_t *a = to(p[i].ptr()), *b = to(p[j].ptr());
        if (!a || !b) { vt_v("no-entry", "ua_o%%d of units %%d and %%d: no entry", p[i].name, p[i].unit, p[j].unit); continue; }
        vt_count("evals", 1); vt_count(nd == 1 ? "declared-once" : nd ? "declared-several" : "declared-only", 1);
        vt_distinct(vt_hash(&nd, sizeof(nd), p[i].name * 64 + (p[i].v + 1) * 8 + p[j].v + 1));
        if (nd == 1) {
            VT_CHECK(a == b, "declared-defined", "ua_o%%d: units %%d (variant %%d) and %%d (variant %%d) have another description of it", p[i].name, p[i].unit, p[i].v, p[j].unit, p[j].v);
            VT_CHECK(metac_entry_final_entry(p[i].hold(), NULL) == metac_entry_final_entry(p[j].hold(), NULL), "declared-holder",
                "ua_oh%%d of units %%d and %%d: one definition, two descriptions", p[i].name, p[i].unit, p[j].unit);
        } else if (nd > 1) VT_CHECK((a == b) == (p[i].v == p[j].v), "declared-mixed", "ua_o%%d: units %%d (variant %%d) and %%d (variant %%d) have %%s description", p[i].name,
            p[i].unit, p[i].v, p[j].unit, p[j].v, a == b ? "the same" : "another");
    }
    return vt_end();
}
'''


PAIRS = r'''#include "vt.h"
#include "metac/reflect.h"
%s
int main(void) {
    struct { const char *n; metac_entry_t *(*a)(void), *(*b)(void); } p[] = { %s };
    for (unsigned i = 0; i < sizeof(p) / sizeof(p[0]); i++) {
        metac_entry_t *a = p[i].a(), *b = p[i].b();
        if (!a || !b) { vt_v("no-entry", "%%s: no entry", p[i].n); continue; }
        vt_count("evals", 1); vt_count("shared", 1); vt_distinct(vt_hash(p[i].n, strlen(p[i].n), i));
        VT_CHECK(a != b, "unit-variable", "%%s: two variables share an entry", p[i].n);
        VT_CHECK(metac_entry_final_entry(a, NULL) == metac_entry_final_entry(b, NULL), "unit-shared", "%%s: one definition, two descriptions", p[i].n);
    }
    return vt_end();
}
'''


def build(ctx, ps, mcc, dw, pairs, opq):
    """links all units into one reflected program; one executable per unit oracle"""
    d = ps[0].dir
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + CDIR] + ["-I" + p.dir for p in ps] + ["-w"]
    runf = inc + ["-g", "-O1"] + SAN["asan"]
    harnf = [f.replace("address,undefined", "address") for f in runf]
    try:
        metas = [ctx.compile(mcc, p.main, p.main[:-2] + ".meta.o", inc + ["-g3", "-D_METAC_OFF_", "-gdwarf-%d" % dw] + meta_opt(os.path.basename(p.main))) for p in ps]
        mains = [ctx.compile("gcc", p.main, p.main[:-2] + ".o", runf) for p in ps]
        ors = [ctx.compile("gcc", p.oracle, p.oracle[:-2] + ".o", harnf) for p in ps]
        h = ctx.compile("gcc", os.path.join(CDIR, "h_layout.c"), os.path.join(d, "h_layout.o"), harnf)
        elf = ctx.link(mcc, metas, os.path.join(d, "_meta"), ["-Wl,--unresolved-symbols=ignore-all", "-lm"])
    except BuildError as e:
        raise Inconclusive(str(e))
    src = ctx.reflect(elf, os.path.join(d, "all.reflect.c"))
    obj = ctx.compile("gcc", src, src[:-2] + ".o", runf)
    rest = mains + [obj] + ctx.lib()
    fl = SAN["asan"] + ["-lm"]
    exes = [ctx.link("gcc", [h, o] + rest, o[:-2], fl) for o in ors]
    if pairs:
        pc = os.path.join(d, "pairs.c")
        with open(pc, "w") as f:
            f.write(PAIRS % ("".join("metac_entry_t *xent_%s(void), *xent_%s(void);\n" % q for q in pairs),
                             ", ".join('{"%s/%s", xent_%s, xent_%s}' % (q + q) for q in pairs)))
        exes.append(ctx.link("gcc", [ctx.compile("gcc", pc, pc[:-2] + ".o", harnf)] + rest, pc[:-2], fl))
    oc = os.path.join(d, "opaque.c")
    with open(oc, "w") as f:
        f.write(OPQ % ("".join("metac_entry_t *xent_u%d_v%d(void), *xent_u%d_v%d(void);\n" % (k, a, k, b) for j, k, v, a, b in opq),
                       ", ".join("{%d, %d, %d, xent_u%d_v%d, xent_u%d_v%d}" % (j, k, -1 if v is None else v, k, a, k, b) for j, k, v, a, b in opq)))
    exes.append(ctx.link("gcc", [ctx.compile("gcc", oc, oc[:-2] + ".o", harnf)] + rest, oc[:-2], fl))
    return exes


def changes(rng, log, how, nv, k, opq):
    def run(g, vs):
        nv.append(len(vs))
        if how == "changed":
            mutator(rng, log)(g, vs)
        variants(rng, k, log, opq)(g, vs)
    return run


def check_units(ctx):
    ctx.rule = ("random programs of 2 to 4 units linked together; units define types of the same names: identical, with one "
                "small change (member, type, width, count, order, enumerator, typedef), defined in one and only declared in "
                "another, or unrelated; each unit is compared with the tables its compiler made; distinct = types seen")
    ctx.assumptions = ["a type that a unit only declares may be described by its definition in another unit"]
    ctx.lib()
    n = 10 if ctx.quick else 60

    def one(i):
        rng = random.Random("units/%s/%d" % (ctx.seed, i))
        mcc, dw = COMBOS[i % len(COMBOS)]
        ps, log, pairs, opq = [], [], [], []
        for k in range(rng.randint(2, 4)):
            nm, how = "n%du%d" % (i, k), rng.choice(["same", "changed", "changed", "other"]) if k else "first"
            seed = "A%d" % i if how != "other" else "B%d.%d" % (i, k)
            r2, nv = "%s.%d" % (seed, k), []
            p = progs.make(ctx, nm, seed, nvars=10, nfns=2, opts=dict(nstruct=4), vprefix="u%d_" % k, stream="%s/%s" % (ctx.seed, seed),
                           mutate=changes(random.Random("m/%s/%s" % (ctx.seed, r2)), log, how, nv, k, opq))
            log.append("%s: %s" % (nm, how))
            if how == "same":
                pairs += [("u0_v%d" % j, "u%d_v%d" % (k, j)) for j, t in enumerate(p.vs[:nv[0]]) if t.name and t.kind in ("struct", "union", "enum")]
            ps.append(p)
        label = "units%d/%s/dwarf%d" % (i, mcc, dw)

        def wit():
            return "\n".join(log) + "\n" + "\n".join("// ---- %s\n%s%s" % (p.name, p.types, open(p.main).read()) for p in ps)
        try:
            return label, wit, build(ctx, ps, mcc, dw, pairs, opq)
        except BuildError as e:
            ctx.violation("units-build", "%s: %s" % (label, e), replay=wit())
            return label, wit, []
    jobs = []
    for label, wit, exes in pmap(one, range(n), workers=4):
        jobs += [(x, ("units",), label + "/" + os.path.basename(x), dict(witness=wit)) for x in exes]
        ctx.count("programs")
    ctx.harness_many(jobs)
