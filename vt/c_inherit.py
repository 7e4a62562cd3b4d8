"""Inheritance macros and small helpers."""
import os
import random

from .c_lookup import build, listing
from .c_values import COMBOS
from .common import Inconclusive, pmap

FIELDS = ["char %s", "int %s", "long %s", "double %s", "char *%s", "short %s[3]", "unsigned char %s[5]", "struct { char p; long q; } %s",
          "long double %s", "int (*%s)(void)", "_Bool %s"]

HEAD = r'''#include "metac/reflect.h"
#include "metac/inherit.h"
#ifndef _METAC_OFF_
#include "vt.h"
/* every member of that name anywhere in the value */
static int find(metac_value_t *v, const char *name, void *addr, const char *what) {
    int n = 0;
    for (int i = 0; i < metac_value_member_count(v); i++) {
        metac_value_t *m = metac_new_value_by_member_id(v, i);
        if (!m) { vt_v("inherit-value", "%s: member %d has no value", what, i); continue; }
        const char *nm = metac_value_name(m);
        if (nm && !strcmp(nm, name)) { n++; VT_CHECK(metac_value_addr(m) == addr, "inherit-reflect", "%s: %s is %ld bytes off in the reflection", what, name, (long)((char *)metac_value_addr(m) - (char *)addr)); }
        else if (metac_value_has_members(m)) n += find(m, name, addr, what);
        metac_value_delete(m);
    }
    return n;
}
#endif
'''


MAIN = r'''#ifdef _METAC_OFF_
int main(void) { return 0; }
#else
%s
static const struct { const char *s, *f, *p; void *a, *b; size_t sa, sb; } rows[] = {
    %s
};
enum { nrows = %d };
static const struct { const char *s, *f; metac_value_t *(*v)(void); void *a; } refl[] = {
    %s
};
enum { nrefl = %d };
int main(void) {
    for (int i = 0; i < nrows; i++) {
        vt_count("evals", 1); vt_count("paths", 1); vt_distinct(vt_hash(rows[i].p, strlen(rows[i].p), vt_hash(rows[i].f, strlen(rows[i].f), rows[i].s[2])));
        VT_CHECK(rows[i].a == rows[i].b && rows[i].sa == rows[i].sb, "inherit-address", "struct %%s: %%s and %%s%%s are different", rows[i].s, rows[i].f, rows[i].p, rows[i].f);
    }
    for (int i = 0; i < nrefl; i++) {
        metac_value_t *v = refl[i].v(); int n = v ? find(v, refl[i].f, refl[i].a, refl[i].s) : -1;
        vt_count("evals", 1); vt_count("reflected", 1);
        VT_CHECK(n >= 1, "inherit-reflect", "struct %%s: %%s seen %%d times", refl[i].s, refl[i].f, n);
        if (v) metac_value_delete(v);
    }
    %s
    return vt_end();
}
#endif
'''


def make(ctx, name, i):
    r = random.Random("inh/%s/%d" % (ctx.seed, i))
    g = type("G", (), {})()
    g.dir, g.name, g.src = ctx.dir("p_" + name), name, {}
    depth = r.choice([2, 3, 4, 5, 6, 7, 8])
    o = [HEAD]
    levels = []     # per level: name, own fields, parents
    uid = [0]

    def fields():
        fs = []
        for _ in range(r.randint(1, 4)):
            uid[0] += 1
            fs.append(("f%d" % uid[0], r.choice(FIELDS)))
        return fs
    reach = {}      # struct -> {field: [prefixes]}
    for k in range(depth):
        nm = "lv%d" % k
        parents = [] if k == 0 else [levels[-1][0]]
        if k and r.random() < .3:
            # a second parent without parents of its own
            uid[0] += 1
            side = "side%d" % uid[0]
            fs = fields()
            o.append("#define struct_%s_as_name(_name_...) struct _name_ { %s }\nMETAC_STRUCT_CREATE(%s);" % (side, " ".join(f % n + ";" for n, f in fs), side))
            reach[side] = {n: [""] for n, f in fs}
            parents.append(side)
        fs = fields()
        body = ["METAC_STRUCT_INHERIT%d(%s);" % (k - 1, p) for p in parents]
        own = [f % n + ";" for n, f in fs]
        # the parent does not have to be the first member
        if r.random() < .3:
            body = own[:1] + body + own[1:]
        else:
            body = body + own
        o.append("#define struct_%s_as_name(_name_...) struct _name_ { %s }\nMETAC_STRUCT_CREATE(%s);" % (nm, " ".join(body), nm))
        reach[nm] = {n: [""] for n, f in fs}
        for p in parents:
            for f, pre in reach[p].items():
                if f == "@":
                    continue
                reach[nm][f] = sorted(set(pre) | {"%s.%s" % (p, q) if q else p + "." for q in pre})
            reach[nm].setdefault("@", []).append(p)
        levels.append((nm, fs, parents))

    tests, decl, rows, refl, vals = [], [], [], [], []
    for nm, fs, parents in levels:
        decl.append("struct %s v_%s; METAC_GSYM_LINK(v_%s);" % (nm, nm, nm))
        vals.append("static metac_value_t *val_%s(void) { return METAC_VALUE_FROM_LINK(v_%s); }" % (nm, nm))
        for f, pre in reach[nm].items():
            if f == "@":
                continue
            for p in pre:
                if p:
                    rows.append('{"%s", "%s", "%s", &v_%s.%s, &v_%s.%s%s, sizeof(v_%s.%s), sizeof(v_%s.%s%s)}' % (nm, f, p, nm, f, nm, p, f, nm, f, nm, p, f))
            refl.append('{"%s", "%s", val_%s, &v_%s.%s}' % (nm, f, nm, nm, f))
        for q in reach[nm].get("@", []):
            # a parent part is a whole parent: copying it copies what the fields show
            tests.append('{ struct %s x; vt_fill(&x, sizeof(x)); memset(&v_%s, 0, sizeof(v_%s)); memcpy(&v_%s.%s, &x, sizeof(x)); vt_count("evals", 1); vt_count("parts", 1);%s }' % (
                q, nm, nm, nm, q, "".join(' VT_CHECK(!memcmp(&v_%s.%s, &x.%s, sizeof(x.%s)), "inherit-part", "%s.%s: %s differs");' % (nm, f, f, f, nm, q, f) for f in reach[q] if f != "@")))
    o += decl
    o.append(MAIN % ("\n".join(vals), ",\n    ".join(rows) or "{0}", len(rows), ",\n    ".join(refl), len(refl), "\n    ".join(tests)))
    p = os.path.join(g.dir, "main.c")
    g.src[p] = "\n".join(o)
    g.units = [(p, "m")]
    with open(p, "w") as f:
        f.write(g.src[p])
    return g


def check_inherit(ctx):
    ctx.rule = "random hierarchies of 2 to 8 structures, fields of all kinds, one or two parents in any place; distinct = pairs of paths to a field"
    ctx.assumptions = ["each level uses its own macro, as documented; names of fields are different"]
    ctx.lib()
    n = 10 if ctx.quick else 60

    def one(i):
        g = make(ctx, "inh%d" % i, i)
        mcc, dw = COMBOS[i % len(COMBOS)]
        label = "%s/%s/dwarf%d" % (g.name, mcc, dw)
        try:
            return label, g, build(ctx, g, mcc, dw)
        except Inconclusive as e:
            ctx.violation("inherit-build", "%s does not compile: %s" % (label, e), replay=listing(g))
            return label, g, None
    ps = pmap(one, range(n), workers=4)
    ctx.harness_many([(exe, (), label, dict(witness=lambda g=g: listing(g))) for label, g, exe in ps if exe])
    ctx.count("programs", n)


def check_util(ctx):
    ctx.rule = ("random histories of insertions and removals on several lists that share elements; formatted texts of every length up "
                "to 300 and random longer ones over small and large buffers; distinct = states of a list, lengths")
    ctx.assumptions = ["an element is in one list per link at a time, as with every intrusive list"]
    exe = ctx.plain("util", ["h_util.c"], ubsan=True)
    ctx.harness_many([(exe, (ctx.seed * 100 + i, 15 if ctx.quick else 300), "util/%d" % i) for i in range(4 if ctx.quick else 16)])
