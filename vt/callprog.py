"""Random functions whose arguments lead to heap graphs described by tags: deep operations on captured calls."""
import os
import random

from .tagprog import TP, INTS

VA = [("%d", "int", "(int)vt_rnd()"), ("%ld", "long", "(long)vt_rnd()"), ("%f", "double", "((int)vt_below(2001) - 1000) / 64.0"),
      ("%s", "char *", None), ("%c", "int", "'a' + vt_below(26)"), ("%hhu", "int", "(unsigned char)vt_rnd()"), ("%llx", "unsigned long long", "vt_rnd()"),
      ("%Lf", "long double", "((int)vt_below(2001) - 1000) / 64.0L")]


class CP(TP):
    def __init__(self, rng):
        super().__init__(rng)
        self.fns, self.main = [], ""

    def byval(self):
        ok = [k for k in range(len(self.structs)) if k not in self.flex]
        k = self.r.choice(ok)
        n = "bv%d" % len(self.structs)
        self.decls += "struct %s { char pad[17]; struct %s v; };\n" % (n, self.structs[k])
        j = len(self.structs)
        self.structs.append(n)
        self.code += "static void mk_%d(struct %s *o, int d) { for (int i = 0; i < 17; i++) o->pad[i] = vt_rnd(); mk_%d(&o->v, d); }\n" % (j, n, k)
        self.code += 'static int eq_%d(const struct %s *a, const struct %s *b, int ind) { if (memcmp(a->pad, b->pad, 17)) return t_bad("pad differs"); return eq_%d(&a->v, &b->v, ind); }\n' % (j, n, n, k)
        self.code += "static void lf_%d(struct %s *o) { t_leaf(&o->pad[vt_below(17)], 1, 0); lf_%d(&o->v); }\n" % (j, n, k)
        return ("s", j)

    def function(self):
        r, f = self.r, self.nm("call")
        fld, mk, eq, lf, tags, par = [], [], [], [], [], []

        def simple(t, n):
            fld.append(self.spell(t, n) + ";"); par.append((self.spell(t, n), n))
            mk.append(self.mk(t, "o->" + n)); eq.append(self.eq(t, "a->" + n, "b->" + n, n)); lf.append(self.lf(t, "o->" + n))
        ok = [("s", k) for k in range(len(self.structs)) if k not in self.flex]
        shared = None
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            x = r.choice(["num", "sptr", "sptr", "ptr", "count", "count", "string", "byval", "alias"])
            n = self.nm("a")
            if x == "num":
                simple(self.base(), n)
            elif x == "sptr":
                t = ("p", r.choice(ok)); simple(t, n); shared = shared or (t, n)
            elif x == "ptr":
                simple(("p", self.plain(1)), n)
            elif x == "alias" and shared:
                # the same block passed twice
                t, o = shared
                fld.append(self.spell(t, n) + ";"); par.append((self.spell(t, n), n))
                mk.append("o->%s = vt_below(3) ? o->%s : NULL; if (o->%s) t_shared++;" % (n, o, n))
                eq.append(self.eq(t, "a->" + n, "b->" + n, n))
            elif x == "count":
                t, c = self.plain(), self.nm("n")
                ct = r.choice(INTS)
                two = [(self.spell(("p", t), n), n), ("%s %s" % (ct, c), c)]
                r.shuffle(two)
                par += two
                fld += [two[0][0] + ";", two[1][0] + ";"]
                j = self.nm("i")
                lp = lambda o, body: "for (int %s = 0; %s < (int)%s->%s; %s++) { %s }" % (j, j, o, c, j, body)
                mk.append("o->%s = vt_below(8) ? 1 + vt_below(6) : 0; o->%s = NULL; if (t_budget-- > 0 && vt_below(6)) { o->%s = t_blk(sizeof(*o->%s) * o->%s); int d0 = d; { int d = d0 - 1; %s } }" % (
                    c, n, n, n, c, lp("o", self.mk(t, "o->%s[%s]" % (n, j)))))
                eq.append(self.eq_num("a->" + c, "b->" + c, c))
                eq.append('if (!a->%s) { if (b->%s) return t_bad("%s: NULL became a pointer"); } else { if (!t_pair(a->%s, b->%s, sizeof(*a->%s) * (size_t)a->%s, ind, "%s")) return 0; %s }' % (
                    n, n, n, n, n, n, c, n, lp("a", self.eq(t, "a->%s[%s]" % (n, j), "b->%s[%s]" % (n, j), n + "[]"))))
                lf.append("if (o->%s) { t_leaf(&o->%s, sizeof(void*), 2); %s }" % (n, n, lp("o", self.lf(t, "o->%s[%s]" % (n, j)))))
                tags.append((n, "METAC_COUNT_BY(%s)" % c))
            elif x == "string":
                fld.append("char *%s;" % n); par.append(("char *%s" % n, n))
                mk.append("o->%s = vt_below(5) ? c_str() : NULL;" % n)
                eq.append('if (!a->%s) { if (b->%s) return t_bad("%s: NULL became a pointer"); } else { if (!t_pair(a->%s, b->%s, strlen(a->%s) + 1, ind, "%s")) return 0; if (strcmp(a->%s, b->%s)) return t_bad("%s: string differs"); }' % ((n,) * 10))
                lf.append("if (o->%s) { t_leaf(&o->%s, sizeof(void*), 2); if (*o->%s) t_leaf((void*)o->%s, 1, 0); }" % ((n,) * 4))
                tags.append((n, "METAC_ZERO_ENDED_STRING()"))
            elif x == "byval":
                simple(self.byval(), n)
            elif x == "cast":
                c = self.nm("n")
                cases = [(v, self.plain(0)) for v in r.sample(range(0, 60), r.randint(1, 3))]
                two = [("void *" + n, n), ("%s %s" % (r.choice(INTS), c), c)]
                r.shuffle(two)
                par += two
                fld += [q[0] + ";" for q in two]
                el = lambda t, o: "(*(%s)%s->%s)" % (self.spell(("p", t)), o, n)
                sw = lambda o, fn: "switch ((int)%s->%s) { %s }" % (o, c, " ".join("case %d: { %s break; }" % (v, fn(t)) for v, t in cases))
                mk.append("o->%s = (int[]){%s}[vt_below(%d)]; o->%s = NULL;" % (c, ", ".join(str(v) for v, t in cases), len(cases), n))
                mk.append("if (t_budget-- > 0 && vt_below(6)) { int d0 = d; { int d = d0 - 1; %s } }" % sw("o", lambda t: "o->%s = t_blk(sizeof(%s)); %s" % (n, self.spell(t), self.mk(t, el(t, "o")))))
                eq.append(self.eq_num("a->" + c, "b->" + c, c))
                eq.append('if (!a->%s) { if (b->%s) return t_bad("%s: NULL became a pointer"); } else { %s }' % (
                    n, n, n, sw("a", lambda t: 'if (!t_pair(a->%s, b->%s, sizeof(%s), ind, "%s")) return 0; %s' % (n, n, self.spell(t), n, self.eq(t, el(t, "a"), el(t, "b"), n)))))
                lf.append("if (o->%s) { t_leaf(&o->%s, sizeof(void*), 2); %s }" % (n, n, sw("o", lambda t: self.lf(t, el(t, "o")))))
                tags.append((n, "METAC_CAST_PTR(, %s, %s)" % (c, ", ".join("{.fld_val = %d, .p_ptr_entry = METAC_ENTRY_OF(%s)}" % (v, self.spell(("p", t))) for v, t in cases))))
        va = ""
        vargs = []
        if r.random() < .5:
            fm = self.nm("a")
            fmt = ""
            fld.append("char *%s;" % fm); par.append(("char *%s" % fm, fm))
            for i in range(r.choice([0, 1, 2, 5])):
                s, ct, v = r.choice(VA)
                fmt += s + r.choice(["", " ", ":"])
                g = self.nm("va")
                fld.append("%s %s;" % (ct, g))
                vargs.append(g)
                mk.append("o->%s = %s;" % (g, v or "c_str()"))
                if v is None:
                    eq.append('if (strcmp(a->%s, b->%s)) return t_bad("%s: variadic string differs"); if (ind && a->%s == b->%s) return t_bad("%s: variadic string shared");' % ((g,) * 6))
                    lf.append("if (*o->%s) t_leaf((void*)o->%s, 1, 0);" % (g, g))
                elif "long double" == ct:
                    eq.append('if (a->%s != b->%s) return t_bad("%s: variadic differs");' % (g, g, g))
                else:
                    eq.append('if (a->%s != b->%s) return t_bad("%s: variadic differs");' % (g, g, g))
                    lf.append("t_leaf(&o->%s, %s, 0);" % (g, "1" if s in ("%c", "%hhu") else "sizeof(o->%s)" % g))
            mk.append('o->%s = t_blk(sizeof "%s"); strcpy(o->%s, "%s");' % (fm, fmt, fm, fmt))
            eq.append('if (!t_pair(a->%s, b->%s, strlen(a->%s) + 1, ind, "%s")) return 0; if (strcmp(a->%s, b->%s)) return t_bad("format differs");' % ((fm,) * 6))
            tags.append((fm, "METAC_ZERO_ENDED_STRING()"))
            tags.append((len(par), "METAC_FORMAT_BASED_VA_ARG()"))
            va = ", ..."
        if not fld:
            fld.append("char none;")
        self.decls += "struct fa_%s { %s };\n" % (f, " ".join(fld))
        pl = ", ".join(p for p, n in par) + va or "void"
        ret = r.choice(["void", "int", "char *"])
        self.main += "%s %s(%s) { %s }\nMETAC_GSYM_LINK(%s);\n" % (ret, f, pl, "" if ret == "void" else "return 0;", f)
        al = "".join(", o->" + n for p, n in par) + "".join(", o->" + g for g in vargs)
        un = []
        for i, (p, n) in enumerate(par):
            un.append("if (!c_take(v, %d, &o->%s, sizeof o->%s)) return 0;" % (i, n, n))
        for i, g in enumerate(vargs):
            isstr = ("char * %s;" % g) in fld
            un.append("if (!c_takeva(v, %d, %d, &o->%s, sizeof o->%s, %d)) return 0;" % (len(par), i, g, g, isstr))
        n_ = len(par) + (1 if va else 0)
        self.main += "metac_entry_t *ent_%s(void) { return METAC_GSYM_LINK_ENTRY(%s); }\n" % (f, f)
        self.main += "metac_value_t *wrap_%s(const void *p, metac_tag_map_t *m) { const struct fa_%s *o = p; (void)o; metac_value_t *v = metac_new_value_with_call_params(METAC_GSYM_LINK_ENTRY(%s)); return metac_value_parameter_wrap(v, m%s); }\n" % (f, f, f, al)
        self.code += "static int un_%s(metac_value_t *v, void *p) { struct fa_%s *o = p; (void)o; if (metac_value_parameter_count(v) != %d) return t_bad(\"%%d parameters instead of %d\", (int)metac_value_parameter_count(v)); %s return 1; }\n" % (f, f, n_, n_, " ".join(un))
        self.code += "static void mk_%s(void *p) { struct fa_%s *o = p; int d = 5; (void)o; (void)d; %s }\n" % (f, f, "\n ".join(mk))
        self.code += "static int eq_%s(const void *p, const void *q, int ind) { const struct fa_%s *a = p, *b = q; (void)a; (void)b; %s return 1; }\n" % (f, f, "\n ".join(eq))
        self.code += "static void lf_%s(void *p) { struct fa_%s *o = p; (void)o; %s }\n" % (f, f, "\n ".join(lf))
        self.fns.append((f, pl, tags))


def make(ctx, name, i, nfn):
    rng = random.Random("call/%s/%s/%s" % (ctx.seed, name, i))
    g = CP(rng)
    for _ in range(4):
        g.struct()
    for _ in range(nfn):
        g.function()
    d = ctx.dir("p_" + name)
    open(os.path.join(d, name + "_types.h"), "w").write("#pragma once\n#include <stddef.h>\n" + g.decls)
    m = '#include "%s_types.h"\n#include "metac/reflect.h"\n%s' % (name, g.main)
    m += """METAC_TAG_MAP_NEW(new_map, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable) |
   METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) |
   METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)},)
"""
    for ty, rows in g.ents:
        m += "  METAC_TAG_MAP_ENTRY_FROM_TYPE(%s)\n" % ty
        for f, tg in rows:
            m += "    METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({%s}), %s)\n" % (
                ".i = %d" % f if isinstance(f, int) else ".n = \"%s\"" % f, tg)
        m += "  METAC_TAG_MAP_ENTRY_END\n"
    for fn, pl, rows in g.fns:
        if not rows:
            continue
        m += "  METAC_TAG_MAP_ENTRY(METAC_GSYM_LINK_ENTRY(%s))\n" % fn
        for f, tg in rows:
            m += "    METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({%s}), %s)\n" % (
                ".i = %d" % f if isinstance(f, int) else ".n = \"%s\"" % f, tg)
        m += "  METAC_TAG_MAP_ENTRY_END\n"
    m += "METAC_TAG_MAP_END\n"
    open(os.path.join(d, name + "_main.c"), "w").write(m)
    o = '#include "%s_types.h"\n#include "callrt.h"\n' % name + g.code
    rows = []
    for fn, pl, _ in g.fns:
        o += "metac_entry_t *ent_%s(void); metac_value_t *wrap_%s(const void*, metac_tag_map_t*);\n" % (fn, fn)
        rows.append('{"%s(%s)", "%s", sizeof(struct fa_%s), ent_%s, wrap_%s, un_%s, mk_%s, eq_%s, lf_%s}' % ((fn, pl) + (fn,) * 8))
    o += "static struct cf cf[] = {\n%s\n};\nstatic int ncf = %d;\n" % (",\n".join(rows), len(rows))
    o += '#include "h_calls.c"\n'
    open(os.path.join(d, name + "_oracle.c"), "w").write(o)
    g.name, g.dir = name, d
    g.main, g.oracle = os.path.join(d, name + "_main.c"), os.path.join(d, name + "_oracle.c")
    return g
