"""Random functions and calls of them: captured arguments against the values that were passed."""
import os
import random

BASE = ["char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long",
        "long long", "unsigned long long", "_Bool", "float", "double", "long double",
        "float _Complex", "double _Complex", "long double _Complex"]
SMALL = ["char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "_Bool"]
FLT = ["float", "double"]


class AP:
    """types: ("b", c) ("e", name) ("s", k) ("p", text) ; a parameter is (type, spelling fn, name)"""

    def __init__(self, rng, odd):
        self.r, self.n, self.decls, self.code = rng, 0, "", ""
        self.structs = []       # (cname, [(fieldtype, access, text)])
        self.odd = odd          # structures that do not travel like an array of bytes of their size
        self.enums = []
        self.fns = []

    def nm(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def enum(self):
        r, e = self.r, self.nm("en")
        kind = r.randint(0, 3)
        vals = [[0, 1, 100, 127], [0, 1, 300, -300], [0, 70000, -70000, 5], [0, 1 << 40, -(1 << 33), 3]][kind]
        if r.random() < .4:
            vals = [abs(v) for v in vals]
        attr = "__attribute__((packed)) " if kind < 2 else ""
        self.decls += "enum %s%s { %s };\n" % (attr, e, ", ".join("%s_%d = %s%s" % (e, i, v, "L" if abs(v) > 1 << 31 else "") for i, v in enumerate(vals)))
        self.enums.append((e, len(vals)))
        return ("e", len(self.enums) - 1)

    def struct(self):
        """integer class in registers or anything in memory; odd: mixes that travel otherwise"""
        r, s = self.r, self.nm("st")
        kind = r.choice(["int", "int", "int", "mem", "mem"]) if not self.odd else r.choice(["sse", "mixed", "ld", "packed", "ldmem"])
        mem, ex = [], []
        pk = ""

        def add(c, f, arr=None, bits=None):
            mem.append("%s %s%s%s;" % (c, f, "[%d]" % arr if arr else "", " : %d" % bits if bits else ""))
            ex.append((c, f, arr, bits))
        if kind == "int":
            room = r.randint(1, 16)
            for _ in range(r.randint(1, 5)):
                c = r.choice(SMALL + ["void *"])
                sz = {"char": 1, "unsigned char": 1, "_Bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4}.get(c, 8)
                x = r.random()
                if x < .15 and c in ("int", "unsigned int"):
                    add(c, self.nm("f"), bits=r.randint(1, 31))
                elif x < .35 and sz < 4 and room >= 3:
                    n = r.randint(1, room)
                    add(c, self.nm("f"), arr=n)
                    sz *= n
                elif room >= sz:
                    add(c, self.nm("f"))
                room -= sz
            if not mem:
                add("char", self.nm("f"))
        elif kind == "mem":
            add("char", self.nm("f"), arr=r.randint(17, 60))
            for _ in range(r.randint(0, 4)):
                add(r.choice(SMALL + FLT), self.nm("f"), arr=r.choice([None, None, 3]))
            r.shuffle(mem)
        elif kind == "sse":
            c = r.choice(FLT)
            for _ in range(r.randint(1, 2 if c == "double" else 4)):
                add(c, self.nm("f"))
        elif kind == "mixed":
            a = [("double", self.nm("f")), (r.choice(["long", "int"]), self.nm("f"))]
            r.shuffle(a)
            for c, f in a:
                add(c, f)
        elif kind == "ld":
            add("long double", self.nm("f"))
        elif kind == "ldmem":
            add("int", self.nm("f"))
            add("long double", self.nm("f"))
        else:
            pk = "__attribute__((packed)) "
            add("char", self.nm("f"))
            add(r.choice(["long", "int", "double"]), self.nm("f"))
        kw = "struct"
        self.decls += "%s %s%s { %s };\n" % (kw, pk, s, " ".join(mem))
        k = len(self.structs)
        self.structs.append("%s %s" % (kw, s))
        mk, eq = [], []
        for c, f, arr, bits in ex:
            lv, rv = "o->" + f, "b->" + f
            idx = "[i]" if arr else ""
            loop = "for (int i = 0; i < %d; i++) " % arr if arr else ""
            mk.append(loop + self.rnd(c, lv + idx))
            eq.append(loop + "if (!(%s)) return 0;" % self.same(c, "o->%s%s" % (f, idx), "b->%s%s" % (f, idx)))
        self.code += "static void mks_%d(%s *o) { memset(o, 0, sizeof *o); %s }\n" % (k, self.structs[k], " ".join(mk))
        self.code += "static int eqs_%d(const %s *o, const %s *b) { %s return 1; }\n" % (k, self.structs[k], self.structs[k], " ".join(eq))
        return ("s", k)

    def rnd(self, c, l):
        if "_Complex" in c:
            f = c.replace(" _Complex", "")
            return "%s = (%s)a_dbl() + (%s)a_dbl() * 1.0i;" % (l, f, f)
        if c in ("float", "double", "long double"):
            return "%s = (%s)a_dbl();" % (l, c)
        if c == "_Bool":
            return "%s = vt_below(2);" % l
        if c.endswith("*"):
            return "%s = a_ptr();" % l
        return "%s = (%s)a_int();" % (l, c)

    def same(self, c, a, b):
        return "%s == %s" % (a, b)

    def spell(self, t, inner):
        if t[0] == "b":
            return "%s %s" % (t[1], inner)
        if t[0] == "e":
            return "enum %s %s" % (self.enums[t[1]][0], inner)
        if t[0] == "s":
            return "%s %s" % (self.structs[t[1]], inner)
        return t[1] % inner     # pointers: text with a place for the name

    def ptype(self):
        r = self.r
        base = r.choice(["void", "char", "int", "double", "long double", "const char", "unsigned long"] + self.structs)
        x = r.random()
        if x < .5:
            return ("p", base + " *%s")
        if x < .65:
            return ("p", base + " **%s")
        if x < .75 and base not in ("void",):
            return ("p", base + " (*%s)[3]")
        if x < .85 and base not in ("void",):
            return ("p", base + " %s[4]")        # array parameter: travels as a pointer
        return ("p", "int (*%s)(int, " + base + " *)")

    def param(self):
        r, x = self.r, self.r.random()
        if x < .5:
            t = ("b", r.choice(BASE))
        elif x < .6:
            t = ("e", r.randrange(len(self.enums)))
        elif x < .82 and self.structs:
            t = ("s", r.randrange(len(self.structs)))
        else:
            t = self.ptype()
        wrap = r.random()
        if t[0] != "p" and wrap < .15:
            td = self.nm("td")
            self.decls += "typedef %s;\n" % self.spell(t, td)
            return t, td + " %s"
        if t[0] != "p" and wrap < .25:
            return t, "const " + self.spell(t, "%s").replace("%%", "%")
        return t, self.spell(t, "%s")

    def function(self):
        r = self.r
        f = self.nm("fn")
        np_ = r.choice([0, 1, 2, 3, 5, 8, 12, 20])
        ps = [self.param() + ("a%d" % i,) for i in range(np_)]
        if self.odd and self.structs and not any(p[0][0] == "s" for p in ps):
            t = ("s", r.randrange(len(self.structs)))
            ps.insert(r.randint(0, len(ps)), (t, self.spell(t, "%s"), "ax"))
        ret = r.choice(["void", "int", "double", "char *", "_Bool", "long double", "float _Complex", "enum " + self.enums[0][0]] + self.structs[:2])
        if ret != "void" and r.random() < .3:
            td = self.nm("td")
            self.decls += "typedef %s %s;\n" % (ret, td)
            ret = td
        plist = ", ".join(p[1] % p[2] for p in ps) or "void"
        body = "" if ret == "void" else "static %s r; return r;" % (ret,)
        self.decls += "%s %s(%s);\ntypedef %s %s_t(%s);\n" % (ret, f, plist, ret, f, plist)
        self.code += "%s %s(%s) { %s }\nMETAC_GSYM_LINK(%s);\n" % (ret, f, plist, body, f)
        # locals: arrays are objects of their own, pointers random
        loc, mk, args, ver = [], [], [], []
        for i, (t, sp, n) in enumerate(ps):
            v = "v%d" % i
            if t[0] == "p":
                pt = (t[1] % v) if not t[1].endswith("[4]") else t[1].replace("%s[4]", "*" + v)
                loc.append(pt + ";")
                mk.append("*(void**)&%s = a_ptr();" % v)
                args.append(v)
                ver.append('a_num(f, x_, %d, "%s", &%s, sizeof(%s), !memcmp(A, &%s, sizeof(%s)));' % (i, n, v, v, v, v))
                continue
            loc.append(self.spell(t, v) + ";")
            if t[0] == "s":
                mk.append("mks_%d(&%s);" % (t[1], v))
                ok = "eqs_%d(A, &%s)" % (t[1], v)
            elif t[0] == "e":
                en, c = self.enums[t[1]]
                mk.append("{ enum %s x[] = {%s}; %s = x[vt_below(%d)]; }" % (en, ", ".join("%s_%d" % (en, j) for j in range(c)), v, c))
                ok = "*(enum %s*)A == %s" % (en, v)
            else:
                mk.append(self.rnd(t[1], v))
                ok = "*(%s*)A == %s" % (t[1], v)
            args.append(v)
            ver.append('a_num(f, x_, %d, "%s", &%s, sizeof(%s), %s);' % (i, n, v, v, ok))
        al = "".join(", " + a for a in args)
        texts = "".join('{ metac_value_t *x = metac_new_value(metac_entry_parameter_entry(metac_entry_by_paremeter_id(e, %d)), (void*)&v%d); a_text(f, &want, x, %d); }\n' % (i, i, i) for i in range(len(ps)))
        vcopy = self.nm("vw")
        self.code += """static metac_value_t *%(vw)s(metac_value_t *v, metac_tag_map_t *m, ...) { va_list ap; va_start(ap, m); metac_value_t *r = metac_value_parameter_vwrap(v, m, ap);
    if (r) a_again(v, r, m, ap); va_end(ap); return r; }
static void call_%(f)s(void) {
    const char *f = "%(f)s"; %(loc)s
    %(mk)s
    metac_entry_t *e = METAC_GSYM_LINK_ENTRY(%(f)s);
    WITH_METAC_DECLLOC(dl, %(f)s_t *fp = &%(f)s);
    metac_entry_t *pe = metac_entry_pointer_entry(METAC_ENTRY_FROM_DECLLOC(dl, fp));
    for (int way = 0; way < 3; way++) {
        metac_entry_t *ee = way == 2 ? pe : e;
        VT_CHECK(ee != NULL, "args-entry", "%(f)s: no entry (%%d)", way); if (!ee) continue;
        metac_parameter_storage_t *st = metac_new_parameter_storage();
        metac_value_t *c = metac_new_value(ee, st);
        c = way == 1 ? %(vw)s(c, NULL%(al)s) : metac_value_parameter_wrap(c, NULL%(al)s);
        vt_count("evals", 1); vt_count(way == 0 ? "direct" : way == 1 ? "va_list" : "function_pointer", 1);
        if (!c) { A_REFUSED("%(f)s: arguments refused"); metac_parameter_storage_delete(st); continue; }
        VT_CHECK(metac_value_parameter_count(c) == %(n)d, A_KEY("args-count"), "%(f)s: %%d arguments, passed %(n)d", (int)metac_value_parameter_count(c));
        if (metac_value_parameter_count(c) == %(n)d) {
            #define P(i) metac_value_parameter_new_item(c, i)
            %(ver)s
            #undef P
            VT_CHECK(metac_value_parameter_new_item(c, %(n)d) == NULL, "args-count", "%(f)s: argument past the end");
        }
        if (way < 2 && !A_ODD) {
            char *want = NULL; %(texts)s
            a_calltext(f, want, c); free(want);
        }
        /* the same call again is equal, a copy is equal and independent, another one is different */
        metac_parameter_storage_t *st2 = metac_new_parameter_storage();
        metac_value_t *c2 = metac_value_parameter_wrap(metac_new_value(ee, st2), NULL%(al)s);
        if (c2) a_pair(f, c, c2, st2, ee);
        metac_parameter_storage_delete(st2);
        metac_value_delete(c); metac_parameter_storage_delete(st);
    }
    metac_value_t *res = metac_new_value_with_call_result(e);
    VT_CHECK(%(res)s, "args-result", "%(f)s: result place");
    if (res) { size_t z = %(rsz)s; metac_size_t y = 0; VT_CHECK(metac_entry_byte_size(metac_value_entry(res), &y) == 0 && y == z, "args-result", "%(f)s: result of %%d bytes, not %%d", (int)y, (int)z); memset(metac_value_addr(res), 1, z); }
    metac_value_with_call_result_delete(res);
    metac_value_t *cp = metac_new_value_with_call_params(e);
    VT_CHECK(cp && metac_value_parameter_count(cp) == 0 && metac_value_has_parameter_load(cp), "args-new", "%(f)s: fresh call");
    if (cp) metac_value_with_call_params_delete(cp);
    vt_distinct(vt_hash(f, strlen(f), vt_rnd()));
}
""" % dict(f=f, vw=vcopy, loc=" ".join(loc), mk=" ".join(mk), al=al, n=len(ps),
           ver="\n            ".join(
               "{ metac_value_t *x_ = P(%d); void *A = x_ ? metac_value_addr(x_) : NULL; if (A) { %s } else VT_CHECK(0, A_KEY(\"args-missing\"), \"%s: no argument %d\"); }" % (
                   i, s, f, i) for i, s in enumerate(ver)),
           texts=texts, res=("res == NULL" if ret == "void" else "res != NULL"), rsz="0" if ret == "void" else "sizeof(%s)" % ret)
        self.fns.append((f, plist))


def make(ctx, name, seed, odd=False):
    rng = random.Random("%s/%s/%s/arg" % (ctx.seed, name, seed))
    g = AP(rng, odd)
    for _ in range(3):
        g.enum()
    for _ in range(6):
        g.struct()
    for _ in range(5 if odd else 14):
        g.function()
    g.name, g.dir = name, ctx.dir("p_" + name)
    g.main = os.path.join(g.dir, name + "_main.c")
    with open(os.path.join(g.dir, name + "_types.h"), "w") as f:
        f.write(g.decls)
    with open(g.main, "w") as f:
        f.write("#define A_ODD %d\n#include \"argrt.h\"\n#include \"%s_types.h\"\n" % (odd, name))
        f.write(g.code)
        f.write("int main(int argc, char **argv) { unsigned long long seed = strtoull(argv[1], 0, 10); int rounds = atoi(argv[2]);\n")
        f.write("    for (int r = 0; r < rounds; r++) { vt_seed(seed * 7919 + r);\n")
        for fn, pl in g.fns:
            f.write("        call_%s();\n" % fn)
        f.write("    }\n    vt_sample(\"%s(%s)\");\n    return vt_end();\n}\n" % (g.fns[0][0], g.fns[0][1]))
    return g
