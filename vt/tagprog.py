"""Random programs whose ambiguous parts are described by tags, with generated C oracles."""
import os
import random

INTS = ["char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long",
        "unsigned long", "long long", "unsigned long long"]
NUMS = INTS + ["double", "float", "_Bool"]


class TP:
    """types are ("b", ctype) | ("s", k) | ("p", type) | ("a", type, n)"""

    def __init__(self, rng, text=False):
        self.r = rng
        self.text = text            # only what can be written as an initializer
        self.n = 0
        self.decls, self.code, self.tags = "", "", ""
        self.structs = []           # names
        self.flex = {}              # k -> info
        self.hasptr = {}
        self.ents = []

    def nm(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def base(self):
        return ("b", self.r.choice(NUMS))

    def spell(self, t, inner=""):
        if t[0] == "b":
            return "%s %s" % (t[1], inner)
        if t[0] == "s":
            return "struct %s %s" % (self.structs[t[1]], inner)
        if t[0] == "p":
            return self.spell(t[1], ("(*%s)" if t[1][0] == "a" else "*%s") % inner)
        return self.spell(t[1], "%s[%d]" % (inner, t[2]))

    def plain(self, depth=1):
        r = self.r
        ok = [k for k in range(len(self.structs)) if k not in self.flex]
        x = r.random()
        if x < .35 and ok:
            return ("s", r.choice(ok))
        if x < .5 and depth:
            return ("p", self.plain(depth - 1))
        if x < .6 and depth:
            return ("a", self.plain(0), r.randint(1, 3))
        return self.base()

    # --- generated oracle code for an lvalue
    def mk(self, t, l):
        if t[0] == "b":
            if t[1] in ("double", "float"):
                return "%s = (%s)((int)vt_below(2000001) - 1000000) / 64;" % (l, t[1])
            if t[1] == "_Bool":
                return "%s = vt_below(2);" % l
            if t[1] == "char" and self.text:
                return "%s = 'a' + vt_below(26);" % l
            return "%s = (%s)vt_rnd();" % (l, t[1])
        if t[0] == "s":
            return "mk_%d(&%s, d);" % (t[1], l)
        if t[0] == "a":
            i = self.nm("i")
            return "for (int %s = 0; %s < %d; %s++) { %s }" % (i, i, t[2], i, self.mk(t[1], "%s[%s]" % (l, i)))
        v = self.nm("p")
        return "{ %s = NULL; if (d > 0 && t_budget-- > 0 && vt_below(4)) { %s = t_blk(sizeof(*%s)); %s = %s; int d0 = d; { int d = d0 - 1; %s } } }" % (
            l, self.spell(("p", t[1]), v), v, l, v, self.mk(t[1], "(*%s)" % v))

    def eq(self, t, a, b, path):
        if t[0] == "b":
            if t[1] in ("double", "float"):
                return 'if (%s - %s > 1e-6 || %s - %s > 1e-6) return t_bad("%s: %%g became %%g", (double)%s, (double)%s);' % (a, b, b, a, path, a, b)
            return 'if (%s != %s) return t_bad("%s: %%lld became %%lld", (long long)%s, (long long)%s);' % (a, b, path, a, b)
        if t[0] == "s":
            return "if (!eq_%d(&%s, &%s, ind)) return 0;" % (t[1], a, b)
        if t[0] == "a":
            i = self.nm("i")
            return "for (int %s = 0; %s < %d; %s++) { %s }" % (i, i, t[2], i, self.eq(t[1], "%s[%s]" % (a, i), "%s[%s]" % (b, i), path + "[]"))
        return 'if (!%s) { if (%s) return t_bad("%s: NULL became a pointer"); } else { if (!t_pair(%s, %s, sizeof(*%s), ind, "%s")) return 0; %s }' % (
            a, b, path, a, b, a, path, self.eq(t[1], "(*%s)" % a, "(*%s)" % b, "*" + path))

    def lf(self, t, l):
        if t[0] == "b":
            return "t_leaf(&%s, %s, 0);" % (l, "-1" if t[1] == "_Bool" else "sizeof(%s)" % l)
        if t[0] == "s":
            return "lf_%d(&%s);" % (t[1], l)
        if t[0] == "a":
            i = self.nm("i")
            return "for (int %s = 0; %s < %d; %s++) { %s }" % (i, i, t[2], i, self.lf(t[1], "%s[%s]" % (l, i)))
        return "if (%s) { t_leaf(&%s, sizeof(void*), 2); %s }" % (l, l, self.lf(t[1], "(*%s)" % l))

    def counter(self, name, mx):
        """a counter or selector member; returns declaration"""
        r = self.r
        x = r.random()
        if x < .15 and mx < 8:
            return "unsigned int %s : %d;" % (name, r.randint(4, 20))
        if x < .25:
            self.decls += "enum c%s { %s };\n" % (name, ", ".join("C%s_%d = %d" % (name, i, i) for i in range(mx + 1)))
            return "enum c%s %s;" % (name, name)
        return "%s %s;" % (r.choice(INTS), name)

    def decoys(self, c, mem, mk, eq, lf):
        """members whose names resemble the counter's: nothing may mistake them for it"""
        r = self.r
        for n in (c + "x", "x" + c, c[:-1], c + c):
            if r.random() < .3:
                mem.insert(r.randint(0, len(mem)) if r.random() < .3 else 0, "int %s;" % n)
                mk.append("o->%s = vt_below(70);" % n)
                eq.append(self.eq_num("a->" + n, "b->" + n, n))
                lf.append("t_leaf(&o->%s, 4, 0);" % n)

    def struct(self):
        r = self.r
        k = len(self.structs)
        sn = "ts%d" % k
        mem, mk, eq, lf, tags, pk = [], [], [], [], [], []
        flex, cs = None, []
        nf = r.randint(1, 4)
        kinds = ["num", "plain", "count", "count", "string", "union", "union", "cast", "slice", "list"]
        if self.text:
            kinds = ["num", "plain", "count", "count", "string", "union", "cast"]
        for i in range(nf):
            x = r.choice(kinds)
            if x == "num":
                t, f = self.base(), self.nm("f")
                mem.append(self.spell(t, f) + ";")
                mk.append(self.mk(t, "o->" + f)); eq.append(self.eq(t, "a->" + f, "b->" + f, f)); lf.append(self.lf(t, "o->" + f))
            elif x == "plain":
                t, f = self.plain(), self.nm("f")
                mem.append(self.spell(t, f) + ";")
                mk.append(self.mk(t, "o->" + f)); eq.append(self.eq(t, "a->" + f, "b->" + f, f)); lf.append(self.lf(t, "o->" + f))
            elif x == "count":
                t, f, c = self.plain(), self.nm("f"), self.nm("n") + "c"
                two = [self.spell(("p", t), f) + ";", self.counter(c, 7)]
                r.shuffle(two)
                mem += two
                cs.append(c)
                j = self.nm("i")
                loop = lambda body, o: "for (int %s = 0; %s < (int)%s->%s; %s++) { %s }" % (j, j, o, c, j, body)
                mk.append("o->%s = %s vt_below(8) ? 1 + vt_below(6) : 0; o->%s = NULL; if (d > 0 && t_budget-- > 0 && vt_below(6)) { o->%s = t_blk(sizeof(*o->%s) * o->%s); int d0 = d; { int d = d0 - 1; %s } }" % (
                    c, "", f, f, f, c, loop(self.mk(t, "o->%s[%s]" % (f, j)), "o")))
                eq.append(self.eq_num("a->" + c, "b->" + c, c))
                eq.append('if (!a->%s) { if (b->%s) return t_bad("%s: NULL became a pointer"); } else { if (!t_pair(a->%s, b->%s, sizeof(*a->%s) * (size_t)a->%s, ind, "%s")) return 0; %s }' % (
                    f, f, f, f, f, f, c, f, loop(self.eq(t, "a->%s[%s]" % (f, j), "b->%s[%s]" % (f, j), f + "[]"), "a")))
                lf.append("if (o->%s) { t_leaf(&o->%s, sizeof(void*), 2); %s }" % (f, f, loop(self.lf(t, "o->%s[%s]" % (f, j)), "o")))
                tags.append((f, "METAC_COUNT_BY(%s)" % c))
            elif x == "string":
                f = self.nm("s")
                q = r.choice(["", "", "volatile "]) if False else ""
                mem.append("%schar *%s;" % (q, f))
                mk.append("o->%s = NULL; if (vt_below(5) && t_budget-- > 0) { size_t n = vt_below(4) ? vt_below(9) : vt_below(60); char *s = t_blk(n + 1); for (size_t i = 0; i < n; i++) s[i] = \"abcz09 \\n\\t\\\\\\\"'?%%{},\"[vt_below(17)]; s[n] = 0; o->%s = s; }" % (f, f))
                eq.append('if (!a->%s) { if (b->%s) return t_bad("%s: NULL became a pointer"); } else { if (!t_pair(a->%s, b->%s, strlen(a->%s) + 1, ind, "%s")) return 0; if (strcmp(a->%s, b->%s)) return t_bad("%s: string differs"); }' % ((f,) * 10))
                lf.append("if (o->%s) { t_leaf(&o->%s, sizeof(void*), 2); if (*o->%s) t_leaf((void*)o->%s, 1, 0); }" % ((f,) * 4))
                tags.append((f, "METAC_ZERO_ENDED_STRING()"))
            elif x == "union":
                f, c = self.nm("u"), self.nm("n") + "c"
                anon = r.random() < .4
                ms = []
                for _ in range(r.randint(2, 5)):
                    ms.append((self.nm("m"), self.plain()))
                if all(t[0] != "p" for n, t in ms) and r.random() < .5:
                    ms.append((self.nm("m"), ("p", self.plain(0))))
                mode = r.choice(["id", "names", "ids", "perm"])
                ud = "union { %s }%s;" % (" ".join(self.spell(t, n) + ";" for n, t in ms), "" if anon else " " + f)
                ac = (lambda o, n: "%s->%s" % (o, n)) if anon else (lambda o, n: "%s->%s.%s" % (o, f, n))
                idx = len(mem)
                if mode == "perm":
                    perm = r.randrange(len(ms))
                    sel = [(perm, perm)]
                    mem.append(ud)
                    eid = idx
                    tagt = "METAC_UNION_MEMBER_PARMANENT_SELECTION(%d)" % perm
                    selx = lambda o: "%d" % perm
                    mk.append("")
                else:
                    if mode == "id":
                        sel = [(i, i) for i in range(len(ms))]
                        mx = len(ms)
                        tagt = "METAC_UNION_MEMBER_SELECT_BY(%s)" % c
                    else:
                        vals = r.sample(range(0, 100), len(ms))
                        sel = [(v, i) for i, v in enumerate(vals)]
                        r.shuffle(sel)
                        mx = 100
                        if r.random() < .4:
                            extra = r.choice([v for v in range(100) if v not in vals])
                            sel.append((extra, r.randrange(len(ms))))
                        tagt = "METAC_UNION_MEMBER_SELECT_BY(%s, %s)" % (c, ", ".join(
                            "{.fld_val = %d, .union_fld_name = \"%s\"}" % (v, ms[i][0]) if mode == "names" else
                            "{.fld_val = %d, .union_fld_id = %d}" % (v, i) for v, i in sel))
                    cd = self.counter(c, mx)
                    cs.append(c)
                    if r.random() < .5:
                        mem += [cd, ud]; eid = idx + 1
                    else:
                        mem += [ud, cd]; eid = idx
                    selx = lambda o: "(int)%s->%s" % (o, c)
                    mk.append("o->%s = (int[]){%s}[vt_below(%d)];" % (c, ", ".join(str(v) for v, i in sel), len(sel)))
                    eq.append(self.eq_num("a->" + c, "b->" + c, c))
                    badv = [v for v in range(16) if v not in [q for q, z in sel]]
                    if badv:
                        pk.append("o->%s = %d; return 1;" % (c, r.choice(badv)))
                sw = lambda o, fn: "switch (%s) { %s }" % (selx(o), " ".join("case %d: { %s break; }" % (v, fn(*ms[i])) for v, i in sel))
                if mode == "names" or mode == "ids":
                    pass
                mk.append(sw("o", lambda n, t: self.mk(t, ac("o", n))))
                eq.append(sw("a", lambda n, t: self.eq(t, ac("a", n), ac("b", n), n)))
                whole = ms[0][0]
                usz = "sizeof(union { %s })" % " ".join(self.spell(t, n) + ";" for n, t in ms)
                lf.append(sw("o", lambda n, t: self.lf(t, ac("o", n)) + " for (size_t i = sizeof(%s); i < %s; i++) t_leaf((char*)&%s + i, 1, 1);" % (ac("o", n), usz, ac("o", n))))
                tags.append((None if anon else f, tagt, None if not anon else (mem, ud)))
            elif x == "cast":
                f, c, n = self.nm("v"), self.nm("n") + "c", self.nm("n") + "c"
                cases = [(v, self.plain(0)) for v in r.sample(range(0, 60), r.randint(1, 4))]
                cnt = r.random() < .6
                ds = ["void *%s;" % f, self.counter(c, 60)]
                if cnt:
                    ds.append(self.counter(n, 7))
                r.shuffle(ds)
                mem += ds
                cs += [c] + ([n] if cnt else [])
                j = self.nm("i")
                cn = (lambda o: "(int)%s->%s" % (o, n)) if cnt else (lambda o: "1")
                sw = lambda o, fn: "switch ((int)%s->%s) { %s }" % (o, c, " ".join("case %d: { %s break; }" % (v, fn(t)) for v, t in cases))
                mk.append("o->%s = (int[]){%s}[vt_below(%d)]; %s o->%s = NULL;" % (c, ", ".join(str(v) for v, t in cases), len(cases), "o->%s = vt_below(7) ? 1 + vt_below(4) : 0;" % n if cnt else "", f))
                el = lambda t, o: "((%s)%s->%s)[%s]" % (self.spell(("p", t)), o, f, j)
                lp = lambda o, body: "for (int %s = 0; %s < %s; %s++) { %s }" % (j, j, cn(o), j, body)
                mk.append("if (d > 0 && t_budget-- > 0 && vt_below(6)) { int d0 = d; { int d = d0 - 1; %s } }" % sw("o", lambda t: "o->%s = t_blk(sizeof(%s) * %s); %s" % (f, self.spell(t), cn("o"), lp("o", self.mk(t, el(t, "o"))))))
                eq.append(self.eq_num("a->" + c, "b->" + c, c))
                if cnt:
                    eq.append(self.eq_num("a->" + n, "b->" + n, n))
                eq.append('if (!a->%s) { if (b->%s) return t_bad("%s: NULL became a pointer"); } else { %s }' % (
                    f, f, f, sw("a", lambda t: 'if (!t_pair(a->%s, b->%s, sizeof(%s) * (size_t)%s, ind, "%s")) return 0; %s' % (
                        f, f, self.spell(t), cn("a"), f, lp("a", self.eq(t, el(t, "a"), el(t, "b"), f + "[]"))))))
                lf.append("if (o->%s) { t_leaf(&o->%s, sizeof(void*), 2); %s }" % (f, f, sw("o", lambda t: lp("o", self.lf(t, el(t, "o"))))))
                badv = [v for v in range(16) if v not in [q for q, z in cases]]
                pk.append("if (!o->%s) return 0; o->%s = %d; return 1;" % (f, c, r.choice(badv)))
                tags.append((f, "METAC_CAST_PTR(%s, %s, %s)" % (n if cnt else "", c, ", ".join(
                    "{.fld_val = %d, .p_ptr_entry = METAC_ENTRY_OF(%s)}" % (v, self.spell(("p", t))) for v, t in cases))))
            elif x == "slice":
                # two counted pointers to overlapping parts of one array
                t = self.plain(0)
                f, c, g, e = self.nm("f"), self.nm("n") + "c", self.nm("g"), self.nm("n") + "c"
                two = [self.spell(("p", t), f) + ";", self.counter(c, 7), self.spell(("p", t), g) + ";", self.counter(e, 7)]
                r.shuffle(two)
                mem += two
                cs += [c, e]
                j = self.nm("i")
                lp = lambda o, cc, body: "for (int %s = 0; %s < (int)%s->%s; %s++) { %s }" % (j, j, o, cc, j, body)
                mk.append("o->%s = 1 + vt_below(6); o->%s = 1; o->%s = NULL; o->%s = NULL; if (d > 0 && t_budget-- > 0) { o->%s = t_blk(sizeof(*o->%s) * o->%s); int d0 = d; { int d = d0 - 1; %s } int off = vt_below(o->%s); if (vt_below(4)) { t_shared++; o->%s = o->%s + off; o->%s = 1 + vt_below((int)o->%s - off); } }" % (
                    c, e, f, g, f, f, c, lp("o", c, self.mk(t, "o->%s[%s]" % (f, j))), c, g, f, e, c))
                for (p, cc) in ((f, c), (g, e)):
                    eq.append(self.eq_num("a->" + cc, "b->" + cc, cc))
                    eq.append('if (!a->%s) { if (b->%s) return t_bad("%s: NULL became a pointer"); } else { if (!t_pair(a->%s, b->%s, sizeof(*a->%s) * (size_t)a->%s, ind, "%s")) return 0; %s }' % (
                        p, p, p, p, p, p, cc, p, lp("a", cc, self.eq(t, "a->%s[%s]" % (p, j), "b->%s[%s]" % (p, j), p + "[]"))))
                    tags.append((p, "METAC_COUNT_BY(%s)" % cc))
                lf.append("if (o->%s) { %s }" % (f, lp("o", c, self.lf(t, "o->%s[%s]" % (f, j)))))
            elif x == "list":
                # intrusive list: links point to links inside of bigger nodes
                q = self.nm("q")
                t1, t2 = self.base(), self.plain(0)
                if r.random() < .6:
                    t1 = ("a", t1, r.choice([2, 5, 17, 33, 300]))
                self.decls += "struct lk%s { struct lk%s *next; };\nstruct nd%s { %s; struct lk%s l; %s; };\n" % (
                    q, q, q, self.spell(t1, "x"), q, self.spell(t2, "y"))
                off = "(char*)%%s - __builtin_offsetof(struct nd%s, l)" % q
                self.code += "static void mkl_%s(struct lk%s **o, int d) { *o = NULL; int n = vt_below(5); while (n-- > 0 && d > 0 && t_budget-- > 0) { struct nd%s *x = t_blk(sizeof *x); t_lists++; x->l.next = NULL; %s %s *o = &x->l; o = &x->l.next; } }\n" % (
                    q, q, q, self.mk(t1, "x->x"), self.mk(t2, "x->y"))
                self.code += 'static int eql_%s(struct lk%s *a, struct lk%s *b, int ind) { for (; a; a = a->next, b = b->next) { if (!b) return t_bad("list became shorter"); struct nd%s *x = (void*)(%s), *y = (void*)(%s); if (!t_pair(x, y, sizeof *x, ind, "list")) return 0; %s %s } return !b || t_bad("list became longer"); }\n' % (
                    q, q, q, q, off % "a", off % "b", self.eq(t1, "x->x", "y->x", "x"), self.eq(t2, "x->y", "y->y", "y"))
                self.code += "static void lfl_%s(struct lk%s *a) { for (; a; a = a->next) { struct nd%s *x = (void*)(%s); %s %s } }\n" % (
                    q, q, q, off % "a", self.lf(t1, "x->x"), self.lf(t2, "x->y"))
                f = self.nm("h")
                direct = r.random() < .5
                mem.append("struct lk%s %s%s;" % (q, "*" if direct else "", f))
                fx = f if direct else f + ".next"
                mk.append("mkl_%s(&o->%s, d);" % (q, fx)); eq.append("if (!eql_%s(a->%s, b->%s, ind)) return 0;" % (q, fx, fx)); lf.append("lfl_%s(o->%s);" % (q, fx))
                ct = "METAC_CONTAINER_OF(struct nd%s, l)" % q
                self.ents.append(("struct lk%s" % q, [("next", ct)]))
                if direct:
                    tags.append((f, ct))
        if not mem:
            raise AssertionError
        if k and not self.text and r.random() < .25:
            # counted flexible array at the end; the structure lives behind a pointer only
            t, f, c = self.plain(0), self.nm("x"), self.nm("n") + "c"
            mem += [self.counter(c, 7), self.spell(t, f + "[]") + ";"]
            cs.append(c)
            j = self.nm("i")
            lp = lambda o, body: "for (int %s = 0; %s < (int)%s->%s; %s++) { %s }" % (j, j, o, c, j, body)
            flex = dict(c=c, el=t)
            mk.append("o->%s = fl; %s" % (c, lp("o", self.mk(t, "o->%s[%s]" % (f, j)))))
            eq.append(self.eq_num("a->" + c, "b->" + c, c) + lp("a", self.eq(t, "a->%s[%s]" % (f, j), "b->%s[%s]" % (f, j), f + "[]")))
            lf.append(lp("o", self.lf(t, "o->%s[%s]" % (f, j))))
            tags.append((f, "METAC_COUNT_BY(%s)" % c))
        for c in cs:
            self.decoys(c, mem, mk, eq, lf)
        if flex:            # the flexible array stays last
            fx = [m for m in mem if m.rstrip(";").endswith("[]")][0]
            mem.remove(fx)
            mem.append(fx)
        self.structs.append(sn)
        if flex:
            self.flex[k] = flex
        self.decls += "struct %s {\n    %s\n};\n" % (sn, "\n    ".join(mem))
        fl = ", int fl" if flex else ""
        self.code += "static void mk_%d(struct %s *o, int d%s) { (void)d;\n  %s\n}\n" % (k, sn, fl, "\n  ".join(mk))
        self.code += "static int eq_%d(const struct %s *a, const struct %s *b, int ind) {\n  %s\n  return 1;\n}\n" % (k, sn, sn, "\n  ".join(eq))
        self.code += "static void lf_%d(struct %s *o) {\n  %s\n}\n" % (k, sn, "\n  ".join(lf))
        self.code += "static int pk_%d(struct %s *o) { switch (vt_below(%d)) { %s } return 0; }\n" % (
            k, sn, max(1, len(pk)), " ".join("case %d: { %s }" % (i, q) for i, q in enumerate(pk)))
        row = []
        for tg in tags:
            if tg[0] is None:
                row.append((mem.index(tg[2][1]), tg[1]))
            else:
                row.append((tg[0], tg[1]))
        if row:
            self.ents.append(("struct " + sn, row))
        if flex:
            # owner of one object with a flexible tail
            self.owner(k, sn)

    def eq_num(self, a, b, p):
        return 'if (%s != %s) return t_bad("%s: %%lld became %%lld", (long long)%s, (long long)%s);' % (a, b, p, a, b)

    def owner(self, k, sn):
        j = len(self.structs)
        self.structs.append("ow%d" % k)
        el = self.spell(self.flex[k]["el"])
        size = "__builtin_offsetof(struct %s, %s) " % (sn, "%s")
        f = [l for l in self.decls.split("\n") if "[];" in l][-1].strip().split()[-1].replace("[];", "").replace("*", "")
        sz = lambda o: "(sizeof(struct %s) > __builtin_offsetof(struct %s, %s) + sizeof(%s) * %s ? sizeof(struct %s) : __builtin_offsetof(struct %s, %s) + sizeof(%s) * %s)" % (
            sn, sn, f, el, o, sn, sn, f, el, o)
        self.decls += "struct ow%d { int z; struct %s *p; };\n" % (k, sn)
        self.code += "static void mk_%d(struct ow%d *o, int d) { o->z = vt_rnd(); o->p = NULL; if (d > 0 && t_budget-- > 0 && vt_below(5)) { int n = 1 + vt_below(5); o->p = t_blk(%s); mk_%d(o->p, d - 1, n); } }\n" % (j, k, sz("n"), k)
        self.code += 'static int eq_%d(const struct ow%d *a, const struct ow%d *b, int ind) { if (a->z != b->z) return t_bad("z differs"); if (!a->p) return !b->p || t_bad("NULL became a pointer"); return t_pair(a->p, b->p, %s, ind, "p") && eq_%d(a->p, b->p, ind); }\n' % (
            j, k, k, sz("(int)a->p->" + self.flex[k]["c"]), k)
        self.code += "static int pk_%d(struct ow%d *o) { return o->p ? pk_%d(o->p) : 0; }\n" % (j, k, k)
        self.code += "static void lf_%d(struct ow%d *o) { t_leaf(&o->z, 4, 0); if (o->p) { t_leaf(&o->p, sizeof(void*), 2); lf_%d(o->p); } }\n" % (j, k, k)


def make(ctx, name, i, text=False, n=6):
    rng = random.Random("tag/%s/%s/%s" % (ctx.seed, name, i))
    g = TP(rng, text)
    for _ in range(n):
        g.struct()
    d = ctx.dir("p_" + name)
    open(os.path.join(d, name + "_types.h"), "w").write("#pragma once\n#include <stddef.h>\n" + g.decls)
    tops = [k for k in range(len(g.structs)) if k not in g.flex]
    m = '#include "%s_types.h"\n#include "metac/reflect.h"\n' % name
    for k in tops:
        m += "struct %s tv%d;\nMETAC_GSYM_LINK(tv%d);\nmetac_entry_t *tent_%d(void) { return METAC_GSYM_LINK_ENTRY(tv%d); }\n" % (g.structs[k], k, k, k, k)
    m += """METAC_TAG_MAP_NEW(new_map, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable) |
   METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) |
   METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)},)
"""
    for ty, rows in g.ents:
        m += "  METAC_TAG_MAP_ENTRY_FROM_TYPE(%s)\n" % ty
        for f, tg in rows:
            m += "    METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({%s}), %s)\n" % (
                ".i = %d" % f if isinstance(f, int) else ".n = \"%s\"" % f, tg)
        m += "  METAC_TAG_MAP_ENTRY_END\n"
    m += "METAC_TAG_MAP_END\n"
    open(os.path.join(d, name + "_main.c"), "w").write(m)
    o = '#include "%s_types.h"\n#include "tagrt.h"\n' % name + g.code
    rows = []
    for k in tops:
        o += "metac_entry_t *tent_%d(void);\nstatic void MK_%d(void *o) { mk_%d(o, 6); }\nstatic int EQ_%d(const void *a, const void *b, int i) { return eq_%d(a, b, i); }\nstatic void LF_%d(void *o) { lf_%d(o); }\nstatic int PK_%d(void *o) { return pk_%d(o); }\n" % ((k,) * 9)
        rows.append('{"%s", sizeof(struct %s), tent_%d, MK_%d, EQ_%d, LF_%d, PK_%d}' % (g.structs[k], g.structs[k], k, k, k, k, k))
    o += "static struct tt { const char *name; size_t size; metac_entry_t *(*entry)(void); void (*mk)(void*); int (*eq)(const void*, const void*, int); void (*lf)(void*); int (*pk)(void*); } tt[] = {\n%s\n};\nstatic int ntt = %d;\n" % (",\n".join(rows), len(rows))
    o += '#include "h_tags.c"\n'
    open(os.path.join(d, name + "_oracle.c"), "w").write(o)
    g.name, g.dir, g.tops = name, d, tops
    g.main, g.oracle = os.path.join(d, name + "_main.c"), os.path.join(d, name + "_oracle.c")
    return g
