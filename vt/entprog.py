"""Random programs of several units: where every entry is declared, and paths to members and parameters."""
import os
import random

BASE = ["char", "short", "int", "long", "double", "unsigned char", "float", "unsigned long"]


class Ty:
    """a type of the shared header"""
    def __init__(self, kind, name):
        self.kind, self.name, self.members, self.deps = kind, name, [], []

    def spell(self):
        return self.name if self.kind == "typedef" else "%s %s" % (self.kind, self.name)


class EP:
    def __init__(self, rng):
        self.r, self.types, self.text = rng, [], ""
        self.used = {}     # type name -> set of units
        self.u = 0

    def uniq(self, p):
        self.u += 1
        return "%s%d" % (p, self.u)

    # members: (name or None, kind of member, payload)
    def member(self, depth, pool):
        r, x = self.r, self.r.random()
        nm = self.uniq("m")
        if x < .35 or not pool and x < .7:
            return nm, "base", r.choice(BASE)
        if x < .7:
            t = r.choice(pool)
            form = r.random()
            if form < .6 and t.kind != "enum": return nm, "type", t
            if form < .8: return nm, "const", t
            return nm, "arr", (t, r.randint(1, 4))
        if x < .8: return nm, "ptr", r.choice(pool) if pool else None
        if depth and x < .95:
            return r.choice([nm, None]), r.choice(["struct", "union"]), [self.member(depth - 1, pool) for _ in range(r.randint(1, 3))]
        return nm, "bits", r.randint(1, 9)

    def render(self, ms):
        o = ""
        for nm, k, p in ms:
            if k == "base": o += "%s %s; " % (p, nm)
            elif k == "type": o += "%s %s; " % (p.spell(), nm)
            elif k == "const": o += "const volatile %s %s; " % (p.spell(), nm)
            elif k == "arr": o += "%s %s[%d]; " % (p[0].spell(), nm, p[1])
            elif k == "ptr": o += "%s *%s; " % (p.spell() if p else "void", nm)
            elif k == "bits": o += "unsigned %s:%d; " % (nm, p)
            else: o += "%s { %s} %s; " % (k, self.render(p), nm or "")
        return o

    def deps(self, ms):
        d = set()
        for nm, k, p in ms:
            if k in ("type", "const"): d.add(p)
            elif k == "ptr" and p: d.add(p)
            elif k == "arr": d.add(p[0])
            elif k in ("struct", "union"): d |= self.deps(p)
        return d

    def header(self):
        r = self.r
        for _ in range(r.randint(4, 8)):
            x = r.random()
            pool = list(self.types)
            if x < .55 or not pool:
                t = Ty(r.choice(["struct", "struct", "union"]), self.uniq("S"))
                t.members = [self.member(2, pool) for _ in range(r.randint(1, 5))]
                if r.random() < .2 and t.kind == "struct": t.members.append((self.uniq("m"), "ptr", t))
                t.deps = [d for d in self.deps(t.members) if d is not t]
                self.text += "%s { %s};\n" % (t.spell(), self.render(t.members))
            elif x < .7:
                t = Ty("enum", self.uniq("E"))
                self.text += "enum %s { %s_a, %s_b = %d };\n" % (t.name, t.name, t.name, r.randint(2, 99))
            elif x < .85:
                t = Ty("typedef", self.uniq("T")); d = r.choice(pool); t.deps = [d]; t.of = d
                self.text += "typedef %s%s %s;\n" % (r.choice(["", "const "]), d.spell(), t.name)
            else:
                t = Ty("typedef", self.uniq("T")); t.of = None
                t.members = [self.member(1, pool) for _ in range(r.randint(1, 4))]
                t.deps = list(self.deps(t.members)); t.anon = True
                self.text += "typedef struct { %s} %s;\n" % (self.render(t.members), t.name)
            self.types.append(t)

    def use(self, t, unit):
        s = self.used.setdefault(t.name, set())
        if unit in s: return
        s.add(unit)
        for d in t.deps: self.use(d, unit)

    def container(self, t):
        """(members, name of the struct) a value of the type has, through typedefs"""
        while t.kind == "typedef" and t.of is not None: t = t.of
        if t.kind == "enum": return None
        return (t.members, t.name if t.kind != "typedef" else "")

    def paths(self, v, t):
        """random paths into variable v"""
        r, out = self.r, []
        for _ in range(6):
            c = self.container(t)
            if c is None: return out
            ids, expr, par = [], v, ""
            ms, par = c
            bad = None
            while True:
                k = r.randrange(len(ms))
                nm, kind, p = ms[k]
                ids.append("{.n = \"%s\"}" % nm if nm and r.random() < .6 else "{.i = %d}" % k)
                if nm: expr += "." + nm
                inner = None
                if kind in ("struct", "union"): inner = (p, "")
                elif kind in ("type", "const"): inner = self.container(p)
                here = par
                if inner is None or r.random() < .3: break
                ms, par = inner
            sz = "0" if kind == "bits" or nm is None else "sizeof(%s)" % expr
            out.append("PATH(E(%s), %s, \"%s\", \"%s\", %s);" % (v, sz, nm or "", here, ", ".join(ids)))
            y = r.random()
            bad = list(ids)
            if y < .3: bad[-1] = r.choice(["{.i = -1}", "{.i = %d}" % len(ms), "{.i = 1000}", "{.n = \"%sx\"}" % (nm or ""), "{.n = \"\"}" if all(m[0] for m in ms) else "{.n = \" \"}"])
            elif y < .6 and inner is None: bad.append(r.choice(["{.i = 0}", "{.n = \"%s\"}" % (nm or "q")]))
            elif y < .8: bad.insert(0, "{.n = \"nothing\"}")
            else: continue
            out.append("NOPATH(E(%s), %s);" % (v, ", ".join(bad)))
        return out

    def block(self, depth, d, fn, file, outer, o):
        """declarations in a function; outer: [(loc, var)] of enclosing blocks"""
        r = self.r
        here = []
        ind = "    " * (d + 1)
        for _ in range(r.randint(1, 2)):
            l, v = self.uniq("l"), self.uniq("v")
            x = r.random()
            if x < .4:
                tg = self.uniq("L")
                o.append(ind + "struct %s { char c[%d]; %s };" % (tg, self.u, r.choice(["", "int a;", "void *p;"])))
                o.append(ind + "WITH_METAC_DECLLOC(%s, struct %s %s;)" % (l, tg, v))
                o.append(ind + "TYPEIN(%s, %s, \"%s\", 1);" % (l, v, fn))
            elif x < .5 and d == 0:
                # the same type in several functions is one type
                self.twins.append((l, v, fn))
                o.append(ind + "struct Twin { int a, b; };")
                o.append(ind + "WITH_METAC_DECLLOC(%s, struct Twin %s;)" % (l, v))
                o.append(ind + "TYPEIN(%s, %s, \"%s\", TWINS);" % (l, v, fn))
                if any(h[1] == "twin" for h in here): o[-3:] = []; self.twins.pop(); continue
                o.append(ind + "WITHIN(%s, %s, %d, \"%s\", \"%s\");" % (l, v, d, fn, file))
                here.append((l, "twin")); continue
            else:
                o.append(ind + "WITH_METAC_DECLLOC(%s, %s %s;)" % (l, r.choice(BASE), v))
            o.append(ind + "WITHIN(%s, %s, %d, \"%s\", \"%s\");" % (l, v, d, fn, file))
            for lo, vo in outer + here:
                if vo != "twin": o.append(ind + "INSIDE(%s, %s, %s, %s);" % (l, v, lo, vo))
            here.append((l, v))
            if depth and r.random() < .7:
                o.append(ind + "{")
                self.block(depth - 1, d + 1, fn, file, outer + here, o)
                o.append(ind + "}")


def make(ctx, name, i):
    rng = random.Random("ent/%s/%s/%s" % (ctx.seed, name, i))
    g = EP(rng)
    d = ctx.dir("p_" + name)
    g.dir, g.name, g.units, g.src = d, name, [], {}
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    g.header()
    pool = ["one.c", "sub/one.c", "two.c", "sub/Two.c", "th-ree.c"]
    rng.shuffle(pool)
    nu = rng.randint(1, 4)
    g.twins, bodies, later = [], [], []
    for k, p in enumerate(pool[:nu]):
        path = os.path.join(d, p)
        o = ['#include "entypes.h"', '#include "entrt.h"', "#define E(x) METAC_GSYM_LINK_ENTRY(x)"]
        run = []
        own = g.uniq("Own")
        o.append("struct %s { int a[%d]; };" % (own, g.u))
        vs = []
        for t in rng.sample(g.types, rng.randint(1, len(g.types))):
            v = g.uniq("g%d_" % k)
            st = rng.choice(["", "static "])
            o.append("%s%s %s;\nMETAC_GSYM_LINK(%s);" % (st, t.spell(), v, v))
            g.use(t, path)
            vs.append((v, t))
            run.append("PARENTS(E(%s), \"%s of %s\", \"%s\");" % (v, v, p, path))
            run += g.paths(v, t)
            run.append("COPY(E(%s));" % v)
            run.append("NOELEMS(E(%s));" % v)
            later.append((k, v, t))
        v = g.uniq("g%d_" % k)
        o.append("struct %s %s; METAC_GSYM_LINK(%s);" % (own, v, v))
        run.append("PARENTS(metac_entry_final_entry(E(%s), NULL), \"%s\", \"%s\");" % (v, own, path))
        v = g.uniq("g%d_" % k)
        o.append("%s %s%s; METAC_GSYM_LINK(%s);" % (rng.choice(["short", "short", "int"]), v, rng.choice(["[2][1009]", "[2][1009]", "[3][4][1013]", "[2][5][4][1019]"]), v))
        run.append("DIMS(E(%s));" % v)
        for _ in range(2):
            # something to count
            v, c, w = g.uniq("g%d_" % k), rng.randint(1, 9), rng.choice(["char", "long", "struct %s" % own, "struct %s *" % own, "TD"])
            if w == "TD":
                w = g.uniq("td%d_" % k)
                o.append("typedef %s;" % rng.choice(["long %s" % w, "struct %s %s" % (own, w), "int %s[3]" % w, "char *%s" % w]))
            form = rng.choice(["%s %s[%d]" % (w, v, c), "%s *%s" % (w, v), "%s %s[%d][3]" % (w, v, c)])
            o.append("%s; METAC_GSYM_LINK(%s);" % (form, v))
            run.append("ELEMS(E(%s), %d, %s);" % (v, c if "[" in form else 0, "sizeof(%s)%s" % (w, " * 3" if form.endswith("][3]") else "")))
            run.append("COPY(E(%s));" % v)
        for _ in range(rng.randint(1, 2)):
            # functions
            f = g.uniq("f%d_" % k)
            ps = []
            for q in range(rng.randint(0, 4)):
                t = rng.choice(BASE + [x[1] for x in vs])
                if isinstance(t, Ty): g.use(t, path)
                ptr = rng.choice(["", "*"])
                ps.append((("%s %s" % (t if isinstance(t, str) else t.spell(), ptr)), g.uniq("p")))
            o.append("%svoid %s(%s) {" % (rng.choice(["", "static "]), f, ", ".join("%s%s" % q for q in ps) or "void"))
            g.block(rng.randint(0, 3), 0, f, path, [], o)
            o.append("}\nMETAC_GSYM_LINK(%s);" % f)
            for q, (ty, nm) in enumerate(ps):
                run.append("PARAM(E(%s), %d, sizeof(%s), \"%s\", \"%s\", %s);" % (
                    f, len(ps), ty, nm, f, rng.choice(["{.i = %d}" % q, "{.n = \"%s\"}" % nm])))
            run.append("NOPARAM(E(%s), %s);" % (f, rng.choice(["{.i = %d}" % len(ps), "{.i = -1}", "{.n = \"p\"}", "{.n = \"\"}"])))
            run.append("NOPARAM(E(%s), {.i = 0});" % vs[0][0])
            run.append("NOPATH(E(%s), {.i = 0});" % f)
            run.append("PARENTS(E(%s), \"%s of %s\", \"%s\");" % (f, f, p, path))
            run.append("COPY(E(%s));" % f)
            run.append("{ %s %s(%s); }" % ("".join("static %s a%d; " % (ty, q) if "const" not in ty else "" for q, (ty, nm) in enumerate(ps)), f,
                                      ", ".join("a%d" % q for q in range(len(ps)))))
        bodies.append((path, o, run))
        g.units.append((path, "u%d" % k))
    for k, v, t in later:
        if t.kind == "typedef":
            continue
        e = "metac_entry_final_entry(E(%s), NULL)" % v
        bodies[k][2].append("PARENTS(%s, \"%s\", %s);" % (e, t.spell(), ", ".join('"%s"' % u for u in sorted(g.used[t.name]))))
    for path, o, run in bodies:
        k = [u[0] for u in g.units].index(path)
        o.append("void run_u%d(void) {\n    %s\n}" % (k, "\n    ".join(run)))
        g.src[path] = "\n".join(o) + "\n"
    # the name database leads to typedefs
    rows = ""
    for t in g.types:
        if t.kind == "typedef" and t.name in g.used:
            rows += '    PARENTS(td(METAC_DB_LINK_PTR(), "%s"), "typedef %s", %s);\n' % (t.name, t.name, ", ".join('"%s"' % u for u in sorted(g.used[t.name])))
    g.src[os.path.join(d, "entypes.h")] = "#ifndef ENTYPES\n#define ENTYPES\n#define TWINS %d\n%s#endif\n" % (len(g.twins), g.text)
    g.src[os.path.join(d, "main.c")] = ('#define EN_MAIN\n#include "entrt.h"\n%sMETAC_DB_LINK();\n'
        'static metac_entry_t *td(struct metac_db *db, const char *n) {\n#ifdef _METAC_OFF_\n    return 0;\n#else\n'
        '    if (db) for (int i = 0; i < db->db_v0.typedefs.items_count; i++) if (!strcmp(db->db_v0.typedefs.items[i].name, n)) return db->db_v0.typedefs.items[i].entries[0];\n    return NULL;\n#endif\n}\nint main(void) {\n%s%s    return vt_end();\n}\n') % (
            "".join("void run_%s(void);\n" % t for _, t in g.units), "".join("    run_%s();\n" % t for _, t in g.units), rows)
    g.units.append((os.path.join(d, "main.c"), "main"))
    for p, t in g.src.items():
        with open(p, "w") as f: f.write(t)
    return g
