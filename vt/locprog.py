"""Random programs full of declaration locations, global symbol links and a name database: every lookup has one right answer."""
import os
import random

NAMES = ["a", "b", "aa", "a_", "ab", "B", "x", "x1", "_z", "a_variable_with_a_long_name_1", "a_variable_with_a_long_name_2",
         "a_variable_with_a_long_name_12", "a_variable_with_a_long_name_that_is_even_longer_than_the_other_names_of_this_list_x",
         "a_variable_with_a_long_name_that_is_even_longer_than_the_other_names_of_this_list_y"]
LOCS = ["l", "l1", "ll", "L_", "dec", "dec_1", "a_location_with_a_long_name_1", "a_location_with_a_long_name_2", "a_location_with_a_long_name_that_is_even_longer_x",
        "a_location_with_a_long_name_that_is_even_longer_y"]

NLINES = 60


class LP:
    def __init__(self, rng):
        self.r, self.n, self.u, self.line = rng, 0, 0, 0
        self.out, self.types = [], ""
        self.dup = rng.random() < .5
        self.reps = {}
        self.linked, self.structs, self.tds, self.enums = set(), [], [], []

    def uniq(self):
        self.u += 1
        return self.u

    def typ(self, ltags=None, ind=0):
        """(declaration pattern, size, kind)"""
        if ltags and self.r.random() < .3:
            # a type of the block, with a name that other blocks and units use too
            tag, n = ltags.pop(), self.uniq()
            k = self.r.choice(["struct", "union"])
            self.emit(ind, self.r.choice(["%s %s { char c[%d]; };", "typedef %s %s { char c[%d]; } " + "td_" + tag + ";"]) % (k, tag, n))
            return self.r.choice([("%s %s %%s" % (k, tag), n, 0), ("%s %s *%%s" % (k, tag), n, 1)])
        k, n = self.r.choice(["arr", "arr", "st", "td", "ptr", "un"]), self.uniq()
        if k == "arr":
            return "char %%s[%d]" % n, n, 0
        if k == "st":
            self.types += "struct S%d { char c[%d]; };\n" % (n, n); self.structs.append(("structs", "S%d" % n))
            return "struct S%d %%s" % n, n, 0
        if k == "un":
            self.types += "union U%d { char c[%d]; };\n" % (n, n); self.structs.append(("unions", "U%d" % n))
            return "union U%d %%s" % n, n, 0
        if k == "td":
            self.types += "typedef char T%d[%d];\n" % (n, n); self.tds.append("T%d" % n)
            return "T%d %%s" % n, n, 0
        return "char (*%%s)[%d]" % n, n, 1

    def emit(self, ind, s):
        self.out.append("    " * ind + s)

    def group(self, names, k, ltags=None, ind=0):
        """k declarations of variables; returns text, [(name, size, kind)]"""
        vs = []
        ds = []
        for nm in names[:k]:
            t, n, kind = self.typ(ltags, ind)
            ds.append(t % nm + ";")
            vs.append((nm, n, kind))
        return " ".join(ds), vs

    def block(self, ind, depth, top=False):
        r = self.r
        free = r.sample(NAMES, len(NAMES))
        locs = r.sample(LOCS, len(LOCS))
        live = []
        ltags = r.sample(["Loc", "loc", "L1", "L2", "l"], 5)
        for _ in range(r.randint(1, 3)):
            x = r.random()
            k = r.randint(1, 3)
            names, free = free[:k], free[k:]
            if not names or not locs:
                break
            d, vs = self.group(names, k, ltags, ind)
            loc = locs.pop()
            if x < .5:
                self.emit(ind, "WITH_METAC_DECLLOC(%s, %s)" % (loc, d))
            elif x < .65:
                self.emit(ind, "WITH_METAC_DECLLOC(%s,) %s" % (loc, d))
            elif x < .8:
                ds = [q.strip() + ";" for q in d.split(";") if q.strip()]
                self.emit(ind, "WITH_METAC_DECLLOC(%s," % loc)
                for q in ds:
                    self.emit(ind + 1, q)
                self.emit(ind, ")")
            elif (x < .9 or not top) and locs:
                # (statics of inner blocks are left out: clang describes them outside of their block)
                # two locations on one line see the variables of the line
                loc2 = locs.pop()
                d2, vs2 = self.group(free[:1], 1) if free else ("", [])
                free = free[1:]
                self.emit(ind, "WITH_METAC_DECLLOC(%s, %s) WITH_METAC_DECLLOC(%s, %s)" % (loc, d, loc2, d2))
                live += [(loc2, v) for v in vs + vs2]
                vs = vs + vs2
            elif not top:
                self.emit(ind, "WITH_METAC_DECLLOC(%s, %s)" % (loc, d))
            else:
                self.emit(ind, "static int st%d; WITH_METAC_DECLLOC(%s, static %s)" % (self.uniq(), loc, d.replace("; ", "; static ")))
            live += [(loc, v) for v in vs]
            for l, (nm, n, kind) in live:
                if r.random() < .7:
                    self.emit(ind, "LOOK(%s, %s, %d, %d);" % (l, nm, n, kind))
            for nm in NAMES:
                if nm not in [v[0] for v in vs] and r.random() < .15:
                    self.emit(ind, "MISS(%s, %s);" % (loc, nm)) if not any(l == loc and v[0] == nm for l, v in live) else None
            if depth and r.random() < .6:
                head = r.choice(["{", "if (one) {", "for (int i_ = 0; i_ < one; i_++) {", "do {"])
                if r.random() < .3:
                    # everything of an inner block on the same line
                    il = r.choice(LOCS)
                    d2, v2 = self.group(r.sample(NAMES, 1), 1)
                    self.emit(ind, "WITH_METAC_DECLLOC(o%d, int o_%d;) { WITH_METAC_DECLLOC(%s, %s) LOOK(%s, %s, %d, %d); }" % (
                        self.uniq(), self.u, il, d2, il, v2[0][0], v2[0][1], v2[0][2]))
                if r.random() < .4:
                    # one name in sibling and nested blocks of one line
                    vn, (la, lb) = r.choice(NAMES), r.sample(LOCS, 2)
                    (d2, v2), (d3, v3) = self.group([vn], 1), self.group([vn], 1)
                    f = lambda l, v: "SAME(%s, %s, %d, %d);" % (l, v[0][0], v[0][1], v[0][2])
                    self.emit(ind, ("{ WITH_METAC_DECLLOC(%s, %s) %s } { WITH_METAC_DECLLOC(%s, %s) %s }" if r.random() < .5 else
                                    "{ WITH_METAC_DECLLOC(%s, %s) %s { WITH_METAC_DECLLOC(%s, %s) %s } }") % (la, d2, f(la, v2), lb, d3, f(lb, v3)))
                self.emit(ind, head)
                self.block(ind + 1, depth - 1)
                self.emit(ind, "} while (0);" if head == "do {" else "}")
                for l, (nm, n, kind) in live:
                    if r.random() < .4:
                        self.emit(ind, "LOOK(%s, %s, %d, %d);" % (l, nm, n, kind))

    def unit(self, tag, header=None, static_only=False, links=True):
        r = self.r
        self.out = ['#include "loctypes.h"', '#include "locrt.h"']
        lines = not static_only and r.random() < .5
        if lines:
            # a variable of another file on every line
            self.out.append('#include "inc/lines.h"')
        if not static_only and self.dup:
            # one header, but each unit makes another type of it
            # (a location that two units name alike is refused by the generator, on purpose)
            self.out = self.out + ["#define DUPN %d" % r.choice([self.uniq(), 3])] + ["enum { dup_%d = __COUNTER__ };" % q for q in range(int(tag[1:]))] + ['#include "inc/dup.h"']
        if header:
            self.out.append('#include "%s"' % header)
        body = []
        glob = []
        for i in range(0 if static_only else r.randint(1, 4)):
            names = ["g%s_%d_%d" % (tag, i, j) for j in range(r.randint(1, 3))]
            d, vs = self.group(names, 3)
            loc = "G%s_%d" % (tag, i)
            if r.random() < .3:
                d = "static " + d.replace("; ", "; static ")
            if lines and len(self.out) < NLINES:
                body.append("MISS(%s, hl_%d);" % (loc, len(self.out) + 1))
            self.emit(0, "WITH_METAC_DECLLOC(%s, %s)" % (loc, d))
            glob += [(loc, v) for v in vs]
            for nm, n, kind in vs:
                if links and r.random() < .5:
                    self.emit(0, "METAC_GSYM_LINK(%s);" % nm)
                    body.append("LINK(%s, %d, %d);" % (nm, n, kind))
        if not static_only:
            # statics that other units name alike; one unit links each of them
            for nm in r.sample(["sv0", "sv1", "sv2"], r.randint(0, 3)):
                d, vs = self.group([nm], 1)
                self.emit(0, "static " + d)
                self.reps.setdefault(("variables", nm), []).append(vs[0][1])
                if links and nm not in self.linked and r.random() < .6:
                    self.linked.add(nm)
                    self.emit(0, "METAC_GSYM_LINK(%s);" % nm)
                    body.append("LINK(%s, %d, %d);" % vs[0])
                else:
                    self.emit(0, "void *keep_%s_%s(void) { return &%s; }" % (nm, tag, nm))
            # types that other units define with the same name
            for cat, nm, t in r.sample([("structs", "rs", "struct rs { char c[%d]; }; struct rs"), ("unions", "ru", "union ru { char c[%d]; }; union ru"), ("typedefs", "rt", "typedef char rt[%d]; rt")], r.randint(0, 3)):
                n = self.uniq()
                self.emit(0, t % n + " *keep_%s_%s;" % (nm, tag))
                self.reps.setdefault((cat, nm), []).append(n)
            # external symbols linked where they are only declared, beside statics of other units with their name
            me = int(tag[1:])
            for nm, e in self.exts.items():
                if me in (e["def"], e["link"]):
                    w = "" if me == e["def"] else "extern "
                    self.emit(0, (w + e["decl"]).strip() + (e["body"] if me == e["def"] else ";"))
                    if me == e["link"] and links:
                        self.emit(0, "METAC_GSYM_LINK(%s);" % nm)
                        body.append("FUN(METAC_GSYM_LINK_ENTRY(%s), \"%s\", %d);" % (nm, nm, e["n"]) if e["fn"] else "LINK(%s, %d, %d);" % (nm, e["n"], e["kind"]))
                elif r.random() < .6:
                    n = self.uniq()
                    self.emit(0, r.choice(["static char %s[%d]; void *keep_%s_%s(void) { return &%s; }", "static void %s(char a[%d], int b) { } void *keep_%s_%s(void) { return %s; }"]) % (nm, n, nm, tag, nm))
            for nm in r.sample(["sf0", "sf1"], r.randint(0, 2)):
                n = self.uniq()
                self.types += "struct S%d { char c[%d]; };\n" % (n, n)
                self.emit(0, "static struct S%d %s(int one) { static struct S%d r; return r; }" % (n, nm, n))
                self.reps.setdefault(("subprograms", nm), []).append(n)
                if links and nm not in self.linked and r.random() < .6:
                    self.linked.add(nm)
                    self.emit(0, "METAC_GSYM_LINK(%s);" % nm)
                    body.append("FUN(METAC_GSYM_LINK_ENTRY(%s), \"%s\", %d);" % (nm, nm, n))
                else:
                    self.emit(0, "void *keep_%s_%s(void) { return %s; }" % (nm, tag, nm))
        fns = []
        for i in range(r.randint(1, 3)):
            f = "f%s_%d" % (tag, i)
            n = self.uniq()
            self.types += "struct S%d { char c[%d]; };\n" % (n, n)
            st = "static " if static_only or r.random() < .5 else ""
            loc = None
            if not static_only and r.random() < .4:
                loc = "F%s_%d" % (tag, i)
                self.emit(0, "WITH_METAC_DECLLOC(%s, %sstruct S%d %s(int one) { static struct S%d r; return r; })" % (loc, st, n, f, n))
                body.append("FUN(METAC_ENTRY_FROM_DECLLOC(%s, %s), \"%s\", %d);" % (loc, f, f, n))
            else:
                self.emit(0, "%sstruct S%d %s(int one) {" % (st, n, f))
                self.block(1, r.randint(0, 3), True)
                self.emit(1, "static struct S%d r; return r;" % n)
                self.emit(0, "}")
            if not static_only and links and r.random() < .6:
                self.emit(0, "METAC_GSYM_LINK(%s);" % f)
                body.append("FUN(METAC_GSYM_LINK_ENTRY(%s), \"%s\", %d);" % (f, f, n))
            fns.append(f)
        if not static_only:
            self.emit(0, "void run_%s(int one) {" % tag)
            if self.dup:
                self.emit(1, "dupf(one);")
            for loc, (nm, n, kind) in glob:
                self.emit(1, "LOOK(%s, %s, %d, %d);" % (loc, nm, n, kind))
            for b in body:
                self.emit(1, b)
            if header:
                self.emit(1, "run_%s(one);" % header.split("/")[-1].replace(".", "_").replace("-", "_"))
            for f in fns:
                self.emit(1, "%s(one);" % f)
            self.emit(0, "}")
        else:
            self.emit(0, "static void run_%s(int one) { %s }" % (tag, " ".join("%s(one);" % f for f in fns)))
        return "\n".join(self.out) + "\n"


MODULES = ["app", "my_lib", "gsym", "a", "a_b", "entry_", "Dflt", "x_module_with_a_long_name_0"]


def make(ctx, name, i, base=0, module=None):
    """returns g with .units [(path as given to the compiler, tag)]; compile with cwd = g.dir"""
    rng = random.Random("loc/%s/%s/%s" % (ctx.seed, name, i))
    g = LP(rng)
    d = ctx.dir("p_" + name)
    # programs of one module of any name; of units of several modules; of two libraries with modules of their own
    style = "lib" if base else ["dflt", "module", "units", "libs"][i // 2 % 4]
    mods = rng.sample(MODULES, 3)
    g.module = module or (mods[0] if style in ("module", "libs") or style == "units" and rng.random() < .5 else None)
    g.other = make(ctx, name + "_lib", i, 10, mods[1]) if style == "libs" else None
    g.style = style
    dcl = lambda m: "METAC_MODULE(METAC_MODULE_NAME);\n" if m else ""
    g.dir, g.name, g.units, g.src = d, name, [], {}
    lng = ["sub/%s_directory_with_quite_a_long_name/that_goes_on_and_on" % c for c in ("x", "y")]
    for s in ["sub", "sub/a-b", "inc"] + lng:
        os.makedirs(os.path.join(d, s), exist_ok=True)
    pool = ["@/one.c", "@/One.c", "@/o-ne.c", "@/sub/two.c", "@/sub/a-b/three.c", "@/six.c", "@/sub/seven.c", "@/sub/one.c", "@/sub/a-b/one.c"]
    rng.shuffle(pool)
    if i % 3 == 0:
        pool[:2] = ["@/%s/one.c" % l for l in lng]
    nu, seen = rng.randint(2, 4), set()
    g.exts = {}
    for q in range(0 if base else rng.randint(1, 3)):
        nm, (de, li) = "ev%d" % q, rng.sample(range(nu), 2)
        if rng.random() < .4:
            n = g.uniq()
            g.types += "struct S%d { char c[%d]; };\n" % (n, n)
            g.exts[nm] = {"def": de, "link": li, "decl": "struct S%d %s(int one)" % (n, nm), "body": " { static struct S%d r; return r; }" % n, "n": n, "kind": 0, "fn": True}
        else:
            t, n, kind = g.typ()
            g.exts[nm] = {"def": de, "link": li, "decl": t % nm, "body": ";", "n": n, "kind": kind, "fn": False}
    for j, p in enumerate(pool[:nu]):
        real = p.replace("@", d)
        tag = "u%d" % (base + j)
        um = rng.choice(mods[1:] + [None]) if style == "units" and j else g.module
        h = None
        if j == 0 and rng.random() < .6:
            h = "inc/once-%d.h" % i
            g.src[os.path.join(d, h)] = g.unit(h.split("/")[-1].replace(".", "_").replace("-", "_"), static_only=True)
        txt = g.unit(tag, header=h, links=um == g.module)
        if um != g.module and um:
            txt += dcl(um) if um not in seen else ""
            seen.add(um)
        g.src[real if os.path.isabs(real) else os.path.join(d, real)] = txt
        g.units.append((real, tag, um))
    g.src[os.path.join(d, "loctypes.h")] = "#ifndef LOCTYPES\n#define LOCTYPES\n%s#endif\n" % g.types
    if g.dup:
        g.src[os.path.join(d, "inc/dup.h")] = "struct dupst { char c[DUPN]; };\nstatic void dupf(int one) {\n    WITH_METAC_DECLLOC(dloc, char dupv[DUPN]; struct dupst dups; struct dupst *dupp;)\n    SAME(dloc, dupv, DUPN, 0); SAME(dloc, dups, DUPN, 0); SAME(dloc, dupp, DUPN, 1);\n}\n"
    g.src[os.path.join(d, "inc/lines.h")] = "".join("static char hl_%d[%d];\n" % (q + 1, q + 1) for q in range(NLINES - 1)) + "static void *hl_keep[] = { %s }; static void **hl_use(void) { return hl_keep; }\n" % ", ".join("&hl_%d" % (q + 1) for q in range(NLINES - 1))
    m = ("" if base else "#define LK_MAIN\n") + '#include "loctypes.h"\n#include "locrt.h"\n'
    m += "".join("void run_%s(int one);\n" % t for _, t, _ in g.units) + dcl(g.module)
    if g.other:
        m += "void lib_main(void);\n"
    rows = []
    # compilers leave out types that only dropped variables use
    m += "".join("%s %s *keep%d_%s;\n" % (cat[:-1], nm, base, nm) for cat, nm in g.structs) + "".join("%s *keep%d_%s;\n" % (nm, base, nm) for nm in g.tds)
    for cat, nm in g.structs:
        rows.append('{"%s", "%s"}' % (cat, nm))
    for nm in g.tds:
        rows.append('{"typedefs", "%s"}' % nm)
    m += "METAC_DB_LINK();\n%s {\n%s    static const struct lk_name names[] = { %s };\n    lk_db(METAC_DB_LINK_PTR(), names, %d);\n    static const struct lk_rep reps[] = { %s };\n    lk_rep(METAC_DB_LINK_PTR(), reps, %d);\n    %s\n}\n" % (
        "void lib_main(void)" if base else "int main(void)",
        "".join("    run_%s(1);\n" % t for _, t, _ in g.units), ", ".join(rows) or "{0}", len(rows),
        ", ".join('{"%s", "%s", 0, %d, {%s}}' % (c, nm, len(z), ", ".join(map(str, z))) for (c, nm), z in g.reps.items()) or "{0}", len(g.reps), "" if base else ("lib_main(); " if g.other else "") + "return vt_end();")
    g.src[os.path.join(d, "main.c")] = m
    g.units.append((os.path.join(d, "main.c"), "main", g.module))
    for p, t in g.src.items():
        with open(p, "w") as f:
            f.write(t)
    return g
