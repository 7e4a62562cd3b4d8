"""The declaration text of an entry, fed back to a C compiler, declares the same type."""
import os
import re
from . import progs, c_values
from .common import BuildError, Inconclusive, pmap, sh
from .tgen import Gen, decl, final, is_anon, typebody


def anon_ok(t):
    """layout of this anonymous struct/union follows from its text alone"""
    if t.packed:
        return False
    for m in t.members:
        if m.align:
            return False
        if m.name is None:
            if m.bits is not None or not anon_ok(m.t):   # unnamed bit-fields are not reflected
                return False
            continue
        f = m.t
        while f is not None and f.kind in ("arr", "ptr", "qual", "func"):
            if f.kind == "func" and any(1 for n, p in f.params if anon_in(p)):
                return False
            f = f.to
        if f is not None and is_anon(f):
            if f.kind == "enum" or not anon_ok(f):
                return False
    return True


def anon_in(t):
    while t is not None and t.kind in ("arr", "ptr", "qual", "func"):
        if t.kind == "func" and any(anon_in(p) for n, p in t.params):
            return True
        t = t.to
    return t is not None and is_anon(t)


def names_of(t, pre=""):
    for m in t.members:
        if m.name is None and m.bits is None:
            yield from names_of(m.t, pre)
        elif m.name is not None:
            yield m


def head(t):
    while t is not None and t.kind in ("arr", "ptr", "qual", "func"):
        # gcc merges an array of a typedef'ed array into one array type
        if t.kind == "arr" and t.to.kind == "typedef" and final(t.to).kind == "arr":
            return None
        t = t.to
    if t is None:
        return "void"
    if t.kind == "fwd":
        return "struct " + t.name
    if t.kind in ("struct", "union", "enum") and t.name:
        return "%s %s" % (t.kind, t.name)
    if t.kind == "typedef":
        return None if final(t) is not None and final(t).kind == "arr" else t.name
    return None


def check_one(ctx, label, p, out):
    tests = []      # (id, C text, what)
    for line in out.split("\n"):
        f = line.split("\t")
        if f[0] != "cd" or len(f) != 5:
            continue
        what, name, xi, text = f[1], f[2], int(f[3]), f[4]
        t = p.o.byix[xi]
        if what == "type":
            if text.count("%s") != 1 or "%" in text.replace("%s", "", 1):
                ctx.violation("placeholder", "%s: type text without exactly one placeholder: %s" % (label, text),
                              replay=p.types)
                continue
            text = text.replace("%s", "X")
            name = "X"
        elif "%" in text:
            ctx.violation("placeholder", "%s: stray placeholder in %s" % (label, text), replay=p.types)
            continue
        h = head(t)
        if h and not re.match(r"^((const|volatile|restrict)\s+)*" + re.escape(h) + r"(?![A-Za-z0-9_])", text):
            ctx.violation("specifier", "%s: %s %s: text '%s' does not name %s" % (label, what, name, text, h),
                          replay=p.types)
        if "{" in text:
            if what == "type" and is_anon(t) and t.kind == "enum":
                # the enumerators in a scope of their own, against those of the program
                c = "static void w_e(void) { %s;\n" % text
                for n, v in zip(t.enums, Gen.enum_vals(t)):
                    c += "_Static_assert(%s == %s, \"value\");\n" % (n[0], "(-0x7fffffffffffffffLL-1)" if v == -1 << 63 else "%dLL" % v if v < 1 << 63 else "%dULL" % v)
                if not t.packed and t.spell:
                    c += "_Static_assert(sizeof(X) == sizeof(%s), \"size\");\n" % t.spell
                tests.append((c + "}\n", what, name, text))
                ctx.count("anonymous_enumerations")
            elif what == "type" and is_anon(t) and t.kind != "enum" and t.spell and anon_ok(t):
                c = "%s;\n" % text
                c += "_Static_assert(sizeof(X) == sizeof(%s), \"size\");\n" % t.spell
                for m in names_of(t):
                    if m.bits is not None:
                        # same width, same signedness
                        c += ("static int w_%s(void){ %s; %s b; X.%s = 0; b.%s = 0; X.%s = ~X.%s; b.%s = ~b.%s;"
                              " return X.%s == b.%s; }\n" % (
                                  m.name, text, t.spell, *([m.name] * 8)))
                        continue
                    c += "_Static_assert(__builtin_offsetof(__typeof__(X),%s) == __builtin_offsetof(%s,%s), \"offset\");\n" % (
                        m.name, t.spell, m.name)
                tests.append((c, what, name, text))
                ctx.count("anonymous_layouts")
            else:
                ctx.count("anonymous_skipped")
            continue
        orig = decl(t, "Y", oracle=True)
        fin = final(t)
        if what == "type" and fin is None:
            c = ("typedef %s;\n_Static_assert(__builtin_types_compatible_p(X *, Y *), \"type\");\n" % text +
                 "").replace("X *, Y *", "X *, YT *")
            c = "typedef %s;\n" % decl(t, "YT", oracle=True) + c
        elif what == "func" or fin.kind == "func":
            c = "typedef %s;\n" % orig + "extern %s;\n" % text
            c += "extern __typeof__(%s) %s;\n" % ("Y", name)
            c += "_Static_assert(__builtin_types_compatible_p(__typeof__(&%s), Y *), \"type\");\n" % name
        else:
            c = "typedef %s;\nextern %s;\nextern __typeof__(Y) %s;\n" % (orig, text, name)
            c += "_Static_assert(__builtin_types_compatible_p(__typeof__(&%s), Y *), \"type\");\n" % name
            f = fin
            while f.kind == "arr" and f.count is not None:
                f = final(f.to)
            if not (f.kind in ("fwd", "func") or (f.kind == "arr") or getattr(f, "flex", False) and f is not fin and False):
                c += "_Static_assert(sizeof(%s) == sizeof(Y), \"size\");\n" % name
        tests.append((c, what, name, text))
    return tests


def compile_tests(ctx, p, tests, label):
    """all tests of a program in one translation unit, each in a function scope; bisect on failure"""
    d = p.dir

    def unit(ts, tag):
        src = '#include "%s_types.h"\n' % p.name
        for t in p.o.twins:
            src += typebody(t, oracle=True, tag="xtwin_%d" % t.uid) + ";\n"
        top = ""
        for i, (c, *_r) in enumerate(ts):
            # function-scope extern declarations do not clash with each other for distinct names
            ren = c
            ren = re.sub(r"\bX\b", "X%d" % i, ren)
            ren = re.sub(r"\bYT\b", "YT%d" % i, ren)
            ren = re.sub(r"\bY\b", "Y%d" % i, ren)
            ren = re.sub(r"\bw_(\w+)\b", r"w%d_\1" % i, ren)
            top += "/* %d */\n%s" % (i, ren)
        path = os.path.join(d, "cd_%s.c" % tag)
        open(path, "w").write(src + top)
        rc, o, e = sh(["gcc", "-std=gnu17", "-I" + d, "-w", "-fsyntax-only", path])
        return rc, e.decode(errors="replace")
    rc, e = unit(tests, "all")
    if rc == 0:
        return
    for i, tst in enumerate(tests):
        rc, e = unit([tst], "one")
        if rc != 0:
            k = "text-type:" + shape(tst[3])
            ctx.violation(k, "%s: %s %s: '%s' is not a declaration of the entry's type: %s" % (
                label, tst[1], tst[2], tst[3], e.strip().split("\n")[0][:200]),
                replay="%s\n%s\n\n%s" % (tst[0], e, p.types))


def shape(text):
    return re.sub(r"[A-Za-z0-9_]+", "w", text)[:40]


def check_cdecl(ctx):
    ctx.rule = ("declaration text of every variable, function and reachable type of seeded random programs "
                "(gcc/clang, DWARF 3-5), given back to a C compiler next to the original declaration; "
                "distinct = distinct texts")
    n = 16 if ctx.quick else 90
    ctx.lib()

    def one(i):
        mcc, dw = c_values.COMBOS[i % 5]
        label = "cd%d/%s/dwarf%d" % (i, mcc, dw)
        p = progs.make(ctx, "cd%d" % i, i, nvars=30, nfns=10, opts=dict(depth=4, ndecl=True, decl_anchor=True))
        try:
            progs.build(ctx, p, ["h_cdecl.c"], meta_cc=mcc, dwarf=dw)
        except BuildError as e:
            return label, p, e
        return label, p, None
    for label, p, e in pmap(one, range(n), workers=5):
        if e:
            raise Inconclusive("%s: %s" % (label, e))
        rc, out, err = ctx.harness(p.exe, label=label, witness=lambda: p.types)
        ctx.count("programs")
        compile_tests(ctx, p, check_one(ctx, label, p, out), label)
