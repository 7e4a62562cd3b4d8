"""Random C type programs with a compiler-made oracle.

Gen builds random C types; emit() writes
  types.h   the type definitions (seen by the reflection generator)
  main.c    variables / functions of those types with reflection links
  oracle.c  tables with sizeof / offsetof / enumerator values and bit-field
            accessors, all evaluated by the C compiler itself (never by the
            reflection generator): the independent source of truth.
"""

BASES = [
    # C spelling, DWARF-independent canonical name, encoding, accessor suffix
    ("char", "char", "signed_char", "char"),
    ("signed char", "signed char", "signed_char", "schar"),
    ("unsigned char", "unsigned char", "unsigned_char", "uchar"),
    ("short", "short int", "signed", "short"),
    ("unsigned short", "unsigned short int", "unsigned", "ushort"),
    ("int", "int", "signed", "int"),
    ("unsigned int", "unsigned int", "unsigned", "uint"),
    ("long", "long int", "signed", "long"),
    ("unsigned long", "unsigned long int", "unsigned", "ulong"),
    ("long long", "long long int", "signed", "llong"),
    ("unsigned long long", "unsigned long long int", "unsigned", "ullong"),
    ("_Bool", "_Bool", "boolean", "bool"),
    ("float", "float", "float", "float"),
    ("double", "double", "float", "double"),
    ("long double", "long double", "float", "ldouble"),
    ("float _Complex", "complex float", "complex_float", "float_complex"),
    ("double _Complex", "complex double", "complex_float", "double_complex"),
    ("long double _Complex", "long complex double", "complex_float", "ldouble_complex"),
]
BITS = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16,
        "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64,
        "long long": 64, "unsigned long long": 64, "_Bool": 1}


class T:
    _n = 0

    def __init__(self, kind, **kw):
        self.kind = kind
        self.name = None
        self.to = None
        self.count = None
        self.members = None     # list of M
        self.enums = None       # list of (name, valuetext)
        self.packed = False
        self.params = None      # list of (name, T)
        self.variadic = False
        self.qual = None
        self.base = None
        self.spell = None
        self.twin = None
        self.defined = True
        T._n += 1
        self.uid = T._n
        self.__dict__.update(kw)


class M:
    def __init__(self, name, t, bits=None):
        self.name, self.t, self.bits = name, t, bits
        self.align = None


def final(t):
    while t is not None and t.kind in ("typedef", "qual"):
        t = t.to
    return t


def has_qual(t):
    """qualified at the top, looking through typedefs and arrays"""
    while t is not None and t.kind in ("typedef", "qual", "arr"):
        if t.kind == "qual":
            return True
        t = t.to
    return False


def is_anon(t):
    return t.kind in ("struct", "union", "enum") and t.name is None


def kw(t):
    return t.kind


def decl(t, inner="", body=False, oracle=False):
    """C declaration of `inner` with type t."""
    sp = (" " + inner) if inner else ""
    if t is None:
        return "void" + sp
    k = t.kind
    if k == "base":
        return t.base[0] + sp
    if k == "typedef":
        return t.name + sp
    if k == "fwd":
        return "struct " + t.name + sp
    if k in ("struct", "union", "enum"):
        if t.name is not None and not body:
            return "%s %s%s" % (k, t.name, sp)
        if t.name is None and oracle:
            return "%s%s" % (t.spell, sp)
        return "%s%s" % (typebody(t), sp)
    if k == "qual":
        f = t.to
        if f is not None and f.kind == "ptr":
            return decl(f, t.qual + (" " + inner if inner else ""), body, oracle)
        if f is not None and f.kind == "qual":
            g = f
            while g is not None and g.kind == "qual":
                g = g.to
            if g is not None and g.kind == "ptr":
                return decl(f, t.qual + (" " + inner if inner else ""), body, oracle)
        return t.qual + " " + decl(f, inner, body, oracle)
    if k == "ptr":
        i = "*" + (" " + inner if inner else "")
        f = t.to
        while f is not None and f.kind == "qual":
            f = f.to
        if f is not None and f.kind in ("arr", "func"):
            i = "(" + i + ")"
        return decl(t.to, i, body, oracle)
    if k == "arr":
        return decl(t.to, "%s[%s]" % (inner, "" if t.count is None else t.count), body, oracle)
    if k == "func":
        ps = [decl(p, n or "", False, oracle) for n, p in t.params]
        if t.variadic:
            ps.append("...")
        return decl(t.to, "%s(%s)" % (inner, ", ".join(ps) or "void"), body, oracle)
    raise ValueError(k)


def typebody(t, oracle=False, tag=None):
    tag = tag if tag is not None else (t.name or "")
    if t.kind == "enum":
        return "enum %s{ %s }%s" % (
            (tag + " ") if tag else "",
            ", ".join(n if v is None else "%s = %s" % (n, v) for n, v in t.enums),
            " __attribute__((packed))" if t.packed else "")
    s = "%s %s{\n" % (t.kind, (tag + " ") if tag else "")
    for m in t.members:
        if m.name is None and m.bits is None:
            d = typebody(m.t, oracle, tag="")
        else:
            d = decl(m.t, m.name or "", False, oracle)
        if m.bits is not None:
            d += " : %d" % m.bits
        if m.align:
            d += " __attribute__((aligned(%d)))" % m.align
        s += "    " + d.replace("\n", "\n    ") + ";\n"
    return s + "}" + (" __attribute__((packed))" if t.packed else "")


class Gen:
    def __init__(self, rng, **o):
        self.r = rng
        self.o = dict(nstruct=6, depth=3, bitfields=True, unions=True, anon=True, ptrs=True,
                      arrays=True, enums=True, quals=True, funcs=True, packed=True, flex=True,
                      complex=True, int8=True, floats=True, multidim=True, bf_wide=True,
                      maxmem=7, prefix="", enum_bf=True, selfref=True, typedefs=True,
                      fwds=True, zero_bf=True, big_enum=True, i128=False, bools=True,
                      enum_neg=True, member_quals=True, aligned=True, big_arrays=False, decl_anchor=False, signed_enum_only=False, prim_only=False,
                      graph=False, voidp=True, anchor=False)
        self.o.update(o)
        self.order = []      # definitions in order
        self.pool = []       # usable complete named object types
        self.n = 0
        self.fw = []

    def nm(self, p):
        self.n += 1
        return "%s%s%d" % (self.o["prefix"], p, self.n)

    def base(self, bits=False):
        bs = BASES
        o = self.o
        bs = [b for b in bs if (o["complex"] or b[2] != "complex_float") and
              (o["int8"] or b[0] != "signed char") and (o["bools"] or b[0] != "_Bool") and
              (o["floats"] or b[2] != "float")]
        if o["graph"] and not bits:
            if not hasattr(self, "few"):
                self.few = self.r.sample(bs, 6)
            if self.r.random() < .8:
                bs = self.few
        if bits:
            bs = [b for b in bs if b[0] in BITS]
        return T("base", base=self.r.choice(bs))

    def enum(self, anon=False):
        r = self.r
        n = r.randint(1, 6) if r.random() < .85 else r.randint(10, 40)
        en = []
        mode = r.choice(["seq", "neg", "big", "pos", "dup", "u32", "wide"])
        if not self.o["enum_neg"] and mode == "neg":
            mode = "pos"
        if not self.o["big_enum"] and mode in ("u32", "wide", "big"):
            mode = "pos"
        if self.o["signed_enum_only"]:
            mode = r.choice(["seq", "neg", "pos"])
        for i in range(n):
            v = None
            if mode == "neg":
                v = str(r.randint(-120, 60)) if i else "-%d" % r.randint(1, 100)
            elif mode == "big":
                v = str(r.choice([0x7fffffff, 0x7ffe, 255, 256, 65535, 65536, 128, 127, 32768,
                                  r.randint(0, 0x7fffffff)]))
            elif mode == "pos":
                v = str(r.randint(0, 100)) if r.random() < .6 else None
            elif mode == "dup":
                v = str(r.randint(0, 3))
            elif mode == "u32":
                v = "%uu" % r.choice([0xffffffff, 0x80000000, 0xfffffffe, 5, 200])  \
                    if False else "%du" % r.choice([0xffffffff, 0x80000000, 0xfffffffe, 5, 200])
            elif mode == "wide":
                v = r.choice(["0x7fffffffffffffffLL", "0x123456789aLL", "-5LL",
                              "(-0x7fffffffffffffffLL-1)", "77", "0x10000004dLL",
                              "333", "65613", "0xfffffffbLL"])
            en.append((self.nm("E"), v))
        t = T("enum", name=None if anon else self.nm("en"), enums=en)
        t.packed = self.o["packed"] and r.random() < .35
        if t.packed and mode == "seq" and r.random() < .5:
            t.enums[-1] = (t.enums[-1][0], str(r.choice([200, 255, 128, 40000, 65535])))
        if not anon:
            self.order.append(t)
        return t

    def struct(self, depth, kind=None, anon=False, unnamed=False):
        r, o = self.r, self.o
        kind = kind or ("union" if o["unions"] and r.random() < .2 else "struct")
        t = T(kind, name=None if anon else self.nm("s" if kind == "struct" else "u"), members=[])
        t.packed = o["packed"] and r.random() < .2 and not unnamed
        nmem = r.randint(1, o["maxmem"])
        bfrun = 0
        for i in range(nmem):
            if bfrun == 0 and o["bitfields"] and r.random() < .25 and not (unnamed and i == 0):
                bfrun = r.randint(1, 6)
            if bfrun > 0 and not (unnamed and i == 0):
                bfrun -= 1
                t.members.append(self.bitfield(kind))
                if t.members[-1].name is None and i == 0 and nmem == 1:
                    t.members.append(M(self.nm("f"), self.base()))
                continue
            if o["anon"] and depth > 0 and r.random() < .12:
                sub = self.struct(depth - 1, anon=True, unnamed=True)
                t.members.append(M(None, sub))
                continue
            ft = self.type(depth - 1, member=True)
            t.members.append(M(self.nm("f"), ft))
            if o["aligned"] and r.random() < .05:
                t.members[-1].align = r.choice([2, 4, 8, 16, 32])
        if all(m.bits is not None and m.name is None for m in t.members):
            t.members.append(M(self.nm("f"), self.base()))
        if o["selfref"] and t.name and r.random() < (.6 if o["graph"] else .25):
            t.members.append(M(self.nm("self"), T("ptr", to=t)))
            if o["graph"] and r.random() < .4:
                t.members.append(M(self.nm("self"), T("ptr", to=t)))
        if o["flex"] and kind == "struct" and not anon and r.random() < .08:
            t.members.append(M(self.nm("flex"), T("arr", to=self.base(), count=None)))
            t.flex = True
        if not anon:
            self.order.append(t)
            if not getattr(t, "flex", False):
                self.pool.append(t)
        return t

    def anchors(self):
        """structures that hold, in every program, what random types only sometimes do"""
        r, o = self.r, self.o
        B = lambda n: T("base", base=[b for b in BASES if b[0] == n][0])
        A = lambda t, *c: t if not c else T("arr", to=A(t, *c[1:]), count=c[0])
        P = lambda t: T("ptr", to=t)
        tc = T("typedef", name=self.nm("t"), to=B("char"))
        self.order.append(tc)
        e = []
        for vals in (["200", "-1", None], ["40000", None, "0"], ["-129", "127", "300"], ["65535", "1"],
                     ["0xffffffffu", "7"], ["0x123456789aLL", "0x23456789aLL", "154"]):
            en = T("enum", name=self.nm("en"), enums=[(self.nm("E"), v) for v in vals], packed=o["packed"])
            self.order.append(en)
            e.append(en)
        ts = [B("char"), A(B("char"), 1), A(B("char"), 2), A(B("char"), r.randint(5, 12)), A(B("char"), r.randint(2, 4), r.randint(3, 6)),
              A(tc, r.randint(3, 7)), A(B("unsigned char"), r.randint(2, 6)), A(B("int"), 3)]
        if o["enums"]:
            ts += [r.choice(e), A(r.choice(e), 2), r.choice(e)]
        if o["ptrs"]:
            ts += [P(B("char")), P(A(B("char"), r.randint(2, 8))), P(A(B("char"), 2, 3)), P(tc), A(P(B("char")), 2), P(P(B("char"))), P(r.choice(e)),
                   P(B("unsigned char")), P(B("int"))]
            if o["quals"] and not o["graph"]:
                ts += [P(T("qual", qual="const", to=B("char")))]
        r.shuffle(ts)
        h = len(ts) // 2
        out = []
        for part in (ts[:h], ts[h:]):
            s = T("struct", name=self.nm("s"), members=[M(self.nm("f"), t) for t in part])
            s.packed = o["packed"] and r.random() < .2
            if out and o["ptrs"]:
                s.members.insert(r.randint(0, len(part)), M(self.nm("f"), P(out[0])))
            self.order.append(s)
            self.pool.append(s)
            out.append(s)
        if o["graph"] and o["packed"] and o["bitfields"]:
            # the declared type of the last bit-field reaches beyond the structure
            for last in ("unsigned int", "unsigned long"):
                s = T("struct", name=self.nm("s"), members=[M(self.nm("f"), B("char")) for _ in range(r.randint(0, 2))] + [M(self.nm("b"), B(last), r.randint(1, 7))])
                s.packed = True
                self.order.append(s)
                self.pool.append(s)
                h = T("struct", name=self.nm("s"), members=[M(self.nm("f"), A(P(s), 3)), M(self.nm("f"), P(B("char"))), M(self.nm("f"), A(P(s), 2))])
                self.order.append(h)
                self.pool.append(h)
        if o["flex"]:
            s = T("struct", name=self.nm("s"), members=[M(self.nm("f"), B("int")), M(self.nm("flex"), T("arr", to=r.choice([B("char"), B("int"), out[0]]), count=None))])
            s.flex = True
            self.order.append(s)
            out.append(s)
        return out

    def decl_anchors(self):
        """declarations whose text is hard to get right"""
        r = self.r
        bs = [b for b in BASES if b[0] in ("char", "int", "unsigned long", "double", "_Bool")]
        B = lambda: T("base", base=r.choice(bs))
        A = lambda t, *c: t if not c else T("arr", to=A(t, *c[1:]), count=c[0])
        P = lambda t: T("ptr", to=t)
        Q = lambda t, q=None: T("qual", qual=q or r.choice(["const", "volatile"]), to=t)
        F = lambda t, *ps: T("func", to=t, params=[(None, p) for p in ps], variadic=False)

        def D(t):
            t = T("typedef", name=self.nm("t"), to=t)
            self.order.append(t)
            return t
        big = [123456, 1234567, 12345678, 123456789, 1234567890, 99999999999, 1 << 40]
        st = [x for x in self.pool if x.name] or [B()]
        out = [P(A(B(), r.choice(big))), P(A(P(B()), r.choice(big), 3)), A(P(A(B(), r.choice(big))), 2),
               Q(D(A(B(), 2))), Q(D(A(B(), 2, 3))), Q(D(A(P(B()), 2))), Q(D(A(P(B()), 2, 3))), Q(D(A(D(B()), 4, 2, 2))),
               A(Q(P(B()), "const"), 2, 3), P(Q(P(Q(B())))),
               P(F(P(A(B(), 3)), B())), P(F(P(F(B(), B())), B())), A(P(F(B(), P(A(P(B()), 2)))), 2, 2),
               P(P(F(None, P(F(None))))), P(F(P(P(A(P(A(B(), 2)), 3))))), P(A(P(F(P(A(B(), 4)))), 2)),
               D(P(F(D(P(F(B(), r.choice(st)))), P(r.choice(st))))), P(F(r.choice(st), r.choice(st), P(Q(r.choice(st)))))]
        return out

    def bitfield(self, kind):
        r, o = self.r, self.o
        if o["enum_bf"] and o["enums"] and r.random() < .2:
            e = self.enum()
            need = self.enum_bits(e)
            width = r.randint(need, max(need, self.enum_width(e)))
            return M(self.nm("b"), e, width)
        b = self.base(bits=True)
        w = BITS[b.base[0]]
        if o["zero_bf"] and r.random() < .06 and kind == "struct":
            return M(None, b, 0 if r.random() < .5 else r.randint(1, w))
        width = r.choice([1, w, r.randint(1, w), r.randint(1, w)])
        if not o["bf_wide"] and width > 30:
            width = r.randint(1, 30)
        t = b
        if o["typedefs"] and r.random() < .15:
            t = T("typedef", name=self.nm("t"), to=b)
            self.order.append(t)
        return M(self.nm("b"), t, width)

    @staticmethod
    def enum_vals(e):
        out, cur = [], -1
        for n, v in e.enums:
            if v is None:
                cur += 1
            else:
                cur = eval(v.replace("LL", "").replace("u", ""))
            out.append(cur)
        return out

    def enum_bits(self, e):
        vs = self.enum_vals(e)
        neg = min(vs) < 0
        need = 1
        for v in vs:
            n = 1
            while not ((-(1 << (n - 1)) <= v < (1 << (n - 1))) if neg else (0 <= v < (1 << n))):
                n += 1
            need = max(need, n)
        return need

    def enum_width(self, e):
        vs = self.enum_vals(e)
        neg = min(vs) < 0
        need = self.enum_bits(e)
        if e.packed:
            for w in (8, 16, 32, 64):
                if need <= w:
                    return w
        return 32 if need <= 32 else 64

    def type(self, depth, member=False, elem=False):
        r, o = self.r, self.o
        x = r.random()
        t = None
        if depth > 0:
            if o["graph"] and r.random() < .3:
                t = self.pointer(depth - 1)
            elif x < .12 and o["ptrs"]:
                t = self.pointer(depth - 1)
            elif x < .26 and o["arrays"]:
                t = self.array(depth - 1)
            elif x < .36:
                if self.pool and r.random() < .6:
                    t = r.choice(self.pool)
                elif member and o["anon"] and r.random() < .5:
                    t = self.struct(depth - 1, anon=True)
                else:
                    t = self.struct(depth - 1)
            elif x < .46 and o["enums"]:
                t = self.enum(anon=member and r.random() < .3)
            elif x < .52 and o["typedefs"]:
                to = self.type(depth - 1)
                t = T("typedef", name=self.nm("t"), to=to)
                self.order.append(t)
                if r.random() < .3:
                    t = T("typedef", name=self.nm("t"), to=t)
                    self.order.append(t)
            elif x < .56 and o["funcs"] and o["ptrs"]:
                t = T("ptr", to=self.func(depth - 1))
        if t is None:
            t = self.base()
        if o["quals"] and (o["member_quals"] or not member) and r.random() < .12 \
           and not has_qual(t) and not is_anon(t) and final(t).kind not in ("arr",):
            q = r.choice(["const", "volatile", "volatile"])
            if o["graph"] and final(t).kind == "base":
                q = "volatile"          # constant numbers are refused by copies
            if t.kind == "ptr" and (t.to is None or t.to.kind != "func") and r.random() < .3:
                q = "restrict"
            t = T("qual", qual=q, to=t)
            if r.random() < .2 and q != "volatile":
                t = T("qual", qual="volatile", to=t)
        return t

    def array(self, depth):
        r = self.r
        e = self.type(depth, elem=True)
        if is_anon(e):
            e = self.base()
        t = T("arr", to=e, count=r.randint(1, 5))
        if self.o["big_arrays"] and r.random() < .15:
            t.count = r.choice([100, 127, 128, 129, 255, 256, 300, 1000, 16384, 65536])
            e = t.to
            if final(e).kind not in ("base", "ptr", "enum"):
                t.count = min(t.count, 300)
        if self.o["multidim"] and r.random() < .35:
            t = T("arr", to=t, count=r.randint(1, 4))
            if r.random() < .3:
                t = T("arr", to=t, count=r.randint(1, 3))
        return t

    def pointer(self, depth):
        r, o = self.r, self.o
        x = r.random()
        if o["graph"] and self.pool and r.random() < .5:
            to = r.choice(self.pool)
            if o["quals"] and not has_qual(to) and final(to).kind != "base" and r.random() < .1:
                to = T("qual", qual="const", to=to)
        elif x < .15 and o["voidp"]:
            to = None
            if o["quals"] and r.random() < .3:
                to = T("qual", qual="const", to=None)
        elif x < .25 and o["fwds"]:
            to = T("fwd", name=self.nm("opq"))
            self.fw.append(to)
            if o["graph"] and r.random() < .3:
                to = T("typedef", name=self.nm("t"), to=to)
                self.order.append(to)
            if o["graph"] and o["quals"] and r.random() < .2:
                to = T("qual", qual="const", to=to)
        elif x < .35 and o["arrays"]:
            to = self.array(depth)
        else:
            to = self.type(depth)
            if is_anon(to):
                to = self.base()
        t = T("ptr", to=to)
        if r.random() < .2:
            t = T("ptr", to=t)
        return t

    def func(self, depth):
        r = self.r
        ret = None if r.random() < .3 else self.valtype(depth)
        ps = []
        for i in range(r.randint(0, 4)):
            ps.append((None, self.valtype(depth)))
        return T("func", to=ret, params=ps, variadic=bool(ps) and r.random() < .2)

    def valtype(self, depth):
        """a type that can be passed/returned by value, unqualified"""
        while True:
            t = self.type(depth)
            if has_qual(t) or is_anon(t):
                continue
            if final(t).kind == "arr":
                continue
            return t

    def typedef_anon(self):
        s = self.struct(self.o["depth"] - 1, anon=True)
        t = T("typedef", name=self.nm("t"), to=s)
        self.order.append(t)
        self.pool.append(t)
        return t


HDR = """#include <stddef.h>
#include <stdbool.h>
#include <complex.h>
"""


def assign_spells(order, variables=()):
    """Gives every anonymous type a C spelling usable in oracle.c; returns the twin
    definitions needed for C11 unnamed members."""
    twins = []

    def walk(t, expr):
        """expr: an lvalue expression of type t"""
        if t is None:
            return
        if t.kind in ("typedef", "fwd", "base"):
            return
        if t.kind == "qual":
            return walk(t.to, expr)
        if t.kind == "ptr":
            return walk(t.to, "(*%s)" % expr)
        if t.kind == "arr":
            return walk(t.to, "%s[0]" % expr)
        if t.kind == "func":
            return
        if is_anon(t):
            if t.spell is None:
                t.spell = "__typeof__(%s)" % expr
            if t.members is not None:
                members(t, expr)

    def members(t, expr):
        for m in t.members:
            if m.name is None:
                if m.bits is None:
                    m.t.spell = "%s xtwin_%d" % (m.t.kind, m.t.uid)
                    members(m.t, expr)
                    twins.append(m.t)
                continue
            if m.bits is not None:
                continue
            walk(m.t, "%s.%s" % (expr, m.name))

    for t in order:
        if t.kind in ("struct", "union") and t.name:
            members(t, "(*(%s *)0)" % decl(t))
        elif t.kind == "typedef" and is_anon(t.to):
            t.to.spell = t.name
            if t.to.members is not None:
                members(t.to, "(*(%s *)0)" % t.name)
        elif t.kind == "typedef":
            walk(t.to, "(*(%s *)0)" % t.name)
    return twins


def emit_types(g, extra_fwd=()):
    s = HDR
    for f in g.fw:
        s += "struct %s;\n" % f.name
    for t in g.order:
        if t.kind == "typedef":
            s += "typedef %s;\n" % decl(t.to, t.name)
        else:
            s += typebody(t) + ";\n"
    return s


class Oracle:
    """Builds oracle.c tables for a set of types."""

    def __init__(self, twins):
        self.ix = {}
        self.byix = {}
        self.rows = []
        self.pre = []
        self.twins = twins

    def index(self, t):
        if t is None:
            return -1
        if t.uid in self.ix:
            return self.ix[t.uid]
        i = len(self.rows)
        self.ix[t.uid] = i
        self.byix[i] = t
        self.rows.append(None)
        k = t.kind
        f = []
        if t.name and k != "qual":
            f.append('.name="%s"' % t.name)
        ff = final(t)
        sized = not (ff is None or ff.kind in ("func", "fwd") or
                     (ff.kind == "arr" and ff.count is None))
        if sized:
            f.append(".size=sizeof(%s)" % decl(t, "", oracle=True))
        else:
            f.append(".nosize=1")
        if k == "base":
            f += [".kind=XK_BASE", '.name="%s"' % t.base[1],
                  ".enc=METAC_ENC_%s" % t.base[2], '.acc="%s"' % t.base[3]]
        elif k == "ptr":
            f += [".kind=XK_PTR", ".to=%d" % self.index(t.to)]
        elif k == "arr":
            f += [".kind=XK_ARR", ".to=%d" % self.index(t.to),
                  ".count=%d" % (-1 if t.count is None else t.count)]
        elif k == "typedef":
            f += [".kind=XK_TYPEDEF", ".to=%d" % self.index(t.to)]
        elif k == "qual":
            f += [".kind=XK_%s" % t.qual.upper(), ".to=%d" % self.index(t.to)]
        elif k == "fwd":
            f += [".kind=XK_FWD"]
        elif k == "enum":
            nm = "xe_%d" % t.uid
            self.pre.append("static struct xe %s[] = {%s};" % (
                nm, ", ".join('{"%s",(long long)%s}' % (n, n) for n, v in t.enums)))
            f += [".kind=XK_ENUM", ".ne=%d" % len(t.enums), ".e=%s" % nm]
        elif k in ("struct", "union"):
            ms = []
            sp = decl(t, "", oracle=True)
            for m in t.members:
                if m.name is None and m.bits is not None:
                    continue
                mi = self.index(m.t)
                if m.bits is not None:
                    q = m.t
                    const = False
                    while q.kind in ("qual", "typedef"):
                        const |= q.kind == "qual" and q.qual == "const"
                        q = q.to
                    sf = "xs_%d_%s" % (t.uid, m.name)
                    gf = "xg_%d_%s" % (t.uid, m.name)
                    self.pre.append(
                        "static void %s(void*p,unsigned long long v){ ((%s *)p)->%s = (%s)v; }" %
                        (sf, sp, m.name, decl(final(m.t), "", oracle=True)))
                    self.pre.append(
                        "static unsigned long long %s(const void*p){ return (unsigned long long)"
                        "(long long)((%s const*)p)->%s; }" % (gf, sp, m.name))
                    ms.append('{.name="%s",.xt=%d,.bits=%d,.set=%s,.get=%s}' %
                              (m.name, mi, m.bits, sf, gf))
                else:
                    if m.name is None:
                        d = m.t
                        while d.members[0].name is None:
                            d = d.members[0].t
                        off = "__builtin_offsetof(__typeof__(%s),%s)" % (sp, d.members[0].name)
                        ms.append('{.name=0,.xt=%d,.off=%s}' % (mi, off))
                    else:
                        off = "__builtin_offsetof(__typeof__(%s),%s)" % (sp, m.name)
                        ms.append('{.name="%s",.xt=%d,.off=%s}' % (m.name, mi, off))
            nm = "xm_%d" % t.uid
            self.pre.append("static struct xm %s[] = {%s};" % (nm, ",\n  ".join(ms) or "{0}"))
            f += [".kind=XK_%s" % k.upper(), ".nm=%d" % len(ms), ".m=%s" % nm]
        elif k == "func":
            nm = "xp_%d" % t.uid
            ps = ['{%s,%d}' % (('"%s"' % n) if n else "0", self.index(p)) for n, p in t.params]
            self.pre.append("static struct xp %s[] = {%s};" % (nm, ", ".join(ps) or "{0,0}"))
            f += [".kind=XK_FUNC", ".to=%d" % self.index(t.to), ".np=%d" % len(ps),
                  ".p=%s" % nm, ".variadic=%d" % int(t.variadic)]
        self.rows[i] = "{%s}" % ", ".join(f)
        return i

    def text(self):
        s = ""
        for t in self.twins:
            s += typebody(t, oracle=True, tag="xtwin_%d" % t.uid) + ";\n"
        s += "\n".join(self.pre) + "\n"
        s += "struct xt xtypes[] = {\n  %s\n};\nint xntypes = sizeof(xtypes)/sizeof(xtypes[0]);\n" % (
            ",\n  ".join(self.rows) or "{0}")
        return s
