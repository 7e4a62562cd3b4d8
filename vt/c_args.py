"""Captured function arguments."""
from . import argprog
from .common import BuildError, Inconclusive, pmap
from .c_values import COMBOS


def check_capture(ctx):
    ctx.rule = ("random functions (0 to 20 parameters of every number type, enumerations of all sizes, pointers, arrays, "
                "structures in registers and in memory) x random arguments; distinct = calls")
    ctx.assumptions = ["padding inside of structures is not compared"]
    ctx.lib()
    n = 6 if ctx.quick else 40

    def one(i):
        odd = i == n - 1
        g = argprog.make(ctx, "arg%d" % i, i, odd=odd)
        mcc, dw = COMBOS[i % len(COMBOS)]
        try:
            g.exe, _ = ctx.program(g.name, [g.main], meta_cc=mcc, dwarf=dw)
        except BuildError as e:
            raise Inconclusive("%s: %s" % (g.name, e))
        return "%s/%s/dwarf%d" % (g.name, mcc, dw), g
    ps = pmap(one, range(n), workers=4)
    ctx.harness_many([(g.exe, (ctx.seed * 100 + i, 60 if ctx.quick else 400), label, dict(witness=lambda g=g: g.decls))
                      for i, (label, g) in enumerate(ps)])
    ctx.count("programs", n)


def check_printf(ctx):
    import os
    from . import fmtprog
    from .common import sh
    ctx.rule = ("random format strings (flags, width, precision, every length, adjacent specifiers, %%, strings without a "
                "terminating zero) x random arguments, captured in six ways; the text of the call is compiled and must "
                "print the same; distinct = calls")
    ctx.assumptions = ["string arguments with a precision are compared up to that precision",
                       "formats outside of the supported ones only have to be refused"]
    ctx.lib()
    n = 4 if ctx.quick else 24
    sites = 60 if ctx.quick else 120

    def one(i):
        g = fmtprog.make(ctx, "fmt%d" % i, i, sites)
        mcc, dw = COMBOS[i % len(COMBOS)]
        try:
            g.exe, _ = ctx.program(g.name, [g.main], meta_cc=mcc, dwarf=dw)
        except BuildError as e:
            raise Inconclusive("%s: %s" % (g.name, e))
        return "%s/%s/dwarf%d" % (g.name, mcc, dw), g
    ps = pmap(one, range(n), workers=4)
    outs = ctx.harness_many([(g.exe, (ctx.seed * 100 + i, 20 if ctx.quick else 150), label, dict(witness=lambda g=g: g.code))
                             for i, (label, g) in enumerate(ps)])

    def again(j):
        label, g = ps[j]
        txt, out = {}, {}
        for l in outs[j][1].split("\n"):
            f = l.split("\t", 4)
            if f[0] == "txt" and len(f) == 5:
                txt[tuple(f[1:4])] = f[4]
            elif f[0] == "out" and len(f) == 5:
                out[tuple(f[1:4])] = f[4]
        src, exe = os.path.join(g.dir, "rt.c"), os.path.join(g.dir, "rt")
        keys = sorted(txt)
        head = ("#include <stdio.h>\n#include <stdarg.h>\n#include <stdbool.h>\n#include <stddef.h>\n"
                "#define VA_LIST(a...) 0, ##a\n"
                "static void o(const char *f, va_list ap) { char b[20000]; vsnprintf(b, sizeof b, f, ap); for (char *s = b; *s; s++) printf(\"%02x\", (unsigned char)*s); printf(\"\\n\"); }\n"
                "static void pf1(const char *f, ...) { va_list ap; va_start(ap, f); o(f, ap); va_end(ap); }\n"
                "static void pl1(const char *f, int z, ...) { va_list ap; va_start(ap, z); o(f, ap); va_end(ap); }\n")
        body = lambda ks: head + "int main(void) {\n" + "".join("%s;\n" % txt[k] for k in ks) + "return 0; }\n"
        open(src, "w").write(body(keys))
        rc, so, se = sh(["gcc", "-w", "-O0", src, "-o", exe])
        res = []
        if rc != 0:
            for k in keys:
                open(src, "w").write(body([k]))
                x = sh(["gcc", "-w", "-fsyntax-only", src])
                if x[0] != 0:
                    res.append(("fmt-text", "%s: no C call: %s\n%s" % (label, txt[k], x[2].decode(errors="replace")[:400])))
            return res
        rc, so, se = sh([exe])
        lines = so.decode().split("\n")
        for k, got in zip(keys, lines):
            if got != out.get(k):
                res.append(("fmt-text-output", "%s: %s prints %s, the call printed %s" % (
                    label, txt[k], bytes.fromhex(got), bytes.fromhex(out.get(k, "")))))
        if len(lines) < len(keys):
            res.append(("fmt-text-output", "%s: call %d ended the program" % (label, len(lines))))
        with ctx._lock:
            ctx.count("recompiled_calls", len(keys))
            ctx.evals += len(keys)
        return res
    for res in pmap(again, range(n)):
        for k, m in res[:3]:
            ctx.violation(k, m)
    ctx.count("programs", n)


def check_parse(ctx):
    ctx.rule = ("random format strings made of known parts plus arbitrary bytes; distinct = strings")
    ctx.assumptions = ["widths and precisions below 100000 (8 digits in arbitrary text)"]
    exe = ctx.plain("fmt", ["h_fmt.c"], reflect=True)
    ctx.harness_many([(exe, (ctx.seed * 100 + i, 4000 if ctx.quick else 60000), "fmt/%d" % i) for i in range(8)])


def check_deep(ctx):
    from . import callprog
    ctx.rule = ("random functions with pointers, counted arrays, strings, cast pointers, structures by value, shared blocks and "
                "printf-like variadic parts x random heap graphs x DAG/tree mode x failed allocations; distinct = calls")
    ctx.assumptions = ["structures passed by value are larger than 16 bytes (see F01)"]
    ctx.lib()
    n = 4 if ctx.quick else 24

    def one(i):
        g = callprog.make(ctx, "call%d" % i, i, 12 if ctx.quick else 20)
        mcc, dw = COMBOS[i % len(COMBOS)]
        try:
            g.exe, _ = ctx.program(g.name, [g.main, g.oracle], meta_cc=mcc, dwarf=dw, meta_sources=[g.main])
        except BuildError as e:
            raise Inconclusive("%s: %s" % (g.name, e))
        return "%s/%s/dwarf%d" % (g.name, mcc, dw), g
    ps = pmap(one, range(n), workers=4)
    ctx.harness_many([(g.exe, (ctx.seed * 100 + i, 40 if ctx.quick else 300), label, dict(witness=lambda g=g: g.decls))
                      for i, (label, g) in enumerate(ps)])
    ctx.count("programs", n)
