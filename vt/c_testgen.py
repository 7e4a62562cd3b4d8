"""The generated test runner runs every declared test exactly once and reports the outcome."""
import os
import random

from .common import BuildError, Inconclusive, REPO, pmap, sh
from .c_values import COMBOS

PARTS = ["a", "test", "Test", "metac", "x1", "_", "__", "long_name_of_a_test", "run", "main_", "dflt", "gsym", "0", "s"]


def names(r, n, used):
    out = []
    while len(out) < n:
        s = "t" + "_".join(r.choice(PARTS) for _ in range(r.randint(0, 4)))
        s = r.choice([s, s.lstrip("t") if s[1:2].isalpha() else s])
        if s and (s[0].isalpha() or s[0] == "_") and s not in used and s not in ("main", "test", "metac", "run", "a", "s"):
            used.add(s)
            out.append(s)
    return out


def unit(r, k, tests, before=()):
    o = ['#include "metac/test.h"', "#include <stdlib.h>", "#include <unistd.h>", "#include <string.h>", "#include <stdio.h>",
         "static void seen(const char *n) { const char *p = getenv(\"VT_LOG\"); FILE *f = p ? fopen(p, \"a\") : NULL; if (f) { fprintf(f, \"%s\\n\", n); fclose(f); } }",
         "#define MINE(n, fail) METAC_START_TEST(n) { seen(#n); if (fail) ck_abort_msg(\"asked for\"); } END_TEST"]
    # names that only look like requests
    o += ["int metac__tests_decoy%d = 1; int metac_test_decoy%d = 2; int xmetac__test_decoy%d = 3; int metac__test%d = 4;" % (k, k, k, k),
          "static int metac__other_test_decoy%d __attribute__((used)) = 5;" % k,
          "int looks%d(void) { int metac__test_local%d = 6; static int metac__test_stat%d = 7; return metac__test_local%d + metac__test_stat%d; }" % (k, k, k, k, k)]
    for n in before:                             # a test of another unit, only mentioned here
        o.append("extern const TTest * METAC_REQUEST(test, %s); const TTest *mention%d_%s(void) { return METAC_REQUEST(test, %s); }" % (n, k, n, n))
    for n, what in tests:
        f = r.random()
        if r.random() < 0.15:
            o.append("extern const TTest * METAC_REQUEST(test, %s);" % n)
        if f < 0.3 and what in ("ok", "fail"):
            o.append("MINE(%s, %d);" % (n, what == "fail"))
        else:
            body = {"ok": "", "fail": "fail_unless(1 == 2);", "abort": "abort();", "exit": "exit(3);", "assert": "ck_assert_int_eq(1, 2);"}[what]
            o.append("METAC_START_TEST(%s) {\n    seen(\"%s\");\n    fail_unless(1 == 1);\n    %s\n}END_TEST" % (n, n, body))
        if f > 0.8:
            o.append("/* METAC_START_TEST(%s_commented) */ static const char *text_%d_%s __attribute__((used)) = \"metac__test_text\";" % (n, k, n))
    return "\n".join(o) + "\n"


def check_testgen(ctx):
    ctx.rule = ("random test sources (1-3 units, 0-25 tests, names with underscores and look-alike variables, passing, failing, aborting and "
                "exiting tests) through the real generator and libcheck, in forking and non-forking mode; the names the tests log and the "
                "exit status are compared with what was declared; distinct = programs x modes")
    ctx.assumptions = ["test names are unique in a program (the linker demands it)"]
    ctx.metac()

    def flags(x):
        rc, o, _ = sh(["pkg-config", x, "check"])
        return o.decode().split()
    cf, lf = flags("--cflags"), flags("--libs")

    def one(i):
        r = random.Random("testgen/%s/%d" % (ctx.seed, i))
        cc, dw = COMBOS[i % len(COMBOS)]
        d = ctx.dir("t%d" % i)
        used = set()
        nu = r.choice([1, 1, 2, 3])
        style = r.choice(["ok", "ok", "one", "mixed"])
        units, tests = [], {}
        for k in range(nu):
            ts = []
            for n in names(r, r.choice([0, 1, 3, 8, 25]), used):
                w = "ok" if style != "mixed" or r.random() < 0.7 else r.choice(["fail", "abort", "exit", "assert"])
                ts.append([n, w])
            units.append(ts)
        flat = [t for u in units for t in u]
        if style == "one" and flat:
            r.choice(flat)[1] = r.choice(["fail", "abort", "exit", "assert"])
        tests = {n: w for n, w in flat}
        srcs = []
        for k, u in enumerate(units):
            p = os.path.join(d, "u%d.c" % k)
            with open(p, "w") as f:
                f.write(unit(r, k, u, [r.choice(x)[0] for x in units[:k] if x and r.random() < 0.4]))
            srcs.append(p)
        wit = "".join(open(p).read() for p in srcs)
        label = "prog%d/%s/dwarf%d/%d units/%d tests" % (i, cc, dw, nu, len(flat))
        base = ["-w", "-g3", "-I" + os.path.join(REPO, "include")] + cf
        try:
            objs = [ctx.compile(cc, p, p[:-2] + ".meta.o", base + ["-gdwarf-%d" % dw, "-D_METAC_OFF_"]) for p in srcs]
            run = [ctx.compile(cc, p, p[:-2] + ".o", base) for p in srcs]
            with open(os.path.join(d, "dummy.c"), "w") as f:
                f.write("int main(int argc, char **argv ){return 0;}\n")
            objs.append(ctx.compile(cc, os.path.join(d, "dummy.c"), os.path.join(d, "dummy.o"), []))
            elf = ctx.link(cc, objs, os.path.join(d, "_meta"), lf)
        except BuildError as e:
            raise Inconclusive(str(e))
        rc, o, e = ctx.run_metac(elf, module="metac-test-gen")
        if rc:
            ctx.violation("testgen-fails", "%s: the generator fails: %s" % (label, e.decode(errors="replace")[-1000:]), replay=wit)
            return
        tc = os.path.join(d, "gen.test.c")
        open(tc, "wb").write(o)
        try:
            ob = ctx.compile(cc, tc, os.path.join(d, "gen.o"), base)
            exe = ctx.link(cc, run + [ob], os.path.join(d, "tests"), lf)
        except BuildError as e:
            ctx.violation("testgen-build", "%s: the generated runner does not build: %s" % (label, str(e)[-1000:]), replay=wit + "\n" + o.decode(errors="replace"))
            return
        for mode in ("yes", "no"):
            if mode == "no" and any(w != "ok" for w in tests.values()):
                continue
            log = os.path.join(d, "log_" + mode)
            rc, so, se = sh([exe], env={"VT_LOG": log, "CK_FORK": mode, "CK_DEFAULT_TIMEOUT": "60"}, cwd=d, timeout=300)
            ran = open(log).read().split() if os.path.exists(log) else []
            ctx.case((i, mode)); ctx.count("tests_run", len(ran)); ctx.count("runs")
            w = wit + "\n==== runner ====\n" + o.decode(errors="replace") + "\n==== output ====\n" + so.decode(errors="replace")[-2000:]
            miss = sorted(set(tests) - set(ran))
            twice = sorted({n for n in ran if ran.count(n) > 1})
            other = sorted(set(ran) - set(tests))
            if miss:
                ctx.violation("testgen-missing", "%s: tests that never ran: %s" % (label, miss[:10]), replay=w)
            if twice or other:
                ctx.violation("testgen-twice", "%s: tests that ran more than once: %s, unknown: %s" % (label, twice[:10], other[:10]), replay=w)
            bad = [n for n, x in tests.items() if x != "ok"]
            if bad:
                ctx.count("failing_runs")
            if rc is None or (rc != 0) != bool(bad):
                ctx.violation("testgen-status", "%s: exit status %s with %d failing tests" % (label, rc, len(bad)), replay=w)
        ctx.count("programs")
    pmap(one, range(40 if ctx.quick else 120))
