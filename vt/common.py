"""Shared machinery of the checks: scratch space, builds from /repo's working
tree, sanitizer runs, verdicts, evidence.

Every check is a function check(ctx) registered in vt.checks.  It reports
  ctx.violation(key, msg, replay)   the property is broken, with a witness
  ctx.known keys                    listed in known_findings.json
and raises Inconclusive when it could not decide (exit 2: an error, no verdict).
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import traceback
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CDIR = os.path.join(VERIF, "c")
NPROC = os.cpu_count() or 4

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "none": [],
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:"
                    "detect_stack_use_after_return=0:allocator_may_return_null=1:"
                    "strict_string_checks=1:handle_abort=0:hard_rss_limit_mb=2500",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "LSAN_OPTIONS": "exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=97:second_deadlock_stack=1",
}


WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=strndup"]


class Inconclusive(Exception):
    pass


class BuildError(Exception):
    """/repo's code (or what it generates) did not compile / run as a build."""


def sh(cmd, cwd=None, env=None, timeout=300, inp=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, input=inp, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return None, x.stdout or b"", x.stderr or b""


def pmap(fn, items, workers=NPROC):
    items = list(items)
    if not items:
        return []
    with concurrent.futures.ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


def meta_opt(name):
    """mk/metac.mk compiles for the generator with the CFLAGS of the program, so with any level
    of optimisation"""
    return [["-O0"], ["-O2"], [], ["-O1"], ["-O3"], ["-Os"], ["-gz"], ["-Og"], ["-O2", "-ffunction-sections", "-fdata-sections"],
            ["-fPIC", "-O2"], ["-gno-column-info"]][sum(map(ord, name)) % 11]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self._cache = os.environ.get("VT_CACHE")    # development only (tools/mutate.py): reuse equal compilations
        if self._cache:
            self.scratch = os.path.join(self._cache, "scratch_" + prop)
            shutil.rmtree(self.scratch, ignore_errors=True)
            os.makedirs(self.scratch)
        else:
            self.scratch = tempfile.mkdtemp(prefix="vt_%s_" % prop)
        self.evals = 0
        self.extra_distinct = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.rule = ""
        self.level = "exploration"
        self.viol = []          # (key, msg, replay path)
        self.known_hit = {}
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            for k in json.load(open(kf)).get("findings", []):
                if k.get("property") == prop and k.get("status") == "known":
                    self.known.append(k)
        self._metac = None
        self._lib = {}
        self._lock = threading.RLock()
        self._hang = threading.Lock()
        self.hung = False       # a hang is confirmed: nothing more to learn from waiting for others

    # -- verdicts ---------------------------------------------------------
    def violation(self, key, msg, replay=None):
        for k in self.known:
            if k["key"] == key:
                self.known_hit[key] = k
                return
        if any(v[0] == key for v in self.viol):
            return
        if len(self.viol) >= 20:
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        name = "%s_%s.txt" % (self.prop, hashlib.sha1(key.encode()).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, "w") as f:
            f.write("property: %s\ntier: %s\nVERIF_SEED: %d\nkey: %s\n\n%s\n" %
                    (self.prop, self.tier, self.seed, key, msg))
            f.write("\nreplay: cd /verif && VERIF_SEED=%d python3 check.py %s %s\n" %
                    (self.seed, self.prop, self.tier))
            if replay:
                f.write("\n==== witness ====\n" + replay + "\n")
        self.viol.append((key, msg, path))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def case(self, key, nontrivial=True, n=1):
        self.evals += n
        if nontrivial:
            self.distinct.add(key if len(str(key)) < 64 else
                              hashlib.sha1(str(key).encode()).hexdigest())

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        extra_distinct = self.extra_distinct
        cov = {"evaluations": self.evals,
               "distinct_nontrivial": len(self.distinct) + extra_distinct,
               "rule": self.rule, "samples": self.samples}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for key, msg, path in self.viol:
            print("violation: %s: %s" % (key, msg.split("\n")[0][:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s %s seed=%d: evaluations=%d distinct=%d violations=%d known=%d wall=%.1fs" %
              (self.prop, self.tier, self.seed, self.evals,
               len(self.distinct) + extra_distinct, len(self.viol), len(self.known_hit),
               time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.viol else 0

    def cleanup(self):
        if os.environ.get("VT_KEEP"):
            print("kept", self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    # -- builds -----------------------------------------------------------
    def metac(self):
        """Builds the real generator from /repo's Go sources (offline, with
        stand-ins for four third-party modules that are not in the module cache)."""
        if self._metac:
            return self._metac
        d = self.dir("metac")
        gm = open(os.path.join(VERIF, "gomod", "go.mod.in")).read()
        gm = gm.replace("/verif/shims", os.path.join(VERIF, "shims"))
        open(os.path.join(d, "go.mod"), "w").write(gm)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
        env = go_env()
        rc, out, err = sh(["go", "build", "-modfile=" + os.path.join(d, "go.mod"),
                           "-buildvcs=false", "-o", os.path.join(d, "metac"), "."], cwd=REPO, env=env, timeout=600)
        if rc != 0:
            raise BuildError("generator does not build:\n" + err.decode(errors="replace"))
        self._metac = os.path.join(d, "metac")
        return self._metac

    def go_harness(self, name):
        """Builds go/<name>.go.in against /repo's Go packages (an overlay: nothing is written to /repo)."""
        self.metac()
        d = self.dir("gh_" + name)
        ov = os.path.join(d, "overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, "vt_harness", "main.go"): os.path.join(VERIF, "go", name + ".go.in")}}, f)
        rc, out, err = sh(["go", "build", "-modfile=" + os.path.join(self.dir("metac"), "go.mod"), "-overlay=" + ov,
                           "-buildvcs=false", "-o", os.path.join(d, name), "./vt_harness"], cwd=REPO, env=go_env(), timeout=600)
        if rc != 0:
            raise Inconclusive("%s does not build:\n%s" % (name, err.decode(errors="replace")))
        return os.path.join(d, name)

    def run_metac(self, path, module="metac-reflect-gen", path_type="elf", spec=None,
                  timeout=120, cwd=None):
        """Runs the generator the way the makefiles do; returns (rc, stdout, stderr)."""
        cmd = [self.metac()]
        if spec:
            cmd += ["-f", spec]
        else:
            cmd += ["run", module]
        if path_type:
            cmd += ["-s", 'path_type: "%s"' % path_type]
        cmd += ["-s", 'path: "%s"' % path]
        return sh(cmd, cwd=cwd or REPO, timeout=timeout)

    def _cached(self, key, out, make):
        """make() writes `out`; an equal one made before is copied instead"""
        f = os.path.join(self._cache, "o", hashlib.sha1(key).hexdigest())
        if os.path.exists(f):
            shutil.copyfile(f, out)
            return out
        make()
        os.makedirs(os.path.dirname(f), exist_ok=True)
        shutil.copyfile(out, f + ".tmp%d" % threading.get_ident())
        os.replace(f + ".tmp%d" % threading.get_ident(), f)
        return out

    def reflect(self, path, out, **kw):
        if self._cache and not kw:
            k = sh(["sh", "-c", "cat $(find %s/pkg %s/cmd %s/modules %s/*.go -type f | sort) %s" % (REPO, REPO, REPO, REPO, path)])[1]
            return self._cached(k, out, lambda: self._reflect(path, out))
        return self._reflect(path, out, **kw)

    def _reflect(self, path, out, **kw):
        rc, o, e = self.run_metac(path, **kw)
        if rc != 0:
            raise BuildError("generator failed (rc=%s) on %s:\n%s" %
                             (rc, path, e.decode(errors="replace")[-3000:]))
        with open(out, "wb") as f:
            f.write(o)
        return out

    def compile(self, cc, src, obj, flags, timeout=300, cwd=None):
        if self._cache:
            rc, o, e = sh([cc] + flags + ["-E", "-dD", src], cwd=cwd)
            if rc == 0:
                return self._cached(o + repr((cc, src, obj, flags, cwd)).encode(), obj, lambda: self._compile(cc, src, obj, flags, timeout, cwd))
        return self._compile(cc, src, obj, flags, timeout, cwd)

    def _compile(self, cc, src, obj, flags, timeout=300, cwd=None):
        rc, o, e = sh([cc] + flags + ["-c", src, "-o", obj], timeout=timeout, cwd=cwd)
        if rc != 0:
            raise BuildError("%s %s: %s" % (cc, src, e.decode(errors="replace")[-4000:]))
        return obj

    def link(self, cc, objs, out, flags):
        rc, o, e = sh([cc] + objs + ["-o", out] + flags)
        if rc != 0:
            raise BuildError("link %s: %s" % (out, e.decode(errors="replace")[-4000:]))
        return out

    def lib_sources(self):
        srcs = []
        for s in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
            b = os.path.basename(s)
            if b == "_module.c" or ".dummy." in b or b.endswith("_test.c") or \
               b.endswith("_checkmk.c") or b.endswith(".test.c") or b.endswith(".reflect.c"):
                continue
            srcs.append(s)
        return srcs

    def lib(self, san="asan", cc="gcc", extra=(), reflect=True, opt="-O1"):
        """libmetac compiled from /repo/src with the given sanitizer; returns objects."""
        key = (san, cc, tuple(extra), reflect, opt)
        if key in self._lib:
            return self._lib[key]
        d = self.dir("lib_%s_%s_%d" % (san, cc, len(self._lib)))
        base = ["-I" + os.path.join(REPO, "include"), "-DMETAC_MODULE_NAME=libmetac", "-w"]
        flags = base + ["-g", opt] + SAN[san] + list(extra)
        srcs = self.lib_sources()
        jobs = [(s, os.path.join(d, os.path.basename(s)[:-2] + ".o"), flags) for s in srcs]
        mobjs = []
        if reflect:
            for s in srcs:
                m = os.path.join(d, os.path.basename(s)[:-2] + ".meta.o")
                if os.path.basename(s) == "printf_format.c":
                    jobs.append((s, m, base + ["-g3", "-D_METAC_OFF_"]))
                else:
                    jobs.append((s, m, base))
                mobjs.append(m)
            m = os.path.join(d, "_module.meta.o")
            jobs.append((os.path.join(REPO, "src", "_module.c"), m, base))
            mobjs.append(m)
            self.metac()
        pmap(lambda j: self.compile(cc, j[0], j[1], j[2]), jobs)
        objs = [j[1] for j in jobs[:len(srcs)]]
        if reflect:
            elf = self.link(cc, mobjs, os.path.join(d, "_meta_libmetac"), ["-lm"])
            rc = self.reflect(elf, os.path.join(d, "libmetac.reflect.c"))
            objs.append(self.compile(cc, rc, rc[:-2] + ".o", flags))
        else:       # no reflection data of the library itself: pull only what is needed
            ar = os.path.join(d, "libmetac.a")
            rc, o, e = sh(["ar", "rcs", ar] + objs)
            if rc != 0:
                raise BuildError("ar: " + e.decode(errors="replace"))
            objs = [ar]
        self._lib[key] = objs
        return objs

    def program(self, name, sources, san="asan", cc="gcc", meta_cc=None, meta_flags=(),
                extra=(), libs=(), with_lib=True, opt="-O1", lib_extra=(), meta_sources=None,
                dwarf=None, objs=()):
        """Builds a program with reflection: sources -> -g3 meta ELF -> generator ->
        reflect.c -> sanitized executable.  Returns (exe, reflect.c)."""
        d = self.dir("p_" + name)
        meta_cc = meta_cc or cc
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + CDIR, "-I" + d, "-w"]
        metaf = inc + ["-g3", "-D_METAC_OFF_"] + meta_opt(name) + list(meta_flags)
        if dwarf:
            metaf.append("-gdwarf-%d" % dwarf)
        runf = inc + ["-g", opt] + SAN[san] + list(extra)
        jobs = []
        ms = meta_sources if meta_sources is not None else sources
        for s in ms:
            jobs.append((meta_cc, s, os.path.join(d, os.path.basename(s)[:-2] + ".meta.o"), metaf))
        # our own harness and oracle code is not under test: memory checks only
        harnf = [f.replace("address,undefined", "address") for f in runf]
        for s in sources:
            own = s.startswith(CDIR) or s.endswith("_oracle.c")
            jobs.append((cc, s, os.path.join(d, os.path.basename(s)[:-2] + ".o"),
                         harnf if own else runf))
        pmap(lambda j: self.compile(*j), jobs)
        elf = self.link(meta_cc, [j[2] for j in jobs[:len(ms)]],
                        os.path.join(d, "_meta_" + name),
                        ["-Wl,--unresolved-symbols=ignore-all", "-lm"])
        rc = self.reflect(elf, os.path.join(d, name + ".reflect.c"))
        ro = self.compile(cc, rc, os.path.join(d, name + ".reflect.o"), runf)
        exe = self.link(cc, [j[2] for j in jobs[len(ms):]] + [ro] + list(objs) +
                        (self.lib(san=san, cc=cc, extra=lib_extra, opt=opt) if with_lib else []),
                        os.path.join(d, name), SAN[san] + ["-lm"] + list(libs))
        return exe, rc

    def plain(self, name, harness, san="asan", cc="gcc", libs=(), opt="-O1", wrap=False, ubsan=False, reflect=False):
        """A harness that needs the library but no reflection of its own."""
        d = self.dir("p_" + name)
        fl = ["-I" + os.path.join(REPO, "include"), "-I" + CDIR, "-w", "-g", opt] + SAN[san]
        if not ubsan:
            fl = [f.replace("address,undefined", "address") for f in fl]
        objs = pmap(lambda h: self.compile(cc, os.path.join(CDIR, h),
                                           os.path.join(d, h[:-2] + ".o"), fl), harness)
        return self.link(cc, list(objs) + self.lib(san=san, cc=cc, opt=opt, reflect=reflect),
                         os.path.join(d, name),
                         SAN[san] + ["-lm"] + list(libs) + (WRAP if wrap else []))

    def run(self, exe, args=(), timeout=300, env=None, cwd=None, inp=None):
        """Runs an instrumented executable; returns (rc, stdout, stderr) as text."""
        e = dict(SAN_ENV)
        if env:
            e.update(env)
        rc, out, err = sh([exe] + [str(a) for a in args], env=e, timeout=timeout,
                          cwd=cwd or self.scratch, inp=inp)
        return rc, out.decode(errors="replace"), err.decode(errors="replace")


    def harness(self, exe, args=(), label="", timeout=300, env=None, witness=None, inp=None,
                expect_end=True):
        """Runs an oracle harness and folds its records into the verdict.  Sanitizer
        reports, aborts, crashes and (twice in a row) hangs are violations too."""
        if self.hung:
            return None, "", ""
        first = int(os.environ.get("VT_HANG", "0")) or (min(timeout, 75) if self.quick else timeout)
        rc, out, err = self.run(exe, args, timeout=first, env=env, inp=inp)
        if rc is None:
            with self._hang:
                if not self.hung:
                    rc, out, err = self.run(exe, args, timeout=200 if first >= 75 else 3 * first, env=env, inp=inp)
                    self.hung = rc is None
        with self._lock:
            return self._fold(exe, args, label, witness, expect_end, rc, out, err)

    def harness_many(self, jobs, workers=NPROC):
        """jobs: (exe, args, label[, kwargs]) run in parallel, verdicts folded one by one"""
        return pmap(lambda j: self.harness(j[0], j[1], label=j[2], **(j[3] if len(j) > 3 else {})),
                    jobs, workers=workers)

    def _fold(self, exe, args, label, witness, expect_end, rc, out, err):
        ended = False
        wit = lambda: (witness() if callable(witness) else (witness or ""))
        for line in out.split("\n"):
            f = line.split("\t")
            if f[0] == "V" and len(f) >= 3:
                self.violation(f[1], "%s: %s" % (label, "\t".join(f[2:])),
                               replay="run: %s %s\n%s" % (exe, " ".join(map(str, args)), wit()))
            elif f[0] == "C" and len(f) == 3:
                if f[1] == "evals":
                    self.evals += int(f[2])
                else:
                    self.count(f[1], int(f[2]))
            elif f[0] == "D" and len(f) == 2:
                self.extra_distinct += int(f[1])
            elif f[0] == "S" and len(f) >= 2:
                self.sample(label + ": " + "\t".join(f[1:]))
            elif line == "END":
                ended = True
        bad = None
        if rc is None:
            bad = "hang"
        elif rc != 0 or (expect_end and not ended):
            bad = classify(rc, err)
        if bad:
            self.violation(bad, "%s: %s (exit %s)\n%s" % (label, bad, rc, err[-6000:]),
                           replay="run: %s %s\nstdout tail:\n%s\nstderr:\n%s\n%s" % (
                               exe, " ".join(map(str, args)), out[-1500:], err[-6000:], wit()))
        return rc, out, err


def classify(rc, err):
    """a stable key for an abnormal end: kind of report + innermost /repo function"""
    import re
    kind = "exit%s" % rc
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    if m:
        kind = m.group(1)[0:4] + ":" + m.group(2)
    elif "runtime error:" in err:
        m = re.search(r"runtime error: ([^\n]{0,60})", err)
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?[0-9]+", "N", m.group(1))
    elif "WARNING: ThreadSanitizer" in err:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", err)
        kind = "tsan:" + m.group(1).strip()
    elif "Assertion" in err:
        m = re.search(r"(\w+): Assertion `([^\n]*?)' failed", err)
        kind = "assert:" + (m.group(1) + ":" + m.group(2) if m else "?")
    elif rc is not None and rc < 0:
        kind = "signal%d" % -rc
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\w+) (\S+)", err):
        if "/src/" in m.group(2) and "sanitizer" not in m.group(2) and "/build/" not in m.group(2):
            fn = m.group(1)
            break
    return kind + ("@" + fn if fn else "")


def go_env():
    e = {"GOPROXY": "off", "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GONOSUMDB": "*",
         "GONOSUMCHECK": "1", "GOFLAGS": "-mod=mod"}
    if not os.environ.get("HOME"):
        e["HOME"] = "/root"
    return e


def main(registry):
    if len(sys.argv) < 2:
        print("usage: check.py <property|setup> [quick|thorough]")
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop not in registry:
        print("unknown property", prop)
        return 2
    ctx = Ctx(prop, tier, seed)
    try:
        registry[prop](ctx)
        if ctx.evals == 0 and not ctx.viol:
            print("INCONCLUSIVE %s: nothing observed" % prop)
            return 2
        return ctx.finish()
    except (Inconclusive, BuildError) as x:
        if ctx.viol:
            return ctx.finish()
        print("INCONCLUSIVE %s: %s" % (prop, x))
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.viol:
            return ctx.finish()
        print("INCONCLUSIVE %s: the check itself failed" % prop)
        return 2
    finally:
        ctx.cleanup()
