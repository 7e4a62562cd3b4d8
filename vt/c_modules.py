"""The generator's modules: settings overrides, finding modules, includes, the command line."""
import copy
import json
import os
import random

from .common import Inconclusive, REPO, sh

WORDS = ["path", "path_type", "a", "b", "a.b", "a b", "0", "null", "-", "--file:x", "é", "key:", "", "{", "x#y", "Y", "~"]


# ---------------------------------------------------------------- settings
def scalar(r):
    return r.choice([
        lambda: None, lambda: True, lambda: False, lambda: r.randint(-5, 5), lambda: r.getrandbits(50), lambda: -r.getrandbits(40),
        lambda: r.choice([0.5, -2.25, 1e10]), lambda: "", lambda: r.choice(WORDS), lambda: "line\nnext \"q\" \\ \t%d" % r.randint(0, 9),
        lambda: "true", lambda: "12"])()


def tree(r, d=0):
    x = r.random()
    if d < 4 and x < 0.45:
        return table(r, d + 1)
    if d < 4 and x < 0.6:
        return [tree(r, d + 1) for _ in range(r.randint(0, 3))]
    return scalar(r)


def table(r, d=0):
    return {r.choice(WORDS): tree(r, d) for _ in range(r.randint(0, 5))}


def q(s):
    return json.dumps(s, ensure_ascii=r"é" not in s)


def flow(v):
    return json.dumps(v)


def block(r, v, ind=0):
    """a table as YAML text"""
    out = []
    for k, x in v.items():
        key = "  " * ind + (q(k) if r.random() < 0.5 or not k.isalpha() or k in ("null", "Y", "y") else k) + ":"
        if isinstance(x, dict) and x and r.random() < 0.7:
            out.append(key + "\n" + block(r, x, ind + 1))
        elif isinstance(x, list) and x and r.random() < 0.5:
            out.append(key + "\n" + "".join("  " * ind + "  - " + flow(y) + "\n" for y in x))
        else:
            out.append(key + " " + flow(x) + "\n")
    return "".join(out)


BAD = ["[1, 2]", "5", "text", "{", "a: b: c", "{\"a\": 1} {", "{a: 1", "--file:/nonexistent/x", "a: [", "\"a\"", "a: 1\n b: 2\n  - c"]
NOTHING = ["", " \n", "{}", " {}\n", "# nothing\n", "---\n", "null", "~"]


def text(ctx, r, v, d, n):
    """the same table as text: YAML or JSON, given directly or in a file"""
    if not v and r.random() < 0.7:
        t = r.choice(NOTHING)
    elif r.random() < 0.4:
        t = r.choice(["", " ", "\n", "\t", "\r\n "]) + json.dumps(v, indent=r.choice([None, 2, "\t"])) + r.choice(["", "\n", "\t\n"])
    else:
        t = block(r, v)
        if not t or t.lstrip().startswith("{"):
            t = json.dumps(v)
        elif r.random() < 0.2:
            t = "# note\n" + t
    if r.random() < 0.25:
        nm = r.choice(["o%d", "file:%d", "e-%d", "-f%d", "li le%d", "--file:%d", " %d"]) % n
        p = os.path.join(d, nm)
        with open(p, "w") as f:
            f.write(t)
        return "--file:" + r.choice([p, nm, "./" + nm])
    return t


def merge(a, b):
    """b over a"""
    out = dict(copy.deepcopy(a))
    for k, v in b.items():
        out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else copy.deepcopy(v)
    return out


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return not isinstance(b, (dict, list)) and a == b


def variant(r, v, d=0):
    """a table that overlaps v"""
    out = {}
    for k, x in v.items():
        p = r.random()
        if p < 0.4:
            out[k] = variant(r, x, d + 1) if isinstance(x, dict) and r.random() < 0.7 else tree(r, d + 1)
    out.update(table(r, d + 1) if r.random() < 0.6 else {})
    return out


def ask(ctx, exe, reqs, cwd=None):
    rc, o, e = sh([exe], inp="".join(json.dumps(x) + "\n" for x in reqs).encode(), timeout=300, cwd=cwd)
    lines = o.decode().splitlines()
    if rc != 0 or len(lines) != len(reqs):
        # which request ended the process
        k = min(len(lines), len(reqs) - 1)
        ctx.violation("modules-crash", "the generator's packages crash (rc=%s) around request %d: %s" % (rc, k, e.decode(errors="replace")[-1500:]), replay=json.dumps(reqs[k]))
        raise StopIteration
    out = [json.loads(x) for x in lines]
    for x, a in zip(reqs, out):
        if "bad" in a:
            raise Inconclusive("harness: %s" % a["bad"])
        if "panic" in a:
            ctx.violation("modules-panic", "panic: %s" % a["panic"], replay=json.dumps(x))
    return out


def check_override(ctx):
    ctx.rule = ("random settings and chains of 0-5 overriding texts (YAML and JSON, direct and from files, nested tables, lists, null, "
                "empty and invalid documents) merged by the real package; compared with a model of merging; distinct = requests")
    ctx.assumptions = ["keys are strings; integers below 2^53"]
    exe = ctx.go_harness("h_modules")
    r = random.Random("override/%s" % ctx.seed)
    d = ctx.dir("ov")
    reqs, exp = [], []
    for i in range(3000 if ctx.quick else 40000):
        base = table(r)
        want, texts, bad = base, [], False
        for k in range(r.choice([0, 1, 1, 2, 3, 5])):
            if r.random() < 0.06:
                texts.append(r.choice(BAD)); bad = True
                continue
            v = variant(r, want) if r.random() < 0.8 else table(r)
            texts.append(text(ctx, r, v, d, i * 8 + k))
            want = merge(want, v)
        reqs.append({"op": "merge", "in": json.dumps(base), "overrides": texts})
        exp.append((base, None if bad else want))
    try:
        got = ask(ctx, exe, reqs, cwd=d)
    except StopIteration:
        return
    for x, (base, want), a in zip(reqs, exp, got):
        ctx.case(json.dumps(x), nontrivial=bool(x["overrides"]))
        w = json.dumps(x, indent=1) + "\n" + json.dumps(a, indent=1)
        if "panic" in a:
            continue
        if not same(a.get("in"), base):
            ctx.violation("override-input", "merging changed the settings it was given", replay=w)
        if want is None:
            ctx.count("refused")
            if "err" not in a:
                ctx.violation("override-invalid", "invalid override accepted: %s" % x["overrides"], replay=w)
        elif "err" in a:
            ctx.violation("override-refused", "valid override refused: %s" % a["err"], replay=w)
        else:
            ctx.count("merged")
            if not same(a["out"], want):
                ctx.violation("override-result", "merged settings are %s, not %s" % (json.dumps(a["out"])[:400], json.dumps(want)[:400]), replay=w)
    ctx.sample(json.dumps(reqs[0])[:300])


# ---------------------------------------------------------------- modules
HEAD = "apiVersion: v1\nkind: %s\nmetadata:\n  name: %s\n"
NAMES = ["m0", "m1", "mod-2", "a.b", "..x", "m 3"]
ILLEGAL = ["..", ".", "a/b", "../m0", "m0/", "/m0", "a\\b", "./m0"]


def put(path, txt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(txt)


def check_modules(ctx):
    ctx.rule = ("random trees of module directories (several search paths, missing, broken, unknown-kind and refusing modules, specs of "
                "other names, includes with nested template directories, several runs of one instance, working directories); the instance "
                "chosen, the text made and the working directory afterwards are compared with a model; distinct = requests")
    ctx.assumptions = ["template names of different modules do not collide", "one thread"]
    exe = ctx.go_harness("h_modules")
    find(ctx, exe)
    includes(ctx, exe)
    cli(ctx)


def find(ctx, exe):
    r = random.Random("find/%s" % ctx.seed)
    reqs, exp = [], []
    root = ctx.dir("find")
    for t in range(60 if ctx.quick else 600):
        paths = [os.path.join(root, "t%d" % t, "p%d" % k) for k in range(r.randint(0, 4))]
        state = {}
        for p in paths:
            for n in NAMES:
                s = r.choice(["none", "A", "B", "bad", "other", "empty", "A"])
                state[p, n] = s
                f = os.path.join(p, n, "module.yaml")
                if s in "AB":
                    put(f, HEAD % ("kind" + s, n) + r.choice(["", "spec:\n  x: 1\n"]))
                elif s == "bad":
                    put(f, r.choice(["kind: [", "a: b: c", "- x\n"]))
                elif s == "other":
                    put(f, HEAD % (r.choice(["kindC", "kinda", "\"\""]), n))
                elif s == "empty":
                    os.makedirs(os.path.join(p, n), exist_ok=True)
                    if r.random() < 0.5:
                        put(os.path.join(p, n, "other.yaml"), HEAD % ("kindA", n))
        for _ in range(25):
            fail = [os.path.join(p, n) for p in paths for n in NAMES if r.random() < 0.25]
            if r.random() < 0.12:
                name, spec = r.choice(ILLEGAL), r.choice(["", "module.yaml"])
                want, calls, infos = None, [], None
            elif r.random() < 0.15 and paths:
                p, n = r.choice(paths), r.choice(NAMES)
                name, spec = "", os.path.join(p, n, "module.yaml")
                ok = state[p, n] in "AB"
                full = "kind%s|%s|%s" % (state[p, n], os.path.join(p, n), "module.yaml")
                want = full if ok and os.path.join(p, n) not in fail else None
                calls, infos = [full] if ok else [], None
            else:
                name, spec = r.choice(NAMES + ["absent"]), r.choice(["", "module.yaml", "other.yaml"])
                want, calls, infos = None, [], []
                for p in paths:
                    s = state.get((p, name))
                    if s not in ("A", "B"):
                        continue
                    mp = os.path.join(p, name)
                    infos.append("kind%s|%s" % (s, mp))
                    if want is None:
                        full = "kind%s|%s|%s" % (s, mp, spec or "module.yaml")
                        calls.append(full)
                        if mp not in fail:
                            want = full
            reqs.append({"op": "find", "paths": paths, "name": name, "spec": spec, "fail": fail})
            exp.append((want, calls, infos))
    try:
        got = ask(ctx, exe, reqs)
    except StopIteration:
        return
    for x, (want, calls, infos), a in zip(reqs, exp, got):
        ctx.case(json.dumps(x)); ctx.count("lookups")
        w = json.dumps(x, indent=1) + "\n" + json.dumps(a, indent=1)
        if "panic" in a:
            continue
        if a.get("nil") or a.get("out") != want:
            ctx.violation("module-find", "module %r spec %r: got %s (%s), not %s" % (x["name"], x["spec"], a.get("out"), a.get("err"), want), replay=w)
        if a["calls"] != calls:
            ctx.violation("module-order", "module %r: tried %s, not %s" % (x["name"], a["calls"], calls), replay=w)
        if infos is not None and a["infos"] != infos:
            ctx.violation("module-infos", "module %r: listed %s, not %s" % (x["name"], a["infos"], infos), replay=w)
        if x["name"] in ILLEGAL and "info_err" not in a:
            ctx.violation("module-illegal", "illegal module name %r accepted" % x["name"], replay=w)


def includes(ctx, exe):
    r = random.Random("incl/%s" % ctx.seed)
    reqs, exp = [], []
    root = ctx.dir("incl")
    for t in range(150 if ctx.quick else 1500):
        td = os.path.join(root, "t%d" % t)
        paths = [os.path.join(td, "p%d" % k) for k in range(r.randint(1, 3))]
        libs = ["l%d" % k for k in range(r.randint(0, 4))]
        where = {}                              # lib -> {define: text} of the first loadable place, or None
        for lib in libs:
            where[lib] = None
            seen = 0
            for pi, p in enumerate(paths):
                s = r.choice(["none", "ok", "ok", "notemplates", "broken", "kindB", "nospec"])
                if s == "none":
                    continue
                if s != "nospec":
                    put(os.path.join(p, lib, "module.yaml"), HEAD % ("kindB" if s == "kindB" else "goTemplate", lib))
                if s == "notemplates":
                    continue
                defs = {}
                for k in range(r.randint(1, 3)):
                    sub = r.choice(["", "sub/", "sub/deep/", ".hid/"])
                    body = ""
                    for j in range(r.randint(1, 2)):
                        dn = "%s.d%d%d" % (lib, k, j)
                        defs[dn] = "[%s %s %d]" % (p[-2:], dn, r.randint(0, 99))
                        body += "{{- define \"%s\" -}}%s{{- .x -}}{{- end -}}\n" % (dn, defs[dn])
                    put(os.path.join(p, lib, "templates", sub + "_%d.tpl" % k), body)
                if s == "broken":
                    put(os.path.join(p, lib, "templates", "0_broken.tpl"), "{{- define \"x\" -}}{{ .a ")
                if s == "ok" and where[lib] is None:
                    where[lib] = defs
        own = {}
        mdir = os.path.join(r.choice(paths), "main")
        if r.random() < 0.6:
            own = {"main.d": "[own %d]" % r.randint(0, 99)}
            put(os.path.join(mdir, "templates", r.choice(["", "s/"]) + "_own.tpl"), "{{- define \"main.d\" -}}%s{{- .x -}}{{- end -}}" % own["main.d"])
        use = [l for l in libs if r.random() < 0.7]
        ok = all(where[l] is not None for l in use)
        names = list(own) + [d for l in use if where[l] for d in where[l]]
        alltxt = dict(own)
        for l in use:
            alltxt.update(where[l] or {})
        calls = [r.choice(names) for _ in range(r.randint(1, 5))] if names else []
        fails = r.random() < 0.1
        nosettings = r.random() < 0.08
        tpl = "".join("{{- include \"%s\" . -}}" % c for c in calls)
        tpl += "{{- fail \"asked for\" -}}" if fails else "{{- cwd -}}|{{- toJson . -}}"
        base = {"x": "X%d" % t, "t": {"a": 1, "l": [1, 2]}}
        spec = HEAD % ("goTemplate", "main") + "spec:\n"
        if use:
            spec += "  include:\n" + "".join("  - %s\n" % u for u in use)
        if not nosettings:
            spec += "  settings: %s\n" % json.dumps(base)
        spec += "  template: %s\n" % json.dumps(tpl)
        sname = r.choice(["module.yaml", "module.yaml", "second.yaml"])
        put(os.path.join(mdir, sname), spec)
        if sname != "module.yaml":
            put(os.path.join(mdir, "module.yaml"), HEAD % ("goTemplate", "main"))
        runs, want = [], []
        for k in range(r.randint(1, 3)):
            ov = [variant(r, base, 2) for _ in range(r.randint(0, 2))]
            wd = r.choice(["", "", td, "t%d" % t, os.path.dirname(mdir), os.path.relpath(mdir, root), "/", ".", os.path.join(td, "none")])
            runs.append({"workdir": wd, "overrides": [json.dumps(v) for v in ov]})
            s = base
            for v in ov:
                s = merge(s, v)
            good = ok and not fails and not nosettings and not wd.endswith("none")
            x = s.get("x")
            if calls and not isinstance(x, str):
                good = None                     # how Go prints it is not the point
            at = os.path.realpath(os.path.join(root, wd)) + "|"
            want.append(("".join(alltxt[c] + x for c in calls) + at, s) if good else good)
        name, sp = r.choice([("main", "" if sname == "module.yaml" else sname), ("", os.path.join(mdir, sname))])
        if r.random() < 0.4:
            paths = [os.path.relpath(p, root) for p in paths]
            sp = os.path.relpath(sp, root) if name == "" else sp
        reqs.append({"op": "run", "paths": paths, "name": name, "spec": sp, "runs": runs})
        exp.append(want)
    try:
        got = ask(ctx, exe, reqs, cwd=root)
    except StopIteration:
        return
    for x, want, a in zip(reqs, exp, got):
        ctx.case(json.dumps(x)); ctx.count("instances")
        w = json.dumps(x, indent=1) + "\n" + json.dumps(a, indent=1)
        if "panic" in a:
            continue
        if "err" in a:
            ctx.violation("module-load", "module not found: %s" % a["err"], replay=w)
            continue
        for ru, we, g in zip(x["runs"], want, a["runs"]):
            ctx.count("runs")
            if g["moved"]:
                ctx.violation("module-workdir", "the working directory is not the one before the run (%s)" % g.get("err", "successful run"), replay=w)
            if we is None:
                continue
            if we is False:
                ctx.count("refused_runs")
                if "err" not in g:
                    ctx.violation("module-accepted", "a run that cannot work gives %r" % g["out"][:300], replay=w)
                continue
            if "err" in g:
                ctx.violation("module-failed", "a valid module fails: %s" % g["err"], replay=w)
                continue
            txt, s = we
            o = g["out"]
            if not o.startswith(txt):
                ctx.violation("module-text", "the text is %r, not %r" % (o[:300], txt), replay=w)
                continue
            try:
                j = json.loads(o[len(txt):])
            except ValueError:
                j = "(no JSON)"
            if not same(j, s):
                ctx.violation("module-settings", "the settings of this run are %s, not %s" % (json.dumps(j)[:300], json.dumps(s)[:300]), replay=w)


def cli(ctx):
    """the program itself: exit status, output only on success, search paths, working directory"""
    exe = ctx.metac()
    r = random.Random("cli/%s" % ctx.seed)
    root = ctx.dir("cli")
    data = '{"entries":{"0":{"kind":"","parent":0,"children":[]}}}'
    for t in range(12 if ctx.quick else 60):
        td = os.path.join(root, "t%d" % t)
        mp = [os.path.join(td, "p%d" % k) for k in range(2)]
        for k, p in enumerate(mp):
            put(os.path.join(p, "m", "module.yaml"), HEAD % ("goTemplate", "m") + "spec:\n  settings: {\"x\": \"P%d\", \"f\": \"\"}\n  template: %s\n" % (
                k, json.dumps("{{- .x -}}{{- if .f -}}{{- $_ := dwarfFromJsonFile .f -}}read{{- end -}}")))
        put(os.path.join(td, "wd", "rel.json"), data)
        x = "v%d" % r.randint(0, 999)
        order = r.sample(mp, 2)
        M = sum((["-M", p] for p in order), [])
        first = "P%d" % mp.index(order[0])
        cases = [
            (M + ["run", "m"], first), (["run", "m"] + M, first), (["run", "m"] + M + ["-s", "x: " + x], x),
            (["run", "m", "-s", "x: other", "--settingsOverride", '{"x": "%s"}' % x] + M, x),
            (["run", "-f", os.path.join(mp[1], "m", "module.yaml")], "P1"),
            (["run", "m", "-C", os.path.join(td, "wd"), "-s", "f: rel.json"] + M, first + "read"),
            (["run", "m", "-s", "f: rel.json"] + M, None),
            (["run", "m", "-C", os.path.join(td, "no")] + M, None),
            (["run", "absent"] + M, None), (["run", "../m"] + M, None), (["run", "m", "-s", "x: [", ] + M, None),
            (["run", "m", "-M", os.path.join(td, "nowhere")], None), (["run"], None),
            (["run", "-f", os.path.join(td, "nofile.yaml")], None),
        ]
        for args, want in cases:
            rc, o, e = sh([exe] + args, cwd=td, timeout=60)
            ctx.case(("cli", t, tuple(a.replace(td, "") for a in args))); ctx.count("cli_runs")
            w = "metac " + " ".join(args) + "\nrc=%s\n%s\n%s" % (rc, o.decode(errors="replace"), e.decode(errors="replace"))
            if want is None:
                if rc == 0:
                    ctx.violation("cli-status", "a failed run reports success: metac %s" % " ".join(args).replace(td, "."), replay=w)
                if o.strip():
                    ctx.violation("cli-output", "a failed run writes output: metac %s" % " ".join(args).replace(td, "."), replay=w)
            elif rc != 0 or o.decode().strip() != want:
                ctx.violation("cli-run", "metac %s gives %r (rc=%s), not %r" % (" ".join(args).replace(td, "."), o.decode(errors="replace")[:200], rc, want), replay=w)
