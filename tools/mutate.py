#!/usr/bin/env python3
"""Development aid: a mutation sweep over copies of /repo (never /repo itself).
usage: mutate.py FILE[,FILE...] N SEED CHECKS [workers] [lo-hi]
Samples N one-line mutants of the files, runs CHECKS (ids separated by commas, in that order, up to
the first that reports a violation) on a copy, and appends to /tmp/mut/results.jsonl."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" < ", " > "), (r" > ", " < "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" \+= ", " -= "), (r"\+\+", "--"),
       (r" \| ", " & "), (r" & ", " | "), (r" << ", " >> "), (r" >> ", " << "),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bNULL\b", "(void*)1"),
       (r"!(?=[a-z(])", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bif err != nil\b", "if false && err != nil")]


def mutants(repo, f):
    out = []
    go = f.endswith(".go")
    lines = open(os.path.join(repo, f)).read().split("\n")
    inc = False
    for n, l in enumerate(lines):
        s = l.strip()
        if inc or s.startswith("/*"):
            inc = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "assert", "import", "package")) or s in ("{", "}"):
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            if go and b in ("(void*)1",): continue
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                out.append((f, n, code[:m.start()] + b + code[m.end():]))
        if (s.endswith(";") or go and re.match(r"^[\w.\[\]]+ = |^[\w.]+\(.*\)$", s)) and not re.match(r"^(return|break|continue|struct|union|enum|const|static|typedef|int|char|size_t|metac_\w+_t|bool|void|unsigned|uint\w+|goto|case|default|for|while|\})", s):
            if ("=" in s or "(" in s) and s.count("(") == s.count(")"):
                out.append((f, n, l[:len(l) - len(l.lstrip())] + ("" if go else ";")))
    return out, lines


def main():
    files, num, seed, checks = sys.argv[1].split(","), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
    nw = int(sys.argv[5]) if len(sys.argv) > 5 else 3
    lo, hi = map(int, sys.argv[6].split("-")) if len(sys.argv) > 6 else (0, 1 << 30)
    os.makedirs(W, exist_ok=True)
    allm, text = [], {}
    for f in files:
        m, text[f] = mutants("/repo", f)
        allm += [x for x in m if lo <= x[1] + 1 <= hi]
    random.Random(seed).shuffle(allm)
    done = set()
    res = os.path.join(W, "results.jsonl")
    if os.path.exists(res):
        for l in open(res):
            r = json.loads(l); done.add((r["file"], r["old"], r["new"]))
    q = queue.Queue()
    k = 0
    for f, n, new in allm:
        if (f, text[f][n], new) in done: continue
        if k >= num: break
        k += 1; q.put((f, n, new))
    print("%d mutants in all, %d queued" % (len(allm), k), flush=True)
    lock = threading.Lock()

    def worker(i):
        r, v = "%s/r%d" % (W, i), "%s/v%d" % (W, i)
        shutil.rmtree(r, ignore_errors=True); shutil.rmtree(v, ignore_errors=True); os.makedirs(r); os.makedirs(v)
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s; git init -q %s; git -C %s ls-files -z | grep -zv ^seeded | (cd %s; xargs -0 cp --parents -t %s)" % (r, r, V, V, v), shell=True)
        while True:
            try: f, n, new = q.get_nowait()
            except queue.Empty: break
            p = os.path.join(r, f)
            L = list(text[f]); old = L[n]; L[n] = new
            open(p, "w").write("\n".join(L))
            rec = {"file": f, "line": n + 1, "old": old, "new": new, "killed": None, "inconclusive": []}
            if f.endswith(".c"):
                x = subprocess.run(["gcc", "-w", "-I" + r + "/include", "-DMETAC_MODULE_NAME=libmetac", "-fsyntax-only", p], capture_output=True)
            elif f.endswith(".h"):
                x = subprocess.run("gcc -w -I%s/include -DMETAC_MODULE_NAME=libmetac -fsyntax-only %s/src/value_deep.c" % (r, r), shell=True, capture_output=True)
            else:
                x = subprocess.run("go build ./pkg/module ./pkg/dwarfy && ! gofmt -e %s 2>&1 >/dev/null | grep -q ." % p, shell=True, cwd=r, capture_output=True,
                                   env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
            if x.returncode:
                rec["killed"] = "compile"
            else:
                for c in checks:
                    try:
                        y = subprocess.run(["python3", v + "/check.py", c, "quick"], cwd=v, capture_output=True, text=True, timeout=900,
                                           env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VT_HANG="25", VT_CACHE="%s/c%d" % (W, i)))
                        rc = y.returncode
                    except subprocess.TimeoutExpired:
                        rc = "timeout"
                    if rc == 1:
                        rec["killed"] = c; break
                    if rc: rec["inconclusive"].append((c, rc))
            open(p, "w").write("\n".join(text[f]))
            with lock:
                open(res, "a").write(json.dumps(rec) + "\n")
                if rec["killed"] != "compile":
                    print(rec["killed"], f, n + 1, "|", old.strip(), "=>", new.strip(), rec["inconclusive"] or "", flush=True)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]


main()
