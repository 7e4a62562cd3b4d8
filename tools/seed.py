#!/usr/bin/env python3
"""Development aid: makes /verif/seeded/<id> from a definition and confirms it.
usage: seed.py DEFDIR [check ids...]   DEFDIR: edit.py (function edit(read, write, sub)), demo.c
[demo2.c ...], meta.json.  If demo.c mentions METAC_ its reflection data is generated (by the
unchanged generator) and stored beside it as demo.reflect.c."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
DEMO = r'''#!/bin/bash
# exit 0: the property holds; run with cwd = the repository, after its build
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
F="-g -O1 -w -I$R/include -I$D -I$T %(san)s"
n=0
for s in "$R"/src/*.c; do
    case $s in *_test.c|*_checkmk.c|*/_module.c|*.test.c|*.reflect.c|*.dummy.*) continue ;; esac
    gcc $F -DMETAC_MODULE_NAME=libmetac -c "$s" -o "$T/$(basename "$s" .c).o" & n=$((n+1)); [ $((n %% 8)) = 0 ] && wait
done
wait
echo 'void *metac_entry_libmetac, *metac_libmetac_gsym_metac_store_printf_params, *metac_libmetac_gsym_metac_store_vprintf_params;' > "$T/stub.c"
gcc -c "$T/stub.c" -o "$T/stub.o"
ar rcs "$T/libmetac.a" "$T"/*.o || exit 3
gcc $F "$D"/demo*.c "$T/libmetac.a" %(link)s -lm -o "$T/demo" || exit 3
timeout 60 "$T/demo"
'''
GEN = r'''#!/bin/bash
# exit 0: the property holds; run with cwd = the repository, after its build.  shims/ are offline
# stand-ins of four third-party Go modules, the generator is built from the repository
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod HOME=${HOME:-/root}
sed "s|@D@|$D|" "$D/go.mod.in" > "$T/go.mod"; cp "$R/go.sum" "$T/go.sum"
go build -modfile="$T/go.mod" -buildvcs=false -o "$T/metac" . >&2 || exit 3
%(body)s
'''
BODY = r'''F="-g -O1 -w -I$R/include -I$D -I$T %(san)s"; B="-w -I$R/include -DMETAC_MODULE_NAME=libmetac"
n=0
for s in "$R"/src/*.c; do
    case $s in *_test.c|*_checkmk.c|*.test.c|*.reflect.c|*.dummy.*) continue ;; esac
    b=$(basename "$s" .c); g=""; [ $b = printf_format ] && g="-g3 -D_METAC_OFF_"
    gcc $B $g -c "$s" -o "$T/$b.meta.o" &
    [ $b = _module ] || gcc $F -DMETAC_MODULE_NAME=libmetac -c "$s" -o "$T/$b.o" &
    n=$((n+1)); [ $((n %% 4)) = 0 ] && wait
done
wait
gcc "$T"/*.meta.o -o "$T/_meta_libmetac" -lm || exit 3
"$T/metac" run metac-reflect-gen -s 'path_type: "elf"' -s "path: \"$T/_meta_libmetac\"" > "$T/libmetac.reflect.c" || exit 3
rm -f "$T"/*.meta.o
gcc $F -DMETAC_MODULE_NAME=libmetac -c "$T/libmetac.reflect.c" -o "$T/libmetac.reflect.o" || exit 3
for s in "$D"/demo*.c; do %(mcc)s -w -I$R/include -I$D -g3 %(mflags)s -D_METAC_OFF_ -c "$s" -o "$T/$(basename "$s" .c).dmeta.o" || exit 3; done
%(mcc)s "$T"/*.dmeta.o -o "$T/_meta_demo" -Wl,--unresolved-symbols=ignore-all -lm || exit 3
"$T/metac" run metac-reflect-gen -s 'path_type: "elf"' -s "path: \"$T/_meta_demo\"" > "$T/demo.reflect.c" || exit 4
rm -f "$T"/*.dmeta.o
gcc $F "$D"/demo*.c "$T/demo.reflect.c" "$T"/*.o %(link)s -lm -o "$T/demo" || exit 5
timeout 60 "$T/demo"'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    d = os.path.abspath(sys.argv[1]); sid = os.path.basename(d)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = os.path.join(V, "seeded", sid)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    opt = {k: meta.pop(k, "") for k in ("san", "link", "gen", "mcc", "mflags")}; opt["mcc"] = opt["mcc"] or "gcc"
    for f in os.listdir(d):
        if f not in ("edit.py", "meta.json") and not f.startswith("__"):
            s = os.path.join(d, f)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(out, f))
    if opt["gen"]:
        shutil.copytree(V + "/shims", out + "/shims"); open(out + "/go.mod.in", "w").write(open(V + "/gomod/go.mod.in").read().replace("/verif/shims", "@D@/shims"))
        own = os.path.join(d, "body.sh")
        body = open(own).read() if os.path.exists(own) else BODY % opt
        if os.path.exists(out + "/body.sh"): os.remove(out + "/body.sh")
        open(os.path.join(out, "demo.sh"), "w").write(GEN % dict(body=body))
    if not os.path.exists(os.path.join(out, "demo.sh")):
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % opt)
        src = os.path.join(out, "demo.c")
        if "METAC_" in open(src).read():
            from vt import common
            ctx = common.Ctx("SEED", "quick", 1)
            try:
                w = ctx.dir("s")
                subprocess.check_call(["gcc", "-w", "-g3", "-D_METAC_OFF_", "-I/repo/include", "-I" + out, "-c", src, "-o", w + "/d.o"])
                subprocess.check_call(["gcc", w + "/d.o", "-o", w + "/d", "-Wl,--unresolved-symbols=ignore-all"])
                ctx.reflect(w + "/d", os.path.join(out, "demo.reflect.c"))
            finally:
                ctx.cleanup()
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(meta, open(os.path.join(out, "meta.json"), "w"), indent=1)
    ns = {}
    exec(open(os.path.join(d, "edit.py")).read(), ns)

    def sub(path, old, new, count=1):
        p = os.path.join("/repo", path); s = open(p).read()
        assert s.count(old) == count, "%s: %d matches" % (path, s.count(old))
        open(p, "w").write(s.replace(old, new))
    r = {}
    lay = "/tmp/seedlay_" + sid
    try:
        sh("bash /opt/vp/build.sh")
        shutil.rmtree(lay, ignore_errors=True)
        shutil.copytree(out, lay, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        x = sh("bash %s/demo.sh" % lay, cwd="/repo"); r["demo_clean"] = x.returncode
        if x.returncode: print(x.stdout[-800:], x.stderr[-1500:])
        ns["edit"](sub)
        open(os.path.join(out, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        for f in sh("git -C /repo diff --name-only").stdout.split():
            own = {l.split()[0] for l in sh("git -C /repo diff -U0 %s | grep ^@@ | sed 's/@@ -//; s/ .*//'" % f).stdout.split("\n") if l}
            for h in own:
                a, n = (h.split(",") + ["1"])[:2]
                if int(n) == 0: print("  NOTE: pure addition in", f); continue
                bl = sh("git -C /repo blame -s -L %s,+%s HEAD -- %s" % (a, n, f)).stdout
                if any(not l.startswith("^") for l in bl.split("\n") if l.strip()): print("  NOTE: changes lines of own commits:\n" + bl)
        r["build"] = sh("bash /opt/vp/build.sh").returncode
        sh("bash /opt/vp/test.sh /tmp/seed_o.json")
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/seed_o.json"))
        need = base.get("passed") or base.get("stable") or base
        r["tests_missing"] = sorted(set(need) - set(got["passed"])) if isinstance(need, list) else "?"
        x = sh("bash %s/demo.sh" % lay, cwd="/repo"); r["demo_bug"] = x.returncode; r["demo_out"] = (x.stdout + x.stderr)[-300:]
        for c in (sys.argv[2:] or [meta["property"]]):
            x = sh("python3 check.py %s quick" % c, cwd=V)
            r["check_" + c] = x.returncode; r["out_" + c] = x.stdout[-1500:]
    finally:
        sh("git -C /repo checkout -- .")
        shutil.rmtree(lay, ignore_errors=True)
        sh("bash /opt/vp/build.sh")
    ok = r["demo_clean"] == 0 and r["build"] == 0 and not r["tests_missing"] and r["demo_bug"] not in (0, 3)
    meta["caught_by"] = ", ".join(k[6:] for k, v in r.items() if k.startswith("check_") and v == 1) or "missed"
    json.dump(meta, open(os.path.join(out, "meta.json"), "w"), indent=1)
    if not ok: shutil.rmtree(out)
    print("%s: %s  caught=%s" % (sid, "CONFIRMED" if ok else "NOT CONFIRMED", {k: v for k, v in r.items() if k.startswith("check_")}))
    for k, v in r.items():
        if not ok or k.startswith("out_"):
            print("  %s: %s" % (k, v))
main()
