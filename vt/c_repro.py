"""The generator gives the same answer every time and through every representation of the debug data."""
import difflib
import json
import os
import random
import re

from . import locprog, progs
from .common import BuildError, Inconclusive, REPO, CDIR, pmap, sh
from .c_values import COMBOS

SPEC = """apiVersion: github.com/aodinokov/metac/v1
kind: goTemplate
metadata:
  name: own
spec:
  include:
  - metac-reflect-gen
  settings:
    path: must_override
  template: |
    %s
"""
FORMS = {
    "yaml": '{{- dwarfToYaml (dwarfFromElf .path) -}}',
    "json": '{{- dwarfToJson (dwarfFromElf .path) -}}',
    "unstructured": '{{- include "metac_reflect_gen" (tuple (dwarfFromUnstructured (dwarfToUnstructured (dwarfFromElf .path)))) -}}',
    "u-json": '{{- dwarfToJson (dwarfFromUnstructured (dwarfToUnstructured (dwarfFromElf .path))) -}}',
    "yaml-json": '{{- dwarfToJson (dwarfFromYamlFile .path) -}}',
    "json-json": '{{- dwarfToJson (dwarfFromJsonFile .path) -}}',
    "json-yaml": '{{- dwarfToYaml (dwarfFromJsonFile .path) -}}',
}


def wide(ctx, i, k):
    """constants that need all 64 bits"""
    r = random.Random("wide/%s/%d/%d" % (ctx.seed, i, k))
    vals = [r.choice([1, -1]) * r.getrandbits(r.choice([54, 60, 62, 63])) for _ in range(4)]
    return "enum wide_%d { %s };\nenum wide_%d u%d_wide;\nchar (*u%d_far)[%dll];\n" % (
        k, ", ".join("wide_%d_%d = %dll" % (k, j, v) for j, v in enumerate(vals)), k, k, k, r.getrandbits(60) + 1)


def elf(ctx, i, label):
    """a linked meta program: sometimes types of several units, sometimes locations"""
    mcc, dw = COMBOS[i % len(COMBOS)]
    fl = ["-g3", "-D_METAC_OFF_", "-gdwarf-%d" % dw, "-w", "-I" + os.path.join(REPO, "include"), "-I" + CDIR]
    d = ctx.dir("e_%d" % i)
    if i % 4 == 3:
        # a file of its own (no header), sometimes at addresses of the upper half as those of a kernel
        rng = random.Random("small/%s/%d" % (ctx.seed, i))
        src, wit = os.path.join(d, "s.c"), "int v; %s int main(void) { v = 1; { static int q; v += q; } return v; }\n" % rng.choice(
            ["", "enum e { A = %d } e;" % rng.getrandbits(rng.choice([1, 31, 62])), "struct s { char c[%d]; } s;" % (rng.getrandbits(6) + 1), "char big[0][3];", "int f(), g(void), (*h)() = f;"])
        open(src, "w").write(wit)
        try:
            obj = ctx.compile(mcc, src, os.path.join(d, "s.o"), [rng.choice(["-g", "-g", "-g3"]), "-gdwarf-%d" % dw, "-fPIC", "-w"])
            at = ["-Wl,-Ttext-segment=0x%x" % rng.choice([0xffffffff80000000, 0x8000000000000000, 0x7fffffffff000000])] if rng.random() < .7 else []
            return ctx.link(mcc, [obj], os.path.join(d, "_meta"), ["-nostdlib", "-static", "-no-pie", "-w", "-Wl,-e,main", "-Wl,--no-relax", "-Wl,--unresolved-symbols=ignore-all"] + at), "%s/%s/dwarf%d" % (label, mcc, dw), wit + " ".join(at)
        except BuildError as e:
            raise Inconclusive(str(e))
    if i % 3 == 2:
        g = locprog.make(ctx, "rl%d" % i, i)
        srcs, fl, wit = [(p, m) for p, _, m in g.units], fl + ["-I" + g.dir], "\n".join(g.src.values())
    else:
        ps = [progs.make(ctx, "r%du%d" % (i, k), k // 2, nvars=8, nfns=2, vprefix="u%d_" % k,
                         stream="repro/%s/%d/%d" % (ctx.seed, i, k // 2), main_extra=wide(ctx, i, k)) for k in range(3)]
        srcs, fl, wit = [(p.main, None) for p in ps], fl + ["-I" + p.dir for p in ps], "\n".join(p.types for p in ps)
    try:
        objs = [ctx.compile(mcc, s, os.path.join(d, "m%d.o" % k), fl + (["-DMETAC_MODULE_NAME=" + m] if m else [])) for k, (s, m) in enumerate(srcs)]
        return ctx.link(mcc, objs, os.path.join(d, "_meta"), ["-Wl,--unresolved-symbols=ignore-all", "-lm"]), "%s/%s/dwarf%d" % (label, mcc, dw), wit
    except BuildError as e:
        raise Inconclusive(str(e))


def differ(a, b):
    a, b = a.decode(errors="replace").splitlines(), b.decode(errors="replace").splitlines()
    return "\n".join(list(difflib.unified_diff(a, b, "first", "second", n=1, lineterm=""))[:40])


def check_repro(ctx):
    ctx.rule = ("debug data of random programs (types of several units, locations, 64-bit constants); the reflection code of "
                "repeated runs and of the data passed through YAML, JSON and unstructured form is compared byte by byte; "
                "distinct = outputs seen")
    ctx.assumptions = ["one generator binary, one ELF file"]
    ctx.metac()
    n = 15 if ctx.quick else 60
    sp = ctx.dir("spec")
    specs = {}
    for k, t in FORMS.items():
        specs[k] = os.path.join(sp, k + ".yaml")
        with open(specs[k], "w") as f:
            f.write(SPEC % t)

    def gen(path, **kw):
        rc, o, e = ctx.run_metac(path, **kw)
        return (o if rc == 0 else None), e.decode(errors="replace")[-1500:]

    def one(i):
        path, label, wit = elf(ctx, i, "prog%d" % i)
        base, err = gen(path)
        if base is None:
            ctx.violation("repro-fails", "%s: the generator fails: %s" % (label, err), replay=wit)
            return
        ctx.case((label, hash(base)))
        ctx.sample("%s: %d bytes of reflection code" % (label, len(base)))

        def same(what, key, o, err):
            ctx.count("evals"); ctx.count("compared_" + what.split()[0])
            ctx.case((label, what))
            if o is None:
                ctx.violation("repro-fails", "%s: %s: the generator fails: %s" % (label, what, err), replay=wit)
            elif o.strip() != base.strip():
                ctx.violation(key, "%s: %s gives other reflection code:\n%s" % (label, what, differ(base, o)), replay=wit)
        for k in range(2 if ctx.quick else 4):
            same("again", "repro-again", *gen(path))
        for form in ("yaml", "json"):
            o, err = gen(path, path_type=None, spec=specs[form])
            if o is None:
                ctx.violation("repro-fails", "%s: %s of the data: %s" % (label, form, err), replay=wit)
                continue
            f = path + "." + form
            open(f, "wb").write(o)
            same(form + " file", "repro-" + form, *gen(f, path_type=form))
            o2, err = gen(path, path_type=None, spec=specs[form])
            ctx.count("evals")
            if o2 != o:
                ctx.violation("repro-dump", "%s: two %s dumps of one file differ" % (label, form), replay=wit)
        # nothing of the data is lost on the way
        dump = {f: open(path + "." + f, "rb").read() for f in ("yaml", "json") if os.path.exists(path + "." + f)}
        for what, form, src in (("u-json", "json", path), ("yaml-json", "json", path + ".yaml"), ("json-json", "json", path + ".json"), ("json-yaml", "yaml", path + ".json")):
            o, err = gen(src, path_type=None, spec=specs[what])
            ctx.count("evals"); ctx.count("compared_dumps"); ctx.case((label, what))
            if o is None or form not in dump or o.strip() != dump[form].strip():
                ctx.violation("repro-lossy", "%s: data passed through %s: %s" % (label, what, err if o is None else differ(dump.get(form, b"").replace(b"{", b"\n{"), o.replace(b"{", b"\n{"))), replay=wit)
        same("unstructured", "repro-unstructured", *gen(path, path_type=None, spec=specs["unstructured"]))
        ctx.count("programs")
    pmap(one, range(n), workers=6)


TAGS = {"structure_type": "StructType", "lexical_block": "LexDwarfBlock"}
ATTRS = {"name": "Name", "byte_size": "ByteSize", "type": "Type", "upper_bound": "UpperBound", "count": "Count",
         "const_value": "ConstValue", "bit_size": "BitSize", "bit_offset": "BitOffset", "data_bit_offset": "DataBitOffset",
         "encoding": "Encoding", "declaration": "Declaration", "external": "External", "decl_line": "DeclLine",
         "decl_file": "DeclFile", "sibling": "Sibling", "comp_dir": "CompDir", "language": "Language", "prototyped": "Prototyped"}


def camel(s):
    return "".join(w[:1].upper() + w[1:] for w in s.split("_"))


def value(attr, txt):
    """what readelf shows -> value, or None when it shows something else than a value"""
    txt = re.sub(r"^\((?:strp|line_strp|string|strx\d?|udata|sdata|data\d+|implicit_const|ref\d|ref_addr|ref_udata|flag|flag_present)\) ?", "", txt.strip(), count=1)
    if attr in ("name", "comp_dir"):
        m = re.match(r"\((?:alt |indirect |indexed |line |string|offset|,|:| |(?:0x)?[0-9a-f]+)+\): ?(.*)$", txt)
        return m.group(1) if m else txt
    if attr in ("type", "sibling"):
        m = re.match(r"<0x([0-9a-f]+)>", txt)
        return int(m.group(1), 16) if m else None
    if attr in ("declaration", "external", "prototyped"):
        return txt == "1"
    m = re.match(r"(-?\d+|0x[0-9a-f]+)\b", txt)
    return int(m.group(1), 0) if m else None


def readelf(path):
    """[(offset, parent, tag, attribute count, {attribute: value})] as binutils reads the file"""
    rc, o, e = sh(["readelf", "-W", "--debug-dump=info", path], timeout=120)
    if rc:
        raise Inconclusive("readelf: %s" % e.decode(errors="replace")[-500:])
    out, stack, cur = [], [], None
    for line in o.decode(errors="replace").splitlines():
        m = re.match(r"\s*<(\d+)><([0-9a-f]+)>: Abbrev Number: (\d+)(?: \(DW_TAG_(\w+)\))?", line)
        if m:
            if m.group(3) == "0":
                cur = None
                continue
            depth, off = int(m.group(1)), int(m.group(2), 16)
            stack = stack[:depth]
            cur = [off, stack[-1] if stack else 0, m.group(4), 0, {}]
            stack.append(off)
            out.append(cur)
            continue
        m = re.match(r"\s*<[0-9a-f]+>\s+DW_AT_(\w+)\s*:(.*)$", line)
        if m and cur:
            cur[3] += 1
            if m.group(1) in ATTRS:
                v = value(m.group(1), m.group(2))
                if v is not None:
                    cur[4][ATTRS[m.group(1)]] = v
    return out


def check_copy(ctx):
    ctx.rule = ("every entry of the debug data of random programs (gcc and clang, DWARF 3-5, several units, nested blocks), as binutils "
                "shows it, against the data the generator works on: parent, order, kind, number of attributes and the values of the "
                "%d kinds of attributes the generator uses; distinct = entry shapes" % len(ATTRS))
    ctx.assumptions = ["readelf reads the file right"]
    ctx.metac()
    n = 15 if ctx.quick else 80
    spec = os.path.join(ctx.dir("spec"), "json.yaml")
    with open(spec, "w") as f:
        f.write(SPEC % FORMS["json"])

    def one(i):
        path, label, wit = elf(ctx, i, "prog%d" % i)
        rc, o, e = ctx.run_metac(path, path_type=None, spec=spec)
        if rc:
            ctx.violation("copy-fails", "%s: %s" % (label, e.decode(errors="replace")[-1500:]), replay=wit)
            return
        have = {int(k): v for k, v in json.loads(o)["entries"].items()}
        want = readelf(path)
        bad = []
        kids = {}
        known = {w[0] for w in want}
        for off, parent, tag, na, attrs in want:
            kids.setdefault(parent, []).append(off)
            v = have.get(off)
            ctx.count("evals"); ctx.case((tag, na, tuple(sorted(attrs))))
            if v is None:
                bad.append(("copy-missing", "entry 0x%x (%s) is missing" % (off, tag)))
                continue
            fields = v.get("fields") or []
            if v.get("kind") != TAGS.get(tag, camel(tag)):
                bad.append(("copy-kind", "entry 0x%x is a %s, not a %s" % (off, v.get("kind"), tag)))
            if v.get("parent") != parent:
                bad.append(("copy-parent", "entry 0x%x (%s) belongs to %s, not to 0x%x" % (off, tag, v.get("parent"), parent)))
            if len(fields) != na:
                bad.append(("copy-attributes", "entry 0x%x (%s) has %d attributes, not %d" % (off, tag, len(fields), na)))
            fv = {f["attr"]: f.get("val") for f in fields}
            for a, x in attrs.items():
                ctx.count("values")
                g = fv.get(a)
                if a == "ConstValue" and isinstance(g, int) and isinstance(x, int) and (g - x) % 2**64 == 0:
                    continue
                if a == "UpperBound" and isinstance(g, int) and (g - x) % 2**64 == 0:
                    continue
                if g != x:
                    bad.append(("copy-value", "entry 0x%x (%s): %s is %r, not %r" % (off, tag, a, g, x)))
        for off, v in have.items():
            if off and off not in known:
                bad.append(("copy-extra", "entry 0x%x (%s) is not in the file" % (off, v.get("kind"))))
            if (v.get("children") or []) != kids.get(off, []):
                bad.append(("copy-children", "entry 0x%x (%s): children %s, not %s" % (off, v.get("kind"), (v.get("children") or [])[:20], kids.get(off, [])[:20])))
        for k, m in bad[:5]:
            ctx.violation(k, "%s: %s" % (label, m), replay=wit)
        ctx.count("programs")
    pmap(one, range(n), workers=6)
