"""Random printf-like calls: the captured variadic arguments against the passed ones."""
import os
import random

INT = {"hh": ("char", "unsigned char"), "h": ("short", "unsigned short"), "": ("int", "unsigned int"),
       "l": ("long", "unsigned long"), "ll": ("long long", "unsigned long long")}
DW = {"char": "char", "unsigned char": "unsigned char", "short": "short int", "unsigned short": "unsigned short int",
      "int": "int", "unsigned int": "unsigned int", "long": "long int", "unsigned long": "unsigned long int",
      "long long": "long long int", "unsigned long long": "unsigned long long int", "double": "double",
      "long double": "long double"}
LIT = ["", "", "", " ", "x", ", ", "a=", "\\n", "%%", " %% ", "[", "]", "100%%", "%%d", "\\\\", "'", "z "]
# what is taken from the arguments is not known: must be refused
BAD = ['"%*d", 3, 4', '"%.*f", 2, 1.0', '"%-*s", 9, "ab"', '"%zu", (size_t)1', '"%jd", 1LL', '"%td", 1L', '"%ls", L"wide"',
       '"%lc", 65', '"%1$d", 7', '"%Ld", 1LL', '"%hhf", 1.0', '"%y", 1', '"%d %*d", 1, 2, 3', '"%Lx", 1', '"%5!d", 1', '"%llf", 1.0',
       '"%hs", "abc"', '"%k"', '"ok %d %q", 1, 2']


class FP:
    def __init__(self, rng):
        self.r, self.n, self.sites = rng, 0, 0
        self.code = ""
        self.text = []

    def spec(self, i):
        r = self.r
        k = r.choice("dddiuuxXocsssppfgeeLLn")
        fl = "".join(r.sample(["-", "0", "+", " ", "#"], r.randint(0, 2))) if r.random() < .35 else ""
        w = str(r.randint(1, 30)) if r.random() < .3 else ""
        pr = ""
        if r.random() < .25 and k not in "cpn":
            pr = "." + r.choice(["", "0", "1", "3", "8", "12"])
        v = "v%d" % i
        if k in "diuxXoc":
            ln = "" if k == "c" else r.choice(list(INT))
            c = "char" if k == "c" else INT[ln][0 if k in "di" else 1]
            mk = "%s %s = %s;" % (c, v, "' ' + vt_below(95)" if c == "char" else "(%s)a_int()" % c)
            if k == "c":
                fl = fl.replace("0", "").replace("+", "").replace(" ", "").replace("#", "")
            return "%" + fl + w + pr + ln + k, mk, v, "x_num(L, %d, &%s, sizeof(%s), \"%s\")" % (i, v, v, DW[c])
        if k in "fge":
            return "%" + fl + w + pr + k, "double %s = a_frac();" % v, v, "x_num(L, %d, &%s, sizeof(%s), \"double\")" % (i, v, v)
        if k == "L":
            return "%" + fl + w + pr + "L" + r.choice("fge"), "long double %s = a_frac();" % v, v, "x_ld(L, %d, %s)" % (i, v)
        if k == "p":
            return "%p", "void *%s = a_ptr();" % v, v, "x_ptr(L, %d, %s, NULL)" % (i, v)
        if k == "n":
            ln = r.choice(list(INT))
            c = INT[ln][0]
            self.hasn = True
            return "%" + ln + "n", "%s o%d = 0, *%s = &o%d;" % (c, i, v, i), v, "x_ptr(L, %d, %s, \"%s\")" % (i, v, DW[c])
        p = pr[1:] if pr else None
        n = -1 if p is None else int(p or 0)
        fl = "-" if "-" in fl else ""
        null = r.random() < .06 and n < 0
        self.hasnull = getattr(self, "hasnull", False) or null
        return "%" + fl + w + pr + "s", "char *%s = %s;" % (v, "NULL" if null else "a_str(%d)" % n), v, "x_str(L, %d, %s, %d)" % (i, v, n)

    def site(self):
        r = self.r
        self.hasn = self.hasnull = False
        n = r.choice([0, 0, 1, 1, 2, 3, 4, 6, 9, 14])
        fmt, mk, args, ver = r.choice(LIT), [], [], []
        for i in range(n):
            s, m, a, v = self.spec(i)
            fmt += s + r.choice(LIT)
            mk.append(m); args.append(a); ver.append(v)
        while "%%%" in fmt and False:
            pass
        k = self.sites
        self.sites += 1
        al = "".join(", " + a for a in args)
        txt = not self.hasnull
        self.text.append(txt)
        self.code += """static void site_%(k)d(int round) {
    static const char F[] = "%(f)s"; char *fmt = strdup(F); %(mk)s
    vt_distinct(vt_hash(F, sizeof F, vt_rnd())); vt_sample("%%s", F);
    VT_CHECK(metac_count_format_specifiers(fmt) == %(n)d, "fmt-count", "\\"%%s\\" has %%d specifiers, counted %%d", F, %(n)d, (int)metac_count_format_specifiers(fmt));
    for (int way = 0; way < 8; way++) {
        metac_parameter_storage_t *st = metac_new_parameter_storage(), *L = NULL; metac_value_t *c = NULL, *l = NULL; int rc = 0;
        vt_count("evals", 1);
        if (way == 0) rc = metac_store_printf_params(st, fmt%(al)s);
        else if (way == 1) rc = v_store(st, fmt%(al)s);
        else if (way == 2) c = metac_value_parameter_wrap(metac_new_value(METAC_GSYM_LINK_ENTRY(pf1), st), map, fmt%(al)s);
        else if (way == 3) c = metac_value_parameter_wrap(metac_new_value(METAC_GSYM_LINK_ENTRY(pf2), st), map, -7, 1.5, fmt%(al)s);
        else if (way == 4) c = v_wrap(0, metac_new_value(METAC_GSYM_LINK_ENTRY(pl1), st), fmt%(al)s);
        else if (way == 6) c = v_wrap(3, metac_new_value(FN_PTR(pq), st), fmt%(al)s);
        else if (way == 7) c = metac_value_parameter_wrap(metac_new_value(FN_PTR(pv), st), map, fmt%(al)s);
        else c = v_wrap(1, metac_new_value(METAC_GSYM_LINK_ENTRY(pl2), st), fmt%(al)s);
        if (way < 2) L = st; else if (c) { l = metac_value_parameter_new_item(c, way == 2 || way == 4 || way == 7 ? 1 : way == 3 ? 3 : 2); if (l && metac_value_has_parameter_load(l)) L = metac_value_addr(l); }
        VT_CHECK(rc == 0 && L, "fmt-refused", "\\"%%s\\": capture %%d failed: %%d", F, way, rc);
        if (rc == 0 && L) {
            VT_CHECK(metac_parameter_storage_size(L) == %(n)d, "fmt-args", "\\"%%s\\" (%%d): %%d arguments, passed %(n)d", F, way, (int)metac_parameter_storage_size(L));
            if (metac_parameter_storage_size(L) == %(n)d) { x_f = F; x_way = way; %(ver)s }
            if (way == 5) x_tail(c, 77);
            if (way == 6) x_tail3(c);
            if (way == 0) {     /* a second capture comes behind the first */
                rc = metac_store_printf_params(st, fmt%(al)s);
                VT_CHECK(rc == 0 && metac_parameter_storage_size(L) == 2 * %(n)d, "fmt-append", "\\"%%s\\" appended: %%d, %%d arguments", F, rc, (int)metac_parameter_storage_size(L));
                for (int i = 0; rc == 0 && i < %(n)d; i++) x_twice(L, i, i + %(n)d);
            }
        }
        if (c && (way == 2 || way == 4) && %(txt)d) {
            char *s = metac_value_string_ex(c, METAC_WMODE_deep, map);
            VT_CHECK(s != NULL, "fmt-text", "\\"%%s\\": no text of the call", F);
            if (s && round < 2) { x_show("txt", %(k)d, round, way, s); char *o = NULL; int w = asprintf(&o, fmt%(al)s); (void)w; x_hex("out", %(k)d, round, way, o); free(o); }
            free(s);
            x_copy(c, L);
        }
        if (l) metac_value_delete(l);
        if (c) metac_value_delete(c);
        metac_parameter_storage_delete(st);
    }
    a_release(); free(fmt);
}
""" % dict(k=k, f=fmt, mk=" ".join(mk), al=al, n=n, ver=" ".join(v + ";" for v in ver), txt=txt and not self.hasn)


def make(ctx, name, seed, nsites):
    rng = random.Random("%s/%s/%s/fmt" % (ctx.seed, name, seed))
    g = FP(rng)
    for _ in range(nsites):
        g.site()
    g.name, g.dir = name, ctx.dir("p_" + name)
    g.main = os.path.join(g.dir, name + "_main.c")
    with open(g.main, "w") as f:
        f.write("#include \"fmtrt.h\"\n")
        f.write(g.code)
        f.write("static void bad(void) {\n")
        for b in BAD:
            f.write("    { metac_parameter_storage_t *st = metac_new_parameter_storage(); VT_CHECK(metac_store_printf_params(st, %s) != 0, \"fmt-misread\", \"accepted: %%s\", %s); metac_parameter_storage_delete(st); vt_count(\"refused\", 1); vt_count(\"evals\", 1); }\n" % (b, '"%s"' % b.replace("\\", "\\\\").replace('"', '\\"')))
        f.write("}\nint main(int argc, char **argv) { unsigned long long seed = strtoull(argv[1], 0, 10); int rounds = atoi(argv[2]); map = fmt_map();\n    bad(); nohandler();\n")
        f.write("    for (int r = 0; r < rounds; r++) { vt_seed(seed * 7919 + r);\n")
        for k in range(g.sites):
            f.write("        site_%d(r);\n" % k)
        f.write("    }\n    metac_tag_map_delete(map); return vt_end();\n}\n")
    return g
