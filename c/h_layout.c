/* Compares the reflected description of every variable and function with what the
 * compiler itself says (xt tables). Only the public reflection API is used. */
#include "vt.h"
#include "xt.h"
static const char *cur = "?";
struct vis { metac_entry_t *e; int x; struct vis *n; };
static struct vis *visited;
static int seen(metac_entry_t *e, int x) {
    for (struct vis *v = visited; v; v = v->n) if (v->e == e && v->x == x) return 1;
    struct vis *v = malloc(sizeof(*v)); v->e = e; v->x = x; v->n = visited; visited = v; return 0;
}
static int units; /* a type one unit only declares may be described by the definition of another one */
static int streq(const char *a, const char *b) { return (a == NULL && b == NULL) || (a && b && !strcmp(a, b)); }
#define N(s) ((s) ? (s) : "(none)")
static const struct { const char *acc; metac_flag_t (*is)(metac_entry_t *); } is_fn[] = {
    {"char", metac_entry_is_char}, {"uchar", metac_entry_is_uchar}, {"short", metac_entry_is_short},
    {"ushort", metac_entry_is_ushort}, {"int", metac_entry_is_int}, {"uint", metac_entry_is_uint},
    {"long", metac_entry_is_long}, {"ulong", metac_entry_is_ulong}, {"llong", metac_entry_is_llong},
    {"ullong", metac_entry_is_ullong}, {"bool", metac_entry_is_bool}, {"float", metac_entry_is_float},
    {"double", metac_entry_is_double}, {"ldouble", metac_entry_is_ldouble},
    {"float_complex", metac_entry_is_float_complex}, {"double_complex", metac_entry_is_double_complex},
    {"ldouble_complex", metac_entry_is_ldouble_complex},
};
static void cmp(metac_entry_t *e, int xi, const char *path);
static void bitpos(struct xt *t, struct xm *m, int *lo, int *n) {
    unsigned char *buf = aligned_alloc(64, (t->size + 127) / 64 * 64); memset(buf, 0, t->size + 16);
    m->set(buf, ~0ull);
    *lo = -1; *n = 0;
    for (size_t i = 0; i < t->size * 8; i++) if (buf[i / 8] >> (i % 8) & 1) { if (*lo < 0) *lo = (int)i; (*n)++; }
    free(buf);
}
static void members(metac_entry_t *f, struct xt *t, const char *path) {
    char p2[1500];
    metac_num_t n = metac_entry_member_count(f);
    VT_CHECK(n == t->nm, "member-count", "%s %s: %d members, compiler has %d", cur, path, n, t->nm);
    VT_CHECK(metac_entry_by_member_id(f, -1) == NULL && metac_entry_by_member_id(f, n < 0 ? 0 : n) == NULL,
        "member-bounds", "%s %s: out of range member id answered", cur, path);
    VT_CHECK(metac_entry_member_name_to_id(f, "no_such_member_x") < 0, "member-bogus", "%s %s: id for an unknown name", cur, path);
    for (int i = 0; i < n && i < t->nm; i++) {
        struct xm *m = &t->m[i];
        metac_entry_t *me = metac_entry_by_member_id(f, i);
        snprintf(p2, sizeof(p2), "%s.%s", path, m->name ? m->name : "<anon>");
        vt_count("members", 1); vt_count("evals", 1);
        if (me == NULL || !metac_entry_is_member(me)) { vt_v("member-entry", "%s %s: no member entry", cur, p2); continue; }
        VT_CHECK(streq(metac_entry_name(me), m->name) || (m->name == NULL && metac_entry_name(me) && !*metac_entry_name(me)),
            "member-name", "%s %s: reflected name %s", cur, p2, N(metac_entry_name(me)));
        if (m->name) {
            VT_CHECK(metac_entry_member_name_to_id(f, (char*)m->name) == i, "member-by-name", "%s %s: name resolves to %d, not %d", cur, p2, metac_entry_member_name_to_id(f, (char*)m->name), i);
            VT_CHECK(METAC_ENTRY_BY_MEMBER_IDS(f, 0, {.n = (char*)m->name}) == me, "member-by-ids", "%s %s: lookup by name gives another entry", cur, p2);
        }
        VT_CHECK(METAC_ENTRY_BY_MEMBER_IDS(f, 0, {.i = i}) == me, "member-by-ids", "%s %s: lookup by id gives another entry", cur, p2);
        struct metac_member_raw_location_info li; memset(&li, 0, sizeof(li));
        if (metac_entry_member_raw_location_info(me, &li) != 0) { vt_v("member-loc", "%s %s: no location", cur, p2); continue; }
        if (m->set == NULL) {
            VT_CHECK(li.p_bit_size == NULL && li.p_bit_offset == NULL && li.p_data_bit_offset == NULL,
                "bitinfo-on-plain", "%s %s: plain member carries bit-field info", cur, p2);
            VT_CHECK(li.byte_offset == m->off, "member-offset", "%s %s: offset %llu, compiler %zu", cur, p2, (unsigned long long)li.byte_offset, m->off);
        } else {
            vt_count("bitfields", 1);
            if (li.p_bit_size == NULL) { vt_v("bitinfo-missing", "%s %s: bit-field of width %d without bit size", cur, p2, m->bits); }
            else {
                VT_CHECK((int)*li.p_bit_size == m->bits, "bit-size", "%s %s: bit size %d, declared %d", cur, p2, (int)*li.p_bit_size, m->bits);
                metac_offset_t bo = 0xdead, bi = 0xdead, bs = 0xdead;
                if (metac_entry_member_bitfield_offsets(me, &bo, &bi, &bs) != 0) vt_v("bit-offsets", "%s %s: no bit offsets", cur, p2);
                else {
                    int lo, w; bitpos(t, m, &lo, &w);
                    struct xt *ft = xfinal(XT(m->xt), NULL);
                    int exp = m->bits; if (ft && ft->acc && !strcmp(ft->acc, "bool")) exp = 1;
                    VT_CHECK((int)(bo * 8 + bi) == lo && (int)bs == m->bits && w == exp, "bit-position",
                        "%s %s: bits at %d width %d, compiler at %d width %d", cur, p2, (int)(bo * 8 + bi), (int)bs, lo, m->bits);
                }
            }
        }
        cmp(metac_entry_member_entry(me), m->xt, p2);
    }
}
static void params(metac_entry_t *f, struct xt *t, const char *path) {
    char p2[1500];
    VT_CHECK(metac_entry_has_parameters(f) != 0, "fn-params", "%s %s: not seen as a function", cur, path);
    int n = metac_entry_parameters_count(f);
    VT_CHECK(n == t->np + (t->variadic ? 1 : 0), "param-count", "%s %s: %d parameters, declared %d%s", cur, path, n, t->np, t->variadic ? "+..." : "");
    VT_CHECK(metac_entry_by_paremeter_id(f, -1) == NULL && metac_entry_by_paremeter_id(f, n < 0 ? 0 : n) == NULL, "param-bounds", "%s %s: out of range parameter id answered", cur, path);
    VT_CHECK((metac_entry_has_result(f) != 0) == (t->to >= 0), "fn-result", "%s %s: has_result %d", cur, path, metac_entry_has_result(f));
    if (t->to >= 0) { snprintf(p2, sizeof(p2), "%s()ret", path); cmp(metac_entry_result_type(f), t->to, p2); }
    for (int i = 0; i < n && i < t->np; i++) {
        metac_entry_t *pe = metac_entry_by_paremeter_id(f, i);
        snprintf(p2, sizeof(p2), "%s(%d)", path, i); vt_count("params", 1); vt_count("evals", 1);
        if (!pe || !metac_entry_is_parameter(pe)) { vt_v("param-entry", "%s %s: no parameter entry", cur, p2); continue; }
        VT_CHECK(!metac_entry_is_unspecified_parameter(pe), "param-unspec", "%s %s: seen as ...", cur, p2);
        VT_CHECK(!metac_entry_is_va_list_parameter(pe), "param-valist", "%s %s: seen as va_list", cur, p2);
        if (t->p[i].name) {
            VT_CHECK(streq(metac_entry_name(pe), t->p[i].name), "param-name", "%s %s: name %s, declared %s", cur, p2, N(metac_entry_name(pe)), t->p[i].name);
            VT_CHECK(metac_entry_paremeter_name_to_id(f, (char*)t->p[i].name) == i, "param-by-name", "%s %s: name resolves to %d", cur, p2, metac_entry_paremeter_name_to_id(f, (char*)t->p[i].name));
            VT_CHECK(METAC_ENTRY_BY_PARAMETER_IDS(f, 0, {.n = (char*)t->p[i].name}) == pe, "param-by-ids", "%s %s: lookup by name gives another entry", cur, p2);
        }
        cmp(metac_entry_parameter_entry(pe), t->p[i].xt, p2);
    }
    if (t->variadic && n == t->np + 1) {
        metac_entry_t *pe = metac_entry_by_paremeter_id(f, n - 1);
        VT_CHECK(pe && metac_entry_is_unspecified_parameter(pe), "param-dots", "%s %s: last parameter is not ...", cur, path);
    }
}
/* quals must be the declared ones; an array may also show the qualifiers of its elements */
static int quals_ok(metac_quals_t q, int xq, struct xt *ft) {
    int have = q.flag_const | q.flag_volatile << 1 | q.flag_restrict << 2, may = xq;
    while (ft && ft->kind == XK_ARR) ft = xfinal(XT(ft->to), &may);
    return (have & xq) == xq && (have & ~may) == 0;
}
static int kind_ok(metac_kind_t k, int xk) {
    switch (xk) {
    case XK_BASE: return k == METAC_KND_base_type;
    case XK_PTR: return k == METAC_KND_pointer_type;
    case XK_ARR: return k == METAC_KND_array_type;
    case XK_STRUCT: case XK_FWD: return k == METAC_KND_struct_type;
    case XK_UNION: return k == METAC_KND_union_type;
    case XK_ENUM: return k == METAC_KND_enumeration_type;
    case XK_FUNC: return k == METAC_KND_subroutine_type || k == METAC_KND_subprogram;
    }
    return 0;
}
static void cmp(metac_entry_t *e, int xi, const char *path) {
    struct xt *t = XT(xi);
    if (t == NULL) { VT_CHECK(e == NULL, "void", "%s %s: void expected", cur, path); return; }
    if (e == NULL) { vt_v("missing-type", "%s %s: no type entry", cur, path); return; }
    if (seen(e, xi)) return;
    vt_count("types", 1); vt_count("evals", 1);
    { unsigned long long h = vt_hash(&xi, sizeof xi, 7); h = vt_hash(cur, strlen(cur), h); vt_distinct(h); }
    metac_kind_t k = metac_entry_kind(e);
    if (t->kind == XK_TYPEDEF) {
        /* gcc flattens arrays of typedefs of arrays, and shows the qualifiers of the elements also in front of a typedef of an array */
        int dq = 0; struct xt *at = xfinal(t, &dq); size_t pl = strlen(path);
        int flat = at && at->kind == XK_ARR && k == METAC_KND_array_type && pl > 2 && !strcmp(path + pl - 2, "[]");
        if (at && at->kind == XK_ARR) while (at && at->kind == XK_ARR) at = xfinal(XT(at->to), &dq); else dq = 0;
        if (!flat && !(dq && (k == METAC_KND_const_type || k == METAC_KND_volatile_type || k == METAC_KND_restrict_type)))
        VT_CHECK(k == METAC_KND_typedef && streq(metac_entry_name(e), t->name), "typedef", "%s %s: kind %d name %s, typedef %s expected", cur, path, k, N(metac_entry_name(e)), t->name);
    }
    else if (t->kind == XK_CONST || t->kind == XK_VOLATILE || t->kind == XK_RESTRICT)
        VT_CHECK(k == METAC_KND_const_type || k == METAC_KND_volatile_type || k == METAC_KND_restrict_type, "qualifier", "%s %s: kind %d, qualifier expected", cur, path, k);
    metac_quals_t q = {.flags = 0};
    int xq = 0;
    struct xt *ft = xfinal(t, &xq);
    metac_entry_t *f = metac_entry_final_entry(e, &q);
    if (ft == NULL) { VT_CHECK(f == NULL, "void", "%s %s: void expected", cur, path); return; }
    if (f == NULL) { vt_v("missing-type", "%s %s: no final type", cur, path); return; }
    VT_CHECK(quals_ok(q, xq, ft), "qualifiers",
        "%s %s: const %d volatile %d restrict %d, declared %d", cur, path, q.flag_const, q.flag_volatile, q.flag_restrict, xq);
    k = metac_entry_kind(f);
    if (!kind_ok(k, ft->kind)) { vt_v("kind", "%s %s: kind %d for expected %d", cur, path, k, ft->kind); return; }
    if (!ft->nosize) {
        metac_size_t sz = 0;
        int rc = metac_entry_byte_size(e, &sz);
        VT_CHECK(rc == 0 && sz == ft->size, "size", "%s %s: size %llu (rc %d), sizeof %zu", cur, path, (unsigned long long)sz, rc, ft->size);
    }
    /* the predicates are mutually exclusive and agree with the kind */
    VT_CHECK((metac_entry_is_base_type(e) != 0) == (ft->kind == XK_BASE) && (metac_entry_is_pointer(e) != 0) == (ft->kind == XK_PTR) &&
        (metac_entry_has_elements(e) != 0) == (ft->kind == XK_ARR) && (metac_entry_is_enumeration(e) != 0) == (ft->kind == XK_ENUM) &&
        (metac_entry_has_members(e) != 0) == (ft->kind == XK_STRUCT || ft->kind == XK_UNION || ft->kind == XK_FWD) &&
        (metac_entry_has_parameters(e) != 0) == (ft->kind == XK_FUNC), "predicates", "%s %s: kind predicates disagree with the type", cur, path);
    char p2[1500];
    switch (ft->kind) {
    case XK_BASE: {
        VT_CHECK(streq(metac_entry_base_type_name(e), ft->name), "base-name", "%s %s: %s, expected %s", cur, path, N(metac_entry_base_type_name(e)), ft->name);
        metac_size_t sz = 0; metac_encoding_t enc = 0;
        VT_CHECK(metac_entry_base_type_byte_size(e, &sz) == 0 && sz == ft->size, "base-size", "%s %s: %d", cur, path, (int)sz);
        VT_CHECK(metac_entry_base_type_encoding(e, &enc) == 0 && enc == ft->enc, "base-enc", "%s %s: encoding %d, expected %d", cur, path, enc, ft->enc);
        for (unsigned i = 0; i < sizeof(is_fn) / sizeof(is_fn[0]); i++)
            VT_CHECK((is_fn[i].is(e) != 0) == !strcmp(is_fn[i].acc, ft->acc), "base-is", "%s %s: is_%s answers %d for %s", cur, path, is_fn[i].acc, is_fn[i].is(e), ft->name);
        break; }
    case XK_PTR:
        snprintf(p2, sizeof(p2), "*%s", path);
        VT_CHECK((metac_entry_is_void_pointer(e) != 0) == (xfinal(XT(ft->to), NULL) == NULL), "void-ptr", "%s %s: is_void_pointer %d", cur, path, metac_entry_is_void_pointer(e));
        VT_CHECK(units || (metac_entry_is_declaration_pointer(e) != 0) == (xfinal(XT(ft->to), NULL) && xfinal(XT(ft->to), NULL)->kind == XK_FWD), "decl-ptr", "%s %s: is_declaration_pointer %d", cur, path, metac_entry_is_declaration_pointer(e));
        cmp(metac_entry_pointer_entry(e), ft->to, p2);
        break;
    case XK_ARR:
        VT_CHECK(metac_entry_element_count(e) == ft->count, ft->count > 2147483647l && metac_entry_element_count(e) == (int)ft->count ? "array-count-int-max" : "array-count", "%s %s: %d elements, declared %ld", cur, path, metac_entry_element_count(e), ft->count);
        snprintf(p2, sizeof(p2), "%s[]", path);
        cmp(metac_entry_element_entry(e), ft->to, p2);
        break;
    case XK_STRUCT: case XK_UNION:
        VT_CHECK(streq(metac_entry_name(f), ft->name) || (ft->name == NULL && metac_entry_name(f) && !*metac_entry_name(f)), "tag", "%s %s: tag %s, declared %s", cur, path, N(metac_entry_name(f)), N(ft->name));
        members(f, ft, path);
        break;
    case XK_FWD:
        VT_CHECK(streq(metac_entry_name(f), ft->name), "tag", "%s %s: tag %s, declared %s", cur, path, N(metac_entry_name(f)), N(ft->name));
        break;
    case XK_ENUM: {
        VT_CHECK(streq(metac_entry_name(f), ft->name) || (ft->name == NULL && metac_entry_name(f) && !*metac_entry_name(f)), "tag", "%s %s: tag %s, declared %s", cur, path, N(metac_entry_name(f)), N(ft->name));
        int n = metac_entry_enumeration_info_size(e);
        VT_CHECK(n == ft->ne, "enum-count", "%s %s: %d enumerators, declared %d", cur, path, n, ft->ne);
        VT_CHECK(metac_entry_enumeration_info(e, -1) == NULL && metac_entry_enumeration_info(e, n) == NULL, "enum-bounds", "%s %s: out of range enumerator answered", cur, path);
        for (int i = 0; i < n && i < ft->ne; i++) {
            struct metac_type_enumerator_info const *ei = metac_entry_enumeration_info(e, i);
            vt_count("enumerators", 1); vt_count("evals", 1);
            VT_CHECK(ei && streq(ei->name, ft->e[i].name) && ei->const_value == ft->e[i].v, "enumerator", "%s %s: #%d %s=%lld, compiler %s=%lld", cur, path, i, ei ? ei->name : "-", ei ? (long long)ei->const_value : 0, ft->e[i].name, ft->e[i].v);
            int first = 0; while (ft->e[first].v != ft->e[i].v) first++;
            metac_name_t nm = metac_entry_enumeration_to_name(e, ft->e[i].v);
            int ok = 0; for (int j = 0; j < ft->ne; j++) ok |= nm && ft->e[j].v == ft->e[i].v && !strcmp(nm, ft->e[j].name);
            VT_CHECK(ok, "enum-to-name", "%s %s: %lld named %s", cur, path, ft->e[i].v, N(nm));
        }
        break; }
    case XK_FUNC: params(f, ft, path); break;
    }
}
int main(int argc, char **argv) {
    units = argc > 1;
    for (int i = 0; i < xnvars; i++) {
        struct xv *v = &xvars[i];
        cur = v->name;
        metac_entry_t *e = v->entry();
        vt_count("symbols", 1);
        if (e == NULL) { vt_v("no-entry", "%s: no reflection entry", v->name); continue; }
        VT_CHECK(metac_entry_kind(e) == (v->isfn ? METAC_KND_subprogram : METAC_KND_variable), "symbol-kind", "%s: kind %d", v->name, metac_entry_kind(e));
        VT_CHECK(streq(metac_entry_name(e), v->name), "symbol-name", "%s: reflected as %s", v->name, N(metac_entry_name(e)));
        if (v->isfn) params(e, XT(v->xt), v->name);
        else {
            /* a variable entry is transparent: compare through the same path as its type */
            metac_size_t sz = 0;
            VT_CHECK(XT(v->xt)->nosize || (metac_entry_byte_size(e, &sz) == 0 && sz == v->size), "size", "%s: size %llu, sizeof %zu", v->name, (unsigned long long)sz, v->size);
            int xq = 0; struct xt *ft = xfinal(XT(v->xt), &xq); metac_quals_t q = {.flags = 0};
            metac_entry_t *f = metac_entry_final_entry(e, &q);
            VT_CHECK(quals_ok(q, xq, ft), "qualifiers", "%s: const %d volatile %d restrict %d, declared %d", v->name, q.flag_const, q.flag_volatile, q.flag_restrict, xq);
            cmp(f, (int)(ft - xtypes), v->name);
        }
        if (i < 3) { char *c = metac_entry_cdecl(e); vt_sample("%s", c ? c : "?"); free(c); }
    }
    for (struct vis *v = visited; v;) { struct vis *n = v->n; free(v); v = n; }
    return vt_end();
}
