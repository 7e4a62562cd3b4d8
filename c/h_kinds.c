/* every accessor on every kind of entry and value, and on NULL: served or refused, never anything in between */
#include "vt.h"
#include "xt.h"
#include <errno.h>
#include <sanitizer/asan_interface.h>
#define ACCS(X) X(char,char) X(unsigned char,uchar) X(short,short) X(unsigned short,ushort) X(int,int) \
    X(unsigned int,uint) X(long,long) X(unsigned long,ulong) X(long long,llong) X(unsigned long long,ullong) \
    X(bool,bool) X(float,float) X(double,double) X(long double,ldouble) X(float complex,float_complex) \
    X(double complex,double_complex) X(long double complex,ldouble_complex)
#define MAXE 4000
struct ent { metac_entry_t *e; struct xt *t; int role; char what[160]; size_t size; }; /* role: 0 type or variable, 1 member, 2 parameter, 3 function, 4 bit-field */
static struct ent *E; static int nE;
static int known(metac_entry_t *e) { for (int i = 0; i < nE; i++) if (E[i].e == e) return 1; return 0; }
static void add(metac_entry_t *e, int xi, int role, const char *what, int depth) {
    if (e == NULL || nE >= MAXE || known(e) || depth > 6) return;
    struct xt *t = xfinal(XT(xi), NULL);
    E[nE] = (struct ent){.e = e, .t = t, .role = role, .size = t && !t->nosize ? t->size : 0};
    snprintf(E[nE].what, sizeof(E[nE].what), "%s", what); nE++;
    char p[160];
    metac_entry_t *f = role == 3 ? e : metac_entry_final_entry(e, NULL);
    if (f != e && f != NULL) { snprintf(p, sizeof(p), "type of %.120s", what); add(f, xi, 0, p, depth + 1); }
    if (t == NULL) return;
    if (role == 1 || role == 4) { snprintf(p, sizeof(p), "declared type of %.120s", what); add(metac_entry_member_entry(e), xi, 0, p, depth + 1); }
    if (role == 2) { snprintf(p, sizeof(p), "declared type of %.120s", what); add(metac_entry_parameter_entry(e), xi, 0, p, depth + 1); }
    if (t->kind == XK_PTR) { snprintf(p, sizeof(p), "target of %.120s", what); add(metac_entry_pointer_entry(e), t->to, 0, p, depth + 1); }
    if (t->kind == XK_ARR) { snprintf(p, sizeof(p), "element of %.120s", what); add(metac_entry_element_entry(e), t->to, 0, p, depth + 1); }
    if (t->kind == XK_STRUCT || t->kind == XK_UNION) for (int i = 0; i < t->nm; i++) {
        snprintf(p, sizeof(p), "%.120s.%s", what, t->m[i].name ? t->m[i].name : "?"); add(metac_entry_by_member_id(e, i), t->m[i].xt, t->m[i].set ? 4 : 1, p, depth + 1); }
    if (t->kind == XK_FUNC) for (int i = 0; i < t->np; i++) { snprintf(p, sizeof(p), "%.120s(%d)", what, i); add(metac_entry_by_paremeter_id(e, i), t->p[i].xt, 2, p, depth + 1); }
}
#define Q(c, key, ...) do { vt_count("evals", 1); VT_CHECK(c, key, __VA_ARGS__); } while (0)
static int K(struct xt *t) { return t ? t->kind : XK_NONE; }
static int fwd(struct xt *t) { t = xfinal(t, NULL); return t && t->kind == XK_FWD; }
static void on_entry(struct ent *n, struct xt *t, metac_entry_t *e, const char *w) {
    int k = K(t), role = n ? n->role : 0;
    vt_distinct(vt_hash(w, strlen(w), k * 8 + role)); vt_count("entries", 1);
    Q(!!metac_entry_is_base_type(e) == (k == XK_BASE), "entry-predicate", "%s: is_base_type", w);
    Q(!!metac_entry_is_pointer(e) == (k == XK_PTR), "entry-predicate", "%s: is_pointer", w);
    Q(!!metac_entry_is_void_pointer(e) == (k == XK_PTR && xfinal(XT(t->to), NULL) == NULL), "entry-predicate", "%s: is_void_pointer", w);
    Q(!!metac_entry_is_declaration_pointer(e) == (k == XK_PTR && fwd(XT(t->to))), "entry-predicate", "%s: is_declaration_pointer", w);
    Q(!!metac_entry_has_elements(e) == (k == XK_ARR), "entry-predicate", "%s: has_elements", w);
    Q(!!metac_entry_is_enumeration(e) == (k == XK_ENUM), "entry-predicate", "%s: is_enumeration", w);
    if (k != XK_FWD) Q(!!metac_entry_has_members(e) == (k == XK_STRUCT || k == XK_UNION), "entry-predicate", "%s: has_members", w);
    Q(!!metac_entry_has_parameters(e) == (k == XK_FUNC), "entry-predicate", "%s: has_parameters", w);
    Q(!!metac_entry_is_member(e) == (role == 1 || role == 4), "entry-predicate", "%s: is_member", w);
    Q(!!metac_entry_is_parameter(e) == (role == 2), "entry-predicate", "%s: is_parameter", w);
    Q(!metac_entry_is_unspecified_parameter(e) && !metac_entry_is_va_list_parameter(e), "entry-predicate", "%s: special parameter", w);
    Q(!!metac_entry_has_parameter_load(e) == (k == XK_FUNC), "entry-predicate", "%s: has_parameter_load", w);
    Q(!metac_entry_is_dynamic(e), "entry-predicate", "%s: is_dynamic", w);
#define X(T,a) Q(!!metac_entry_is_##a(e) == (k == XK_BASE && !strcmp(t->acc, #a)), "entry-predicate", "%s: is_%s", w, #a);
    ACCS(X)
#undef X
    metac_size_t sz = 77; metac_encoding_t enc = (metac_encoding_t)77;
    if (k != XK_BASE) {
        Q(metac_entry_base_type_name(e) == NULL, "entry-refuse", "%s: base_type_name", w);
        Q(metac_entry_base_type_byte_size(e, &sz) < 0 && sz == 77, "entry-refuse", "%s: base_type_byte_size", w);
        Q(metac_entry_base_type_encoding(e, &enc) < 0 && (int)enc == 77, "entry-refuse", "%s: base_type_encoding", w);
        Q(metac_entry_check_base_type(e, "int", METAC_ENC_signed, 4) < 0, "entry-refuse", "%s: check_base_type", w);
    } else {
        Q(metac_entry_base_type_name(e) && metac_entry_base_type_byte_size(e, &sz) == 0 && sz == t->size && metac_entry_base_type_encoding(e, &enc) == 0, "entry-serve", "%s: base type", w);
        Q(metac_entry_base_type_byte_size(e, NULL) == 0 && metac_entry_base_type_encoding(e, NULL) == 0, "entry-serve", "%s: base type without output", w);
        Q(metac_entry_check_base_type(e, "no such type", enc, sz) < 0 && metac_entry_check_base_type(e, metac_entry_base_type_name(e), enc, sz + 1) < 0 &&
          metac_entry_check_base_type(e, metac_entry_base_type_name(e), enc == METAC_ENC_boolean ? METAC_ENC_float : METAC_ENC_boolean, sz) < 0 &&
          metac_entry_check_base_type(e, metac_entry_base_type_name(e), enc, sz) == 0, "entry-serve", "%s: check_base_type", w);
    }
    Q(metac_entry_byte_size(e, NULL) < 0, "entry-refuse", "%s: byte_size without output", w);
    sz = 77;
    if (e == NULL || k == XK_FUNC || k == XK_NONE) Q(metac_entry_byte_size(e, &sz) < 0 && sz == 77, "entry-refuse", "%s: byte_size", w);
    if (k != XK_PTR) Q(metac_entry_pointer_entry(e) == NULL, "entry-refuse", "%s: pointer_entry", w);
    if (k != XK_ARR) {
        Q(metac_entry_element_count(e) < 0 && metac_entry_element_entry(e) == NULL, "entry-refuse", "%s: elements", w);
        if (k != XK_PTR) Q(metac_new_element_count_entry(e, 3) == NULL, "entry-refuse", "%s: element count", w);
    }
    if (k != XK_ENUM) Q(metac_entry_enumeration_info_size(e) == 0 && metac_entry_enumeration_info(e, 0) == NULL && metac_entry_enumeration_to_name(e, 0) == NULL, "entry-refuse", "%s: enumeration", w);
    else {
        metac_num_t c = metac_entry_enumeration_info_size(e);
        Q(c == t->ne && !metac_entry_enumeration_info(e, -1) && !metac_entry_enumeration_info(e, c) && metac_entry_enumeration_info(e, c - 1), "entry-serve", "%s: enumerators", w);
    }
    metac_entry_id_t zero = {.i = 0}, nm = {.n = "nothing"};
    if (k != XK_STRUCT && k != XK_UNION && k != XK_FWD) {
        Q(metac_entry_member_count(e) < 0 && metac_entry_by_member_id(e, 0) == NULL && metac_entry_member_name_to_id(e, "a") < 0, "entry-refuse", "%s: members", w);
        Q(metac_entry_by_member_ids(e, 0, &zero, 1) == NULL && metac_entry_by_member_ids(e, 1, &nm, 1) == NULL, "entry-refuse", "%s: member path", w);
        Q(metac_entry_struct_va_arg(e, NULL, NULL) == 0, "entry-refuse", "%s: struct_va_arg", w);
    }
    struct metac_member_raw_location_info li; memset(&li, 0x55, sizeof(li)); struct metac_member_raw_location_info li0 = li;
    metac_offset_t a = 71, b = 72, c = 73;
    if (role != 1 && role != 4) {
        Q(metac_entry_member_entry(e) == NULL, "entry-refuse", "%s: member_entry", w);
        Q(metac_entry_member_raw_location_info(e, &li) < 0 && !memcmp(&li, &li0, sizeof(li)), "entry-refuse", "%s: member_raw_location_info", w);
        Q(metac_entry_member_bitfield_offsets(e, &a, &b, &c) < 0 && a == 71 && b == 72 && c == 73, "entry-refuse", "%s: member_bitfield_offsets", w);
    } else {
        Q(metac_entry_member_raw_location_info(e, &li) == 0 && metac_entry_member_raw_location_info(e, NULL) == 0, "entry-serve", "%s: member_raw_location_info", w);
        Q(metac_entry_member_bitfield_offsets(e, NULL, &b, &c) < 0 && metac_entry_member_bitfield_offsets(e, &a, NULL, &c) < 0 && metac_entry_member_bitfield_offsets(e, &a, &b, NULL) < 0
          && a == 71 && b == 72 && c == 73, "entry-refuse", "%s: member_bitfield_offsets without output", w);
    }
    if (k != XK_FUNC) {
        Q(metac_entry_parameters_count(e) < 0 && metac_entry_by_paremeter_id(e, 0) == NULL && metac_entry_paremeter_name_to_id(e, "a") < 0, "entry-refuse", "%s: parameters", w);
        Q(metac_entry_by_parameter_ids(e, 0, &zero) == NULL && metac_entry_by_parameter_ids(e, 1, &nm) == NULL, "entry-refuse", "%s: parameter path", w);
        Q(!metac_entry_has_result(e) && metac_entry_result_type(e) == NULL, "entry-refuse", "%s: result", w);
        Q(metac_new_value_with_call_result(e) == NULL, "entry-refuse", "%s: call result", w);
    } else {
        Q(metac_entry_parameters_count(e) == t->np + !!t->variadic && !metac_entry_by_paremeter_id(e, -1) && !metac_entry_by_paremeter_id(e, t->np + 1) && metac_entry_paremeter_name_to_id(e, "no such name") < 0, "entry-serve", "%s: parameters", w);
        if (t->variadic) {
            metac_entry_t *u = metac_entry_by_paremeter_id(e, t->np);
            Q(u && metac_entry_is_unspecified_parameter(u) && metac_entry_is_parameter(u) && !metac_entry_is_va_list_parameter(u) && metac_entry_has_parameter_load(u) && !metac_entry_has_parameters(u), "entry-serve", "%s: unspecified parameters", w);
            Q(u && metac_entry_parameter_entry(u) == NULL && !metac_entry_is_base_type(u) && !metac_entry_is_pointer(u) && !metac_entry_has_members(u) && metac_entry_byte_size(u, &sz) < 0, "entry-refuse", "%s: type of unspecified parameters", w);
        }
    }
    if (role != 2) Q(metac_entry_parameter_entry(e) == NULL, "entry-refuse", "%s: parameter_entry", w);
}
static unsigned char *obj, *shadow; static size_t objsz;
static int unchanged(void) { int r = !objsz || !memcmp(obj, shadow, objsz); if (objsz) memcpy(obj, shadow, objsz); return r; }
static void on_value(struct xt *t, metac_value_t *v, const char *w, int constant) {
    int k = K(t);
    vt_count("values", 1);
    Q(!!metac_value_is_base_type(v) == (k == XK_BASE), "value-predicate", "%s: is_base_type", w);
    {
        metac_entry_t *e_ = metac_value_entry(v); metac_size_t z = 4; metac_encoding_t en = METAC_ENC_signed; metac_name_t n = k == XK_BASE ? metac_entry_base_type_name(e_) : "int";
        unsigned char b[64], b0[64]; memset(b, 0x5a, sizeof b); memcpy(b0, b, sizeof b);
        if (k == XK_BASE) { metac_entry_base_type_byte_size(e_, &z); metac_entry_base_type_encoding(e_, &en); }
        metac_encoding_t other = en == METAC_ENC_boolean ? METAC_ENC_float : METAC_ENC_boolean;
        if (k != XK_BASE) Q(metac_value_check_base_type(v, n, en, z) < 0 && metac_value_base_type(v, n, en, b, z) < 0 && metac_value_set_base_type(v, n, en, b, z) < 0 && !memcmp(b, b0, sizeof b) && unchanged(), "value-refuse", "%s: base type", w);
        else {
            Q(metac_value_check_base_type(v, n, en, z) == 0 && metac_value_check_base_type(v, "no such type", en, z) < 0 && metac_value_check_base_type(v, n, other, z) < 0 && metac_value_check_base_type(v, n, en, z + 1) < 0, "value-serve", "%s: check_base_type", w);
            Q(metac_value_base_type(v, "no such type", en, b, z) < 0 && metac_value_base_type(v, n, other, b, z) < 0 && metac_value_base_type(v, n, en, b, z + 1) < 0 && metac_value_base_type(v, n, en, NULL, z) < 0 && !memcmp(b, b0, sizeof b), "value-refuse", "%s: read as another base type", w);
            Q(metac_value_set_base_type(v, "no such type", en, b, z) < 0 && metac_value_set_base_type(v, n, other, b, z) < 0 && metac_value_set_base_type(v, n, en, b, z + 1) < 0 && metac_value_set_base_type(v, n, en, NULL, z) < 0 && unchanged(), "value-refuse", "%s: written as another base type", w);
        }
    }
    Q(!!metac_value_is_pointer(v) == (k == XK_PTR), "value-predicate", "%s: is_pointer", w);
    Q(!!metac_value_is_void_pointer(v) == (k == XK_PTR && xfinal(XT(t->to), NULL) == NULL), "value-predicate", "%s: is_void_pointer", w);
    Q(!!metac_value_is_declaration_pointer(v) == (k == XK_PTR && fwd(XT(t->to))), "value-predicate", "%s: is_declaration_pointer", w);
    Q(!!metac_value_has_elements(v) == (k == XK_ARR), "value-predicate", "%s: has_elements", w);
    Q(!!metac_value_is_enumeration(v) == (k == XK_ENUM), "value-predicate", "%s: is_enumeration", w);
    Q(!!metac_value_has_members(v) == (k == XK_STRUCT || k == XK_UNION), "value-predicate", "%s: has_members", w);
    Q(!metac_value_has_parameter_load(v), "value-predicate", "%s: has_parameter_load", w);
#define X(T,a) { int m_ = k == XK_BASE && !strcmp(t->acc, #a); Q(!!metac_value_is_##a(v) == m_, "value-predicate", "%s: is_%s", w, #a); \
    if (!m_) { T x, y; memset(&x, 0x33, sizeof(x)); memset(&y, 0x33, sizeof(y)); \
        Q(metac_value_##a(v, &x) < 0 && !memcmp(&x, &y, sizeof(x)), "value-refuse", "%s: reading %s", w, #a); \
        Q(metac_value_set_##a(v, (T)1) < 0, "value-refuse", "%s: writing %s", w, #a); } \
    Q(metac_value_##a(v, NULL) < 0, "value-refuse", "%s: reading %s without output", w, #a); }
    ACCS(X)
#undef X
    char *s;
    if (k != XK_BASE) {
        Q(metac_value_check_base_type(v, "int", METAC_ENC_signed, 4) < 0, "value-refuse", "%s: check_base_type", w);
        Q((s = metac_value_base_type_string(v)) == NULL, "value-refuse", "%s: base_type_string", w); free(s);
        Q(metac_value_equal_base_type(v, v) < 0 && metac_value_copy_base_type(v, v) == NULL, "value-refuse", "%s: equal/copy_base_type", w);
        unsigned char x[64], y[64]; memset(x, 0x33, 64); memset(y, 0x33, 64);
        Q(metac_value_base_type(v, "int", METAC_ENC_signed, x, 4) < 0 && !memcmp(x, y, 64) && metac_value_set_base_type(v, "int", METAC_ENC_signed, x, 4) < 0, "value-refuse", "%s: base_type", w);
    }
    metac_num_t num = 77;
    if (k != XK_ENUM && !(k == XK_BASE && strcmp(t->acc, "float") && strcmp(t->acc, "double") && strcmp(t->acc, "ldouble") && !strstr(t->acc, "complex")))
        Q(metac_value_num(v, &num) < 0 && num == 77, "value-refuse", "%s: num", w);
    Q(metac_value_num(v, NULL) < 0, "value-refuse", "%s: num without output", w);
    metac_const_value_t cv = 77;
    if (k != XK_ENUM) {
        Q(metac_value_enumeration_info_size(v) == 0 && metac_value_enumeration_info(v, 0) == NULL && metac_value_enumeration_to_name(v, 0) == NULL, "value-refuse", "%s: enumeration info", w);
        Q(metac_value_enumeration(v, &cv) < 0 && cv == 77 && metac_value_set_enumeration(v, 1) < 0, "value-refuse", "%s: enumeration", w);
        Q((s = metac_value_enumeration_string(v)) == NULL, "value-refuse", "%s: enumeration_string", w); free(s);
        Q(metac_value_equal_enumeration(v, v) < 0 && metac_value_copy_enumeration(v, v) == NULL, "value-refuse", "%s: equal/copy_enumeration", w);
    } else {
        metac_num_t c = metac_value_enumeration_info_size(v);
        Q(c == t->ne && !metac_value_enumeration_info(v, -1) && !metac_value_enumeration_info(v, c), "value-serve", "%s: enumerators", w);
        for (int i = 0; i < c; i++) { struct metac_type_enumerator_info const *p = metac_value_enumeration_info(v, i); Q(p && !strcmp(p->name, t->e[i].name) && p->const_value == t->e[i].v, "value-serve", "%s: enumerator %d", w, i); }
    }
    Q(metac_value_enumeration(v, NULL) < 0, "value-refuse", "%s: enumeration without output", w);
    void *p = (void *)77;
    if (k != XK_PTR) {
        Q(metac_value_pointer(v, &p) < 0 && p == (void *)77 && metac_value_set_pointer(v, obj) < 0, "value-refuse", "%s: pointer", w);
        Q((s = metac_value_pointer_string(v)) == NULL, "value-refuse", "%s: pointer_string", w); free(s);
        Q(metac_value_equal_pointer(v, v) < 0 && metac_value_copy_pointer(v, v) == NULL, "value-refuse", "%s: equal/copy_pointer", w);
    }
    Q(metac_value_pointer(v, NULL) < 0, "value-refuse", "%s: pointer without output", w);
    if (k != XK_ARR) Q(metac_value_element_count(v) < 0 && metac_new_value_by_element_id(v, 0) == NULL, "value-refuse", "%s: elements", w);
    if (k != XK_ARR && k != XK_PTR) Q(metac_new_element_count_value(v, 2) == NULL, "value-refuse", "%s: element count", w);
    if (k != XK_STRUCT && k != XK_UNION) Q(metac_value_member_count(v) < 0 && metac_new_value_by_member_id(v, 0) == NULL, "value-refuse", "%s: members", w);
    Q(unchanged(), "value-refuse-writes", "%s: a refused operation changed the object", w);
}
static void pairs(metac_value_t *v, struct xt *t, const char *w) {
    /* operations on values of two kinds or types */
    for (int r = 0; r < 12; r++) {
        struct ent *o = &E[vt_below(nE)];
        if (o->role == 3 || !o->t || !o->size || o->t->nosize || o->t->size > 4096 || o->role == 4 || K(o->t) == XK_FWD || K(o->t) == XK_FUNC) continue;
        unsigned char *m = calloc(1, o->t->size), *m2 = calloc(1, o->t->size);
        metac_value_t *u = metac_new_value(o->e, m);
        if (!u) { free(m); free(m2); continue; }
        vt_count("pairs", 1);
        int kk = K(t), ok = K(o->t);
        if (kk != ok || (kk == XK_BASE && strcmp(t->acc, o->t->acc))) {
            if (kk == XK_BASE || ok == XK_BASE) {
                Q(metac_value_equal_base_type(v, u) < 0 && metac_value_equal_base_type(u, v) < 0, "pair-refuse", "%s and %s: equal_base_type", w, o->what);
                Q(metac_value_copy_base_type(v, u) == NULL && metac_value_copy_base_type(u, v) == NULL, "pair-refuse", "%s and %s: copy_base_type", w, o->what);
            }
            if (kk == XK_ENUM || ok == XK_ENUM) {
                Q(metac_value_equal_enumeration(v, u) < 0 && metac_value_equal_enumeration(u, v) < 0, "pair-refuse", "%s and %s: equal_enumeration", w, o->what);
                Q(metac_value_copy_enumeration(v, u) == NULL && metac_value_copy_enumeration(u, v) == NULL, "pair-refuse", "%s and %s: copy_enumeration", w, o->what);
            }
            if (kk == XK_PTR || ok == XK_PTR) {
                Q(metac_value_equal_pointer(v, u) < 0 && metac_value_equal_pointer(u, v) < 0, "pair-refuse", "%s and %s: equal_pointer", w, o->what);
                Q(metac_value_copy_pointer(v, u) == NULL && metac_value_copy_pointer(u, v) == NULL, "pair-refuse", "%s and %s: copy_pointer", w, o->what);
            }
            Q(!memcmp(m, m2, o->t->size) && unchanged(), "pair-refuse-writes", "%s and %s: a refused operation changed an object", w, o->what);
        }
        metac_value_delete(u); free(m); free(m2);
    }
}
static void on_null(void) {
    on_entry(NULL, NULL, NULL, "NULL");
    Q(metac_entry_kind(NULL) == METAC_KND_invalid && metac_entry_name(NULL) == NULL && metac_entry_cdecl(NULL) == NULL, "null-entry", "kind/name/cdecl");
    Q(metac_entry_final_entry(NULL, NULL) == NULL && metac_entry_parent_count(NULL) == 0 && metac_entry_parent_entry(NULL, 0) == NULL, "null-entry", "final/parent");
    Q(metac_new_entry(NULL) == NULL && metac_new_element_count_entry(NULL, 1) == NULL, "null-entry", "new");
    metac_entry_delete(NULL);
    on_value(NULL, NULL, "NULL", 0);
    Q(metac_value_kind(NULL) == METAC_KND_invalid && metac_value_name(NULL) == NULL && metac_value_final_kind(NULL, NULL) == METAC_KND_invalid, "null-value", "kind/name/final_kind");
    Q(metac_value_entry(NULL) == NULL && metac_value_addr(NULL) == NULL && metac_new_value_from_value(NULL) == NULL && metac_value_string(NULL) == NULL, "null-value", "entry/addr/copy/string");
    metac_value_with_call_result_delete(NULL);
}
int main(int argc, char **argv) {
    vt_seed(strtoull(argv[1], 0, 10));
    E = calloc(MAXE, sizeof(*E));
    for (int i = 0; i < xnvars; i++) { struct xv *v = &xvars[i]; add(v->entry(), v->xt, v->isfn ? 3 : 0, v->name, 0); }
    on_null();
    for (int i = 0; i < nE; i++) {
        struct ent *n = &E[i];
        on_entry(n, n->t, n->e, n->what);
        int k = K(n->t);
        if (n->role == 3 || k == XK_NONE || k == XK_FUNC || k == XK_FWD || !n->size || n->role == 4 || n->size > 1 << 16) continue;
        int q = 0; size_t al = 64, tot = (n->size + al - 1) / al * al; objsz = n->size;
        unsigned char *mem = aligned_alloc(al, tot); obj = mem; shadow = malloc(objsz + 1);
        memset(mem, 0, objsz); memcpy(shadow, mem, objsz);
        __asan_poison_memory_region(mem + objsz, tot - objsz);
        metac_value_t *v = metac_new_value(n->e, obj);
        if (!v) vt_v("no-value", "%s", n->what); else {
            Q(metac_value_kind(v) == metac_entry_kind(n->e) && metac_value_entry(v) == n->e && metac_value_addr(v) == obj, "value-serve", "%s: kind", n->what);
            on_value(n->t, v, n->what, q); pairs(v, n->t, n->what);
            metac_value_delete(v);
        }
        __asan_unpoison_memory_region(mem, tot); free(mem); free(shadow); objsz = 0;
    }
    free(E);
    return vt_end();
}
