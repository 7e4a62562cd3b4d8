/* where entries are declared, paths of members and parameters, copies of entries */
#ifndef VT_ENTRT_H
#define VT_ENTRT_H
#include "metac/reflect.h"
#ifdef _METAC_OFF_
static const volatile void *en_use;
#define PARENTS(e, cat, name, ...) do { (void)(e); } while (0)
#define PATH(e, sz, nm, par, ...) do { (void)(e); } while (0)
#define NOPATH(e, ...) do { (void)(e); } while (0)
#define PARAM(e, c, sz, nm, fn, ...) do { (void)(e); } while (0)
#define NOPARAM(e, ...) do { (void)(e); } while (0)
#define WITHIN(l, v, d, fn, file) do { (void)METAC_DECLLOC_PTR(l); en_use = &v; } while (0)
#define INSIDE(l, v, lo, o) do { (void)METAC_DECLLOC_PTR(l); (void)METAC_DECLLOC_PTR(lo); en_use = &v; } while (0)
#define TYPEIN(l, v, fn, cnt) do { (void)METAC_DECLLOC_PTR(l); en_use = &v; } while (0)
#define COPY(e)
#define ELEMS(e, c, sz)
#define NOELEMS(e)
#define DIMS(e)
static int vt_end(void) { return 0; }
#else
#ifdef EN_MAIN
#include "vt.h"
#else
void en_parents(metac_entry_t *e, const char *what, const char **names, int n);
void en_path(metac_entry_t *e, metac_size_t sz, const char *nm, const char *par, metac_entry_id_t *ids, metac_num_t n, const char *what);
void en_nopath(metac_entry_t *e, metac_entry_id_t *ids, metac_num_t n, const char *what);
void en_param(metac_entry_t *e, int count, metac_size_t sz, const char *nm, const char *fn, metac_entry_id_t *id, const char *what);
void en_noparam(metac_entry_t *e, metac_entry_id_t *id, const char *what);
void en_within(metac_entry_t *e, int depth, const char *name, const char *fn, const char *file);
void en_inside(metac_entry_t *e, metac_entry_t *o);
void en_typein(metac_entry_t *e, const char *fn, int cnt);
void en_copy(metac_entry_t *e);
void en_elems(metac_entry_t *e, metac_num_t c, metac_size_t esz);
void en_noelems(metac_entry_t *e);
void en_dims(metac_entry_t *e);
#endif
#define PARENTS(e, what, ...) do { const char *n_[] = { __VA_ARGS__ }; en_parents(e, what, n_, sizeof(n_) / sizeof(n_[0])); } while (0)
#define PATH(e, sz, nm, par, ...) do { metac_entry_id_t i_[] = { __VA_ARGS__ }; en_path(e, sz, nm, par, i_, sizeof(i_) / sizeof(i_[0]), #__VA_ARGS__); } while (0)
#define NOPATH(e, ...) do { metac_entry_id_t i_[] = { __VA_ARGS__ }; en_nopath(e, i_, sizeof(i_) / sizeof(i_[0]), #__VA_ARGS__); } while (0)
#define PARAM(e, c, sz, nm, fn, ...) do { metac_entry_id_t i_[] = { __VA_ARGS__ }; en_param(e, c, sz, nm, fn, i_, #__VA_ARGS__); } while (0)
#define NOPARAM(e, ...) do { metac_entry_id_t i_[] = { __VA_ARGS__ }; en_noparam(e, i_, #__VA_ARGS__); } while (0)
#define WITHIN(l, v, d, fn, file) en_within(METAC_ENTRY_FROM_DECLLOC(l, v), d, #v, fn, file)
#define INSIDE(l, v, lo, o) en_inside(METAC_ENTRY_FROM_DECLLOC(l, v), METAC_ENTRY_FROM_DECLLOC(lo, o))
#define TYPEIN(l, v, fn, cnt) en_typein(METAC_ENTRY_FROM_DECLLOC(l, v), fn, cnt)
#define COPY(e) en_copy(e)
#define ELEMS(e, c, sz) en_elems(e, c, sz)
#define NOELEMS(e) en_noelems(e)
#define DIMS(e) en_dims(e)
#ifdef EN_MAIN
static void en_cov(const char *what, const void *p, size_t n) { vt_count("evals", 1); vt_count(what, 1); vt_distinct(vt_hash(p, n, what[0])); }
static int en_cmp(const void *a, const void *b) { return strcmp(*(const char **)a, *(const char **)b); }
static int en_same(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
static const char *en_str(const char *s) { return s ? s : "(none)"; }
static void en_cu(metac_entry_t *e, const char *what) {
    if (e == NULL || metac_entry_kind(e) != METAC_KND_compile_unit) return;
    VT_CHECK(metac_entry_parent_count(e) == 0 && metac_entry_parent_entry(e, 0) == NULL, "unit-parent", "%s: a compile unit has a parent", what);
}
static void en_bounds(metac_entry_t *e, const char *what) {
    metac_num_t c = metac_entry_parent_count(e);
    static const metac_num_t bad[] = { -1, -2, (metac_num_t)1 << 30 };
    for (unsigned i = 0; i < 3; i++)
        VT_CHECK(metac_entry_parent_entry(e, bad[i]) == NULL, "parent-range", "%s: parent %lld of %lld", what, (long long)bad[i], (long long)c);
    VT_CHECK(metac_entry_parent_entry(e, c) == NULL, "parent-range", "%s: there is a parent after the last of %lld", what, (long long)c);
}
/* dimensions that nothing else has: each inner one belongs to the one around it, once */
void en_dims(metac_entry_t *e) {
    metac_entry_t *a = metac_entry_final_entry(e, NULL), *b;
    for (; a && (b = metac_entry_final_entry(metac_entry_element_entry(a), NULL)) && metac_entry_kind(b) == METAC_KND_array_type; a = b) {
        vt_count("evals", 1); vt_count("dimensions", 1);
        VT_CHECK(metac_entry_parent_count(b) == 1 && metac_entry_parent_entry(b, 0) == a, "dimension-parent", "dimension [%lld] has %lld parents, the first %s",
            (long long)metac_entry_element_count(b), (long long)metac_entry_parent_count(b), metac_entry_parent_entry(b, 0) == a ? "right" : "wrong");
    }
}
void en_parents(metac_entry_t *e, const char *what, const char **names, int n) {
    en_cov("parents", what, strlen(what));
    if (e == NULL) { vt_v("no-entry", "%s: no entry", what); return; }
    metac_num_t c = metac_entry_parent_count(e);
    const char *got[64]; char text[2000]; int l = 0;
    en_bounds(e, what);
    if (c < 0 || c > 64) { vt_v("parents", "%s: %lld parents", what, (long long)c); return; }
    for (int i = 0; i < c; i++) {
        metac_entry_t *p = metac_entry_parent_entry(e, i);
        VT_CHECK(p != NULL && metac_entry_kind(p) == METAC_KND_compile_unit, "parents", "%s: parent %d is no compile unit", what, i);
        en_cu(p, what);
        got[i] = en_str(metac_entry_name(p));
        l += snprintf(text + l, l < 1900 ? sizeof(text) - l : 0, " %s", got[i]);
    }
    qsort(got, c, sizeof(got[0]), en_cmp); qsort(names, n, sizeof(names[0]), en_cmp);
    int ok = c == n;
    for (int i = 0; ok && i < n; i++) ok = !strcmp(got[i], names[i]);
    VT_CHECK(ok, "parents", "%s: the parents are%s; expected %d, first %s", what, c ? text : " none", n, n ? names[0] : "-");
}
void en_path(metac_entry_t *e, metac_size_t sz, const char *nm, const char *par, metac_entry_id_t *ids, metac_num_t n, const char *what) {
    en_cov("paths", what, strlen(what));
    metac_entry_t *m = metac_entry_by_member_ids(e, 0, ids, n), *f = metac_entry_by_member_ids(e, 1, ids, n);
    VT_CHECK(m && f, "path", "%s: nothing found", what);
    if (!m || !f) return;
    metac_size_t s = 0;
    VT_CHECK(metac_entry_kind(m) == METAC_KND_member && metac_entry_is_member(m), "path", "%s: no member", what);
    VT_CHECK(nm[0] ? en_same(metac_entry_name(m), nm) : (!metac_entry_name(m) || !metac_entry_name(m)[0]), "path", "%s: found %s", what, en_str(metac_entry_name(m)));
    if (sz) VT_CHECK(metac_entry_byte_size(m, &s) == 0 && s == sz, "path", "%s: size %lld, must be %lld", what, (long long)s, (long long)sz);
    VT_CHECK(f == metac_entry_final_entry(m, NULL), "path-final", "%s: the final entry is another", what);
    VT_CHECK(f != NULL && metac_entry_kind(f) != METAC_KND_member && metac_entry_kind(f) != METAC_KND_typedef, "path-final", "%s: kind %d", what, metac_entry_kind(f));
    VT_CHECK(metac_entry_parent_count(m) == 1, "member-parent", "%s: %lld parents", what, (long long)metac_entry_parent_count(m));
    metac_entry_t *p = metac_entry_parent_entry(m, 0);
    VT_CHECK(p && metac_entry_has_members(p) && (!par[0] || en_same(metac_entry_name(p), par)), "member-parent", "%s: the parent is %s", what, en_str(metac_entry_name(p)));
    metac_entry_t *q = n > 1 ? metac_entry_by_member_ids(e, 1, ids, n - 1) : metac_entry_final_entry(e, NULL);
    VT_CHECK(p == q, "member-parent", "%s: the parent is not the type the member was found in", what);
    VT_CHECK(metac_entry_by_member_ids(e, 0, ids, 0) == e && metac_entry_by_member_ids(e, 1, ids, 0) == metac_entry_final_entry(e, NULL), "path-empty", "%s: the empty path leads elsewhere", what);
    if (p) {
        metac_num_t pc = metac_entry_member_count(p);
        VT_CHECK(pc > 0 && !metac_entry_by_member_id(p, pc) && !metac_entry_by_member_id(p, -1) && metac_entry_by_member_id(p, pc - 1), "member-range", "%s: members of %lld", what, (long long)pc);
    }
    /* the same by single steps */
    metac_entry_t *w = e;
    for (metac_num_t i = 0; i < n && w; i++)
        w = metac_entry_by_member_id(w, ids[i].n ? metac_entry_member_name_to_id(w, ids[i].n) : ids[i].i);
    VT_CHECK(w == m, "path-steps", "%s: single steps lead elsewhere", what);
    en_bounds(m, what);
}
void en_nopath(metac_entry_t *e, metac_entry_id_t *ids, metac_num_t n, const char *what) {
    en_cov("no_paths", what, strlen(what));
    VT_CHECK(metac_entry_by_member_ids(e, 0, ids, n) == NULL && metac_entry_by_member_ids(e, 1, ids, n) == NULL, "no-path", "%s: found something", what);
}
void en_param(metac_entry_t *e, int count, metac_size_t sz, const char *nm, const char *fn, metac_entry_id_t *id, const char *what) {
    char text[200]; snprintf(text, sizeof(text), "%s: %s", fn, what);
    en_cov("parameters", text, strlen(text));
    metac_entry_t *p = metac_entry_by_parameter_ids(e, 0, id), *f = metac_entry_by_parameter_ids(e, 1, id);
    VT_CHECK(metac_entry_parameters_count(e) == count, "param-count", "%s: %lld", text, (long long)metac_entry_parameters_count(e));
    VT_CHECK(p && f, "param", "%s: nothing found", text);
    if (!p || !f) return;
    VT_CHECK(metac_entry_kind(p) == METAC_KND_func_parameter && en_same(metac_entry_name(p), nm), "param", "%s: found %s", text, en_str(metac_entry_name(p)));
    metac_size_t s = 0;
    VT_CHECK(metac_entry_byte_size(p, &s) == 0 && s == sz, "param", "%s: size %lld", text, (long long)s);
    VT_CHECK(f == metac_entry_final_entry(p, NULL) && f == metac_entry_final_entry(metac_entry_parameter_entry(p), NULL), "param-final", "%s: the final entry is another", text);
    VT_CHECK(metac_entry_parent_count(p) == 1 && metac_entry_parent_entry(p, 0) == metac_entry_final_entry(e, NULL), "param-parent", "%s: the parent is another", text);
}
void en_noparam(metac_entry_t *e, metac_entry_id_t *id, const char *what) {
    en_cov("no_parameters", what, strlen(what));
    VT_CHECK(metac_entry_by_parameter_ids(e, 0, id) == NULL && metac_entry_by_parameter_ids(e, 1, id) == NULL, "no-param", "%s: found something", what);
}
void en_within(metac_entry_t *e, int depth, const char *name, const char *fn, const char *file) {
    char what[300]; snprintf(what, sizeof(what), "%s in %s of %s", name, fn, file);
    en_cov("chains", what, strlen(what));
    if (e == NULL) { vt_v("no-entry", "%s: no entry", what); return; }
    VT_CHECK(metac_entry_kind(e) == METAC_KND_variable && en_same(metac_entry_name(e), name), "chain", "%s: found %s", what, en_str(metac_entry_name(e)));
    int blocks = 0, k = 0;
    metac_entry_t *p = e;
    for (; k < 50; k++) {
        VT_CHECK(metac_entry_parent_count(p) == 1, "chain", "%s: step %d has %lld parents", what, k, (long long)metac_entry_parent_count(p));
        p = metac_entry_parent_entry(p, 0);
        if (p == NULL || metac_entry_kind(p) != METAC_KND_lex_block) break;
        blocks++;
    }
    VT_CHECK(p && metac_entry_kind(p) == METAC_KND_subprogram && en_same(metac_entry_name(p), fn), "chain", "%s: the function is %s", what, en_str(metac_entry_name(p)));
    VT_CHECK(depth == 0 ? blocks == 0 : blocks > 0, "chain", "%s: %d blocks for a declaration at depth %d", what, blocks, depth);
    if (p) {
        VT_CHECK(metac_entry_parent_count(p) == 1, "chain", "%s: the function has %lld parents", what, (long long)metac_entry_parent_count(p));
        p = metac_entry_parent_entry(p, 0);
        VT_CHECK(p && metac_entry_kind(p) == METAC_KND_compile_unit && en_same(metac_entry_name(p), file), "chain", "%s: the unit is %s", what, en_str(metac_entry_name(p)));
        en_cu(p, what);
    }
}
void en_inside(metac_entry_t *e, metac_entry_t *o) {
    if (!e || !o) return;
    en_cov("nested", &e, sizeof(e));
    metac_entry_t *w = metac_entry_parent_entry(o, 0), *p = e;
    for (int k = 0; k < 50 && p && p != w; k++) p = metac_entry_parent_entry(p, 0);
    VT_CHECK(p == w, "nested", "%s is not inside the block of %s", en_str(metac_entry_name(e)), en_str(metac_entry_name(o)));
}
void en_typein(metac_entry_t *e, const char *fn, int cnt) {
    metac_entry_t *t = metac_entry_final_entry(e, NULL);
    if (!t) { vt_v("no-entry", "type in %s", fn); return; }
    en_cov("local_types", fn, strlen(fn));
    metac_num_t c = metac_entry_parent_count(t); int hit = 0;
    VT_CHECK(c == cnt, "local-type", "%s of %s: %lld parents, must be %d", en_str(metac_entry_name(t)), fn, (long long)c, cnt);
    for (metac_num_t i = 0; i < c; i++) {
        metac_entry_t *p = metac_entry_parent_entry(t, i);
        for (int k = 0; k < 50 && p && metac_entry_kind(p) == METAC_KND_lex_block; k++) p = metac_entry_parent_entry(p, 0);
        VT_CHECK(p && metac_entry_kind(p) == METAC_KND_subprogram, "local-type", "%s of %s: declared outside of functions", en_str(metac_entry_name(t)), fn);
        hit += p && en_same(metac_entry_name(p), fn);
    }
    VT_CHECK(hit == 1, "local-type", "%s: %d of its parents are in %s", en_str(metac_entry_name(t)), hit, fn);
    en_bounds(t, fn);
}
static int en_alike(metac_entry_t *a, metac_entry_t *b) {
    metac_size_t s = 0, z = 0;
    int x = metac_entry_byte_size(a, &s), y = metac_entry_byte_size(b, &z);
    int r = metac_entry_kind(a) == metac_entry_kind(b) && en_same(metac_entry_name(a), metac_entry_name(b)) && x == y && s == z;
    r = r && metac_entry_parent_count(a) == metac_entry_parent_count(b) && metac_entry_parent_entry(a, 0) == metac_entry_parent_entry(b, 0);
    r = r && metac_entry_member_count(a) == metac_entry_member_count(b) && metac_entry_by_member_id(a, 0) == metac_entry_by_member_id(b, 0);
    r = r && metac_entry_pointer_entry(a) == metac_entry_pointer_entry(b) && metac_entry_element_entry(a) == metac_entry_element_entry(b);
    r = r && metac_entry_element_count(a) == metac_entry_element_count(b) && metac_entry_parameters_count(a) == metac_entry_parameters_count(b);
    r = r && metac_entry_enumeration_info_size(a) == metac_entry_enumeration_info_size(b) && en_same(metac_entry_base_type_name(a), metac_entry_base_type_name(b));
    char *p = metac_entry_cdecl(a), *q = metac_entry_cdecl(b);
    r = r && en_same(p, q); free(p); free(q);
    return r;
}
void en_copy(metac_entry_t *e) {
    for (int k = 0; k < 8 && e; k++) {
        char text[100]; snprintf(text, sizeof(text), "%d:%s", metac_entry_kind(e), en_str(metac_entry_name(e)));
        en_cov("copies", text, strlen(text));
        metac_entry_t *c = metac_new_entry(e), *d = c ? metac_new_entry(c) : NULL;
        if (!c || !d) { vt_v("copy", "%s: not copied", text); return; }
        VT_CHECK(!metac_entry_is_dynamic(e) && metac_entry_is_dynamic(c) && metac_entry_is_dynamic(d) && c != e && d != c, "copy-dynamic", "%s: dynamic %d %d %d", text,
            metac_entry_is_dynamic(e), metac_entry_is_dynamic(c), metac_entry_is_dynamic(d));
        VT_CHECK(en_alike(e, c), "copy", "%s: the copy describes something else", text);
        metac_entry_delete(c); metac_entry_delete(e);   /* the second does nothing */
        VT_CHECK(en_alike(e, d), "copy", "%s: the copy of the deleted copy describes something else", text);
        metac_entry_delete(d);
        switch (metac_entry_kind(e)) {
        case METAC_KND_struct_type: case METAC_KND_union_type: e = metac_entry_by_member_id(e, metac_entry_member_count(e) - 1); break;
        case METAC_KND_member: e = metac_entry_member_entry(e); break;
        case METAC_KND_pointer_type: e = metac_entry_pointer_entry(e); break;
        case METAC_KND_array_type: e = metac_entry_element_entry(e); break;
        case METAC_KND_subprogram: e = metac_entry_by_paremeter_id(e, 0); break;
        case METAC_KND_func_parameter: e = metac_entry_parameter_entry(e); break;
        default: { metac_entry_t *f = metac_entry_final_entry(e, NULL); e = f == e ? metac_entry_parent_entry(e, 0) : f; }
        }
    }
}
void en_elems(metac_entry_t *e, metac_num_t c, metac_size_t esz) {
    metac_entry_t *el = metac_entry_is_pointer(e) ? metac_entry_pointer_entry(e) : metac_entry_element_entry(e);
    static const metac_num_t ns[] = { 1, 2, 7, 1000, 0, -1 };
    for (unsigned i = 0; i < sizeof(ns) / sizeof(ns[0]); i++) {
        metac_entry_t *n = metac_new_element_count_entry(e, ns[i]);
        char text[100]; snprintf(text, sizeof(text), "%s as %lld elements", en_str(metac_entry_name(e)), (long long)ns[i]);
        en_cov("elements", text, strlen(text));
        if (!n) { vt_v("elements", "%s: refused", text); continue; }
        metac_size_t s = 0;
        VT_CHECK(metac_entry_is_dynamic(n) && metac_entry_kind(n) == METAC_KND_array_type && metac_entry_has_elements(n), "elements", "%s: kind %d", text, metac_entry_kind(n));
        VT_CHECK(metac_entry_element_count(n) == ns[i] && metac_entry_element_entry(n) == el, "elements", "%s: %lld elements", text, (long long)metac_entry_element_count(n));
        VT_CHECK(metac_entry_parent_count(n) == 0 && metac_entry_parent_entry(n, 0) == NULL, "elements", "%s: has parents", text);
        if (ns[i] > 0) VT_CHECK(metac_entry_byte_size(n, &s) == 0 && s == (metac_size_t)ns[i] * esz, "elements", "%s: size %lld", text, (long long)s);
        metac_entry_t *m = metac_new_element_count_entry(n, ns[i] + 3);
        VT_CHECK(m && metac_entry_element_count(m) == ns[i] + 3 && metac_entry_element_entry(m) == el && metac_entry_element_count(n) == ns[i], "elements", "%s: counted again", text);
        metac_entry_delete(m); metac_entry_delete(n);
    }
    if (c) VT_CHECK(metac_entry_element_count(e) == c, "elements", "%s: the original has %lld elements", en_str(metac_entry_name(e)), (long long)metac_entry_element_count(e));
}
void en_noelems(metac_entry_t *e) {
    en_cov("no_elements", &e, sizeof(e));
    metac_entry_t *n = metac_new_element_count_entry(e, 3);
    VT_CHECK(n == NULL, "no-elements", "%s: made an array of it", en_str(metac_entry_name(e)));
    metac_entry_delete(n);
}
#endif
#endif
#endif
