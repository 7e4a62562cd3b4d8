/* lookups in generated programs */
#ifndef VT_LOCRT_H
#define VT_LOCRT_H
#include "metac/reflect.h"
#ifdef _METAC_OFF_
/* (unused statics are not described by every compiler) */
static const volatile void *lk_use;
#define LOOK(l, v, n, k) do { (void)METAC_DECLLOC_PTR(l); lk_use = &v; } while (0)
#define SAME LOOK
#define MISS(l, v) do { (void)METAC_DECLLOC_PTR(l); } while (0)
#define LINK(v, n, k)
#define FUN(e, name, n) do { (void)(e); } while (0)
struct lk_name { const char *cat, *name; };
struct lk_rep { const char *cat, *name; int kind, c; long z[8]; };
static void lk_db(struct metac_db *db, const struct lk_name *n, int c) { }
static void lk_rep(struct metac_db *db, const struct lk_rep *n, int c) { }
static int vt_end(void) { return 0; }
#else
#ifndef LK_MAIN
void lk_check(metac_entry_t *e, const char *v, long n, int k, const char *what, const char *file, int line);
void lk_fun(metac_entry_t *e, const char *v, long n, const char *file, int line);
void lk_miss(metac_entry_t *e, const char *v, const char *file, int line);
void lk_none(void);
struct lk_name { const char *cat, *name; };
struct lk_rep { const char *cat, *name; int kind, c; long z[8]; };
void lk_db(struct metac_db *db, const struct lk_name *n, int c);
void lk_rep(struct metac_db *db, const struct lk_rep *n, int c);
#else
#include "vt.h"
void lk_check(metac_entry_t *e, const char *v, long n, int k, const char *what, const char *file, int line) {
    vt_count("evals", 1); vt_count(what, 1); vt_distinct(vt_hash(file, strlen(file), vt_hash(v, strlen(v), line * 31 + n)));
    if (!e) { vt_v("lookup-nothing", "%s:%d: nothing found for %s (%s)", file, line, v, what); return; }
    metac_name_t nm = metac_entry_name(e); metac_size_t z = 0;
    VT_CHECK(nm && !strcmp(nm, v), "lookup-name", "%s:%d: entry is %s instead of %s", file, line, nm ? nm : "unnamed", v);
    if (k && e) e = metac_entry_is_pointer(e) ? metac_entry_pointer_entry(e) : NULL;
    int rc = e ? metac_entry_byte_size(e, &z) : -1;
    VT_CHECK(rc == 0 && z == n, "lookup-type", "%s:%d: %s (%s) leads to a type of size %d, not %ld", file, line, v, what, (int)z, n);
}
void lk_fun(metac_entry_t *e, const char *v, long n, const char *file, int line) {
    vt_count("evals", 1); vt_count("functions", 1);
    if (!e) { vt_v("lookup-nothing", "%s:%d: nothing found for %s()", file, line, v); return; }
    metac_name_t nm = metac_entry_name(e); metac_size_t z = 0; metac_entry_t *t = metac_entry_has_result(e) ? metac_entry_result_type(e) : NULL;
    VT_CHECK(nm && !strcmp(nm, v), "lookup-name", "%s:%d: entry is %s instead of %s", file, line, nm ? nm : "unnamed", v);
    VT_CHECK(t && metac_entry_byte_size(t, &z) == 0 && z == n, "lookup-type", "%s:%d: %s() returns a type of size %d, not %ld", file, line, v, (int)z, n);
}
void lk_miss(metac_entry_t *e, const char *v, const char *file, int line) { vt_count("evals", 1); vt_count("misses", 1); VT_CHECK(!e, "lookup-foreign", "%s:%d: %s is found although it is not declared there", file, line, v); }
void lk_none(void) { vt_count("evals", 1); vt_count("ambiguous", 1); }
#endif
#define LOOK(l, v, n, k) lk_check(METAC_ENTRY_FROM_DECLLOC(l, v), #v, n, k, "location", __FILE__, __LINE__)
/* where the name alone cannot tell, nothing may be found, but never the other declaration */
#define SAME(l, v, n, k) do { metac_entry_t *e_ = METAC_ENTRY_FROM_DECLLOC(l, v); if (e_) lk_check(e_, #v, n, k, "same_name_on_line", __FILE__, __LINE__); else lk_none(); } while (0)
#define MISS(l, v) lk_miss(METAC_ENTRY_FROM_DECLLOC(l, v), #v, __FILE__, __LINE__)
#define LINK(v, n, k) lk_check(METAC_GSYM_LINK_ENTRY(v), #v, n, k, "link", __FILE__, __LINE__)
#define FUN(e, name, n) lk_fun(e, name, n, __FILE__, __LINE__)
#ifdef LK_MAIN
struct lk_name { const char *cat, *name; };
void lk_db(struct metac_db *db, const struct lk_name *n, int c) {
    if (!db) { vt_v("lookup-db", "no name database"); return; }
    struct { const char *cat; struct name_to_entries *t; } T[] = {{"structs", &db->db_v0.structs}, {"unions", &db->db_v0.unions}, {"typedefs", &db->db_v0.typedefs}, {"base_types", &db->db_v0.base_types}, {"enums", &db->db_v0.enums}, {"variables", &db->db_v0.variables}, {"subprograms", &db->db_v0.subprograms}};
    for (int i = 0; i < 7; i++) for (int j = 0; j < T[i].t->items_count; j++) {
        struct name_to_entries_info *x = &T[i].t->items[j]; vt_count("db_names", 1);
        VT_CHECK(x->name && x->entries_count > 0, "lookup-db", "%s: empty item", T[i].cat);
        VT_CHECK(!j || strcmp(T[i].t->items[j - 1].name, x->name) < 0, "lookup-db", "%s: %s is out of order or listed twice", T[i].cat, x->name);
        for (int q = 0; q < x->entries_count; q++) { metac_name_t nm = x->entries[q] ? metac_entry_name(x->entries[q]) : NULL; VT_CHECK(x->entries[q] && !strcmp(nm ? nm : "", x->name), "lookup-db", "%s: entry of %s is %s", T[i].cat, x->name, nm ? nm : "unnamed"); }
    }
    for (int i = 0; i < c; i++) for (int t = 0; t < 3; t++) if (!strcmp(n[i].cat, T[t].cat)) {
        struct name_to_entries_info *f = NULL; int many = 0; vt_count("evals", 1);
        for (int j = 0; j < T[t].t->items_count; j++) if (!strcmp(T[t].t->items[j].name, n[i].name)) { f = &T[t].t->items[j]; many++; }
        VT_CHECK(many == 1, "lookup-db", "%s %s is listed %d times", n[i].cat, n[i].name, many);
        metac_size_t z = 0; if (f) VT_CHECK(f->entries_count == 1 && metac_entry_byte_size(f->entries[0], &z) == 0 && z == strtol(n[i].name + 1, 0, 10), "lookup-db", "%s %s: %d entries, size %d", n[i].cat, n[i].name, (int)f->entries_count, (int)z);
    }
}
/* names that several units define, each in its own way: one item with all of them */
struct lk_rep { const char *cat, *name; int kind, c; long z[8]; };
void lk_rep(struct metac_db *db, const struct lk_rep *n, int c) {
    if (!db) return;
    struct { const char *cat; struct name_to_entries *t; } T[] = {{"structs", &db->db_v0.structs}, {"unions", &db->db_v0.unions}, {"typedefs", &db->db_v0.typedefs}, {"enums", &db->db_v0.enums}, {"variables", &db->db_v0.variables}, {"subprograms", &db->db_v0.subprograms}};
    for (int i = 0; i < c; i++) for (int t = 0; t < 6; t++) if (!strcmp(n[i].cat, T[t].cat)) {
        struct name_to_entries_info *f = NULL; vt_count("evals", 1); vt_count("db_repeated", n[i].c);
        for (int j = 0; j < T[t].t->items_count; j++) if (!strcmp(T[t].t->items[j].name, n[i].name)) f = &T[t].t->items[j];
        VT_CHECK(f && f->entries_count == n[i].c, "lookup-db", "%s %s: %d entries, the program has %d", n[i].cat, n[i].name, f ? (int)f->entries_count : 0, n[i].c);
        for (int k = 0; f && k < n[i].c; k++) {
            int hit = 0;
            for (int q = 0; q < f->entries_count; q++) {
                metac_entry_t *e = f->entries[q]; metac_size_t z = 0;
                if (!strcmp(n[i].cat, "subprograms")) e = metac_entry_has_result(e) ? metac_entry_result_type(e) : NULL;
                if (e && metac_entry_is_pointer(e)) e = metac_entry_pointer_entry(e);
                hit += e && metac_entry_byte_size(e, &z) == 0 && z == n[i].z[k];
            }
            VT_CHECK(hit == 1, "lookup-db", "%s %s: %d entries of size %ld", n[i].cat, n[i].name, hit, n[i].z[k]);
        }
    }
}
#endif
#endif
#endif
