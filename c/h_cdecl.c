/* prints the C declaration text of every reachable entry, next to the descriptor index of its type */
#include "vt.h"
#include "xt.h"
static struct vis { metac_entry_t *e; int xi; struct vis *n; } *visited;
static int seen(metac_entry_t *e, int xi) {
    for (struct vis *v = visited; v; v = v->n) if (v->e == e && v->xi == xi) return 1;
    struct vis *v = malloc(sizeof *v); v->e = e; v->xi = xi; v->n = visited; visited = v; return 0;
}
static void put(const char *k, const char *name, int xi, metac_entry_t *e) {
    char *c = metac_entry_cdecl(e); char *c2 = metac_entry_cdecl(e);
    if (!c) { vt_v("no-text", "%s %s: no declaration text (kind %d)", k, name, metac_entry_kind(e)); return; }
    VT_CHECK(c2 && !strcmp(c, c2), "unstable", "%s: two renderings differ", name);
    for (char *p = c; *p; p++) if (*p == '\n' || *p == '\t') vt_v("ctl", "%s: control character in %s", name, c);
    printf("cd\t%s\t%s\t%d\t%s\n", k, name, xi, c); vt_count("evals", 1); vt_count("declarations", 1);
    vt_distinct(vt_hash(c, strlen(c), 5)); free(c); free(c2);
}
static void walk(metac_entry_t *e, int xi) {
    struct xt *t = XT(xi);
    if (!t || !e || seen(e, xi)) return;
    if (metac_entry_kind(e) != METAC_KND_subprogram) put("type", "", xi, e);
    switch (t->kind) {
    case XK_TYPEDEF: { int q = 0; struct xt *f = xfinal(t, &q); if (f && (f->kind == XK_STRUCT || f->kind == XK_UNION)) walk(metac_entry_final_entry(e, NULL), (int)(f - xtypes)); break; }
    case XK_CONST: case XK_VOLATILE: case XK_RESTRICT: { struct xt *f = xfinal(t, NULL); if (f) walk(metac_entry_final_entry(e, NULL), (int)(f - xtypes)); break; }
    case XK_PTR: walk(metac_entry_pointer_entry(e), t->to); break;
    case XK_ARR: walk(metac_entry_element_entry(e), t->to); break;
    case XK_STRUCT: case XK_UNION: {
        metac_num_t n = metac_entry_member_count(e);
        for (int i = 0; i < n && i < t->nm; i++) walk(metac_entry_member_entry(metac_entry_by_member_id(e, i)), t->m[i].xt);
        break; }
    case XK_FUNC: {
        metac_num_t n = metac_entry_parameters_count(e);
        for (int i = 0; i < n && i < t->np; i++) walk(metac_entry_parameter_entry(metac_entry_by_paremeter_id(e, i)), t->p[i].xt);
        walk(metac_entry_result_type(e), t->to); break; }
    }
}
int main(int argc, char **argv) {
    for (int i = 0; i < xnvars; i++) {
        struct xv *v = &xvars[i]; metac_entry_t *e = v->entry();
        if (!e) { vt_v("no-entry", "%s", v->name); continue; }
        put(v->isfn ? "func" : "var", v->name, v->xt, e);
        if (v->isfn) walk(e, v->xt) ; else { struct xt *f = xfinal(XT(v->xt), NULL); walk(metac_entry_final_entry(e, NULL), (int)(f - xtypes)); }
    }
    VT_CHECK(metac_entry_cdecl(NULL) == NULL, "null", "text for no entry");
    for (struct vis *v = visited; v;) { struct vis *n = v->n; free(v); v = n; }
    return vt_end();
}
