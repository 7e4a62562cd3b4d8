/* compiler-made type descriptors (the oracle side) */
#ifndef VT_XT_H
#define VT_XT_H
#include <stddef.h>
#include "metac/reflect.h"
enum xk {XK_NONE, XK_BASE, XK_PTR, XK_ARR, XK_STRUCT, XK_UNION, XK_ENUM, XK_TYPEDEF,
         XK_CONST, XK_VOLATILE, XK_RESTRICT, XK_FUNC, XK_FWD};
struct xe { const char *name; long long v; };
struct xm { const char *name; int xt; size_t off; int bits;
            void (*set)(void*, unsigned long long); unsigned long long (*get)(const void*); };
struct xp { const char *name; int xt; };
struct xt { int kind; const char *name; size_t size; int nosize; int enc; const char *acc; int to;
            long count; int nm; struct xm *m; int ne; struct xe *e; int np; struct xp *p;
            int variadic; };
extern struct xt xtypes[]; extern int xntypes;
struct xv { const char *name; int xt; metac_entry_t *(*entry)(void); void *(*addr)(void); size_t size; int isfn; };
extern struct xv xvars[]; extern int xnvars;
static inline struct xt *XT(int i) { return i < 0 ? NULL : &xtypes[i]; }
static inline struct xt *xfinal(struct xt *t, int *q) {
    int d = 0; if (!q) q = &d; 
    while (t && t->kind >= XK_TYPEDEF && t->kind <= XK_RESTRICT) {
        if (t->kind == XK_CONST) *q |= 1;
        if (t->kind == XK_VOLATILE) *q |= 2;
        if (t->kind == XK_RESTRICT) *q |= 4;
        t = XT(t->to);
    }
    return t;
}
#endif
