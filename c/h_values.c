/* modes: base bits enum nav */
#include "xwalk.h"
#include <errno.h>
#include <sanitizer/asan_interface.h>
static unsigned char *obj, *shadow; static size_t objsz;
static const char *mode;
#define ACCS(X) X(char,char) X(unsigned char,uchar) X(short,short) X(unsigned short,ushort) X(int,int) \
    X(unsigned int,uint) X(long,long) X(unsigned long,ulong) X(long long,llong) X(unsigned long long,ullong) \
    X(bool,bool) X(float,float) X(double,double) X(long double,ldouble) X(float complex,float_complex) \
    X(double complex,double_complex) X(long double complex,ldouble_complex)
static size_t sig(const char *acc, size_t n) { return !strcmp(acc, "ldouble") ? 10 : n; }
static int same_ld(const char *acc, const void *a, const void *b, size_t n) {
    if (!strcmp(acc, "ldouble")) return !memcmp(a, b, 10);
    if (!strcmp(acc, "ldouble_complex")) return !memcmp(a, b, 10) && !memcmp((char*)a + 16, (char*)b + 16, 10);
    return !memcmp(a, b, n);
}
/* read through accessor `acc`; 1 = accepted */
static int rd(metac_value_t *v, const char *acc, void *out) {
#define X(T,a) if (!strcmp(acc, #a)) { T x; memset(&x, 0x5a, sizeof x); T g; memset(&g, 0x5a, sizeof g); int r = metac_value_##a(v, &x); \
        if (r != 0 && memcmp(&x, &g, sizeof x)) vt_v("refused-read-writes", "%s: refused %s read changed the output", w_cur, acc); \
        if (r > 0) vt_v("bad-rc", "%s: positive error code %d", w_cur, r); memcpy(out, &x, sizeof x); return r == 0; }
    ACCS(X)
#undef X
    return 0;
}
static int wr(metac_value_t *v, const char *acc, const void *in) {
#define X(T,a) if (!strcmp(acc, #a)) { T x; memcpy(&x, in, sizeof x); return metac_value_set_##a(v, x) == 0; }
    ACCS(X)
#undef X
    return 0;
}
static int isacc(metac_value_t *v, const char *acc) {
#define X(T,a) if (!strcmp(acc, #a)) return metac_value_is_##a(v) != 0;
    ACCS(X)
#undef X
    return 0;
}
static const char *accs[] = {
#define X(T,a) #a,
    ACCS(X)
#undef X
};
static size_t accsz[] = {
#define X(T,a) sizeof(T),
    ACCS(X)
#undef X
};
#define NACC (sizeof(accs)/sizeof(accs[0]))
static void objcmp(const char *key, struct leaf *l, const char *what) {
    for (size_t i = 0; i < objsz; i++) if (obj[i] != shadow[i]) {
        vt_v(key, "%s %s: %s: byte %zu of %zu is %02x, must be %02x", w_cur, l->path, what, i, objsz, obj[i], shadow[i]);
        memcpy(obj, shadow, objsz); return;
    }
}
/* other object of the same size to compare/copy with; leaf at the same offset */
static void do_base(struct leaf *l) {
    struct xt *t = l->t; size_t n = t->size;
    unsigned char buf[64], buf2[64];
    int have = 0; for (unsigned i = 0; i < NACC; i++) have |= !strcmp(accs[i], t->acc);
    size_t off = l->addr - obj;
    for (int rep = 0; rep < 3; rep++) {
        vt_fill(obj + off, n); w_sane_base(t, obj + off); memcpy(shadow, obj, objsz);
        for (unsigned i = 0; i < NACC; i++) {
            int match = !strcmp(accs[i], t->acc);
            VT_CHECK(isacc(l->v, accs[i]) == match, "is", "%s %s: is_%s on %s", w_cur, l->path, accs[i], t->name);
            memset(buf, 0x77, sizeof buf);
            int got = rd(l->v, accs[i], buf);
            vt_count("evals", 1); vt_count("reads", 1);
            VT_CHECK(got == match, "read-accept", "%s %s: read as %s of %s: accepted=%d", w_cur, l->path, accs[i], t->name, got);
            if (match && got) VT_CHECK(same_ld(accs[i], buf, shadow + off, n), "read-value", "%s %s: value read differs from the bytes", w_cur, l->path);
            objcmp("read-mutates", l, "a read changed the object");
            /* writes */
            vt_fill(buf, sizeof buf); struct xt tmp = *t; tmp.acc = accs[i]; w_sane_base(&tmp, buf);
            int ok = wr(l->v, accs[i], buf); vt_count("writes", 1);
            int want = match && !(l->quals & 1);
            VT_CHECK(ok == want, "write-accept", "%s %s: write as %s of %s%s: accepted=%d", w_cur, l->path, accs[i], l->quals & 1 ? "const " : "", t->name, ok);
            if (want && ok) {
                if (!strcmp(t->acc, "ldouble")) { /* padding bytes of a long double are not part of the value */
                    memcpy(shadow + off, buf, 10); memcpy(shadow + off + 10, obj + off + 10, n - 10);
                } else if (!strcmp(t->acc, "ldouble_complex")) {
                    memcpy(shadow + off, buf, 10); memcpy(shadow + off + 10, obj + off + 10, 6); memcpy(shadow + off + 16, buf + 16, 10); memcpy(shadow + off + 26, obj + off + 26, 6);
                } else memcpy(shadow + off, buf, n);
            }
            objcmp(want ? "write-exact" : "refused-write-mutates", l, "after a write");
        }
        /* generic numeric view */
        metac_num_t num = 12345;
        int rn = metac_value_num(l->v, &num);
        int isint = have && t->enc != METAC_ENC_float && t->enc != METAC_ENC_complex_float;
        if (isint) {
            long long exp = 0; int u = t->enc == METAC_ENC_unsigned || t->enc == METAC_ENC_unsigned_char || t->enc == METAC_ENC_boolean;
            unsigned long long raw = 0; memcpy(&raw, obj + off, n);
            exp = u ? (long long)raw : n == 8 ? (long long)raw : (long long)(raw << (64 - 8 * n)) >> (64 - 8 * n);
            if (exp >= -2147483647 - 1 && exp <= 2147483647 && !(u && raw > 0x7fffffff))
                VT_CHECK(rn == 0 && num == (metac_num_t)exp, "num", "%s %s: numeric view rc %d %d of %lld", w_cur, l->path, rn, num, exp);
        } else VT_CHECK(rn != 0, "num", "%s %s: numeric view of %s", w_cur, l->path, t->name);
        /* comparison and copy with a second object */
        if (have) {
            unsigned char *o2 = malloc(n); memcpy(o2, obj + off, n);
            metac_value_t *v2 = metac_new_value(metac_value_entry(l->v), o2);
            VT_CHECK(metac_value_equal_base_type(l->v, v2) == 1, "equal", "%s %s: equal bytes, not equal", w_cur, l->path);
            int bit = vt_below(8 * (unsigned)sig(t->acc, n)); 
            if (t->enc == METAC_ENC_boolean) bit = 0;
            if (t->enc == METAC_ENC_float || t->enc == METAC_ENC_complex_float) { w_sane_base(t, o2); } else o2[bit / 8] ^= 1 << bit % 8;
            int same = same_ld(t->acc, o2, obj + off, n);
            if (t->enc == METAC_ENC_float || t->enc == METAC_ENC_complex_float) { /* -0.0 == 0.0 */
                static const unsigned char z[64]; if (!memcmp(o2, z, 4) || !memcmp(obj + off, z, 4)) same = -1;
            }
            if (same >= 0) VT_CHECK(metac_value_equal_base_type(l->v, v2) == same, "equal", "%s %s: one bit differs, answer %d", w_cur, l->path, metac_value_equal_base_type(l->v, v2));
            if (!(l->quals & 1)) {
                VT_CHECK(metac_value_copy_base_type(v2, l->v) == l->v, "copy", "%s %s: copy refused", w_cur, l->path);
                if (!strcmp(t->acc, "ldouble") || !strcmp(t->acc, "ldouble_complex")) { VT_CHECK(same_ld(t->acc, obj + off, o2, n), "copy", "%s %s: copied value differs", w_cur, l->path); memcpy(shadow + off, obj + off, n); }
                else memcpy(shadow + off, o2, n);
                objcmp("copy", l, "after a copy");
            } else { VT_CHECK(metac_value_copy_base_type(v2, l->v) == NULL, "copy-const", "%s %s: copy into const accepted", w_cur, l->path); objcmp("copy-const", l, "after a refused copy"); }
            metac_value_delete(v2); free(o2);
        }
        VT_CHECK(metac_value_enumeration_string(l->v) == NULL && metac_value_pointer_string(l->v) == NULL, "wrong-kind", "%s %s: rendered as another kind", w_cur, l->path);
        void *pp = &pp; void *pp0 = pp; metac_const_value_t cv = 77;
        VT_CHECK(metac_value_pointer(l->v, &pp) < 0 && pp == pp0 && metac_value_set_pointer(l->v, NULL) < 0 && metac_value_enumeration(l->v, &cv) < 0 && cv == 77 && metac_value_set_enumeration(l->v, 0) < 0,
            "wrong-kind", "%s %s: pointer/enum access to a %s accepted", w_cur, l->path, t->name);
        objcmp("wrong-kind", l, "after refused accesses");
        vt_count("evals", 8);
    }
    unsigned long long h = vt_hash(w_cur, strlen(w_cur), 99); h = vt_hash(l->path, strlen(l->path), h); vt_distinct(h);
}
static void do_ptr(struct leaf *l) {
    size_t off = l->addr - obj;
    for (int rep = 0; rep < 2; rep++) {
        void *p = (void*)(uintptr_t)vt_rnd(), *q = NULL;
        memcpy(obj + off, &p, sizeof p); memcpy(shadow, obj, objsz);
        VT_CHECK(metac_value_pointer(l->v, &q) == 0 && p == q, "ptr-read", "%s %s: pointer read %p, is %p", w_cur, l->path, q, p);
        char *s = metac_value_pointer_string(l->v); char e[64]; snprintf(e, sizeof e, "%p", p);
        VT_CHECK(s && !strcmp(s, p ? e : "NULL"), "ptr-string", "%s %s: %s", w_cur, l->path, s ? s : "-"); free(s);
        VT_CHECK((metac_value_is_void_pointer(l->v) != 0) == (xfinal(XT(l->t->to), NULL) == NULL), "ptr-void", "%s %s", w_cur, l->path);
        p = rep ? NULL : (void*)(uintptr_t)vt_rnd();
        if (!(l->quals & 1)) {
            VT_CHECK(metac_value_set_pointer(l->v, p) == 0, "ptr-write", "%s %s: refused", w_cur, l->path);
            memcpy(shadow + off, &p, sizeof p);
            objcmp("ptr-write", l, "after a pointer write");
            void *o2 = p; metac_value_t *v2 = metac_new_value(metac_value_entry(l->v), &o2);
            VT_CHECK(metac_value_equal_pointer(l->v, v2) == 1, "ptr-equal", "%s %s", w_cur, l->path);
            o2 = (char*)p + 1; VT_CHECK(metac_value_equal_pointer(l->v, v2) == 0, "ptr-equal", "%s %s", w_cur, l->path);
            VT_CHECK(metac_value_copy_pointer(v2, l->v) == l->v, "ptr-copy", "%s %s", w_cur, l->path); memcpy(shadow + off, &o2, sizeof o2);
            objcmp("ptr-copy", l, "after a pointer copy"); metac_value_delete(v2);
        }
        for (unsigned i = 0; i < NACC; i++) { unsigned char b[64]; vt_fill(b, 64); b[0] &= 1;
            VT_CHECK(!rd(l->v, accs[i], b) && !isacc(l->v, accs[i]) && !wr(l->v, accs[i], b), "ptr-as-base", "%s %s: accepted as %s", w_cur, l->path, accs[i]); }
        metac_num_t n; VT_CHECK(metac_value_num(l->v, &n) < 0 && metac_value_base_type_string(l->v) == NULL, "ptr-as-base", "%s %s", w_cur, l->path);
        objcmp("ptr-as-base", l, "after refused accesses");
        vt_count("evals", 20); vt_count("pointers", 1);
    }
    unsigned long long h = vt_hash(w_cur, strlen(w_cur), 99); h = vt_hash(l->path, strlen(l->path), h); vt_distinct(h);
}
/* bit-fields: compiler's own get/set are the oracle */
static void do_bits(struct leaf *l) {
    struct xt *t = l->t; size_t so = l->sbase - obj;
    unsigned char vb[16], *sh = shadow + so;
    for (int rep = 0; rep < 6; rep++) {
        if (rep == 1) memset(obj, 0xff, objsz); else if (rep == 2) memset(obj, 0, objsz); else vt_fill(obj, objsz);
        if (t->enc == METAC_ENC_boolean) l->m->set(l->sbase, rep & 1);
        memcpy(shadow, obj, objsz);
        memset(vb, 0, sizeof vb);
        unsigned long long exp = l->m->get(l->sbase), got = 0;
        int ok = rd(l->v, t->acc, vb);
        VT_CHECK(ok, "bf-read-refused", "%s %s: width %d %s", w_cur, l->path, l->m->bits, t->name);
        memcpy(&got, vb, t->size);
        if (t->enc == METAC_ENC_signed || t->enc == METAC_ENC_signed_char) { int sft = 64 - 8 * (int)t->size; got = (unsigned long long)((long long)(got << sft) >> sft); }
        VT_CHECK(got == exp, "bf-read", "%s %s: width %d %s: read %llx, compiler %llx", w_cur, l->path, l->m->bits, t->name, got, exp);
        objcmp("bf-read-mutates", l, "after a bit-field read");
        unsigned long long val = rep == 3 ? ~0ull : rep == 4 ? 0 : rep == 5 ? 1ull << (l->m->bits - 1) : vt_rnd();
        if (t->enc == METAC_ENC_boolean) val &= 1;
        int c = l->quals & 1;
        if (!c) l->m->set(sh, val);
        memcpy(vb, &val, 8);
        ok = wr(l->v, t->acc, vb);
        VT_CHECK(ok == !c, "bf-write-accept", "%s %s: width %d %s: accepted %d", w_cur, l->path, l->m->bits, t->name, ok);
        objcmp("bf-write", l, "after a bit-field write");
        if (!c) {
            /* copy between two objects, equality */
            unsigned char *o2 = aligned_alloc(64, (objsz + 127) / 64 * 64); vt_fill(o2, objsz);
            if (t->enc == METAC_ENC_boolean) l->m->set(o2 + so, rep & 1);
            metac_value_t *v2 = metac_new_value(metac_value_entry(l->v), o2 + so + ((unsigned char*)metac_value_addr(l->v) - l->sbase));
            unsigned long long a = l->m->get(o2 + so), b = l->m->get(l->sbase);
            int e = metac_value_equal_base_type(l->v, v2);
            VT_CHECK(e == (a == b), "bf-equal", "%s %s: values %llx %llx equal=%d", w_cur, l->path, a, b, e);
            VT_CHECK(metac_value_copy_base_type(v2, l->v) == l->v, "bf-copy", "%s %s: refused", w_cur, l->path);
            l->m->set(sh, a);
            objcmp("bf-copy", l, "after a bit-field copy");
            metac_num_t num = 0; long long ex = (long long)l->m->get(l->sbase);
            int u = t->enc == METAC_ENC_unsigned || t->enc == METAC_ENC_unsigned_char || t->enc == METAC_ENC_boolean;
            int rn = metac_value_num(l->v, &num);
            if (ex >= -2147483647 - 1 && ex <= 2147483647 && strcmp(t->acc, "schar")) VT_CHECK(rn == 0 && num == ex, "bf-num", "%s %s: numeric view %d of %lld", w_cur, l->path, num, ex);
            metac_value_delete(v2); free(o2);
        }
        vt_count("evals", 5); vt_count("bitfield_ops", 5);
    }
    vt_count("bitfields", 1);
    unsigned long long h = vt_hash(w_cur, strlen(w_cur), 99); h = vt_hash(l->path, strlen(l->path), h); vt_distinct(h);
}
static void put_enum(struct leaf *l, unsigned char *o, long long v) {
    if (l->m) l->m->set(o + (l->sbase - obj), (unsigned long long)v);
    else memcpy(o + (l->addr - obj), &v, l->t->size);
}
static void do_enum(struct leaf *l) {
    struct xt *t = l->t;
    for (int i = 0; i < t->ne; i++) {
        vt_fill(obj, objsz); put_enum(l, obj, t->e[i].v); memcpy(shadow, obj, objsz);
        metac_const_value_t got = 0x5555;
        int rc = metac_value_enumeration(l->v, &got);
        VT_CHECK(rc == 0 && got == t->e[i].v, "enum-read", "%s %s: enum %s size %zu%s: %s=%lld read as %lld (rc %d)", w_cur, l->path, t->name ? t->name : "-", t->size, l->m ? " bit-field" : "", t->e[i].name, t->e[i].v, (long long)got, rc);
        metac_name_t nm = metac_value_enumeration_to_name(l->v, got);
        int okn = 0; for (int j = 0; j < t->ne; j++) okn |= nm && t->e[j].v == t->e[i].v && !strcmp(nm, t->e[j].name);
        VT_CHECK(okn, "enum-name", "%s %s: %s=%lld named %s", w_cur, l->path, t->e[i].name, t->e[i].v, nm ? nm : "-");
        char *s = metac_value_enumeration_string(l->v);
        okn = 0; for (int j = 0; j < t->ne; j++) okn |= s && t->e[j].v == t->e[i].v && !strcmp(s, t->e[j].name);
        VT_CHECK(okn, "enum-string", "%s %s: %s=%lld rendered %s", w_cur, l->path, t->e[i].name, t->e[i].v, s ? s : "-");
        free(s);
        metac_num_t num = 0; 
        if (t->e[i].v >= -2147483647 - 1 && t->e[i].v <= 2147483647) VT_CHECK(metac_value_num(l->v, &num) == 0 && num == t->e[i].v, "enum-num", "%s %s: %d for %lld", w_cur, l->path, num, t->e[i].v);
        objcmp("enum-read-mutates", l, "after enum reads");
        if (!(l->quals & 1)) {
            int k = vt_below(t->ne);
            rc = metac_value_set_enumeration(l->v, t->e[k].v);
            put_enum(l, shadow, t->e[k].v);
            VT_CHECK(rc == 0, "enum-write", "%s %s: refused", w_cur, l->path);
            objcmp("enum-write", l, "after an enum write");
            unsigned char *o2 = aligned_alloc(64, (objsz + 127) / 64 * 64); vt_fill(o2, objsz);
            int k2 = vt_below(t->ne);
            put_enum(l, o2, t->e[k2].v);
            metac_value_t *v2 = metac_new_value(metac_value_entry(l->v), o2 + ((unsigned char*)metac_value_addr(l->v) - obj));
            VT_CHECK(metac_value_equal_enumeration(l->v, v2) == (t->e[k].v == t->e[k2].v), "enum-equal", "%s %s: %lld vs %lld", w_cur, l->path, t->e[k].v, t->e[k2].v);
            VT_CHECK(metac_value_copy_enumeration(v2, l->v) == l->v, "enum-copy", "%s %s: refused", w_cur, l->path);
            put_enum(l, shadow, t->e[k2].v);
            objcmp("enum-copy", l, "after an enum copy");
            metac_value_delete(v2); free(o2);
        }
        vt_count("evals", 6); vt_count("enum_ops", 6); if (l->m) vt_count("enum_bitfield_ops", 6);
    }
    /* values that are not declared: read with their sign, no name, rendered as the number */
    int neg = 0; for (int j = 0; j < t->ne; j++) neg |= t->e[j].v < 0;
    for (int i = 0; i < 10; i++) {
        static const int sh[] = {0, 7, 8, 15, 16, 31, 32, 40, 48, 62};
        long long v = i < 7 ? t->e[vt_below(t->ne)].v + (vt_below(2) ? 1 : -1) * (1LL << sh[vt_below(10)]) : (long long)(vt_rnd() >> vt_below(63));
        put_enum(l, obj, v);
        long long want;
        if (l->m) want = (long long)l->m->get(l->sbase);
        else if (t->size >= 8) { want = v; if (!neg && want < 0) continue; }
        else { int b = 64 - 8 * t->size; want = neg ? (long long)((unsigned long long)v << b) >> b : (long long)(((unsigned long long)v << b) >> b); }
        memcpy(shadow, obj, objsz);
        metac_const_value_t got = 0; int rc = metac_value_enumeration(l->v, &got);
        VT_CHECK(rc == 0 && got == want, "enum-read-undeclared", "%s %s: size %zu%s: %lld read as %lld (rc %d)", w_cur, l->path, t->size, l->m ? " bit-field" : "", want, (long long)got, rc);
        const char *decl = NULL; for (int j = t->ne - 1; j >= 0; j--) if (t->e[j].v == want) decl = t->e[j].name;
        metac_name_t nm = metac_value_enumeration_to_name(l->v, want); int okn = !decl && !nm;
        for (int j = 0; j < t->ne && nm; j++) okn |= t->e[j].v == want && !strcmp(nm, t->e[j].name);
        VT_CHECK(okn, "enum-name-undeclared", "%s %s: %lld named %s, %s", w_cur, l->path, want, nm ? nm : "-", decl ? decl : "not declared");
        nm = metac_value_enumeration_to_name(l->v, v); okn = 0; int anyv = 0;
        for (int j = 0; j < t->ne; j++) if (t->e[j].v == v) { anyv = 1; okn |= nm && !strcmp(nm, t->e[j].name); }
        VT_CHECK(anyv ? okn : nm == NULL, "enum-name-undeclared", "%s %s: %lld named %s", w_cur, l->path, v, nm ? nm : "-");
        char *s = metac_value_enumeration_string(l->v), num[32]; snprintf(num, sizeof num, "%lld", want);
        if (!decl) VT_CHECK(s && !strcmp(s, num), "enum-unnamed", "%s %s: undeclared %s rendered %s", w_cur, l->path, num, s ? s : "-");
        free(s); objcmp("enum-read-mutates", l, "after enum reads");
        vt_count("undeclared_values", 1); vt_count("evals", 1);
    }
    VT_CHECK(metac_value_enumeration_info_size(l->v) == t->ne && metac_value_enumeration_info(l->v, t->ne) == NULL && metac_value_enumeration_info(l->v, -1) == NULL, "enum-info", "%s %s: enumerator table size", w_cur, l->path);
    unsigned char b[64]; memset(b, 0, sizeof b); memcpy(shadow, obj, objsz);
    for (unsigned i = 0; i < NACC; i++) VT_CHECK(!rd(l->v, accs[i], b) && !wr(l->v, accs[i], b), "enum-as-base", "%s %s: accepted as %s", w_cur, l->path, accs[i]);
    objcmp("enum-as-base", l, "after refused accesses");
    vt_count("enums", 1);
    unsigned long long h = vt_hash(w_cur, strlen(w_cur), 99); h = vt_hash(l->path, strlen(l->path), h); vt_distinct(h);
}
static void on_leaf(struct leaf *l, void *ctx) {
    if (!strcmp(mode, "nav")) { 
        unsigned long long h = vt_hash(w_cur, strlen(w_cur), 99); h = vt_hash(l->path, strlen(l->path), h); vt_distinct(h);
        if (l->t->kind == XK_PTR && !l->m) { /* pointer -> array of n */
            size_t off = l->addr - obj; struct xt *et = XT(l->t->to);
            void *p = NULL; memcpy(obj + off, &p, sizeof p);
            VT_CHECK(metac_new_element_count_value(l->v, 3) == NULL, "nav-ptr-null", "%s %s: array view of NULL", w_cur, l->path);
            struct xt *fe = et ? xfinal(et, NULL) : NULL;
            if (fe && !fe->nosize) {
                unsigned char *mem = malloc(fe->size * 3); p = mem; memcpy(obj + off, &p, sizeof p);
                metac_value_t *a = metac_new_element_count_value(l->v, 3);
                if (!a) vt_v("nav-ptr-array", "%s %s: no array view of a pointer", w_cur, l->path);
                else {
                    for (int i = 0; i < 3; i++) { metac_value_t *e = metac_new_value_by_element_id(a, i);
                        VT_CHECK(e && metac_value_addr(e) == mem + i * fe->size, "nav-ptr-array", "%s %s: element %d misplaced", w_cur, l->path, i); if (e) metac_value_delete(e); }
                    VT_CHECK(metac_new_value_by_element_id(a, 3) == NULL && metac_value_element_count(a) == 3, "nav-bounds", "%s %s: pointer array bounds", w_cur, l->path);
                    metac_value_delete(a);
                }
                free(mem); p = NULL; memcpy(obj + off, &p, sizeof p); vt_count("nav_ptr_arrays", 1);
            }
        }
        return;
    }
    if (!strcmp(mode, "base")) { if (!l->m && l->t->kind == XK_BASE) do_base(l); else if (!l->m && l->t->kind == XK_PTR) do_ptr(l); }
    else if (!strcmp(mode, "bits")) { if (l->m && l->t->kind == XK_BASE && strcmp(l->t->acc, "schar")) do_bits(l); }
    else if (!strcmp(mode, "enum")) { if (l->t->kind == XK_ENUM) do_enum(l); }
}
int main(int argc, char **argv) {
    mode = argv[1]; vt_seed(strtoull(argv[2], 0, 10));
    w_nav = !strcmp(mode, "nav");
    for (int i = 0; i < xnvars; i++) {
        struct xv *v = &xvars[i]; if (v->isfn) continue;
        w_cur = v->name;
        metac_entry_t *e = v->entry();
        if (!e) { vt_v("no-entry", "%s", v->name); continue; }
        /* last byte of the object is the last byte of the allocation */
        size_t al = 64; objsz = v->size;
        unsigned char *mem = aligned_alloc(al, (objsz + al - 1) / al * al + (objsz ? 0 : al));
        __asan_poison_memory_region(mem + objsz, (objsz + al - 1) / al * al + (objsz ? 0 : al) - objsz);
        obj = mem; shadow = malloc(objsz + 1);
        memset(mem, 0, objsz); memcpy(shadow, obj, objsz);
        metac_value_t *val = metac_new_value(e, obj);
        if (!val) vt_v("no-value", "%s", v->name); else {
            w_walk(val, v->xt, obj, NULL, on_leaf, NULL, "");
            metac_value_delete(val);
        }
        __asan_unpoison_memory_region(mem, (objsz + al - 1) / al * al + (objsz ? 0 : al)); free(mem); free(shadow);
    }
    VT_CHECK(metac_new_value(xvars[0].entry(), NULL) == NULL, "null-addr", "value at NULL created");
    return vt_end();
}
