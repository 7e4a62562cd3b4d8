/* format specifiers: parser against the parts each specifier was made of.  usage: h_fmt <seed> <rounds> */
#include "vt.h"
#include "metac/reflect.h"
#include "metac/backend/printf_format.h"
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[1], 0, 10); int rounds = atoi(argv[2]);
    static const struct { const char *t; int v; } len[] = {{"", psal_no}, {"h", psal_h}, {"hh", psal_hh}, {"l", psal_l}, {"ll", psal_ll}, {"L", psal_L}};
    static const char *lit[] = {"", "", "x", " ", "%%", " %% ", "100%%", "d", "\n", "\xc3\xa4", "hl", "5", ".", "-"};
    for (int r = 0; r < rounds; r++) {
        vt_seed(seed * 1000003 + r);
        char s[800]; size_t l = 0; int n = vt_below(8);
        struct { size_t at, end; unsigned f[5]; int w, p, len; char t; } e[8];
        l += sprintf(s, "%s", lit[vt_below(14)]);
        for (int i = 0; i < n; i++) {
            e[i].at = l; memset(e[i].f, 0, sizeof e[i].f); s[l++] = '%';
            int nf = vt_below(2) ? 0 : vt_below(5); while (nf--) { int k = vt_below(5); e[i].f[k] = 1; s[l++] = "+-#0 "[k]; }
            e[i].w = 0; if (vt_below(2)) { e[i].w = 1 + (vt_below(3) ? vt_below(40) : vt_below(100000)); l += sprintf(s + l, "%d", e[i].w); }
            e[i].p = -1; if (vt_below(3) == 0) { s[l++] = '.'; e[i].p = 0; if (vt_below(4)) { e[i].p = vt_below(2) ? vt_below(20) : vt_below(100000); l += sprintf(s + l, "%s%d", vt_below(5) ? "" : "00", e[i].p); } }
            int k = vt_below(6); e[i].len = len[k].v; l += sprintf(s + l, "%s", len[k].t);
            e[i].t = k == 0 ? "diouxXcspnfegEGaAFzjtCS"[vt_below(23)] : "diouxXcspnfegEGaAF"[vt_below(18)]; s[l++] = e[i].t; e[i].end = l;
            l += sprintf(s + l, "%s", lit[vt_below(14)]);
        }
        s[l] = 0; char *heap = malloc(l + 1); memcpy(heap, s, l + 1);
        vt_distinct(vt_hash(s, l, 5)); vt_sample("%s", s);
        for (int i = 0; i < n; i++) {
            size_t pos = e[i].at; metac_printf_specifier_t sp; vt_fill(&sp, sizeof sp);
            size_t rc = metac_parse_format_specifier(heap, &pos, &sp); vt_count("evals", 1); vt_count("specifiers", 1);
            VT_CHECK(rc == 1 && pos == e[i].end, "fmt-parse-end", "%s: specifier at %d: %d, ends at %d, expected %d", s, (int)e[i].at, (int)rc, (int)pos, (int)e[i].end);
            if (rc != 1) continue;
            VT_CHECK(sp.flags.plus == e[i].f[0] && sp.flags.minus == e[i].f[1] && sp.flags.pound == e[i].f[2] && sp.flags.oct == e[i].f[3] && sp.flags.space == e[i].f[4], "fmt-parse-flags", "%s: flags of the specifier at %d", s, (int)e[i].at);
            VT_CHECK(sp.format_len == e[i].w, "fmt-parse-width", "%s: width at %d is %d, expected %d", s, (int)e[i].at, (int)sp.format_len, e[i].w);
            VT_CHECK(sp.precision == e[i].p, "fmt-parse-precision", "%s: precision at %d is %d, expected %d", s, (int)e[i].at, (int)sp.precision, e[i].p);
            VT_CHECK((int)sp.arg_len == e[i].len, "fmt-parse-length", "%s: length at %d is %d, expected %d", s, (int)e[i].at, (int)sp.arg_len, e[i].len);
            VT_CHECK(sp.t == e[i].t, "fmt-parse-conversion", "%s: conversion at %d is %c, expected %c", s, (int)e[i].at, sp.t, e[i].t);
        }
        int c = metac_count_format_specifiers(heap); vt_count("evals", 1);
        VT_CHECK(c == n, "fmt-count", "%s: %d specifiers, expected %d", s, c, n);
        for (size_t i = 0; i < l; i++) if (heap[i] != '%') { size_t pos = i; metac_printf_specifier_t sp; VT_CHECK(metac_parse_format_specifier(heap, &pos, &sp) == 0 && pos == i, "fmt-parse-other", "%s: specifier at %d, where none is", s, (int)i); vt_count("non_specifiers", 1); break; }
        free(heap);
        /* arbitrary text */
        size_t m = vt_below(40); heap = malloc(m + 1); int digits = 0;
        for (size_t i = 0; i < m; i++) { heap[i] = "%%%-+ #.059hlLds*\x80z"[vt_below(19)]; if (heap[i] >= '0' && heap[i] <= '9') { if (++digits > 8) heap[i] = 'd', digits = 0; } else digits = 0; }
        heap[m] = 0; c = metac_count_format_specifiers(heap); vt_count("evals", 1); vt_count("hostile", 1);
        int pc = 0; for (size_t i = 0; i < m; i++) pc += heap[i] == '%';
        VT_CHECK(c >= 0 && c <= pc, "fmt-count", "%s: %d specifiers", heap, c);
        for (size_t i = 0; i <= m; i++) { size_t pos = i; metac_printf_specifier_t sp; size_t rc = metac_parse_format_specifier(heap, &pos, &sp); VT_CHECK(pos >= i && pos <= m && rc <= 1, "fmt-parse-hostile", "%s: parsing at %d ended at %d", heap, (int)i, (int)pos); }
        free(heap);
    }
    return vt_end();
}
