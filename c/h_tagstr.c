/* tag strings: lookup against the list of pairs the string was made of.  usage: h_tagstr <seed> <rounds> */
#include "vt.h"
#include "metac/reflect.h"
static const char kc[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-.,=/+*()[]{}\\";
static const char vc[] = "abcXYZ019 ,:;=.-_{}()[]'/%";
static char *look(const char *s, const char *k) { metac_entry_tag_t t = {.p_tagstring = (char*)s}; return metac_entry_tag_string_lookup(&t, (char*)k); }
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[1], 0, 10); int rounds = atoi(argv[2]);
    metac_entry_tag_t nt = {0};
    VT_CHECK(!look(NULL, "a") && !metac_entry_tag_string_lookup(NULL, "a") && !metac_entry_tag_string_lookup(&nt, "a") && !look("a:\"b\"", NULL), "tagstr-null", "answer without a string, tag or key");
    for (int r = 0; r < rounds; r++) {
        vt_seed(seed * 100003 + r);
        char key[12][16], val[12][80]; int n = vt_below(9); char s[2000]; size_t l = 0;
        for (int i = 0; i < n; i++) {
            if (i && vt_below(5) == 0) strcpy(key[i], key[vt_below(i)]);
            else if (i && vt_below(4) == 0) { strcpy(key[i], key[vt_below(i)]); size_t kl = strlen(key[i]); if (vt_below(2) && kl > 1) key[i][kl - 1] = 0; else { key[i][kl] = 'a' + vt_below(3); key[i][kl + 1] = 0; } }
            else { int kl = 1 + vt_below(6); for (int j = 0; j < kl; j++) key[i][j] = kc[vt_below(sizeof kc - 1)]; key[i][kl] = 0; }
            if (strlen(key[i]) > 12) key[i][12] = 0;
            int vl = 0, m = vt_below(3) ? vt_below(12) : vt_below(60);
            while (vl < m) { if (vt_below(6) == 0) { val[i][vl++] = '\\'; val[i][vl++] = "\"\\nt\":"[vt_below(6)]; } else if (i && vt_below(12) == 0 && vl < 40) vl += sprintf(val[i] + vl, " %s:\\\"x\\\" ", key[vt_below(i)]); else val[i][vl++] = vc[vt_below(sizeof vc - 1)]; }
            val[i][vl] = 0;
            int sp = i ? vt_below(8) ? 1 + (vt_below(4) == 0) * vt_below(3) : 0 : vt_below(3) == 0; while (sp-- > 0) s[l++] = ' ';
            /* words that are no pairs, some of them like the beginning of this one or another pair */
            if (vt_below(6) == 0) { if (l && s[l - 1] != ' ') s[l++] = ' '; const char *k = key[vt_below(i + 1)]; l += vt_below(3) == 0 ? sprintf(s + l, "%s:x%s:\"y\" ", k, key[vt_below(i + 1)]) : vt_below(2) ? sprintf(s + l, "%s ", k) : sprintf(s + l, "%s:%s%s ", k, vt_below(2) ? "x" : "", vt_below(2) ? key[i] : "y"); }
            l += sprintf(s + l, "%s:\"%s\"", key[i], val[i]);
        }
        if (vt_below(3) == 0) s[l++] = ' ';
        s[l] = 0; char *heap = malloc(l + 1); memcpy(heap, s, l + 1);   /* exact size: any overrun is seen */
        vt_distinct(vt_hash(s, l, 3)); vt_sample("%s", s);
        for (int q = 0; q < n + 4; q++) {
            char k[20]; if (q < n) strcpy(k, key[q]); else { int kl = vt_below(5); for (int j = 0; j < kl; j++) k[j] = kc[vt_below(sizeof kc - 1)]; k[kl] = 0; if (n && q == n) { strcpy(k, key[vt_below(n)]); k[strlen(k) - 1] = 0; } }
            int w = -1; for (int i = 0; i < n && w < 0; i++) if (!strcmp(key[i], k)) w = i;
            char *a = look(heap, k); vt_count("evals", 1); vt_count(w < 0 ? "absent" : "present", 1);
            VT_CHECK(w < 0 ? a == NULL : a && !strcmp(a, val[w]), "tagstr-lookup", "%s: key '%s' gives '%s', expected '%s'", s, k, a ? a : "nothing", w < 0 ? "nothing" : val[w]);
            free(a);
        }
        free(heap);
        /* arbitrary text: any answer, but a clean one */
        size_t m = vt_below(60); heap = malloc(m + 1); for (size_t i = 0; i < m; i++) heap[i] = "ab:\"\\ \t,\x80"[vt_below(9)]; heap[m] = 0;
        char k[4] = {"ab:\" "[vt_below(5)], vt_below(2) ? 'a' : 0, 0}; char *a = look(heap, k); vt_count("hostile", 1); vt_count("evals", 1);
        if (a) { VT_CHECK(strstr(heap, a) != NULL, "tagstr-hostile", "answer is no part of the tag"); free(a); }
        free(heap);
    }
    return vt_end();
}
