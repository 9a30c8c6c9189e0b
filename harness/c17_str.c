/* C17: split, concatenate, replace, duplicate, find against reference definitions; results owned by their scope. */
#include "raii.h"
#include "gen.h"
#include <stdarg.h>
const vp_config_t vp_cfg = { "C17", 32, 8, 0 };
#define MAXT 4096
static char T[MAXT * 2], Q[256], R[256];
static memory_t *scope; static int kind; /* 0: no scope, 1: smart pointer, 2: thread's default */
static size_t live0;

static size_t rlen(vp_rng *r) { switch (vp_below(r, 4)) { case 0: return vp_below(r, 6); case 1: return vp_below(r, 40); case 2: return vp_below(r, 300); default: return vp_chance(r, 1, 20) ? vp_below(r, MAXT - 20) : vp_below(r, 64); } }
static void rtext(vp_rng *r, char *p, size_t n, int alpha) { size_t i; for (i = 0; i < n; i++) { unsigned char c = alpha < 6 ? (unsigned char)('a' + vp_below(r, (uint32_t)alpha)) : (unsigned char)vp_next(r); p[i] = c ? (char)c : 'z'; } p[n] = 0; }
static memory_t *sc(void) { return kind == 0 ? NULL : scope; }
static void done(vp_rng *r, void *p) {
    (void)r;
    vp_ledger_check();
    if (kind == 0 && p) vp_free(p);
}
static void check_owned(const void *p, size_t need, const char *what) {
    VP_CHECK(vp_is_live(p), "not-live", "the result of %s is not a live block", what);
    VP_CHECK(vp_block_size(p) >= need, "too-small", "%s: block of %zu bytes for %zu", what, vp_block_size(p), need);
}
static void t_split(vp_rng *r) {
    size_t n = rlen(r), d = 1 + vp_below(r, 3), pieces = 0, i; int alpha = 2 + (int)vp_below(r, 6), cnt = -7, *pc = vp_chance(r, 1, 6) ? NULL : &cnt; char save[MAXT], *at; string *v;
    int nulld = vp_chance(r, 1, 10);
    if (!n) n = 1;
    if (n > MAXT - 20) n = MAXT - 20;
    rtext(r, T, n, alpha); if (nulld) { for (i = 0; i < n; i++) if (vp_chance(r, 1, 4)) T[i] = ' '; strcpy(Q, " "); d = 1; } else rtext(r, Q, vp_chance(r, 1, 15) ? 0 : d, alpha);
    if (!nulld && vp_chance(r, 1, 8) && n < 200) { strcpy(Q, T); T[n] = 0; }
    d = strlen(Q);
    memcpy(save, T, n + 1);
    vp_log("split \"%.60s\" (%zu) by \"%.20s\" kind %d", T, n, nulld ? "NULL" : Q, kind);
    v = kind == 2 ? raii_split(T, nulld ? NULL : Q, pc) : str_split_ex(sc(), T, nulld ? NULL : Q, pc);
    VP_CHECK(v != NULL, "split-null", "split returned null");
    VP_CHECK(!memcmp(save, T, n + 1), "input-changed", "split changed its input");
    /* reference */
    { const char *p = save; for (;;) {
        const char *e = d ? strstr(p, Q) : NULL; size_t l = e ? (size_t)(e - p) : strlen(p);
        VP_CHECK(v[pieces] != NULL, "split-short", "piece %zu is missing", pieces);
        VP_CHECK(strlen(v[pieces]) == l && !memcmp(v[pieces], p, l), "split-piece", "piece %zu is \"%.40s\", expected \"%.*s\"", pieces, v[pieces], (int)(l > 40 ? 40 : l), p);
        pieces++; if (!e) break; p = e + d; } }
    VP_CHECK(v[pieces] == NULL, "split-end", "no terminating null after %zu pieces", pieces);
    if (pc) VP_CHECK(cnt == (int)pieces, "split-count", "count %d, %zu pieces", cnt, pieces);
    check_owned(v, (pieces + 1) * sizeof(char *), "split");
    for (i = 0; i < pieces; i++) VP_CHECK(vp_in_live(v[i], strlen(v[i]) + 1), "split-outside", "piece %zu lies outside live memory", i);
    (void)at; vp_count("split", 1); vp_max("most_pieces", pieces); vp_sig(vp_hash(1, pieces * 1009 + n * 7 + d) ^ vp_hash_bytes(1, save, n)); done(r, v);
}
static string cat_va(memory_t *s, int n, ...) { va_list ap; string p; va_start(ap, n); p = str_concat_ex(s, n, ap); va_end(ap); return p; }
static void t_concat(vp_rng *r) {
    static char part[8][700]; char want[6000]; int n = 1 + (int)vp_below(r, 8), i; size_t l = 0; string p;
    char keep[8][700];
    want[0] = 0;
    for (i = 0; i < 8; i++) { size_t k = vp_chance(r, 1, 5) ? 0 : rlen(r); if (k > 690) k = 690; rtext(r, part[i], k, 6); if (i < n) { memcpy(want + l, part[i], k + 1); l += k; } memcpy(keep[i], part[i], 700); }
    vp_log("concat of %d parts, %zu bytes, kind %d", n, l, kind);
    if (kind == 2) p = raii_concat(n, part[0], part[1], part[2], part[3], part[4], part[5], part[6], part[7]);
    else p = cat_va(sc(), n, part[0], part[1], part[2], part[3], part[4], part[5], part[6], part[7]);
    VP_CHECK(p != NULL, "concat-null", "concat returned null");
    VP_CHECK(strlen(p) == l && !memcmp(p, want, l + 1), "concat", "concatenation differs (length %zu, expected %zu)", strlen(p), l);
    VP_CHECK(!memcmp(keep, part, sizeof keep), "input-changed", "concat changed its input");
    check_owned(p, l + 1, "concat");
    vp_count("concat", 1); vp_sig(vp_hash(2, l * 8 + (unsigned)n) ^ vp_hash_bytes(2, want, l)); done(r, p);
}
static void t_replace(vp_rng *r) {
    size_t n = rlen(r), m = 1 + vp_below(r, 4), k = vp_below(r, 8), cnt = 0; int alpha = 1 + (int)vp_below(r, 4); static char want[MAXT * 9 + 64]; char save[MAXT]; string p;
    if (n > MAXT - 20) n = MAXT - 20;
    rtext(r, T, n, alpha); rtext(r, Q, vp_chance(r, 1, 20) ? 0 : m, alpha); rtext(r, R, k, 5); m = strlen(Q);
    memcpy(save, T, n + 1);
    { const char *s = save; char *o = want; if (m) { while (*s) { if (!strncmp(s, Q, m)) { memcpy(o, R, k); o += k; s += m; cnt++; } else *o++ = *s++; } *o = 0; } }
    vp_log("replace \"%.20s\" by \"%.20s\" in \"%.60s\" (%zu), kind %d: %zu", Q, R, T, n, kind, cnt);
    p = kind == 2 ? raii_replace(T, Q, R) : str_replace_ex(sc(), T, Q, R);
    VP_CHECK(!memcmp(save, T, n + 1), "input-changed", "replace changed its input");
    if (!cnt) VP_CHECK(p == NULL, "replace-none", "replace without an occurrence returned a string");
    else {
        VP_CHECK(p != NULL, "replace-null", "replace returned null for %zu occurrences", cnt);
        VP_CHECK(!strcmp(p, want), "replace", "replace gave \"%.60s\", expected \"%.60s\"", p, want);
        check_owned(p, strlen(want) + 1, "replace"); done(r, p);
    }
    if (vp_chance(r, 1, 16)) {
        int w = 1 + (int)vp_below(r, 7); p = kind == 2 ? raii_replace(w & 1 ? NULL : T, w & 2 ? NULL : Q, w & 4 ? NULL : R) : str_replace_ex(sc(), w & 1 ? NULL : T, w & 2 ? NULL : Q, w & 4 ? NULL : R);
        VP_CHECK(!p, "replace-null-arg", "replace with a missing text (%d) returned a string", w); vp_count("replace_missing_text", 1);
    }
    vp_count("replace", 1); vp_max("most_replacements", cnt); vp_sig(vp_hash(3, cnt * 64 + m * 8 + k) ^ vp_hash_bytes(3, save, n));
}
static void t_memdup(vp_rng *r) {
    size_t n = rlen(r), i; string p; static char src[MAXT];
    if (!kind) return;
    for (i = 0; i < n; i++) src[i] = (char)vp_next(r);
    vp_log("memdup of %zu bytes, kind %d", n, kind);
    p = kind == 2 ? raii_memdup(src, n) : str_memdup_ex(scope, src, n);
    VP_CHECK(p && !memcmp(p, src, n) && p[n] == 0, "memdup", "memdup of %zu bytes differs", n);
    check_owned(p, n + 1, "memdup"); vp_count("memdup", 1); vp_sig(vp_hash(4, n)); done(r, p);
}
static void t_copy_pos(vp_rng *r) {
    char d[400]; size_t n = vp_below(r, 300), m, i; int alpha = 1 + (int)vp_below(r, 3); string p; char *w; int g;
    rtext(r, T, n, alpha);
    memset(d, 0x5C, sizeof d);
    m = n ? vp_below(r, (uint32_t)n + 1) : 0;
    p = str_copy(d + 8, T, m); i = m ? m : n;
    VP_CHECK(p == d + 8 && !memcmp(d + 8, T, i), "str_copy", "str_copy of %zu of %zu", m, n);
    VP_CHECK(d[7] == 0x5C && d[8 + i] == 0x5C, "str_copy-outside", "str_copy wrote outside %zu bytes", i);
    rtext(r, Q, vp_below(r, 7), alpha);
    if (n > 8 && vp_chance(r, 1, 3)) { m = 1 + vp_below(r, 7); memcpy(Q, T + vp_below(r, (uint32_t)(n - m) + 1), m); Q[m] = 0; }
    w = strstr(T, Q); g = strpos(T, Q);
    vp_log("strpos(\"%.60s\", \"%s\") = %d", T, Q, g);
    VP_CHECK(g == (w ? (int)(w - T) : -1), "strpos", "strpos(\"%.80s\", \"%s\") = %d", T, Q, g);
    vp_count("strpos", 1); vp_sig(vp_hash(5, (uint64_t)(g + 2) * 400 + n));
}
/* long texts, many pieces */
#define BIGT ((size_t)4 << 20)
static void t_big(vp_rng *r) {
    static char *big, *copy, *want; static const size_t LIM[] = { 70000, 200000, 1200000, BIGT - 100 }; size_t n = LIM[vp_below(r, 4)], i, k, pieces; string *v; string p; int cnt = -7; char *e;
    if (!big) { big = malloc(BIGT + 100); copy = malloc(BIGT + 100); want = malloc(4 * BIGT + 100); }
    n -= vp_below(r, (uint32_t)(n / 4));
#if defined(VP_CONFIG_asan) || defined(VP_CONFIG_asan2)
    if (n > 100000) n = 100000 + n % 7;       /* its strstr looks at the whole text at every call */
#define LESS 30000
#else
#define LESS 300000
#endif
    memset(big, 'q', n); big[n] = 0;
    switch (vp_below(r, 6)) {
        case 0: case 1: {     /* split into many */
            const char *d = vp_chance(r, 1, 2) ? "," : ", "; size_t dl = strlen(d), step = 2 + vp_below(r, vp_chance(r, 1, 3) ? 100000 : 30);
            for (i = step, pieces = 1; i + dl + 1 < n; i += step + dl) { memcpy(big + i, d, dl); pieces++; }
            memcpy(copy, big, n + 1); vp_log("split %zu bytes into %zu pieces, kind %d", n, pieces, kind);
            v = kind == 2 ? raii_split(big, d, &cnt) : str_split_ex(sc(), big, d, &cnt);
            VP_CHECK(v && cnt == (int)pieces && !memcmp(big, copy, n + 1), "split-count", "count %d, %zu pieces", cnt, pieces);
            for (i = 0, e = copy; i < pieces; i++) { char *f = strstr(e, d); size_t l = f ? (size_t)(f - e) : strlen(e); VP_CHECK(v[i] && strlen(v[i]) == l && !memcmp(v[i], e, l), "split-piece", "piece %zu of %zu differs", i, pieces); e = f ? f + dl : e + l; }
            VP_CHECK(v[pieces] == NULL, "split-end", "no terminating null after %zu pieces", pieces); check_owned(v, (pieces + 1) * sizeof(char *), "split"); VP_CHECK(vp_in_live(v[pieces - 1], strlen(v[pieces - 1]) + 1), "split-outside", "the last piece lies outside live memory");
            vp_max("most_pieces", pieces); done(r, v); break; }
        case 2: {             /* parts of a few bytes and of megabytes */
            size_t a = vp_below(r, (uint32_t)n), b = a + vp_below(r, (uint32_t)(n - a)), l; memcpy(copy, big, a); copy[a] = 0; memset(big + b, 'Z', n - b);
            memcpy(want, copy, a); l = a; memcpy(want + l, big, n); l += n; memcpy(want + l, "-", 1); l++; memcpy(want + l, big + b, n - b + 1); l += n - b;
            p = kind == 2 ? raii_concat(4, copy, big, "-", big + b) : cat_va(sc(), 4, copy, big, "-", big + b);
            vp_log("concat %zu + %zu + 1 + %zu, kind %d", a, n, n - b, kind);
            VP_CHECK(p && strlen(p) == l && !memcmp(p, want, l + 1), "concat", "concatenation to %zu bytes differs", l); check_owned(p, l + 1, "concat"); done(r, p); break; }
        case 3: {             /* an occurrence every few bytes */
            size_t step = 1 + vp_below(r, 40), nl = 1 + vp_below(r, 2), rl_ = vp_below(r, 9), reps = 0, l = 0; if (n > LESS) n = LESS; big[n] = 0;
            for (i = 0; i < n; i += step + 1) big[i] = 'x'; if (nl == 2) for (i = 0; i + 1 < n; i += 2 * (step + 1)) big[i + 1] = 'y';
            memcpy(copy, big, n + 1); memcpy(Q, nl == 1 ? "x" : "xy", nl + 1); memset(R, 'R', rl_); R[rl_] = 0;
            for (i = 0; i < n; ) if (!strncmp(copy + i, Q, nl)) { memcpy(want + l, R, rl_); l += rl_; i += nl; reps++; } else want[l++] = copy[i++];
            want[l] = 0; p = kind == 2 ? raii_replace(big, Q, R) : str_replace_ex(sc(), big, Q, R);
            vp_log("replace %zu occurrences of \"%s\" by %zu bytes in %zu, kind %d", reps, Q, rl_, n, kind);
            if (!reps) VP_CHECK(p == NULL, "replace-none", "replace without an occurrence returned a string");
            else { VP_CHECK(p && strlen(p) == l && !memcmp(p, want, l + 1), "replace", "replacing %zu occurrences in %zu bytes differs", reps, n); check_owned(p, l + 1, "replace"); vp_max("most_replacements", reps); done(r, p); }
            break; }
        case 4: if (!kind) break; for (i = 0; i < n; i += 97) big[i] = (char)(i >> 7);
            p = kind == 2 ? raii_memdup(big, n) : str_memdup_ex(scope, big, n); VP_CHECK(p && !memcmp(p, big, n) && p[n] == 0, "memdup", "memdup of %zu bytes differs", n); check_owned(p, n + 1, "memdup"); done(r, p); break;
        default: k = vp_below(r, (uint32_t)(n - 8)); memcpy(big + k, "needle!", 7); VP_CHECK(strpos(big, "needle!") == (int)k, "strpos", "strpos in %zu bytes gave %d instead of %zu", n, strpos(big, "needle!"), k); VP_CHECK(strpos(big, "needle?") == -1, "strpos", "strpos found what is not there in %zu bytes", n);
            memset(copy, 0x5C, n + 8); VP_CHECK(str_copy(copy, big, vp_chance(r, 1, 2) ? 0 : n) == copy && !memcmp(copy, big, n) && copy[n] == 0x5C, "str_copy", "str_copy of %zu bytes", n); break;
    }
    vp_count("long_texts", 1); vp_max("longest_text", n); vp_sig(vp_hash(8, n)); vp_beat();
}
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 17); int i, n = 1 + (int)vp_below(&r, 12); uint64_t first[16]; void *held[16];
    kind = (int)vp_below(&r, 3);
    vp_log("case %llu", (unsigned long long)idx);
    live0 = vp_live();
    scope = kind == 1 ? unique_init() : kind == 2 ? raii_init() : NULL;
    (void)first; (void)held;
    if (idx % 1024 == 33) t_big(&r);
    for (i = 0; i < n; i++) { switch (vp_below(&r, 6)) {
        case 0: case 1: t_split(&r); break; case 2: t_concat(&r); break; case 3: t_replace(&r); break; case 4: t_memdup(&r); break; default: t_copy_pos(&r); } }
    if (kind == 1) raii_delete(scope); else if (kind == 2) raii_deferred_clean();
    if (vp_live() != live0) { vp_ledger_dump(); vp_fail("leak", "%zu blocks remain after the scope ended (kind %d)", vp_live() - live0, kind); }
    vp_count("scopes_ended", kind != 0);
}
