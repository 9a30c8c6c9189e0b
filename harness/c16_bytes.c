/* C16: byte search, length, comparison and word helpers against the C library. */
/* most search functions are declared always_inline: they are reachable only from the same translation unit */
#include VP_SWAR_C
#include <unistd.h>
/* names of its own, whatever else that file defines */
#define guarded_area vp16_guarded_area
#define at_page_end vp16_at_page_end
#define gen_len vp16_gen_len
#define fill vp16_fill
#define sgn vp16_sgn
#define t_strlen vp16_t_strlen
#define t_strcmp vp16_t_strcmp
#define t_memchr vp16_t_memchr
#define t_word vp16_t_word
#define t_in vp16_t_in
#define huge_at vp16_huge_at
#define t_huge vp16_t_huge
#define t_giant vp16_t_giant
#define page2 vp16_page2
#define PG vp16_PG
#include "gen.h"
#include <sys/mman.h>
const vp_config_t vp_cfg = { "C16", 64, 8, 0 };
static char *page2[2]; static size_t PG = 4096;
static char *guarded_area(int k) {
    if (!page2[k]) {
        char *m = mmap(NULL, 4 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) abort();
        mprotect(m, PG, PROT_NONE); mprotect(m + 3 * PG, PG, PROT_NONE);
        page2[k] = m + PG;
    }
    return page2[k];
}
/* two readable pages between inaccessible ones; the string ends d bytes before the end of the second */
static char *at_page_end(vp_rng *r, int k, size_t n, int tight) {
    char *a = guarded_area(k); size_t i, total = 2 * PG, slack;
    if (n + 1 > total) abort();
    slack = tight ? (vp_chance(r, 1, 2) ? 0 : vp_below(r, 9)) : 8 + vp_below(r, 64);
    if (n + 1 + slack > total) slack = 0;
    char *p = a + total - 1 - n - slack;
    for (i = 0; i < 40 && p - 1 - i >= a; i++) p[-1 - (long)i] = (char)vp_next(r);
    for (i = 0; i < slack; i++) p[n + 1 + i] = (char)vp_next(r);
    return p;
}
static size_t gen_len(vp_rng *r) {
    switch (vp_below(r, 5)) { case 0: return vp_below(r, 9); case 1: return vp_below(r, 20); case 2: return 8 * vp_below(r, 12) + vp_below(r, 3);
        case 3: return vp_below(r, 120); default: return vp_below(r, 20) ? vp_below(r, 300) : vp_below(r, 6000); }
}
static void fill(vp_rng *r, char *p, size_t n, int mode) { /* nonzero bytes */
    size_t i; for (i = 0; i < n; i++) {
        unsigned char c;
        switch (mode) { case 0: c = (unsigned char)('a' + vp_below(r, 3)); break; case 1: c = (unsigned char)vp_next(r); break;
            case 2: c = (unsigned char)(vp_chance(r, 1, 2) ? 0x80 : 0x81 - vp_below(r, 3)); break;
            case 3: c = (unsigned char)(1 + vp_below(r, 2)); break; default: c = (unsigned char)(0xfe + vp_below(r, 2)); }
        p[i] = c ? (char)c : 1;
    }
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static void t_strlen(vp_rng *r) {
    size_t n = gen_len(r); char *p = at_page_end(r, 0, n, 1); fill(r, p, n, (int)vp_below(r, 5)); p[n] = 0;
    vp_log("simd_strlen: length %zu, %zu bytes before the page end", n, (size_t)(guarded_area(0) + 2 * PG - 1 - n - p));
    size_t g = simd_strlen(p);
    VP_CHECK(g == n, "strlen", "simd_strlen = %zu for length %zu", g, n);
    vp_count("strlen", 1); vp_sig(vp_hash(1, n * 16 + ((uintptr_t)p & 15)));
    VP_CHECK(is_str_empty(p) == (n == 0), "is_str_empty", "is_str_empty of length %zu", n);
}
static void t_strcmp(vp_rng *r) {
    size_t n = gen_len(r), m, k; char *a, *b; int mode = (int)vp_below(r, 5);
    a = at_page_end(r, 0, n, 1); fill(r, a, n, mode); a[n] = 0;
    switch (vp_below(r, 4)) { case 0: m = n; break; case 1: m = n ? vp_below(r, (uint32_t)n + 1) : 0; break; case 2: m = n + vp_below(r, 20); break; default: m = gen_len(r); }
    b = at_page_end(r, 1, m, 1); fill(r, b, m, mode); k = n < m ? n : m;
    memcpy(b, a, k); b[m] = 0;
    if (k && vp_chance(r, 1, 2)) { size_t at = vp_chance(r, 1, 3) ? k - 1 : vp_below(r, (uint32_t)k); unsigned char c = (unsigned char)(vp_next(r)); b[at] = c ? (char)c : 1; }
    vp_log("simd_strcmp: lengths %zu %zu", n, m);
    int w = sgn(strcmp(a, b)), g = sgn(simd_strcmp(a, b));
    VP_CHECK(w == g, "strcmp", "simd_strcmp of strings of length %zu and %zu has sign %d, strcmp %d", n, m, g, w);
    g = sgn(simd_strcmp(b, a));
    VP_CHECK(-w == g, "strcmp", "simd_strcmp of strings of length %zu and %zu (swapped) has sign %d, strcmp %d", m, n, g, -w);
    VP_CHECK(simd_strcmp(a, a) == 0, "strcmp", "a string does not compare equal to itself");
    VP_CHECK(is_str_eq(a, b) == (w == 0), "is_str_eq", "is_str_eq");
    VP_CHECK(!is_str_eq(a, NULL) && !is_str_eq(NULL, b) && !is_str_eq(NULL, NULL), "is_str_eq-null", "is_str_eq with null");
    vp_count("strcmp", 2); vp_sig(vp_hash(2, n * 1000003 + m * 17 + (unsigned)(w + 1) + ((uintptr_t)a & 7) * 7 + ((uintptr_t)b & 7) * 77));
}
static void t_memchr(vp_rng *r) {
    size_t n = gen_len(r), i, nh; int printable = vp_chance(r, 1, 2); uint8_t c; char *p = at_page_end(r, 0, n, 0), *w, *wr;
    fill(r, p, n, printable ? 0 : (int)vp_below(r, 5));
    if (!printable) for (i = 0; i < n; i++) if (vp_chance(r, 1, 12)) p[i] = 0;
    c = printable ? (uint8_t)('d' + vp_below(r, 3)) : (uint8_t)(vp_chance(r, 1, 2) ? vp_next(r) : (vp_chance(r, 1, 3) ? 0 : (n ? (unsigned char)p[vp_below(r, (uint32_t)n)] : 0x80)));
    if (printable && vp_chance(r, 1, 4)) c = (uint8_t)('a' + vp_below(r, 3));
    nh = vp_below(r, 4); for (i = 0; i < nh && n; i++) p[vp_below(r, (uint32_t)n)] = (char)c;
    if (n && vp_chance(r, 1, 4)) p[n - 1] = (char)c;
    if (n && vp_chance(r, 1, 6)) p[0] = (char)c;
    /* the bytes outside the range are full of matches */
    for (i = 0; i < 16; i++) { if (vp_chance(r, 2, 3)) p[-1 - (long)i] = (char)c; else p[-1 - (long)i] &= 0x7f; }
    for (i = 0; i < 9; i++) { if (vp_chance(r, 2, 3)) p[n + i] = (char)c; else p[n + i] &= 0x7f; }
    w = memchr(p, c, n); wr = memrchr(p, c, n);
    vp_log("search 0x%02x in %zu bytes%s: first %ld last %ld", c, n, printable ? " (printable)" : "", w ? (long)(w - p) : -1, wr ? (long)(wr - p) : -1);
    char *g = simd_memchr(p, c, (uint32_t)n), *gr = simd_memrchr(p, c, (uint32_t)n);
    VP_CHECK(g == w, "memchr", "simd_memchr found offset %ld, expected %ld (length %zu)", (long)(g - p), w ? (long)(w - p) : -1, n);
    VP_CHECK(gr == wr, "memrchr", "simd_memrchr found offset %ld, expected %ld (length %zu)", (long)(gr - p), wr ? (long)(wr - p) : -1, n);
    if (w) {
        VP_CHECK(memchrk(p, (uint32_t)n, c) == (uint32_t)(w - p), "memchrk", "memchrk");
        VP_CHECK(memrchrk(p, (uint32_t)n, c) == (uint32_t)(wr - p), "memrchrk", "memrchrk");
    }
    if (printable) {
        uint32_t a = pmemchr(p, (uint32_t)n, c), b = pmemrchr(p, (uint32_t)n, c);
        VP_CHECK(a == (w ? (uint32_t)(w - p) : (uint32_t)-1), "pmemchr", "pmemchr = %u, expected %ld (length %zu)", a, w ? (long)(w - p) : -1, n);
        VP_CHECK(b == (w ? (uint32_t)(wr - p) : (uint32_t)-1), "pmemrchr", "pmemrchr = %u, expected %ld (length %zu)", b, wr ? (long)(wr - p) : -1, n);
        if (w) {
            VP_CHECK(pmemchrk(p, (uint32_t)n, c) == (uint32_t)(w - p), "pmemchrk", "pmemchrk");
            VP_CHECK(pmemrchrk(p, (uint32_t)n, c) == (uint32_t)(wr - p), "pmemrchrk", "pmemrchrk");
        }
        vp_count("printable_search", 1);
    }
    vp_count("search", 1); vp_sig(vp_hash(3, n * 64 + (w ? (uint64_t)(w - p) * 4099 + (uint64_t)(wr - p) * 31 : 7) + ((uintptr_t)p & 7)));
}
static void t_word(vp_rng *r) {
    char b[16]; uint64_t x = 0, y; int i, k, first = -1; uint8_t c = (uint8_t)vp_next(r);
    if (vp_chance(r, 1, 4)) c = vp_chance(r, 1, 2) ? 0 : 0x80;
    for (i = 0; i < 16; i++) b[i] = (char)(vp_chance(r, 1, 3) ? c : vp_chance(r, 1, 2) ? (c ^ (1 << vp_below(r, 8))) : vp_next(r));
    memcpy(&x, b, 8);
    VP_CHECK(cast(b) == x, "cast", "cast");
    for (k = 0; k <= 8; k++) { y = 0; memcpy(&y, b, (size_t)k); VP_CHECK(cast8(b, (uint32_t)k) == y, "cast8", "cast8(.., %d) = %llx", k, (unsigned long long)cast8(b, (uint32_t)k)); }
    y = 0; memset(&y, c, 8); VP_CHECK(extend((char)c) == y, "extend", "extend(%u)", c);
    int hz = 0, hb = 0; for (i = 0; i < 8; i++) { if (!b[i]) hz = 1; if ((uint8_t)b[i] == c) { if (!hb) first = i; hb = 1; } }
    VP_CHECK(haszero(x) == hz, "haszero", "haszero(%016llx)", (unsigned long long)x);
    VP_CHECK(hasbyte(x, c) == hb, "hasbyte", "hasbyte(%016llx, %02x)", (unsigned long long)x, c);
    VP_CHECK(memchr8(b, c) == (uint32_t)first, "memchr8", "memchr8(%016llx, %02x) = %d", (unsigned long long)x, c, (int)memchr8(b, c));
    if (hb) VP_CHECK(memchr8k(b, c) == (uint32_t)first, "memchr8k", "memchr8k(%016llx, %02x) = %d", (unsigned long long)x, c, (int)memchr8k(b, c));
    uint64_t m = vp_next(r) << vp_below(r, 64); m >>= vp_below(r, 64);
    if (m) {
        int tz = 0, lz = 0; while (!((m >> tz) & 1)) tz++; while (!((m >> (63 - lz)) & 1)) lz++;
        VP_CHECK(countr_zero(m) == tz, "countr_zero", "countr_zero(%llx)", (unsigned long long)m);
        VP_CHECK(countl_zero(m) == lz, "countl_zero", "countl_zero(%llx)", (unsigned long long)m);
        VP_CHECK(countr_index(m) == tz + 1, "countr_index", "countr_index(%llx)", (unsigned long long)m);
    } else VP_CHECK(countr_index(0) == 0, "countr_index", "countr_index(0)");
    vp_log("words %016llx byte %02x mask %llx", (unsigned long long)x, c, (unsigned long long)m);
    vp_count("word", 1); vp_sig(vp_hash(4, x ^ m));
}
static void t_in(vp_rng *r) {
    char t[200], q[60]; size_t n = vp_below(r, 150), m = vp_below(r, 6), i;
    for (i = 0; i < n; i++) t[i] = (char)('a' + vp_below(r, 2)); t[n] = 0;
    for (i = 0; i < m; i++) q[i] = (char)('a' + vp_below(r, 2)); q[m] = 0;
    if (n > m && vp_chance(r, 1, 3)) memcpy(q, t + vp_below(r, (uint32_t)(n - m)), m);
    VP_CHECK(is_str_in(t, q) == (strstr(t, q) != NULL), "is_str_in", "is_str_in(\"%s\", \"%s\")", t, q);
    vp_log("is_str_in(\"%s\", \"%s\")", t, q); vp_count("is_str_in", 1);
}
/* large lengths: an area of 24 MB between inaccessible pages; and one of several GB that is one small piece mapped again and again */
#undef HUGE
#define HUGE ((size_t)24 << 20)
static char *huge_at(int k, size_t n, size_t slack) {
    static char *area[2];
    if (!area[k]) { area[k] = mmap(NULL, HUGE + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (area[k] == MAP_FAILED) abort(); mprotect(area[k], PG, PROT_NONE); mprotect(area[k] + PG + HUGE, PG, PROT_NONE); }
    return area[k] + PG + HUGE - 1 - n - slack;
}
static void t_huge(vp_rng *r) {
    size_t n, m, at, last; char *a, *b; int w, g; uint8_t c = 0xC3; uint32_t ga, gb; size_t lim[] = { 70000, 300000, 3000000, HUGE - 4096 }; 
    n = lim[vp_below(r, 4)]; n = n - vp_below(r, (uint32_t)(n / 8)); at = vp_chance(r, 1, 3) ? n - 1 - vp_below(r, 20) : vp_chance(r, 1, 2) ? 65530 + vp_below(r, 12) : vp_below(r, (uint32_t)n);
    if (at >= n) at = n - 1;
    a = huge_at(0, n, vp_below(r, 9)); b = huge_at(1, n, vp_below(r, 9)); memset(a, 'q', n); a[n] = 0; memset(b, 'q', n); b[n] = 0;
    vp_log("large: %zu bytes, a byte at %zu", n, at);
    VP_CHECK(simd_strlen(a) == n, "strlen", "simd_strlen = %zu for length %zu", simd_strlen(a), n);
    VP_CHECK(simd_memchr(a, c, (uint32_t)n) == NULL && simd_memrchr(a, c, (uint32_t)n) == NULL, "memchr", "a byte was found in %zu bytes without it", n);
    VP_CHECK(simd_strcmp(a, b) == 0, "strcmp", "equal strings of %zu bytes compare different", n);
    a[at] = (char)c; last = at + vp_below(r, (uint32_t)(n - at)); a[last] = (char)c;
    VP_CHECK(simd_memchr(a, c, (uint32_t)n) == a + at, "memchr", "simd_memchr of %zu bytes found another place than %zu", n, at);
    VP_CHECK(simd_memrchr(a, c, (uint32_t)n) == a + last, "memrchr", "simd_memrchr of %zu bytes found another place than %zu", n, last);
    VP_CHECK(memchrk(a, (uint32_t)n, c) == at && memrchrk(a, (uint32_t)n, c) == last, "memchrk", "memchrk of %zu bytes", n);
    w = sgn(strcmp(a, b)); g = sgn(simd_strcmp(a, b)); VP_CHECK(w == g && sgn(simd_strcmp(b, a)) == -w, "strcmp", "simd_strcmp of strings of length %zu differing at %zu has sign %d, strcmp %d", n, at, g, w);
    a[at] = a[last] = 'A'; ga = pmemchr(a, (uint32_t)n, 'A'); gb = pmemrchr(a, (uint32_t)n, 'A');
    VP_CHECK(ga == at && gb == last, "pmemchr", "pmemchr of %zu bytes found %u %u, expected %zu %zu", n, ga, gb, at, last);
    m = at; b[m] = 0; VP_CHECK(simd_strlen(b) == m, "strlen", "simd_strlen = %zu for length %zu", simd_strlen(b), m);
    if (m) { VP_CHECK(sgn(simd_strcmp(a, b)) == 1 && sgn(simd_strcmp(b, a)) == -1, "strcmp", "a string of %zu and its prefix of %zu", n, m); }
    vp_count("large", 1); vp_max("longest", n); vp_sig(vp_hash(9, n ^ at));
}
#ifdef VP_CONFIG_prod
static void t_giant(vp_rng *r) {
    static const size_t P = (size_t)4 << 20; size_t k, n = (r->s & 1 ? (size_t)2200 << 20 : (size_t)4300 << 20), off, len; char *m, *piece; int fd = memfd_create("vp", 0); uint8_t c = 0xC3; int ok = 1;
    if (fd < 0 || ftruncate(fd, (off_t)P)) { if (fd >= 0) close(fd); vp_count("giant_unavailable", 1); return; }
    n = n / P * P; m = mmap(NULL, n + P + PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { close(fd); vp_count("giant_unavailable", 1); return; }
    for (k = 0; k < n && ok; k += P) { ok = mmap(m + k, P, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED; if (!(k & (((size_t)256 << 20) - 1))) vp_beat(); }
    if (ok) ok = mmap(m + n, P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != MAP_FAILED;
    if (!ok) { munmap(m, n + P + PG); close(fd); vp_count("giant_unavailable", 1); return; }
    memset(m, 'q', P); piece = m + n; vp_beat();
    off = vp_below(r, (uint32_t)P); memset(piece, 'q', off); piece[off] = 0; len = n + off; k = vp_below(r, 8);
    vp_log("giant: %zu bytes", len - k);
    VP_CHECK(simd_strlen(m + k) == len - k, "strlen", "simd_strlen = %zu for length %zu", simd_strlen(m + k), len - k); vp_beat();
    if (len < UINT32_MAX) {
        piece[off / 2] = (char)c; 
        VP_CHECK(simd_memchr(m + k, c, (uint32_t)(len - k)) == piece + off / 2, "memchr", "simd_memchr of %zu bytes", len - k); vp_beat();
        piece[off / 2] = 'q'; piece[-1] = 'q'; 
        VP_CHECK(simd_memchr(m + k, c, (uint32_t)(len - k)) == NULL, "memchr", "simd_memchr of %zu bytes without a match", len - k); vp_beat();
        m[k] = 'q'; VP_CHECK(simd_memrchr(m + k, c, (uint32_t)(len - k)) == NULL, "memrchr", "simd_memrchr of %zu bytes without a match", len - k); vp_beat();
        piece[off / 2] = (char)c; VP_CHECK(simd_memrchr(m + k, c, (uint32_t)(len - k)) == piece + off / 2, "memrchr", "simd_memrchr of %zu bytes", len - k);
    }
    munmap(m, n + P + PG); close(fd); vp_count("giant", 1); vp_max("longest", len); vp_beat();
}
#endif
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 16); int i;
    vp_log("case %llu", (unsigned long long)idx);
    if (idx % 4096 == 17) { t_huge(&r); return; }
#ifdef VP_CONFIG_prod
    if (idx % 32768 == 4099) { r.s = r.s * 2 + ((idx >> 15) & 1); t_giant(&r); return; }
#endif
    for (i = 0; i < 40; i++) switch (vp_below(&r, 9)) {
        case 0: case 1: t_strlen(&r); break;
        case 2: case 3: t_strcmp(&r); break;
        case 4: case 5: case 6: t_memchr(&r); break;
        case 7: t_word(&r); break;
        default: t_in(&r); break;
    }
}
