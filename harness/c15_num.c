/* C15: number/text conversions against the C library. */
#include "raii.h"
#include "gen.h"
#include <math.h>
#include <inttypes.h>
const vp_config_t vp_cfg = { "C15", 64, 8, 0 };
#define ROUNDS 60
static char A[512];
static const char *DIG = "0123456789-+.e/:";

static void out_check(const unsigned char *b, size_t n, size_t total, const char *what) {
    size_t i; for (i = n; i < total; i++) if (b[i] != 0x5C) vp_fail("out-overrun", "%s wrote at offset %zu of a buffer of %zu bytes", what, i, n);
}
static void t_itoa(vp_rng *r) {
    char want[40]; unsigned char buf[80]; int64_t v = (int64_t)gen_u64(r);
    if (vp_chance(r, 1, 3)) v = -v < 0 ? -(int64_t)((uint64_t)v & INT64_MAX) : v;
    if (vp_chance(r, 1, 60)) v = INT64_MIN;
    unsigned off = vp_below(r, 8);
    memset(buf, 0x5C, sizeof buf);
    int wl = snprintf(want, sizeof want, "%" PRId64, v);
    vp_log("simd_itoa(%s)", want);
    uint32_t n = simd_itoa(v, (char *)buf + off);
    VP_CHECK(n == (uint32_t)wl, "itoa-length", "simd_itoa(%s) returned length %u", want, n);
    VP_CHECK(!memcmp(buf + off, want, (size_t)wl + 1), "itoa-text", "simd_itoa(%s) wrote \"%.30s\"", want, (char *)buf + off);
    out_check(buf + off, 22, sizeof buf - off, "simd_itoa");
    if (off) VP_CHECK(buf[off - 1] == 0x5C, "out-overrun", "simd_itoa wrote before its buffer");
    /* round trip */
    char *p = gen_place(r, A, sizeof A, want, (size_t)wl, DIG);
    int64_t b = simd_atoi(p, (uint32_t)wl);
    VP_CHECK(b == v, "itoa-atoi-roundtrip", "simd_atoi(\"%s\") = %" PRId64, want, b);
    vp_count("itoa", 1); vp_sig(vp_hash(1, (uint64_t)wl * 131 + (v < 0)) ^ ((uint64_t)v * 7919));
}
static void t_itoa8(vp_rng *r) {
    char want[40]; unsigned char buf[80]; int32_t v;
    switch (vp_below(r, 3)) {
        case 0: v = (int32_t)vp_below(r, 100000000); break;
        case 1: v = -(int32_t)vp_below(r, 10000000); break;
        default: { int32_t p = 1; unsigned k = vp_below(r, 9), i; for (i = 0; i < k; i++) p *= 10; v = p + (int32_t)vp_below(r, 3) - 1; if (v > 99999999) v = 99999999;
                   if (v <= 9999999 && vp_chance(r, 1, 2)) v = -v; }
    }
    memset(buf, 0x5C, sizeof buf);
    int wl = snprintf(want, sizeof want, "%d", v);
    vp_log("itoa8(%s)", want);
    uint32_t n = itoa8(v, (char *)buf + 8);
    VP_CHECK(n == (uint32_t)wl, "itoa8-length", "itoa8(%s) returned length %u", want, n);
    VP_CHECK(!memcmp(buf + 8, want, (size_t)wl + 1), "itoa8-text", "itoa8(%s) wrote \"%.20s\"", want, (char *)buf + 8);
    out_check(buf + 8, 10, sizeof buf - 8, "itoa8");
    VP_CHECK(buf[7] == 0x5C, "out-overrun", "itoa8 wrote before its buffer");
    vp_count("itoa8", 1); vp_sig(vp_hash(2, (uint64_t)(uint32_t)v));
}
static void t_utoap(vp_rng *r) {
    char want[48]; unsigned char buf[80]; int N = (int)vp_below(r, 21); uint64_t v = gen_u64(r);
    static const uint64_t lim[20] = {1ull,10ull,100ull,1000ull,10000ull,100000ull,1000000ull,10000000ull,100000000ull,1000000000ull,
        10000000000ull,100000000000ull,1000000000000ull,10000000000000ull,100000000000000ull,1000000000000000ull,
        10000000000000000ull,100000000000000000ull,1000000000000000000ull,10000000000000000000ull};
    if (N < 20) v %= lim[N];
    if (N == 0) { want[0] = 0; } else snprintf(want, sizeof want, "%0*" PRIu64, N, v);
    memset(buf, 0x5C, sizeof buf);
    vp_log("utoap(%d, %" PRIu64 ")", N, v);
    char *p = utoap(N, v, (char *)buf + 8);
    VP_CHECK(p == (char *)buf + 8, "utoap-return", "utoap returned another pointer");
    VP_CHECK(!memcmp(p, want, (size_t)N + 1), "utoap-text", "utoap(%d, %" PRIu64 ") wrote \"%.24s\"", N, v, p);
    size_t room = (size_t)((N + 7) / 8 * 8); if (room < (size_t)N + 1) room = (size_t)N + 1; if (room < 9) room = 9;
    out_check(buf + 8, room, sizeof buf - 8, "utoap");
    VP_CHECK(buf[7] == 0x5C, "out-overrun", "utoap wrote before its buffer");
    if (N) { char *q = gen_place(r, A, sizeof A, want, (size_t)N, DIG); uint64_t b = simd_atou(q, (uint32_t)N);
        VP_CHECK(b == v, "utoap-atou-roundtrip", "simd_atou(\"%s\") = %" PRIu64, want, b); }
    vp_count("utoap", 1); vp_sig(vp_hash(3, (uint64_t)N) ^ v);
}
static void t_2p(vp_rng *r) {
    unsigned x; unsigned char b[8]; (void)r;
    for (x = 0; x < 100; x++) {
        char w[4]; uint16_t t; snprintf(w, sizeof w, "%02u", x);
        t = utoa2p(x); VP_CHECK(!memcmp(&t, w, 2), "utoa2p", "utoa2p(%u) = 0x%04x", x, t);
        memset(b, 0x5C, sizeof b); utoa2p_ex(x, (char *)b + 2);
        VP_CHECK(!memcmp(b + 2, w, 2), "utoa2p_ex", "utoa2p_ex(%u)", x);
        out_check(b + 2, 2, 6, "utoa2p_ex"); VP_CHECK(b[1] == 0x5C, "out-overrun", "utoa2p_ex wrote before its buffer");
    }
    vp_log("utoa2p, utoa2p_ex over 0..99"); vp_count("utoa2p", 100);
}
static void t_atou(vp_rng *r) {
    char t[32]; int n; uint64_t v = gen_u64(r);
    int zeros = vp_chance(r, 1, 3) ? (int)vp_below(r, 20) : 0;
    n = snprintf(t, sizeof t, "%" PRIu64, v);
    if (zeros > n) n = snprintf(t, sizeof t, "%0*" PRIu64, zeros, v);
    if (vp_chance(r, 1, 40)) { n = 0; v = 0; }
    char *p = gen_place(r, A, sizeof A, t, (size_t)n, DIG);
    vp_log("simd_atou(\"%.*s\", %d)", n, t, n);
    uint64_t g = simd_atou(p, (uint32_t)n);
    VP_CHECK(g == v, "atou", "simd_atou(\"%.*s\", %d) = %" PRIu64, n, t, n, g);
    if (n <= 8) { uint32_t h = atou8(p, (uint32_t)n); VP_CHECK(h == v, "atou8", "atou8(\"%.*s\", %d) = %u", n, t, n, h); vp_count("atou8", 1); }
    vp_count("atou", 1); vp_sig(vp_hash(4, (uint64_t)n) ^ (v * 31));
}
static void t_atoi(vp_rng *r) {
    char t[40]; int n; int64_t v = (int64_t)gen_u64(r); int zeros = vp_chance(r, 1, 3) ? (int)vp_below(r, 19) : 0;
    uint64_t m;
    if (vp_chance(r, 1, 2)) v = (int64_t)(0 - (uint64_t)v);
    if (vp_chance(r, 1, 50)) v = INT64_MIN;
    m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
    n = snprintf(t, sizeof t, "%s%0*" PRIu64, v < 0 ? "-" : vp_chance(r, 1, 3) ? "+" : "", zeros, m);
    if (n > 20) return;
    if (vp_chance(r, 1, 60)) { n = 0; v = 0; }
    char *p = gen_place(r, A, sizeof A, t, (size_t)n, DIG);
    vp_log("simd_atoi(\"%.*s\", %d)", n, t, n);
    int64_t g = simd_atoi(p, (uint32_t)n);
    VP_CHECK(g == v, "atoi", "simd_atoi(\"%.*s\", %d) = %" PRId64, n, t, n, g);
    vp_count("atoi", 1); vp_sig(vp_hash(5, (uint64_t)n) ^ ((uint64_t)v * 31));
}
static void t_htou(vp_rng *r) {
    char t[40]; int n, i; uint64_t v = gen_u64(r); int zeros = vp_chance(r, 1, 3) ? (int)vp_below(r, 17) : 0;
    n = snprintf(t, sizeof t, "%0*" PRIx64, zeros, v);
    for (i = 0; i < n; i++) if (vp_chance(r, 1, 2) && t[i] >= 'a') t[i] = (char)(t[i] - 32);
    if (vp_chance(r, 1, 40)) { n = 0; v = 0; }
    char *p = gen_place(r, A, sizeof A, t, (size_t)n, "0123456789abcdefABCDEFg@");
    vp_log("simd_htou(\"%.*s\", %d)", n, t, n);
    uint64_t g = simd_htou(p, (uint32_t)n);
    VP_CHECK(g == v, "htou", "simd_htou(\"%.*s\", %d) = 0x%" PRIx64, n, t, n, g);
    if (n <= 8) { uint32_t h = htou8(p, (uint32_t)n); VP_CHECK(h == v, "htou8", "htou8(\"%.*s\", %d) = 0x%x", n, t, n, h); vp_count("htou8", 1); }
    vp_count("htou", 1); vp_sig(vp_hash(6, (uint64_t)n) ^ (v * 37));
}
static void t_atod(vp_rng *r) {
    char t[120]; int n = 0, i, in = (int)vp_below(r, 19), dn = (int)vp_below(r, 20), dot;
    int dotonly;
    if (vp_chance(r, 1, 3)) in = (int)vp_below(r, 3);
    if (vp_chance(r, 1, 3)) dn = (int)vp_below(r, 4);
    if (vp_chance(r, 1, 6)) { dn = 18 + (int)vp_below(r, 50); vp_count("atod_long_fractions", 1); }
    if (vp_chance(r, 1, 2)) t[n++] = vp_chance(r, 3, 4) ? '-' : '+';
    for (i = 0; i < in; i++) t[n++] = vp_chance(r, 1, 4) ? '0' : (char)('0' + vp_below(r, 10));
    dot = vp_chance(r, 5, 6);
    dotonly = dot && (in + dn == 0);
    if (dot) { t[n++] = '.'; for (i = 0; i < dn; i++) t[n++] = vp_chance(r, 1, 3) ? (vp_chance(r, 1, 2) ? '0' : '9') : (char)('0' + vp_below(r, 10)); }
    if (!in && (!dot || !dn || dotonly)) return;
    t[n] = 0;
    char *p = gen_place(r, A, sizeof A, t, (size_t)n, DIG);
    double w = strtod(t, NULL);
    vp_log("simd_atod(\"%s\", %d)", t, n);
    double g = simd_atod(p, (uint32_t)n);
    double tol = fabs(w) * 4.0 * 1.1102230246251565e-16;
    if (dn > 19) tol += 1e-19; /* decimals after the nineteenth are documented to be ignored */
    VP_CHECK(fabs(g - w) <= tol, "atod", "simd_atod(\"%s\") = %.20g, expected %.20g", t, g, w);
    VP_CHECK(fabs(w) < 1e-18 || signbit(g) == signbit(w), "atod-sign", "simd_atod(\"%s\") = %.20g", t, g);
    vp_count("atod", 1); vp_sig(vp_hash_bytes(7, t, (size_t)n));
}
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 15); int i;
    vp_log("case %llu", (unsigned long long)idx);
    t_2p(&r);
    for (i = 0; i < ROUNDS; i++) switch (vp_below(&r, 7)) {
        case 0: t_itoa(&r); break;
        case 1: t_itoa8(&r); break;
        case 2: t_utoap(&r); break;
        case 3: t_atou(&r); break;
        case 4: t_atoi(&r); break;
        case 5: t_htou(&r); break;
        default: t_atod(&r); break;
    }
}
