/* C18: base64 against a reference encoder/decoder. */
#include "raii.h"
#include "gen.h"
const vp_config_t vp_cfg = { "C18", 32, 8, 0 };
static const char AB[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t ref_enc(const unsigned char *s, size_t n, char *o) {
    size_t i, k = 0; 
    for (i = 0; i < n; i += 3) {
        unsigned v = s[i] << 16 | (i + 1 < n ? s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
        o[k++] = AB[v >> 18]; o[k++] = AB[(v >> 12) & 63]; o[k++] = i + 1 < n ? AB[(v >> 6) & 63] : '='; o[k++] = i + 2 < n ? AB[v & 63] : '=';
    }
    o[k] = 0; return k;
}
static int in_alpha(unsigned char c) { return c && (strchr(AB, c) != NULL || c == '='); }
static memory_t *scope; static int kind;
static u_string enc(unsigned char *s) { return kind ? raii_encode64(s) : str_encode64_ex(scope, s); }
static u_string dec(unsigned char *s) { return kind ? raii_decode64(s) : str_decode64_ex(scope, s); }
static size_t rl(vp_rng *r) { switch (vp_below(r, 3)) { case 0: return vp_below(r, 10); case 1: return vp_below(r, 100); default: return vp_chance(r, 1, 10) ? vp_below(r, 3000) : vp_below(r, 300); } }
static unsigned char S[4000], B[20000]; static char E[8000];

static void t_encode(vp_rng *r) {
    size_t n = rl(r), i, k; unsigned char keep[4000]; u_string e, d;
    for (i = 0; i < n; i++) { S[i] = (unsigned char)vp_next(r); if (vp_chance(r, 1, 6)) S[i] = 0xff - (unsigned char)vp_below(r, 3); if (!S[i]) S[i] = 0x80; }
    S[n] = 0; memcpy(keep, S, n + 1);
    k = ref_enc(S, n, E);
    vp_log("encode %zu bytes -> \"%.40s\" (kind %d)", n, E, kind);
    e = enc(S);
    VP_CHECK(e && !strcmp((char *)e, E), "encode", "encode of %zu bytes gave \"%.60s\", expected \"%.60s\"", n, e ? (char *)e : "NULL", E);
    VP_CHECK(!memcmp(S, keep, n + 1), "input-changed", "encode changed its input");
    VP_CHECK(vp_is_live(e) && vp_block_size(e) >= k + 1, "encode-block", "result of encode is not a live block of at least %zu bytes", k + 1);
    vp_ledger_check();
    if (n) {
        d = dec(e);
        VP_CHECK(d && !memcmp(d, S, n + 1), "roundtrip", "decode(encode(x)) differs for %zu bytes", n);
        VP_CHECK(vp_is_live(d) && vp_block_size(d) >= n + 1, "decode-block", "result of decode is not a live block of at least %zu bytes", n + 1);
        vp_ledger_check();
    } else { d = dec(e); VP_CHECK(d == NULL, "decode-empty", "decode of the empty text was not refused"); }
    VP_CHECK(is_base64(e), "is_base64", "the encoding is not recognised as base64");
    vp_count("encode", 1); vp_sig(vp_hash(1, n) ^ vp_hash_bytes(1, S, n));
}
static void t_decode(vp_rng *r) {
    size_t n = 1 + rl(r), i, k, j = 0; u_string d; int junk = vp_chance(r, 1, 2); unsigned char keep[20000];
    for (i = 0; i < n; i++) S[i] = (unsigned char)(vp_chance(r, 1, 8) ? 0 : vp_next(r));
    k = ref_enc(S, n, E);
    for (i = 0; i < k; i++) {
        while (junk && vp_chance(r, 1, 4)) { unsigned char c = (unsigned char)vp_next(r); if (vp_chance(r, 1, 2)) c = (unsigned char)"\r\n \t-_,."[vp_below(r, 8)]; if (c && !in_alpha(c)) B[j++] = c; if (j > 15000) break; }
        B[j++] = (unsigned char)E[i];
    }
    while (junk && vp_chance(r, 1, 3)) B[j++] = '\n';
    B[j] = 0; memcpy(keep, B, j + 1);
    vp_log("decode text of %zu characters (%zu of the alphabet) to %zu bytes (kind %d)", j, k, n, kind);
    d = dec(B);
    VP_CHECK(d && !memcmp(d, S, n), "decode", "decode to %zu bytes differs", n);
    VP_CHECK(d[n] == 0, "decode-end", "decode is not terminated after %zu bytes", n);
    VP_CHECK(!memcmp(keep, B, j + 1), "input-changed", "decode changed its input");
    VP_CHECK(vp_is_live(d) && vp_block_size(d) >= n + 1, "decode-block", "result of decode is not a live block of at least %zu bytes", n + 1);
    vp_ledger_check();
    vp_count("decode", 1); vp_count("decode_with_junk", (uint64_t)junk); vp_sig(vp_hash(2, n) ^ vp_hash_bytes(2, B, j));
}
static void t_refuse(vp_rng *r) {
    size_t n = vp_below(r, 60), i, j = 0, cnt = 0; u_string d; 
    if (n % 4 == 0) n += 1 + vp_below(r, 3);
    for (i = 0; i < n; i++) { if (vp_chance(r, 1, 5)) B[j++] = "-_ \n!"[vp_below(r, 5)]; B[j++] = (unsigned char)AB[vp_below(r, 64)]; cnt++; }
    if (vp_chance(r, 1, 10)) { j = 0; cnt = 0; while (vp_chance(r, 3, 4)) B[j++] = '*'; }
    B[j] = 0;
    vp_log("refuse text with %zu characters of the alphabet", cnt);
    d = dec(B);
    VP_CHECK(d == NULL, "refuse", "decode accepted %zu characters", cnt);
    vp_count("refused", 1); vp_sig(vp_hash(3, cnt * 100 + j));
}
/* what follows the padding: decoding ends there, or is refused */
static void t_after_padding(vp_rng *r) {
    size_t n = 1 + vp_below(r, 200), i, k, j, m = 4 * (1 + vp_below(r, 20)), pad; u_string d;
    if (n % 3 == 0) n++;
    for (i = 0; i < n; i++) S[i] = (unsigned char)vp_next(r);
    k = ref_enc(S, n, E); memcpy(B, E, k); j = k;
    if (vp_chance(r, 1, 2)) for (i = 0; i < m; i++) B[j++] = (unsigned char)AB[vp_below(r, 64)];
    else { j += ref_enc((unsigned char *)"and more", 1 + vp_below(r, 8), (char *)B + k); }
    pad = 0;
    if (vp_chance(r, 1, 3)) { pad = 3 + vp_below(r, 2); for (i = 0; i < pad; i++) B[k - 1 - i] = '='; }
    B[j] = 0;
    vp_log("decode an encoding of %zu bytes%s with %zu more characters after it (kind %d)", n, pad ? " with too much padding" : "", j - k, kind);
    d = dec(B);
    if (pad) VP_CHECK(d == NULL, "refuse-padding", "decode accepted a group with %zu padding characters", pad);
    else {
        VP_CHECK(d && !memcmp(d, S, n) && d[n] == 0, "decode-after-padding", "decode of %zu bytes, padded and followed by %zu more characters, differs", n, j - k);
        VP_CHECK(vp_is_live(d) && vp_block_size(d) >= n + 1, "decode-block", "result of decode is not a live block of at least %zu bytes", n + 1);
    }
    vp_ledger_check(); vp_count(pad ? "padding_refused" : "decode_after_padding", 1); vp_sig(vp_hash(6, n * 400 + j * 5 + pad));
}
static void t_valid(vp_rng *r) {
    size_t n = vp_below(r, 80), i; int want = 1; 
    for (i = 0; i < n; i++) B[i] = (unsigned char)(vp_chance(r, 1, 20) ? '=' : AB[vp_below(r, 64)]);
    B[n] = 0;
    if (n && vp_chance(r, 2, 3)) { unsigned char c = (unsigned char)vp_next(r); if (!c) c = 0x80; if (vp_chance(r, 1, 3)) c = (unsigned char)"-_,.@[`{:<>?"[vp_below(r, 12)]; B[vp_chance(r, 1, 3) ? n - 1 : vp_below(r, (uint32_t)n)] = c; }
    for (i = 0; i < n; i++) if (!in_alpha(B[i])) want = 0;
    vp_log("is_base64 of %zu characters: %d", n, want);
    VP_CHECK(is_base64(B) == want, "is_base64", "is_base64(\"%.90s\") is not %d", B, want);
    vp_count("is_base64", 1); vp_sig(vp_hash(4, n) ^ vp_hash_bytes(4, B, n));
}
static void t_big(vp_rng *r) {
    static const size_t LIM[] = { 70000, 300000, 1300000, 18000000 }; size_t n = LIM[vp_chance(r, 1, 4) ? 3 : vp_below(r, 3)], i, j, k; unsigned char *s, *t; char *x; u_string e, d; uint64_t z = vp_next(r); int junk = vp_chance(r, 1, 2);
    n -= vp_below(r, (uint32_t)(n / 10)); s = malloc(n + 1); x = malloc(n / 3 * 4 + 16); t = malloc(n * 2 + 100);
    for (i = 0; i < n; i++) { z = z * 6364136223846793005ull + 1442695040888963407ull; s[i] = (unsigned char)(z >> 56); if (!s[i]) s[i] = 0x80; } s[n] = 0;
    vp_log("large: %zu bytes%s (kind %d)", n, junk ? ", with other characters" : "", kind);
    k = ref_enc(s, n, x); e = enc(s); vp_beat();
    VP_CHECK(e && strlen((char *)e) == k && !memcmp(e, x, k + 1), "encode", "encode of %zu bytes differs", n);
    VP_CHECK(vp_is_live(e) && vp_block_size(e) >= k + 1, "encode-block", "result of encode is not a live block of at least %zu bytes", k + 1);
    VP_CHECK(is_base64(e), "is_base64", "the encoding of %zu bytes is not recognised as base64", n);
    for (i = j = 0; i < k; i++) { t[j++] = (unsigned char)x[i]; if (junk && i % 76 == 75) t[j++] = '\n'; } t[j] = 0;
    d = dec(t); vp_beat();
    VP_CHECK(d && !memcmp(d, s, n + 1), "roundtrip", "decode(encode(x)) differs for %zu bytes", n);
    VP_CHECK(vp_is_live(d) && vp_block_size(d) >= n + 1, "decode-block", "result of decode is not a live block of at least %zu bytes", n + 1);
    if (!junk) { t[k - 5] = '*'; VP_CHECK(!is_base64(t), "is_base64", "a text of %zu characters with a foreign one is taken for base64", k); t[k - 5] = (unsigned char)x[k - 5]; t[k - 1] = 0; VP_CHECK(dec(t) == NULL, "refuse", "decode accepted %zu characters", k - 1); }
    vp_ledger_check(); free(s); free(x); free(t); vp_count("large", 1); vp_max("longest", n); vp_sig(vp_hash(5, n)); vp_beat();
}
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 18); int i, n = 1 + (int)vp_below(&r, 16); size_t live0 = vp_live();
    kind = (int)vp_below(&r, 2); vp_log("case %llu", (unsigned long long)idx);
    if (!kind) scope = unique_init();
    if (idx % 2048 == 33) t_big(&r);
    for (i = 0; i < n; i++) switch (vp_below(&r, 5)) { case 4: t_after_padding(&r); break; case 0: t_encode(&r); break; case 1: t_decode(&r); break; case 2: t_refuse(&r); break; default: t_valid(&r); }
    if (kind) { if (raii_local()) raii_deferred_clean(); } else raii_delete(scope);
    if (vp_live() != live0) { vp_ledger_dump(); vp_fail("leak", "%zu blocks remain after the scope ended (kind %d)", vp_live() - live0, kind); }
    vp_count("scopes_ended", 1);
}
