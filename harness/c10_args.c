/* C10: argument containers against the list of values put in. */
#include <stdarg.h>
#include "raii.h"
#include "gen.h"
const vp_config_t vp_cfg = { "C10", 32, 10, 0 };
#define MAXA 40
#define MAXL 70000
typedef struct { char l; uint64_t v; double f; char *s; size_t len; uint64_t sh; } item;
typedef struct { args_t a; item *it; int cap, n; memory_t *ctx; int owned, gone; uint64_t serial, inner; void *innerp; } box;
static unique_t *S[2]; static box X[8]; static int nx; static char *pool[24]; static size_t poollen[24];
static int fn_a(int a) { return a + 1; }
static int fn_b(int a) { return a + 2; }
static const char LET[] = "iudlzcsaxfp";
static uint64_t dbl(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static void pick(vp_rng *r, item *q) {
    q->l = LET[vp_below(r, 11)]; q->v = gen_u64(r); q->f = 0; q->s = 0;
    switch (q->l) {
        case 'c': q->v = vp_below(r, 256); break;
        case 's': { int k = (int)vp_below(r, 24); q->s = pool[k]; q->len = poollen[k]; q->sh = vp_hash_bytes(7, q->s, q->len + 1); q->v = (uint64_t)(uintptr_t)q->s; break; }
        case 'x': q->v = (uint64_t)(uintptr_t)(vp_chance(r, 1, 2) ? fn_a : fn_b); break;
        case 'a': q->v = (uint64_t)(uintptr_t)(vp_chance(r, 1, 8) ? NULL : (void *)pool); break;
        case 'p': q->v = vp_chance(r, 1, 8) ? 0 : vp_chance(r, 1, 2) ? (uint64_t)(uintptr_t)q : vp_next(r); break;     /* any pointer value, never dereferenced */
        case 'f': { static const double d[] = { 0.0, -0.0, 1.5, -1e300, 1e-310, 3.14159, 1.0 / 0.0 }; q->f = vp_chance(r, 1, 2) ? d[vp_below(r, 7)] : (double)(int64_t)vp_next(r) / 1024; break; }
        default: break;
    }
}
static args_t make_v(memory_t *scope, const char *desc, box *b) {      /* any mix and number, through raii_args_ex */
    static uint64_t area[MAXL + 2]; va_list ap; int i;
    for (i = 0; i < b->n; i++) area[i] = b->it[i].l == 'f' ? dbl(b->it[i].f) : b->it[i].v;
    ap[0].gp_offset = 48; ap[0].fp_offset = 176; ap[0].overflow_arg_area = area; ap[0].reg_save_area = NULL;
    return raii_args_ex(scope, desc, ap);
}
static args_t make_c(memory_t *scope, const char *desc, box *b, int ex) {
    uint64_t I[16] = { 0 }; double D[8] = { 0 }; int i, ni = 0, nd = 0;
    for (i = 0; i < b->n; i++) if (b->it[i].l == 'f') D[nd++] = b->it[i].f; else I[ni++] = b->it[i].v;
#define ALL I[0], I[1], I[2], I[3], I[4], I[5], I[6], I[7], I[8], I[9], I[10], I[11], I[12], I[13], I[14], I[15], D[0], D[1], D[2], D[3], D[4], D[5], D[6], D[7]
    return ex ? raii_args_for(scope, desc, ALL) : args_for(desc, ALL);
}
static void check_item(box *b, int i, values_type v, const char *how) {
    item *q = &b->it[i]; uint64_t got = 0, want = q->v;
    switch (q->l) {
        case 'i': got = (uint64_t)(int64_t)v.integer; want = (uint64_t)(int64_t)(int32_t)q->v; break;
        case 'u': got = v.u_int; want = (uint32_t)q->v; break;
        case 'd': got = (uint64_t)v.long_long; break;
        case 'l': got = (uint64_t)v.s_long; break;
        case 'z': got = v.max_size; break;
        case 'c': got = (unsigned char)v.schar; break;
        case 's': VP_CHECK(v.char_ptr != NULL, "value", "item %d (s) read by %s is null", i, how);
            VP_CHECK(strlen(v.char_ptr) == q->len && vp_hash_bytes(7, v.char_ptr, q->len + 1) == q->sh, "value", "item %d of %d, a text of %zu characters, read by %s differs", i, b->n, q->len, how); vp_count("item_s", 1); return;
        case 'a': got = (uint64_t)(uintptr_t)v.array; break;
        case 'x': got = (uint64_t)(uintptr_t)v.func; VP_CHECK(got != want || ((int (*)(int))v.func)(4) == ((int (*)(int))(uintptr_t)want)(4), "value", "function"); break;
        case 'f': got = dbl(v.precision); want = dbl(q->f); break;
        case 'p': got = (uint64_t)(uintptr_t)v.object; break;
    }
    VP_CHECK(got == want, "value", "item %d of %d (%c) read by %s is %#llx instead of %#llx", i, b->n, q->l, how, (unsigned long long)got, (unsigned long long)want);
    vp_count(q->l == 'f' ? "item_f" : q->l == 'c' ? "item_c" : "item_word", 1);
}
static int live(box *b) { return b->serial && vp_block_serial(b->a) == b->serial; }
static int live_in(box *b) { return b->inner ? vp_block_serial(b->innerp) == b->inner : live(b); }
static void make(vp_rng *r, memory_t *guardscope) {
    box *b = &X[nx]; static char desc[MAXL + 1]; int i, how, nf = 0, no = 0; memory_t *sc = NULL; size_t before = vp_live();
    item *it = b->it; int cap = b->cap; memset(b, 0, sizeof *b); b->n = vp_chance(r, 1, 4) ? (int)vp_below(r, MAXA) + 1 : 1 + (int)vp_below(r, 8);
    if (vp_chance(r, 1, 300)) { b->n = vp_chance(r, 3, 4) ? 200 + (int)vp_below(r, 1000) : vp_chance(r, 3, 4) ? 1000 + (int)vp_below(r, 20000) : 65000 + (int)vp_below(r, 4000); vp_count("large_containers", 1); vp_max("largest_container", (uint64_t)b->n); }
    if (vp_chance(r, 1, 30)) { b->n = 0; vp_count("empty_containers", 1); }
    if (cap < b->n) { cap = b->n; it = realloc(it, (size_t)cap * sizeof *it); } b->it = it; b->cap = cap;
    for (i = 0; i < b->n; i++) { pick(r, &b->it[i]); desc[i] = b->it[i].l; if (desc[i] == 'f') nf++; else no++; } desc[b->n] = 0;
    if (guardscope && vp_chance(r, 2, 3)) sc = guardscope; else if (vp_chance(r, 2, 3)) { sc = S[vp_below(r, 2)]; if (vp_chance(r, 1, 6)) sc = raii_init(); }
    how = (int)vp_below(r, 3); if (nf > 8 || no > 16) how = 0;
    if (how == 2) sc = NULL;
    vp_log("container %d: \"%.80s\" %s scope %s", nx, desc, how == 0 ? "raii_args_ex" : how == 1 ? "raii_args_for" : "args_for", sc == NULL ? "none" : sc == S[0] ? "S0" : sc == S[1] ? "S1" : sc == guardscope ? "guard" : "default");
    b->a = how == 0 ? make_v(sc, desc, b) : make_c(sc, desc, b, how == 1);
    b->ctx = sc;
    VP_CHECK(b->a != NULL, "null", "no container");
    VP_CHECK(vp_is_live(b->a), "block", "the container is not a live block");
    b->serial = vp_block_serial(b->a); b->innerp = b->a->args; b->inner = vp_block_serial(b->innerp);
    if (b->n) VP_CHECK(vp_in_live(b->a->args, sizeof(raii_values_t) * (size_t)b->n), "block", "the items do not lie in a live block");
    VP_CHECK(vp_live() > before, "block", "no block was requested");
    vp_ledger_check(); vp_count("containers", 1); vp_sig(vp_hash(vp_hash_bytes(5, desc, (size_t)b->n), (uint64_t)how));
    nx++;
}
static void read_one(vp_rng *r, box *b, memory_t *guardscope) {
    if (!b->n) return;
    int i = (int)vp_below(r, (uint32_t)b->n), how = (int)vp_below(r, 3); memory_t *sc = NULL;
    VP_CHECK(live(b) && live_in(b), "early-free", "a container of %d items was freed before its scope ended", b->n);
    if (how == 0) { check_item(b, i, args_in(b->a, (size_t)i), "args_in"); return; }
    if (how == 2) { sc = vp_chance(r, 1, 2) ? NULL : guardscope && vp_chance(r, 1, 2) ? guardscope : S[vp_below(r, 2)]; }
    if (!b->owned) { b->owned = 1; b->ctx = sc ? sc : b->ctx ? b->ctx : raii_init(); vp_count("bound_by_read", 1); }
    check_item(b, i, how == 1 ? get_args(b->a, i) : raii_get_args(sc, b->a, i), how == 1 ? "get_args" : "raii_get_args");
}
static void ended(memory_t *s) {     /* the scope has just ended */
    int i; for (i = 0; i < nx; i++) { box *b = &X[i]; if (b->gone) continue;
        if (b->owned && b->ctx == s) { VP_CHECK(!live(b), "not-freed", "a container bound to the ended scope is still there"); VP_CHECK(!live_in(b), "not-freed", "the items of a container bound to the ended scope are still there"); b->gone = 1; vp_count("freed_by_scope", 1); }
        else VP_CHECK(live(b) && live_in(b), "early-free", "a container bound elsewhere was freed"); }
}
static void step(vp_rng *r, memory_t *gs) {
    int k = (int)vp_below(r, 12), i;
    if (k < 3 && nx < 8) make(r, gs);
    else if (k < 10 && nx) { box *b = &X[vp_below(r, (uint32_t)nx)]; int n = 1 + (int)vp_below(r, 6); if (!b->gone) while (n--) read_one(r, b, gs); }
    else if (k == 10 && nx) { box *b = &X[vp_below(r, (uint32_t)nx)]; if (!b->gone && !b->owned) { args_free(b->a); VP_CHECK(!live(b) && !live_in(b), "not-freed", "args_free left the container"); b->gone = 1; vp_count("freed_explicitly", 1); } }
    else if (nx) { box *b = &X[vp_below(r, (uint32_t)nx)]; if (!b->gone) { for (i = 0; i < b->n; i++) check_item(b, i, args_in(b->a, (size_t)i), "args_in"); vp_count("read_whole", 1); } }
}
static void in_guard(vp_rng *r, int panic) {
    static memory_t *gs; 
    guard {
        int n = 2 + (int)vp_below(r, 8); gs = _$__FUNCTION__;
        while (n--) step(r, gs);
        for (n = 0; n < nx; n++) if (!X[n].gone && !X[n].owned && X[n].ctx == gs) {
            if (vp_chance(r, 1, 4) || !X[n].n) { args_free(X[n].a); VP_CHECK(!live(&X[n]), "not-freed", "args_free left the container"); X[n].gone = 1; }
            else check_item(&X[n], 0, get_args(X[n].a, 0), "get_args"), X[n].owned = 1;
        }
        if (panic) raii_panic("out");
    } guarded;
    ended(gs);
}
static void guard_case(vp_rng *r) {
    volatile int panic = vp_chance(r, 1, 2), seen = 0;
    ex_try { in_guard(r, panic); } ex_catch_any { seen = 1; } ex_end_try;
    VP_CHECK(seen == panic, "flow", "a guard with containers ended %s", seen ? "by an exception" : "normally");
    if (panic) { int i; for (i = 0; i < nx; i++) if (!X[i].gone) { box *b = &X[i]; if (b->owned && !live(b)) { VP_CHECK(b->ctx != S[0] && b->ctx != S[1] && b->ctx != raii_init(), "early-free", "a panic freed a container of another scope"); VP_CHECK(!live_in(b), "not-freed", "items"); b->gone = 1; vp_count("freed_by_panic", 1); } else VP_CHECK(live(b) && live_in(b) && (!b->owned || b->ctx == S[0] || b->ctx == S[1] || b->ctx == raii_init()), "not-freed", "a panic left a container of its guard"); } }
    vp_count("guards", 1);
}
void vp_child_init(void) { size_t i; for (i = 0; i < 24; i++) { size_t k, n = i < 3 ? i : i < 12 ? 5 * i : i == 12 ? 271 : i == 13 ? 272 : i == 14 ? 273 : i == 15 ? 255 : i == 16 ? 256 : 257 + i * i * 40; pool[i] = malloc(n + 1); poollen[i] = n; for (k = 0; k < n; k++) pool[i][k] = (char)('a' + (k * 7 + i) % 26); pool[i][n] = 0; } }
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 10); int i, n; size_t live0; memory_t *d; uint64_t h = 1, h2 = 1;
    d = raii_init(); raii_deferred_clean(); live0 = vp_live();
    nx = 0; S[0] = unique_init(); S[1] = unique_init();
    for (i = 0; i < 24; i++) h = vp_hash(h, vp_hash_bytes(3, pool[i], poollen[i] + 1));
    n = 4 + (int)vp_below(&r, 14);
    while (n--) step(&r, NULL);
    if (vp_chance(&r, 1, 3)) guard_case(&r);
    n = (int)vp_below(&r, 5); while (n--) step(&r, NULL);
    /* the scopes end in any order; what was never read by a releasing accessor is freed by hand */
    for (i = 0; i < nx; i++) if (!X[i].gone && !X[i].owned) { if (vp_chance(&r, 1, 2) || !X[i].n) { args_free(X[i].a); VP_CHECK(!live(&X[i]) && !live_in(&X[i]), "not-freed", "args_free left the container"); X[i].gone = 1; vp_count("freed_explicitly", 1); } else while (!X[i].owned) read_one(&r, &X[i], NULL); }
    for (i = 0; i < 3; i++) { int k = (i + (int)(idx % 3)) % 3; if (k == 2) { raii_deferred_clean(); vp_log("default scope ends"); ended(d); } else { memory_t *s = S[k]; raii_delete(s); vp_log("S%d ends", k); ended(s); } }
    for (i = 0; i < nx; i++) VP_CHECK(X[i].gone, "not-freed", "a container outlived every scope");
    for (i = 0; i < 24; i++) h2 = vp_hash(h2, vp_hash_bytes(3, pool[i], poollen[i] + 1));
    VP_CHECK(h == h2, "input-changed", "a text given as an argument was changed");
    VP_CHECK(vp_live() == live0, "leak", "%ld blocks remain", (long)(vp_live() - live0));
    vp_ledger_check();
}
