/* C22: the whole documented interface mixed freely: random programs (prog.h) whose foreign statements use everything else,
   on one or several threads. The oracle is the instrumentation: AddressSanitizer, UndefinedBehaviorSanitizer, valgrind
   memcheck, and the canaries of the ledger. What is checked here besides is that memory handed out keeps its contents. */
#include "prog.h"
#include "gen.h"
#include <ctype.h>
#include "catomic.h"
#include "swar.h"
#include <setjmp.h>
const vp_config_t vp_cfg = { "C22", 8, 40, 0 };
#ifdef VP_CONFIG_vg
#define VP_NO_LEDGER 1
#endif
extern void vp_noise(void); extern unsigned vp_noise_seed;
static const prog_cfg base = { .w = { [N_MARK] = 3, [N_THROW] = 7, [N_TRY] = 12, [N_GUARD] = 14, [N_DEFER] = 12, [N_ALLOC] = 10, [N_UNEW] = 6, [N_UDEL] = 5, [N_CLEAN] = 3,
    [N_CANCEL] = 3, [N_FIRE] = 3, [N_PROTECT] = 6, [N_CALL] = 5, [N_HOOK] = 20 }, .max_depth = 5, .max_stmts = 6, .max_nodes = 220, .throw_in_act = 15, .custom_free = 40, .recover = 35 };
enum { H_FUTURE, H_SPAWN, H_ARENA, H_TEXT, H_CODE, H_ARGS, H_NUM, H_BYTES, H_TLS, H_ATOMIC, H_KIND, H_EXC, H_SCOPE, H_GUARD, H_BLOCK, H_TRY, H_PROT, H_DEEP, H_N };
static const char *const HN[H_N] = { "futures", "thread_scopes", "arenas", "texts", "codes", "containers", "conversions", "searches", "thread_locals", "atomics", "predicates", "exceptions", "scopes", "guards", "blocks", "try_requests", "protections", "deep_calls" };
static atomic_size_t done[H_N];
thrd_static(ex_context_t, spare, NULL)
typedef struct { int v; char pad[40]; double d; } local_t;
thrd_local(local_t, mine, NULL)
thrd_local_plain(int, plain, 0)

static __thread vp_rng *R; static __thread int level, on_main;
#define RB(k) ((int)vp_below(R, (uint32_t)(k)))
static void use(int kind);
static void fillp(char *p, size_t n, int k) { size_t i; for (i = 0; i < n; i++) p[i] = (char)(k + (int)i * 3); }
static void holds(const char *p, size_t n, int k, const char *what) { size_t i; for (i = 0; i < n; i++) if (p[i] != (char)(k + (int)i * 3)) vp_fail("contents", "byte %zu of %zu of %s changed", i, n, what); }
static size_t rsize(void) { switch (RB(5)) { case 0: return (size_t)(1 + RB(8)); case 1: return (size_t)(1 + RB(64)); case 2: return (size_t)(8 * (1 + RB(40))); case 3: return (size_t)(1 + RB(1000)); default: return (size_t)(1 + RB(RB(8) ? 5000 : 70000)); } }
/* a text on the heap, exactly as long as it needs to be (the terminator is the last byte of the block) */
static char *text(int n, int mode) { char *p = malloc((size_t)n + 1); int i; for (i = 0; i < n; i++) p[i] = mode == 0 ? (char)('a' + RB(3)) : mode == 1 ? (char)(33 + RB(94)) : (char)(1 + RB(255)); p[n] = 0; return p; }
static unsigned long eat; static void eat_bytes(const void *p, size_t n) { size_t i; volatile unsigned long s = 0; for (i = 0; i < n; i++) s += ((const unsigned char *)p)[i]; if (s == 1) __atomic_add_fetch(&eat, 1, __ATOMIC_RELAXED); }

/* ---- scopes: a smart pointer, the scope of an arena, a guard, the default scope of a worker */
typedef struct { char *p; size_t n; int k; } blk;
static void first_byte(void *p) { eat_bytes(p, 1); }
static void count_up(void *p) { ++*(int *)p; }
static void sums(void *p) { blk *b = p; holds(b->p, b->n, b->k, "a block that a deferred function uses"); }
static void free_text(void *p) { eat_bytes(p, 1); RAII_FREE(p); }
static void fill_scope(memory_t *m, int n, int arena, blk *b, int *ran, int *want) {
    int i; size_t z, id[24]; int ni = 0;
    for (i = 0; i < n; i++) {
        z = rsize(); b[i].n = z; b[i].k = RB(200);
        switch (RB(6)) {
            case 0: b[i].p = malloc_full(m, z, arena ? RAII_FREE : (func_t)free_text); break;
            case 1: b[i].p = calloc_full(m, 1 + (z > 9 && z % 3 == 0 ? 2 : 0), z > 9 && z % 3 == 0 ? z / 3 : z, RAII_FREE); break;
            case 2: b[i].p = malloc_by(m, z); break;
            case 3: b[i].p = calloc_by(m, 1, z); break;
            case 4: b[i].p = arena ? malloc_arena(m, z) : malloc_by(m, z); break;
            default: b[i].p = arena ? calloc_arena(m, 1, z) : calloc_by(m, 1, z); break;
        }
        VP_CHECK(b[i].p, "null", "a request of %zu bytes gave null", z);
        fillp(b[i].p, z, b[i].k);
        if (RB(2)) { id[ni++] = raii_deferred(m, (func_t)count_up, ran); ++*want; }
        if (RB(3) == 0) raii_deferred(m, (func_t)sums, &b[i]);
        if (RB(4) == 0) raii_recover_by(m, (func_t)sums, &b[i]);
        if (ni >= 2 && RB(5) == 0) { if (RB(2)) { raii_deferred_cancel(m, id[--ni]); --*want; } else raii_deferred_fire(m, id[--ni]); }
        if (ni > 20) ni = 20;
        eat += raii_deferred_count(m) == 12345; eat += raii_last_mid(m) == 99999;
    }
}
static void h_scope(void) {
    blk *b = calloc(24, sizeof *b); int n = RB(24), i, ran = 0, want = 0, arena = RB(3) == 0; memory_t *m = arena ? unique_init_arena() : unique_init();
    fill_scope(m, n, arena, b, &ran, &want);
    if (RB(3) == 0) { /* a scope emptied before it ends */
        for (i = 0; i < n; i++) holds(b[i].p, b[i].n, b[i].k, "a block of a scope");
        if (!arena) { raii_deferred_free(m); VP_CHECK(ran == want, "deferred", "%d functions were deferred, %d ran", want, ran); n = 0; if (RB(2)) { n = RB(10); fill_scope(m, n, arena, b, &ran, &want); } }
    }
    if (level < 2 && RB(2)) { level++; use(RB(H_N)); level--; }
    for (i = 0; i < n; i++) holds(b[i].p, b[i].n, b[i].k, "a block of a scope");
    if (arena) free_arena(m); else raii_delete(m);
    VP_CHECK(ran == want, "deferred", "%d functions were deferred, %d ran", want, ran);
    free(b);
}
static void in_default(int n) {
    char *p; int i; for (i = 0; i < n; i++) { size_t z = rsize(); p = RB(2) ? malloc_default(z) : calloc_default(1, z); fillp(p, z, i); holds(p, z, i, "a block of the default scope"); if (RB(3) == 0) { size_t d = raii_defer((func_t)first_byte, p); if (RB(2)) raii_defer_cancel(d); else if (RB(2)) raii_defer_fire(d); eat += raii_mid() == 99999; } }
}
/* ---- arenas */
static void h_arena(void) {
    arena_t a = arena_init((size_t)(RB(3) ? RB(5) : RB(40))); blk b[40]; int n, i, round, rounds = 1 + RB(3);
    for (round = 0; round < rounds; round++) {
        n = 1 + RB(39);
        for (i = 0; i < n; i++) {
            size_t z = rsize(), cap = arena_capacity(a); if (cap > 0 && cap < 60000 && RB(4) == 0) z = cap; else if (cap > 1 && cap < 60000 && RB(6) == 0) z = cap + (size_t)RB(3) - 1;
            if (!z) z = 1;
            b[i].n = z; b[i].k = RB(200);
            b[i].p = RB(2) ? arena_alloc(a, (long)z) : z % 4 == 0 && RB(2) ? arena_calloc(a, 4, (long)z / 4) : arena_calloc(a, 1, (long)z);
            fillp(b[i].p, z, b[i].k);
        }
        eat += arena_total(a) == 77;
        for (i = 0; i < n; i++) holds(b[i].p, b[i].n, b[i].k, "an arena block");
        if (RB(2)) arena_clear(a);
    }
    arena_free(a);
}
/* ---- texts */
static string cat(memory_t *m, int n, ...) { va_list ap; string s; va_start(ap, n); s = str_concat_ex(m, n, ap); va_end(ap); return s; }
static void texts(memory_t *m, int dflt) {     /* without a scope only split and replace are used */
    char *s = text(1 + RB(RB(4) ? 30 : 900), RB(3)), *t = text(RB(4), 0), *u = text(RB(12), RB(3)), *x; char **parts; int n = 0, i;
    switch (m || dflt ? RB(7) : (int[]){ 0, 2, 4, 5, 6 }[RB(5)]) {
        case 0: parts = dflt ? raii_split(s, RB(5) ? t : NULL, RB(4) ? &n : NULL) : str_split_ex(m, s, RB(5) ? t : NULL, RB(4) ? &n : NULL);
            for (i = 0; i < n; i++) eat_bytes(parts[i], strlen(parts[i]) + 1);
            if (!m && !dflt) RAII_FREE(parts); break;
        case 1: x = dflt ? RB(2) ? raii_concat(3, s, t, u) : raii_concat(1, u) : cat(m, 4, s, t, u, s); eat_bytes(x, strlen(x) + 1); VP_CHECK(!dflt || strlen(x) <= strlen(s) + strlen(t) + strlen(u), "text", "a concatenation is too long"); if (!m && !dflt) RAII_FREE(x); break;
        case 2: if (!*t) break; x = dflt ? raii_replace(s, t, u) : str_replace_ex(m, s, t, u); if (x) eat_bytes(x, strlen(x) + 1); if (x && !m && !dflt) RAII_FREE(x); break;
        case 3: i = RB((int)strlen(s) + 1); x = dflt ? raii_memdup(s, (size_t)i) : str_memdup_ex(m, s, (size_t)i); eat_bytes(x, (size_t)i); VP_CHECK(!memcmp(x, s, (size_t)i), "text", "a copy differs"); if (!m && !dflt) RAII_FREE(x); break;
        case 4: x = malloc(strlen(s) + 1); str_copy(x, s, strlen(s)); eat_bytes(x, strlen(s)); free(x); break;
        case 5: eat += (unsigned long)strpos(s, t) == 99999; break;
        default: eat += is_str_in(s, *t ? t : u) + is_str_eq(s, u) + is_str_empty(t); break;
    }
    free(s); free(t); free(u);
}
static void codes(memory_t *m, int dflt) {
    char *s = text(RB(RB(4) ? 20 : 3000), RB(3)); u_string e, d;
    if (!*s) { free(s); return; }
    e = dflt ? raii_encode64((u_string_t)s) : str_encode64_ex(m, (u_string_t)s);
    VP_CHECK(is_base64(e), "code", "an encoding is no base64");
    eat += is_base64((u_string_t)s);
    d = dflt ? raii_decode64(e) : str_decode64_ex(m, e);
    VP_CHECK(d && !memcmp(d, s, strlen(s)), "code", "decoding gave something else");
    if (!m && !dflt) { RAII_FREE(e); RAII_FREE(d); }
    if (RB(3) == 0) { d = dflt ? raii_decode64((u_string_t)s) : str_decode64_ex(m, (u_string_t)s); if (d && !m && !dflt) RAII_FREE(d); }
    free(s);
}
static void h_text(int code) {
    int i, n = 1 + RB(5); memory_t *m = code || RB(4) ? unique_init() : NULL;
    for (i = 0; i < n; i++) if (code) codes(m, 0); else texts(m, 0);
    if (m) raii_delete(m);
}
/* ---- containers */
static args_t vargs(memory_t *m, const char *f, ...) { va_list ap; args_t g; va_start(ap, f); g = raii_args_ex(m, f, ap); va_end(ap); return g; }
static void fnx(void) {}
static void h_args(int dflt) {
    memory_t *m = dflt ? NULL : unique_init(); char *s = text(RB(RB(4) ? 40 : 5000), 1); args_t g; int form = RB(6), j; volatile int rel = RB(3);
    switch (form) {
        case 0: g = m ? raii_args_for(m, "isdz", 7u, s, -5, (size_t)9) : args_for("isdz", 7u, s, -5, (size_t)9); break;
        case 1: g = vargs(m, "cfsx", 'q', 2.5, s, fnx); break;
        case 2: g = vargs(m, "s", s); break;
        case 3: g = raii_args_for(m, "slpaiiiiiiiiiiiiiiii", s, 123456789012L, (void *)&g, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); break;
        case 4: g = raii_args_for(m, "dsf", -1, s, 1.5f + 1.0); break;
        default: g = raii_args_for(m, "x", fnx); break;
    }
    if (rel == 0 && m == NULL) { /* read without releasing, then by hand */
        if (form == 0) VP_CHECK(!strcmp(args_in(g, 1).char_ptr, s), "args", "a text of a container changed");
        args_free(g);
    } else {
        for (j = 1 + RB(3); j > 0; j--) {
            if (form == 0) VP_CHECK(!strcmp(raii_get_args(m, g, 1).char_ptr, s) && args_in(g, 2).integer == -5, "args", "an item changed");
            else if (form == 1) VP_CHECK(!strcmp(raii_get_args(m, g, 2).char_ptr, s) && args_in(g, 1).precision == 2.5, "args", "an item changed");
            else if (form == 2) VP_CHECK(!strcmp(raii_get_args(m, g, 0).char_ptr, s), "args", "an item changed");
            else if (form == 3) VP_CHECK(raii_get_args(m, g, 19).integer == 16 && args_in(g, 2).object == (void *)&g, "args", "an item changed");
            else if (form == 4) VP_CHECK(raii_get_args(m, g, 2).precision == 2.5, "args", "an item changed");
            else VP_CHECK((void *)raii_get_args(m, g, 0).func == (void *)fnx, "args", "an item changed");
        }
    }
    if (m) raii_delete(m);
    free(s);
}
/* ---- numbers: buffers of exactly the documented size, texts with 8 readable bytes behind */
static void h_num(void) {
    char *b = malloc(32), *t; uint64_t v = gen_u64(R); int n, i; char tmp[40];
    for (i = 0; i < 6; i++, v = gen_u64(R)) {
        n = (int)simd_itoa((int64_t)v, b); VP_CHECK(n > 0 && n <= 20, "num", "simd_itoa wrote %d digits", n); eat_bytes(b, (size_t)n);
        n = snprintf(tmp, sizeof tmp, "%llu", (unsigned long long)v); t = malloc((size_t)n + 8); memset(t, 'x', (size_t)n + 8); memcpy(t, tmp, (size_t)n);
        VP_CHECK(simd_atou(t, (uint32_t)n) == v, "num", "simd_atou"); 
        if (n <= 8) eat += atou8(t, (uint32_t)n) == 1;
        eat += simd_atoi(t, (uint32_t)(n > 18 ? 18 : n)) == 3; free(t);
        n = snprintf(tmp, sizeof tmp, "%llx", (unsigned long long)v); t = malloc((size_t)n + 8); memset(t, 'x', (size_t)n + 8); memcpy(t, tmp, (size_t)n);
        VP_CHECK(simd_htou(t, (uint32_t)n) == v, "num", "simd_htou"); if (n <= 8) eat += htou8(t, (uint32_t)n) == 1; free(t);
        n = snprintf(tmp, sizeof tmp, "%d.%03d", (int)(v % 100000), (int)(v % 1000)); t = malloc((size_t)n + 8); memset(t, 'x', (size_t)n + 8); memcpy(t, tmp, (size_t)n); eat += simd_atod(t, (uint32_t)n) < -1e300; free(t);
        n = (int)itoa8((int32_t)(v % 10000000), b); eat_bytes(b, (size_t)n); { uint16_t q = utoa2p(v % 100); eat_bytes(&q, 2); } utoa2p_ex(v % 100, b); eat_bytes(b, 2); utoap(9, v % 1000000000, b); eat_bytes(b, 9);
    }
    free(b);
}
static void h_bytes(void) {
    int i, n = RB(RB(3) ? 30 : 500); char *p = malloc((size_t)n + 16), *q, *s; uint8_t c = (uint8_t)(RB(3) ? 'a' + RB(4) : RB(256));
    for (i = 0; i < n + 16; i++) p[i] = (char)('a' + RB(3));
    for (i = 0; i < 5; i++) {
        int at = RB(8), len = n > at ? n - at : 0;
        q = simd_memchr(p + at, c, (uint32_t)len); VP_CHECK(q == (len ? memchr(p + at, c, (size_t)len) : NULL), "bytes", "simd_memchr");
        q = simd_memrchr(p + 8 + at, c, (uint32_t)len); VP_CHECK(q == (len ? memrchr(p + 8 + at, c, (size_t)len) : NULL), "bytes", "simd_memrchr");
        eat += memchr8(p + at, c) == 99;
    }
    free(p);
    s = text(n, RB(3)); VP_CHECK(simd_strlen(s) == (size_t)n, "bytes", "simd_strlen"); q = text(RB(n + 1), 0); eat += simd_strcmp(s, q) == 4242; eat += cast8("abcdefgh", (uint32_t)RB(9)) == 3; free(q); free(s);
}
static void h_tls(void) {
    if (RB(2) && !is_mine_empty()) { mine()->v++; mine_del(); }
    mine()->v = 5; memset(mine()->pad, 3, 40); mine()->d = 1.5; eat_bytes(mine()->pad, 40);
    VP_CHECK(mine()->v == 5, "tls", "a thread-local changed");
    if (RB(2)) { local_t *l = malloc(sizeof *l); memset(l, 0, sizeof *l); l->v = 6; mine_update(l); VP_CHECK(mine()->v == 6, "tls", "a thread-local changed"); mine_del(); free(l); }
    plain_update(7); VP_CHECK(plain() == 7 && !is_plain_empty(), "tls", "a thread-local changed"); plain_del();
    mine_del();
}
static atomic_size_t shared_n; static atomic_flag shared_f; static atomic_spinlock shared_l; static void *_Atomic shared_p; static size_t under_lock;
static void h_atomic(void) {
    int i, n = 1 + RB(6); size_t was;
    for (i = 0; i < n; i++) {
        was = atomic_fetch_add(&shared_n, 1); eat += was == 0;
        atomic_lock(&shared_l); under_lock++; atomic_unlock(&shared_l);
        if (!atomic_flag_test_and_set(&shared_f)) atomic_flag_clear(&shared_f);
        was = atomic_load(&shared_n); atomic_compare_exchange_strong(&shared_n, &was, was + 1);
        { size_t *w = malloc(sizeof *w); *w = 3; void *o = atomic_exchange_explicit(&shared_p, (void *)w, memory_order_acq_rel); if (o) { eat += *(size_t *)o == 1; free(o); } }
    }
}
static void h_kind(void) {
    memory_t *m = unique_init(); arena_t a = arena_init(2); char *s = text(3, 0); int i; args_t g = raii_args_for(m, "si", s, 3); void *o[3];
    o[0] = m; o[1] = a; o[2] = g;
    for (i = 0; i < 3; i++) { eat += is_type(o[i], RAII_ARENA) + is_instance(o[i]) + is_valid(o[i]) + is_empty(o[i]) + (type_of(o[i]) == 99) + is_instance_of(o[i], o[(i + 1) % 3]) + is_value(o[i]); }
    eat += is_zero(0) + is_true(true) + is_false(true) + is_empty(NULL) + is_guard(NULL) + is_guard(m) + is_str_empty(s) + is_str_eq(s, "abc") + (thrd_self() == 1) + (thrd_cpu_count() == 1000);
    (void)raii_get_args(m, g, 0); arena_free(a); raii_delete(m); free(s);
}
/* ---- exceptions */
EX_EXCEPTION(mixed_error);
static void raise_some(int k, const char *s) {
    switch (k) { case 0: throw(mixed_error); break; case 1: throw(logic_error); break; case 2: raii_panic((char *)s); break; case 3:
#ifndef VP_NO_LEDGER
        raise(SIGFPE); break;
#else
        throw(sig_fpe); break;
#endif
        case 4: throw(out_of_memory); break; default: break; }
}
static void print_caught(ex_context_t *e) { if (e->ex) eat_bytes(e->ex, strlen(e->ex) + 1); if (e->panic) eat_bytes(e->panic, strlen(e->panic) + 1); if (e->file) eat_bytes(e->file, strlen(e->file) + 1); if (e->function) eat_bytes(e->function, strlen(e->function) + 1); }
static void cleanup(void *p) { eat_bytes(p, 8); free(p); }
static __attribute__((noinline)) void nested(int n, int k, const char *s) {
    char *p = malloc(16); memset(p, n, 16);
    { protected(p, cleanup);
      if (n > 0) { try { nested(n - 1, k, s); } catch (logic_error) { print_caught(&ex_err); rethrow(); } finally { eat_bytes(p, 8); } end_try; } else raise_some(k, s);
      unprotected(p); }
    free(p);
}
static void h_exc(void) {
    char *s = text(RB(RB(3) ? 20 : 400), 1); volatile int i, n = 1 + RB(3);
    for (i = 0; i < n; i++) {
        volatile int k = RB(level ? 3 : 6), in = 0;
        try { nested(RB(4), k, s); in = 1; }
        catch (mixed_error) { print_caught(&ex_err); }
        catch_if { if (caught(logic_error)) print_caught(&ex_err); else if (caught(sig_fpe)) print_caught(&ex_err); else { print_caught(&ex_err); ex_err.state = ex_catch_st; } }
        finally { in += 2; } end_try;
        VP_CHECK(in == (k < 5 ? 2 : 3), "exceptions", "a try block ended wrongly");
    }
    free(s);
}
static __attribute__((noinline)) void deep(int n, int boom) { char local[200]; memset(local, n, sizeof local); if (n) deep(n - 1, boom); else if (boom) throw(mixed_error); else { use(RB(H_N)); } eat_bytes(local, sizeof local); }
static void h_deep(void) { volatile int x = 0; if (level > 1) return; level++; try { deep(RB(60), RB(2)); } catch (mixed_error) { x = 1; } end_try; level--; eat += (unsigned long)x; }
/* ---- guards */
static void recover_any(void *p) { const char *m = _get_message(); (void)p; if (m) { eat_bytes(m, strlen(m) + 1); (void)_recover(m); } }
static __attribute__((noinline)) int guard_returning(int k, const char *s) {
    guard {
        char *a = _malloc(20), *b = _calloc(3, 11); fillp(a, 20, 1); eat_bytes(b, 33);
        _defer(recover_any, NULL); _defer(count_up, calloc_default(1, sizeof(int)));
        if (k == 1) { _return(5); }
        if (k == 2) break;
        if (k == 3) _panic((char *)s);
        if (k == 4) throw(mixed_error);
        holds(a, 20, 1, "a block of a guard");
    } unguarded(6);
}
static void h_guard(void) {
    char *s = text(RB(60), 1); volatile int i, n = 1 + RB(3), r, ran;
    for (i = 0; i < n; i++) {
        guard { ran = 0;
            blk *b = _calloc(24, sizeof *b); int w = 0, c = RB(12), j; int *rn = _calloc(1, sizeof(int)); _assign_ptr(u);
            fill_scope(u, c, 0, b, rn, &w);
            if (level < 2 && RB(3) == 0) { level++; use(RB(H_N)); level--; }
            for (j = 0; j < c; j++) holds(b[j].p, b[j].n, b[j].k, "a block of a guard");
        } guarded;
        r = guard_returning(RB(5), s); eat += (unsigned long)(r == 17) + (unsigned long)ran;
    }
    free(s);
}
block(int, blocked_fn, int n) { char *p = _malloc(30); fillp(p, 30, n); _defer(first_byte, p); holds(p, 30, n, "a block of a function with a guard"); } unblocked(n + 1)
static void h_block(void) { VP_CHECK(blocked_fn(3) == 4, "block", "a function with a guard returned something else"); }
static void h_try(void) {
    size_t z = rsize(); char *p = try_malloc(z), *q = try_calloc(3, 17); fillp(p, z, 2); eat_bytes(q, 51);
    p = try_realloc(p, z + 40); holds(p, z, 2, "a block made larger"); p = try_realloc(p, 1 + z / 2); holds(p, 1 + z / 2 > z ? z : 1 + z / 2, 2, "a block made smaller"); RAII_FREE(p); RAII_FREE(q);
}
static void h_prot(void) {
    int i, n = 1 + RB(5); char *p[6]; volatile int k = RB(3);
    if (k == 0) { for (i = 0; i < n; i++) p[i] = malloc(10); char *a = p[0]; { protected(a, cleanup); for (i = 1; i < n; i++) eat_bytes(memset(p[i], i, 10), 10); memset(a, 1, 10); unprotected(a); } for (i = 0; i < n; i++) free(p[i]); return; }
    try { char *a = malloc(20), *b = malloc(8); memset(a, 1, 20); memset(b, 2, 8); protected(a, cleanup); protected(b, cleanup); if (k == 1) throw(mixed_error); unprotected(b); unprotected(a); free(a); free(b); } catch (mixed_error) { } end_try;
}
/* ---- threads */
typedef struct { int k, v; uint64_t s; char *mem; size_t n; } job;
static void some_uses(uint64_t s, int lv) {
    vp_rng r = { s }; vp_rng *keep = R; int kl = level, i, n; R = &r; level = lv; n = 1 + RB(4);
    for (i = 0; i < n; i++) { if (RB(5) == 0) in_default(1 + RB(4)); else if (RB(5) == 0) texts(NULL, 1); else if (RB(6) == 0) codes(NULL, 1); else if (RB(8) == 0) h_args(1); else use(RB(H_N)); }
    R = keep; level = kl;
}
static void *work(args_t a) {
    job *j = (job *)a; vp_rng r = { j->s };
    fillp(j->mem, j->n, j->v); vp_noise(); some_uses(j->s, 2); (void)r;
    switch (j->k) {
        case 1: throw(mixed_error); break;
        case 2: raii_panic("a worker panics"); break;
        case 3: { char *o = try_malloc(24); struct args_s x; memset(&x, 0, sizeof x); fillp(o, 24, j->v); return thrd_returning(&x, o, 24); }
        case 4: { char *q = malloc_default(40); raii_defer(first_byte, q); memset(q, 1, 40); break; }
        case 5: { int *l = malloc(sizeof *l); *l = 0; guard { _defer(recover_any, NULL); _defer(count_up, l); throw(mixed_error); } guarded; free(l); break; }
    }
    return thrd_value((void *)(intptr_t)(j->v));
}
static void *work_ex(args_t a) {
    int v = get_args(a, 0).integer; const char *s = args_in(a, 1).char_ptr; eat_bytes(s, strlen(s) + 1); job *j = args_in(a, 2).object; fillp(j->mem, j->n, j->v);
    some_uses(j->s, 2);
    return thrd_value((void *)(intptr_t)v);
}
static void new_job(job *j) { j->k = RB(7); j->v = RB(200); j->s = vp_next(R); j->n = rsize(); j->mem = malloc(j->n); }
static void naps(void) { vp_noise(); vp_beat(); }
static void h_future(void) {
    job j[4]; future f[4]; volatile int i, n = 1 + RB(3); if (level > 1) return;
    for (i = 0; i < n; i++) { new_job(&j[i]); f[i] = thrd_async(work, &j[i]); }
    for (i = 0; i < n; i++) {
        switch (RB(3)) { case 0: while (!thrd_is_done(f[i])) naps(); break; case 1: thrd_wait(f[i], naps); break; }
        volatile int thrown = 0;
        try { values_type v = thrd_get(f[i]); if (j[i].k == 3) holds(v.char_ptr, 24, j[i].v, "an object returned by a worker"); else VP_CHECK(v.integer == j[i].v, "future", "a future returned something else"); }
        catch (mixed_error) { thrown = 1; print_caught(&ex_err); } catch (panic) { thrown = 2; print_caught(&ex_err); } end_try;
        VP_CHECK(thrown == (j[i].k == 1 ? 1 : j[i].k == 2 ? 2 : 0), "future", "a worker's exception was lost");
        holds(j[i].mem, j[i].n, j[i].v, "memory written by a worker");
    }
    for (i = 0; i < n; i++) free(j[i].mem);
}
static void *then_cb(void *result, size_t i, values_type item) { eat += (unsigned long)(item.integer == 12345 + (int)i); ++*(int *)result; return result; }
static void h_spawn(void) {
    job j[12]; volatile int n = 1 + RB(11), i, raised = 0; int ex[12]; result_t id[12]; future_t p; char *s; int *cnt = malloc(sizeof *cnt); if (level > 1) { free(cnt); return; }
    *cnt = 0; s = text(RB(50), 1); p = thrd_scope();
    for (i = 0; i < n; i++) {
        new_job(&j[i]); ex[i] = RB(3) == 0; if (n > 3 && (j[i].k == 1 || j[i].k == 2)) j[i].k = 0;
        id[i] = ex[i] ? thrd_spawn_ex(work_ex, "dsp", j[i].v, s, &j[i]) : thrd_spawn(work, &j[i]);
        if (RB(5) == 0) { while (!thrd_is_finish(p)) naps(); }
    }
    do { raised &= ~1; try { thrd_sync(p); } catch (mixed_error) { raised |= 1; } catch (panic) { raised |= 1; } end_try; raised += 2; } while ((raised & 1) && raised < 40);
    for (i = 0; i < n; i++) { values_type v = thrd_result(id[i]); if (!ex[i] && j[i].k == 3) holds(v.char_ptr, 24, j[i].v, "an object returned by a worker"); else if (ex[i] || (j[i].k != 1 && j[i].k != 2)) VP_CHECK(v.integer == j[i].v, "spawn", "worker %d returned something else", i); holds(j[i].mem, j[i].n, j[i].v, "memory written by a worker"); }
    if (RB(2)) thrd_then(then_cb, p, cnt);
    thrd_destroy(p);
    for (i = 0; i < n; i++) free(j[i].mem);
    free(s); free(cnt);
}
static void use(int k) {
    atomic_fetch_add(&done[k], 1); vp_beat(); if (on_main) vp_log("%*suse %s", level * 2, "", HN[k]);
    switch (k) {
        case H_FUTURE: h_future(); break; case H_SPAWN: h_spawn(); break; case H_ARENA: h_arena(); break; case H_TEXT: h_text(0); break; case H_CODE: h_text(1); break; case H_ARGS: h_args(0); break;
        case H_NUM: h_num(); break; case H_BYTES: h_bytes(); break; case H_TLS: h_tls(); break; case H_ATOMIC: h_atomic(); break; case H_KIND: h_kind(); break; case H_EXC: h_exc(); break; case H_SCOPE: h_scope(); break;
        case H_GUARD: h_guard(); break; case H_BLOCK: h_block(); break; case H_TRY: h_try(); break; case H_PROT: h_prot(); break; case H_DEEP: h_deep(); break;
    }
}
static void hook(prog *p, int kind, int a) { vp_rng r = vp_rng_make((uint64_t)a, (uint64_t)kind, 22); vp_rng *keep = R; int kl = level; (void)p; R = &r; level = 0; use(kind); R = keep; level = kl; }
static void drain(void) {
    arena_t d[64]; int n = 0; size_t calls;
#ifndef VP_NO_LEDGER
    do { d[n] = arena_init(0); calls = vp_alloc_calls(); arena_alloc(d[n], 2); n++; } while (vp_alloc_calls() == calls && n < 64);
    while (n) arena_free(d[--n]);
#endif
}
static void *other(void *q) { some_uses((uint64_t)(uintptr_t)q * 2654435761u + 7, 1); raii_destroy(); return NULL; }
/* README: `int prime; thrd_async(is_prime, &prime)` with get_arg(arg).integer in the worker */
static void *small_arg(args_t a) { return thrd_value((void *)(intptr_t)(get_arg(a).integer + 1)); }
static __attribute__((noinline)) void documented_small_argument(void) {
    int *prime = malloc(sizeof(int)); *prime = 194232491; future f = thrd_async(small_arg, prime);
    VP_CHECK(thrd_get(f).integer == 194232492, "future", "a future returned something else");
    free(prime);
}
void vp_child_init(void) { raii_init(); prog_hook = hook; }
void vp_case(uint64_t seed, uint64_t idx) {
    static prog *p; vp_rng r = vp_rng_make(seed, idx, 22); int i, n, tries = 0, nt = vp_chance(&r, 1, 3) ? 1 + (int)vp_below(&r, 3) : 0; prog_cfg c = base; pthread_t t[3]; size_t live; uint64_t h = 5;
    if (!p) p = prog_new();
    if (idx == 70000000) { vp_log("documented-small-argument"); documented_small_argument(); vp_count("small_arguments", 1); return; }     /* the first case of the configuration vg */
    memset((void *)done, 0, sizeof done); R = &r; level = 0; on_main = 1;
    raii_destroy(); drain(); live = vp_live();
    vp_noise_seed = vp_chance(&r, 1, 4) ? 0 : (unsigned)vp_next(&r) | 1;
    c.hooks = H_N;
    if (!nt && vp_chance(&r, 1, 4)) { c.w[N_NOMEM] = 6; }
    if (!nt && vp_chance(&r, 1, 4)) { c.signals = 1; c.w[N_RAISE] = 8; }
    switch (vp_below(&r, 4)) { case 0: c.w[N_HOOK] = 60; break; case 1: c.w[N_DEFER] = 30; break; case 2: c.w[N_THROW] = 14; c.w[N_PROTECT] = 14; break; }
#ifdef VP_NO_LEDGER
    c.w[N_NOMEM] = 0; c.signals = 0; c.w[N_RAISE] = 0;      /* the tool may deliver a raised signal late */
#endif
    do { prog_gen(p, &r, &c); prog_model(p); n = prog_events(p); } while (n < 0 && ++tries < 20);
    if (n < 0) return;
    prog_dump(p);
    for (i = 0; i < nt; i++) if (pthread_create(&t[i], 0, other, (void *)(uintptr_t)(vp_next(&r) >> 20))) abort();
    prog_run(p);
    if (vp_chance(&r, 1, 2)) some_uses(vp_next(&r), 0);
    for (i = 0; i < nt; i++) pthread_join(t[i], 0);
    raii_destroy(); drain();
#ifndef VP_NO_LEDGER
    VP_CHECK(vp_live() == live, "leak", "%ld blocks of the library remain after every scope ended", (long)(vp_live() - live));
    vp_ledger_check();
#endif
    prog_flush(p, 22);
    for (i = 0; i < H_N; i++) if (done[i]) { vp_count(HN[i], done[i]); h = vp_hash(h, (uint64_t)i * 1000 + done[i]); }
    vp_sig(h); vp_count("other_threads", (uint64_t)nt); vp_count("programs", 1);
}
