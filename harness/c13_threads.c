/* C13: several threads, each running random programs of its own (see prog.h) while the others run theirs; every
   thread must observe exactly what the model of its program alone says. */
#include "prog.h"
#include "gen.h"
#include <sched.h>
#include <ctype.h>
#include "swar.h"
const vp_config_t vp_cfg = { "C13", 8, 20, 0 };
#ifdef VP_CONFIG_tsan
#define vp_live() ((size_t)0)
#define vp_ledger_check() ((void)0)
#define vp_alloc_calls() ((size_t)0)
#define LEDGER 0
#else
#define LEDGER 1
#endif
extern void vp_noise(void); extern unsigned vp_noise_seed;
#define MT 5
#define MP 3
#define KINDS 11
static const prog_cfg base = { .w = { [N_MARK] = 8, [N_THROW] = 8, [N_TRY] = 12, [N_GUARD] = 14, [N_DEFER] = 16, [N_ALLOC] = 10, [N_UNEW] = 5, [N_UDEL] = 4, [N_CLEAN] = 3,
    [N_CANCEL] = 3, [N_FIRE] = 3, [N_PROTECT] = 4, [N_CALL] = 5, [N_HOOK] = 4 }, .max_depth = 5, .max_stmts = 6, .max_nodes = 200, .throw_in_act = 15, .custom_free = 40, .recover = 35, .hooks = KINDS };
typedef struct { int id, np, order; vp_rng r; prog *p[MP]; pthread_t t; uint64_t switches, hooks[KINDS]; int ends, burst; } world;
static world W[MT];
static int last_event, gate;
static __thread int self_id;
static __thread uint64_t switches, events;
static __thread world *me;
static void each_event(void) {
    int l = __atomic_exchange_n(&last_event, self_id + 1, __ATOMIC_RELAXED);
    if (l && l != self_id + 1) switches++;
    events++;
    if ((events & 3) == 0) vp_noise();
    if ((events & 255) == 0) vp_beat();
}
/* ---- foreign statements: objects handed over through futures and thread scopes, arenas, texts */
typedef struct { uint64_t v; char text[24]; int n; } parcel;
static void *carry(args_t a) { parcel *q = (parcel *)a; int i; for (i = 0; i < 24; i++) q->text[i] = (char)(q->v + (uint64_t)i); q->n++; vp_noise(); return thrd_value((void *)(uintptr_t)(q->v + 1)); }
static void *carry_defer(args_t a) { parcel *q = (parcel *)a; char *m = malloc_default(30); memset(m, 1, 30); guard { char *k = _malloc(12); memset(k, 2, 12); q->n += 2; } guarded; vp_noise(); return thrd_value((void *)(uintptr_t)(q->v + 2)); }
static void *carry_throw(args_t a) { parcel *q = (parcel *)a; volatile int seen = 0; (void)q; try { q->n += 4; throw(division_by_zero); } catch (division_by_zero) { seen = 1; } finally { q->n += seen; } end_try; return thrd_value((void *)(uintptr_t)(q->v + 3)); }
/* ---- what needs no other thread at all: texts, codes, conversions, searches, thread-locals, each on data of its own */
typedef struct { uint64_t a, b; char s[16]; } local_t;
thrd_local(local_t, own, NULL)
thrd_local_plain(int, own_number, 0)
static uint64_t step(uint64_t *x) { *x ^= *x << 13; *x ^= *x >> 7; *x ^= *x << 17; return *x; }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void alone(int kind, uint64_t x) {
    char s[200], want[280], *t; int n, i, k; memory_t *m; uint64_t v;
    x = x * 0x9E3779B97F4A7C15ull + (uint64_t)self_id * 77 + 1; for (i = 0; i < 3; i++) step(&x);
    switch (kind) {
        case 6: {   /* base64 */
            u_string e, d; n = 1 + (int)(step(&x) % 120); for (i = 0; i < n; i++) s[i] = (char)(1 + step(&x) % 255); s[n] = 0;
            for (i = k = 0; i < n; i += 3) { unsigned q = (unsigned)(unsigned char)s[i] << 16 | (unsigned)(i + 1 < n ? (unsigned char)s[i + 1] : 0) << 8 | (unsigned)(i + 2 < n ? (unsigned char)s[i + 2] : 0);
                want[k++] = B64[q >> 18]; want[k++] = B64[q >> 12 & 63]; want[k++] = i + 1 < n ? B64[q >> 6 & 63] : '='; want[k++] = i + 2 < n ? B64[q & 63] : '='; }
            want[k] = 0; m = unique_init();
            e = str_encode64_ex(m, (u_string_t)s); VP_CHECK(!strcmp((char *)e, want), "code", "encoding %d bytes gave something else while other threads work", n);
            d = str_decode64_ex(m, (u_string_t)want); VP_CHECK(d && !memcmp(d, s, (size_t)n), "code", "decoding %d bytes gave something else while other threads work", n);
            VP_CHECK(is_base64((u_string_t)want), "code", "is_base64 denies an encoding");
            raii_delete(m); break; }
        case 7:     /* conversions */
            for (i = 0; i < 6; i++) {
                v = step(&x) >> step(&x) % 64; n = snprintf(want, sizeof want, "%lld", (long long)v); k = (int)simd_itoa((int64_t)v, s); VP_CHECK(k == n && !memcmp(s, want, (size_t)n), "number", "simd_itoa(%lld) gave something else while other threads work", (long long)v);
                n = snprintf(s, sizeof s, "%llu", (unsigned long long)v); s[n] = 'x'; memset(s + n, 'x', 9); VP_CHECK(simd_atou(s, (uint32_t)n) == v, "number", "simd_atou of %llu gave something else while other threads work", (unsigned long long)v);
                n = snprintf(s, sizeof s, "%llx", (unsigned long long)v); memset(s + n, 'x', 9); VP_CHECK(simd_htou(s, (uint32_t)n) == v, "number", "simd_htou of %llx gave something else while other threads work", (unsigned long long)v);
                v = step(&x) % 10000000; n = snprintf(want, sizeof want, "%d", (int)v); k = (int)itoa8((int32_t)v, s); VP_CHECK(k == n && !memcmp(s, want, (size_t)n), "number", "itoa8(%d) gave something else while other threads work", (int)v);
                v = step(&x) % 1000000000; snprintf(want, sizeof want, "%09d", (int)v); utoap(9, v, s); VP_CHECK(!memcmp(s, want, 9), "number", "utoap(9, %d) gave something else while other threads work", (int)v);
            }
            break;
        case 8:     /* searches */
            n = (int)(step(&x) % 100); for (i = 0; i < n + 16; i++) s[i] = (char)('a' + step(&x) % 3); s[n] = 0;
            for (i = 0; i < 4; i++) { uint8_t c = (uint8_t)('a' + i);
                VP_CHECK(simd_memchr(s, c, (uint32_t)n) == (char *)memchr(s, c, (size_t)n), "search", "simd_memchr answers something else while other threads work");
                VP_CHECK(n < 1 || simd_memrchr(s, c, (uint32_t)n) == (char *)memrchr(s, c, (size_t)n), "search", "simd_memrchr answers something else while other threads work"); }
            VP_CHECK(simd_strlen(s) == (size_t)n, "search", "simd_strlen answers something else while other threads work");
            break;
        case 9:     /* texts */
            n = 1 + (int)(step(&x) % 60); for (i = k = 0; i < n; i++) { s[i] = (char)('a' + step(&x) % 3); if (s[i] == 'b') { want[k++] = '-'; want[k++] = (char)('0' + self_id); want[k++] = '-'; } else want[k++] = s[i]; }
            s[n] = 0; want[k] = 0; { char rep[4] = { '-', (char)('0' + self_id), '-', 0 }; m = unique_init();
            t = str_replace_ex(m, s, "b", rep); VP_CHECK(strchr(s, 'b') ? t && !strcmp(t, want) : !t || !strcmp(t, want), "text", "replacing gave something else while other threads work"); raii_delete(m); }
            t = raii_concat(3, s, ":", want); VP_CHECK(!strncmp(t, s, (size_t)n) && t[n] == ':' && !strcmp(t + n + 1, want), "text", "a concatenation is something else while other threads work");
            t = raii_memdup(s, (size_t)n); VP_CHECK(!memcmp(t, s, (size_t)n), "text", "a copy is something else while other threads work");
            { int pieces = 0, have = 1; char **q; for (i = 0; i < n; i++) have += s[i] == 'a'; q = raii_split(s, "a", &pieces); for (i = k = 0; i < pieces; i++) { int l = (int)strlen(q[i]); VP_CHECK(k + l <= n && !memcmp(q[i], s + k, (size_t)l), "text", "piece %d is something else while other threads work", i); k += l + 1; } (void)have; }
            break;
        default:    /* thread-locals: what this thread stored last (it stores the same pattern for its number every time) */
            if (!is_own_empty() && own()->a) VP_CHECK(own()->a == (uint64_t)self_id + 1 && own()->b == ~own()->a && own()->s[3] == (char)('A' + self_id), "tls", "a thread-local holds what this thread did not store");
            own()->a = (uint64_t)self_id + 1; own()->b = ~own()->a; memset(own()->s, 'A' + self_id, 16); own_number_update(self_id * 3); vp_noise();
            VP_CHECK(own()->a == (uint64_t)self_id + 1 && own()->s[3] == (char)('A' + self_id) && own_number() == self_id * 3, "tls", "a thread-local changed by itself");
            if (step(&x) % 3 == 0) own_del();
            own_number_del(); break;
    }
}
static void hook(prog *p, int kind, int a) {
    int i, j; (void)p;
    switch (kind) {
        case 0: case 1: {
            parcel q = { 0 }; future f; uint64_t got; q.v = (uint64_t)a; int k = a % 3;
            f = thrd_async(k == 0 ? carry : k == 1 ? carry_defer : carry_throw, &q);
            if (a & 64) vp_noise();
            got = thrd_get(f).max_size;
            VP_CHECK(got == (uint64_t)a + 1 + (uint64_t)k, "handover", "a future returned %llu instead of %d", (unsigned long long)got, a + 1 + k);
            VP_CHECK(k ? q.n == (k == 1 ? 2 : 5) : q.n == 1 && q.text[5] == (char)(q.v + 5), "handover", "what the worker wrote is not there");
            break; }
        case 2: {
            parcel q[4] = { 0 }; int n = 1 + a % 4; future_t pool; result_t id[4];
            pool = thrd_scope();
            for (i = 0; i < n; i++) { q[i].v = (uint64_t)(a + i * 7); id[i] = thrd_spawn(i & 1 ? carry_defer : carry, &q[i]); }
            thrd_sync(pool);
            for (i = 0; i < n; i++) VP_CHECK(thrd_result(id[i]).max_size == q[i].v + 1 + (uint64_t)(i & 1), "handover", "worker %d of a thread scope returned something else", i);
            thrd_destroy(pool);
            break; }
        case 3: {
            arena_t x = arena_init(1 + a % 4); unsigned char *b[12]; size_t z[12]; int n, round = a % 3;
            do {
                n = 2 + (a >> round) % 10;
                for (i = 0; i < n; i++) { z[i] = (size_t)(1 + (a >> i) % 3000); b[i] = i & 1 ? arena_calloc(x, 1, (long)z[i]) : arena_alloc(x, (long)z[i]); memset(b[i], self_id * 16 + i, z[i]); }
                vp_noise();
                for (i = 0; i < n; i++) for (j = 0; j < (int)z[i]; j++) VP_CHECK(b[i][j] == (unsigned char)(self_id * 16 + i), "arena", "byte %d of an arena block changed", j);
                if (round) arena_clear(x);
            } while (round-- > 0);
            arena_free(x);
            break; }
        case 4: {
            char s[64]; memory_t *m = unique_init(); char **parts; int n = 0;
            snprintf(s, sizeof s, "%d,%d,%d", self_id, a, a / 3);
            parts = str_split_ex(m, s, ",", &n);
            VP_CHECK(n == 3 && atoi(parts[0]) == self_id && atoi(parts[1]) == a && atoi(parts[2]) == a / 3, "text", "split gave other pieces");
            raii_delete(m);
            break; }
        case 5: {
            memory_t *m = unique_init(); args_t g = raii_args_for(m, "dsd", a, self_id & 1 ? "odd" : "even", self_id);
            vp_noise();
            VP_CHECK(raii_get_args(m, g, 0).integer == a && !strcmp(args_in(g, 1).char_ptr, self_id & 1 ? "odd" : "even") && args_in(g, 2).integer == self_id, "args", "an argument changed");
            raii_delete(m);
            break; }
        default: for (i = 0; i < 3; i++) alone(kind, (uint64_t)a * 3 + (uint64_t)i); break;
    }
    if (me) me->hooks[kind]++;
}
static void life(world *w) {
    int i; self_id = w->id; me = w; switches = events = 0;
    if (w->burst) { uint64_t x = (uint64_t)w->burst; for (i = 0; i < 60; i++) { alone(w->burst & 0xff, step(&x)); if (!(i & 7)) vp_beat(); } w->hooks[w->burst & 0xff] += 20; }
    for (i = 0; i < w->np; i++) { prog_run(w->p[i]); vp_noise(); }
    if (!is_own_empty()) own_del();
    w->switches = switches;
}
static void ending(void *p) { world *w = p; w->ends++; }
static void *run(void *q) {
    world *w = q; uint64_t k = 0;
    __atomic_add_fetch(&gate, -1, __ATOMIC_RELAXED); while (__atomic_load_n(&gate, __ATOMIC_RELAXED) > 0 && k++ < 100000) sched_yield();
    life(w);
    raii_defer((func_t)ending, w);
    raii_destroy();
    return NULL;
}
/* the same life inside a worker of the library, which brings its own guard */
static void *run_worker(args_t a) {
    world *w = (world *)a; uint64_t k = 0;
    __atomic_add_fetch(&gate, -1, __ATOMIC_RELAXED); while (__atomic_load_n(&gate, __ATOMIC_RELAXED) > 0 && k++ < 100000) sched_yield();
    life(w);
    raii_defer((func_t)ending, w);
    return thrd_value((void *)(uintptr_t)(w->id + 100));
}
static void drain(void) {     /* takes the chunks the arenas cache for reuse and gives them back */
    arena_t d[64]; int n = 0; size_t calls;
    if (!LEDGER) return;
    do { d[n] = arena_init(0); calls = vp_alloc_calls(); arena_alloc(d[n], 2); n++; } while (vp_alloc_calls() == calls && n < 64);
    while (n) arena_free(d[--n]);
}
void vp_child_init(void) { raii_init(); prog_hook = hook; prog_each_event = each_event; }
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 13); int i, j, n, workers, tries; size_t live0; future f[MT] = { 0 };
    prog_cfg c = base; uint64_t h = 9, sw = 0;
    raii_destroy(); drain(); live0 = vp_live();
    vp_noise_seed = vp_chance(&r, 1, 6) ? 0 : (unsigned)vp_next(&r) | 1;
    n = 2 + (int)vp_below(&r, MT - 1); workers = vp_chance(&r, 1, 3);
    switch (vp_below(&r, 5)) {
        case 0: c.w[N_THROW] = 20; c.w[N_TRY] = 24; break;
        case 1: c.w[N_DEFER] = 40; c.w[N_ALLOC] = 24; break;
        case 2: c.w[N_GUARD] = 30; c.w[N_THROW] = 14; c.recover = 60; break;
        case 3: c.w[N_PROTECT] = 20; c.w[N_TRY] = 20; c.w[N_THROW] = 14; break;
    }
#ifndef VP_CONFIG_tsan
    if (vp_chance(&r, 1, 3)) { c.signals = 1; c.mask = 1; c.w[N_RAISE] = 8; }
#endif
    for (i = 0; i < n; i++) {
        world *w = &W[i]; int np = 1 + (int)vp_below(&r, MP); prog *keep[MP]; memcpy(keep, w->p, sizeof keep);
        memset(w, 0, sizeof *w); memcpy(w->p, keep, sizeof keep); w->id = i; w->r = vp_rng_make(seed, idx, 1300 + (uint64_t)i);
        for (j = 0; j < np; j++) {
            if (!w->p[j]) w->p[j] = prog_new();
            tries = 0; do { prog_gen(w->p[j], &w->r, &c); prog_model(w->p[j]); } while (prog_events(w->p[j]) < 0 && ++tries < 20);
            if (tries == 20) break;
        }
        w->np = j;
        if (i == 0) for (j = 0; j < w->np; j++) prog_dump(w->p[j]);
    }
    if (vp_chance(&r, 1, 6)) for (j = 6 + (int)vp_below(&r, KINDS - 6), i = 0; i < n; i++) W[i].burst = j | (int)(1 + vp_below(&r, 1000)) << 8;
    self_id = 0; last_event = 0; gate = n;
    if (workers) { for (i = 1; i < n; i++) f[i] = thrd_async(run_worker, &W[i]); }
    else for (i = 1; i < n; i++) if (pthread_create(&W[i].t, 0, run, &W[i])) abort();
    { uint64_t k = 0; __atomic_add_fetch(&gate, -1, __ATOMIC_RELAXED); while (__atomic_load_n(&gate, __ATOMIC_RELAXED) > 0 && k++ < 100000) sched_yield(); }
    if (!workers) life(&W[0]);
    else W[0].np = 0;      /* the futures belong to this thread's default scope */
    if (workers) { for (i = n; i-- > 1; ) VP_CHECK(thrd_get(f[i]).max_size == (uint64_t)i + 100, "handover", "the value of a worker was lost"); vp_count("worker_threads", (uint64_t)n - 1); }
    else { for (i = 1; i < n; i++) pthread_join(W[i].t, 0); vp_count("plain_threads", (uint64_t)n - 1); }
    for (i = 1; i < n; i++) VP_CHECK(W[i].ends == 1, "ending", "what thread %d deferred on its own scope ran %d times when it ended", i, W[i].ends);
    raii_destroy(); drain();
    VP_CHECK(vp_live() == live0, "leak", "%ld blocks remain after all %d threads ended", (long)(vp_live() - live0), n);
    vp_ledger_check();
    for (i = 0; i < n; i++) { static const char *const HN[] = { "futures", "futures", "thread_scopes", "arenas", "texts", "containers", "codes", "conversions", "searches", "texts", "thread_locals" }; int k; for (j = 0; j < W[i].np; j++) prog_flush(W[i].p[j], 13); sw += W[i].switches; h = vp_hash(h, W[i].switches); for (k = 0; k < KINDS; k++) if (W[i].hooks[k]) vp_count(HN[k], W[i].hooks[k]); }
    vp_sig(h); vp_count("switches_between_events", sw); vp_count("concurrent_runs", 1); vp_max("most_threads", (uint64_t)n);
}
