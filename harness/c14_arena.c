/* C14: arena blocks against a table of what is live; every block lies in a live ledger block. */
#include "raii.h"
#include "gen.h"
#include <pthread.h>
#include <sched.h>
const vp_config_t vp_cfg = { "C14", 32, 20, 0 };
#ifdef VP_CONFIG_tsan
#define LEDGER 0
#define vp_in_live(p, n) 1
#define vp_alloc_calls() ((size_t)0)
#define vp_live() ((size_t)0)
#define vp_ledger_check() ((void)0)
#else
#define LEDGER 1
#endif
#define NB 400
#define NA 4
typedef struct { unsigned char *p; size_t n; uint64_t seed; int a; } blk;
typedef struct { arena_t a; memory_t *scope; size_t thr; int open, grown; } ar;
typedef struct { vp_rng r; int id, threads, ops, fired; ar A[NA]; blk B[NB]; int nb; size_t bytes; pthread_t t; } world;
static unsigned char pat(uint64_t s, size_t i) { return (unsigned char)((s >> (i & 31)) + i * 131 + (i >> 8) * 17); }
static void fillb(blk *b) { size_t i; for (i = 0; i < b->n; i++) b->p[i] = pat(b->seed, i); }
static void checkb(world *w, blk *b, const char *when) {
    size_t i, step = 1;
    for (i = 0; i < b->n; i += step) {
        if (b->p[i] != pat(b->seed, i)) vp_fail("contents", "thread %d, %s: byte %zu of a block of %zu in arena %d changed", w->id, when, i, b->n, b->a);
        if (b->n > 2048) step = (i < 256 || i + 512 > b->n) ? 1 : 61;
    }
    if (LEDGER) VP_CHECK(vp_in_live(b->p, b->n), "outside", "%s: a block of %zu bytes in arena %d is not within one live piece of memory", when, b->n, b->a);
}
static void check_all(world *w, const char *when) { int i; for (i = 0; i < w->nb; i++) checkb(w, &w->B[i], when); vp_count("verifications", 1); }
static void drop(world *w, int a) { int i, k = 0; for (i = 0; i < w->nb; i++) if (w->B[i].a != a) w->B[k++] = w->B[i]; else w->bytes -= w->B[i].n; w->nb = k; }
static arena_t handle(ar *x) { return x->scope ? (arena_t)x->scope->arena : x->a; }
static void open_arena(world *w, int k) {
    static const size_t T[] = { 0, 1, 2, 3, 5, 10, 16 }; ar *x = &w->A[k]; memset(x, 0, sizeof *x);
    x->thr = T[vp_below(&w->r, 7)];
    if (vp_chance(&w->r, 1, 3)) { x->scope = unique_init_arena(); x->thr = 0; VP_CHECK(x->scope && x->scope->is_arena && x->scope->arena, "init", "no arena scope"); }
    else x->a = arena_init(x->thr);
    VP_CHECK(handle(x) != NULL, "init", "no arena");
    VP_CHECK(arena_capacity(handle(x)) == 0 && arena_total(handle(x)) == 0, "init", "a new arena reports capacity %zu, total %zu", arena_capacity(handle(x)), arena_total(handle(x)));
    x->open = 1; vp_count(x->scope ? "scopes" : "arenas", 1);
    vp_log("t%d arena %d opened, threshold %zu%s", w->id, k, x->thr, x->scope ? " (scope)" : "");
}
static size_t asize(world *w, arena_t a) {
    size_t c = arena_capacity(a);
    switch (vp_below(&w->r, 10)) {
        case 0: if (c > 1) return c; break;
        case 1: return c + 1 + vp_below(&w->r, 4);
        case 2: if (c > 8) return c - 1 - vp_below(&w->r, 6); break;
        case 3: return 1;
        case 4: return 1 + vp_below(&w->r, 20000);
        case 5: if (vp_chance(&w->r, 1, 600)) { vp_count("huge", 1); return (2u << 20) + vp_below(&w->r, vp_chance(&w->r, 1, 2) ? 4u << 20 : 40u << 20); }
            if (vp_chance(&w->r, 1, 12)) return 1 + vp_below(&w->r, 1u << 20); break;
        case 6: return c / 2 + 1;
    }
    return 1 + vp_below(&w->r, 600);
}
static void alloc_one(world *w, int k) {
    ar *x = &w->A[k]; arena_t a = handle(x); size_t n = asize(w, a), c0 = arena_capacity(a), t0 = arena_total(a), calls = vp_alloc_calls(), al, i; int z = vp_chance(&w->r, 1, 3); int cnt = 1; size_t each; blk b; const char *how; int fits;
    if (n > 400000 && (w->bytes > 2000000 || (n > 2000000 && w->threads > 1))) n = 100;
    if (w->nb >= NB - 1) return;
    each = n; if (z) { static const int C[] = { 1, 1, 2, 3, 7, 16 }; cnt = C[vp_below(&w->r, 6)]; if (n >= (size_t)cnt && n % (size_t)cnt == 0) each = n / (size_t)cnt; else cnt = 1; if (vp_chance(&w->r, 1, 4)) { cnt = (int)n; each = 1; } }
    al = (n + 1) & ~(size_t)1; fits = al <= c0;
    if (x->scope) switch (vp_below(&w->r, 2)) {
        case 0: how = z ? "calloc_by" : "malloc_by"; b.p = z ? calloc_by(x->scope, cnt, each) : malloc_by(x->scope, n); break;
        default: how = z ? "calloc_arena" : "malloc_arena"; b.p = z ? calloc_arena(x->scope, cnt, each) : malloc_arena(x->scope, n); break;
    } else { how = z ? "arena_calloc" : "arena_alloc"; b.p = z ? arena_calloc(a, cnt, (long)each) : arena_alloc(a, (long)n); }
    vp_log("t%d %s(%d, %zu) capacity %zu", w->id, how, k, n, c0);
    VP_CHECK(b.p != NULL, "null", "%s(%zu) returned null", how, n);
    VP_CHECK(((uintptr_t)b.p & 1) == 0, "align", "an odd address");
    if (LEDGER) VP_CHECK(vp_in_live(b.p, n), "outside", "%s(%zu): the block does not lie within one live piece of memory", how, n);
    for (i = 0; i < (size_t)w->nb; i++) VP_CHECK(b.p + n <= w->B[i].p || w->B[i].p + w->B[i].n <= b.p, "overlap", "%s(%zu) overlaps a live block of %zu in arena %d", how, n, w->B[i].n, w->B[i].a);
    if (z) { for (i = 0; i < n; i++) VP_CHECK(b.p[i] == 0, "zero", "%s(%d, %zu): byte %zu is %d", how, cnt, each, i, b.p[i]); vp_count("zeroed", 1); }
    if (fits) {
        if (w->threads == 1) VP_CHECK(vp_alloc_calls() == calls, "capacity", "%zu bytes were asked of an arena reporting %zu, and it asked for memory", n, c0);
        VP_CHECK(arena_capacity(a) == c0 - al, "capacity", "capacity went from %zu to %zu with a block of %zu", c0, arena_capacity(a), n);
        VP_CHECK(arena_total(a) == t0, "total", "total went from %zu to %zu without more memory", t0, arena_total(a));
        vp_count("fits", 1);
    } else { vp_count("grown", 1); x->grown++; VP_CHECK(arena_total(a) >= t0, "total", "total shrank"); }
    VP_CHECK(arena_capacity(a) <= arena_total(a), "total", "capacity %zu exceeds total %zu", arena_capacity(a), arena_total(a));
    b.n = n; b.seed = vp_next(&w->r); b.a = k; w->B[w->nb++] = b; w->bytes += n; fillb(&b);
    if (!fits && vp_chance(&w->r, 1, 3)) check_all(w, "after growth");
    vp_sig(vp_hash(vp_hash(vp_hash(3, fits), n < 64 ? n : 64 + (n >> 6)), (uint64_t)z + 2 * (c0 == n) + 8 * (uint64_t)x->grown)); vp_count("blocks", 1);
}
static void clear_arena(world *w, int k) {
    ar *x = &w->A[k]; arena_t a = handle(x); size_t c;
    check_all(w, "before clear"); vp_log("t%d clear %d", w->id, k);
    arena_clear(a); drop(w, k); check_all(w, "after clearing another arena");
    c = arena_capacity(a);
    VP_CHECK(c <= arena_total(a), "total", "after clear: capacity %zu exceeds total %zu", c, arena_total(a));
    if (x->grown) VP_CHECK(c > 0, "capacity", "no capacity after clear");
    vp_count("clears", 1); x->grown = x->grown > 0;
    if (c && vp_chance(&w->r, 1, 2)) {        /* what it reports, it can hand out */
        size_t calls = vp_alloc_calls(), part = vp_chance(&w->r, 1, 2) ? c : 2; unsigned char *p; int n = 0;
        for (; n < 40 && c; n++) { size_t q = part < c ? part : c; p = arena_alloc(a, (long)q); if (LEDGER) VP_CHECK(vp_in_live(p, q), "outside", "after clear: a block of %zu of the reported capacity lies outside the memory of the arena", q); memset(p, 0xA7, q); c = arena_capacity(a); part = vp_chance(&w->r, 1, 4) ? c : 2 * (1 + vp_below(&w->r, 2000)); }
        if (w->threads == 1) VP_CHECK(vp_alloc_calls() == calls, "capacity", "the capacity reported after clear was not available");
        check_all(w, "after using the capacity left by clear");
        arena_clear(a); vp_count("capacity_used", 1);
    }
}
static void in_deferred(void *p) { world *w = p; w->fired++; check_all(w, "in a deferred function of an arena scope"); }
static void close_arena(world *w, int k) {
    ar *x = &w->A[k]; int i;
    check_all(w, "before free"); vp_log("t%d free %d", w->id, k);
    if (x->scope) { int d = (int)vp_below(&w->r, 3), f0 = w->fired; for (i = 0; i < d; i++) raii_deferred(x->scope, in_deferred, w);
        free_arena(x->scope); VP_CHECK(w->fired == f0 + d, "deferred", "%d of %d deferred functions of an arena scope ran", w->fired - f0, d); vp_count("scope_deferred", (uint64_t)d); }
    else arena_free(x->a);
    if (LEDGER && w->threads == 1) for (i = 0; i < w->nb; i++) if (w->B[i].a == k) VP_CHECK(!vp_in_live(w->B[i].p, w->B[i].n), "not-freed", "a block of %zu is still in live memory after its arena was freed", w->B[i].n);
    drop(w, k); x->open = 0; check_all(w, "after freeing another arena"); vp_count("frees", 1);
}
static void *run(void *q) {
    world *w = q; int i, k;
    for (i = 0; i < w->ops; i++) {
        k = (int)vp_below(&w->r, NA);
        if (!w->A[k].open) { open_arena(w, k); alloc_one(w, k); }
        else switch (vp_below(&w->r, 24)) { case 0: close_arena(w, k); break; case 1: case 2: clear_arena(w, k); break; case 3: if (w->bytes < 300000) check_all(w, "at rest"); break; default: alloc_one(w, k); if (w->A[k].grown > 9) clear_arena(w, k); }
        if ((i & 15) == 0) vp_beat();
    }
    for (i = 0; i < NA; i++) { k = (i + w->id) % NA; if (w->A[k].open) { if (vp_chance(&w->r, 1, 3)) clear_arena(w, k); close_arena(w, k); } }
    if (w->threads > 1) raii_destroy();
    return NULL;
}
static void drain(void) {     /* takes what is cached for reuse and gives it back */
    arena_t d[64]; int n = 0; size_t calls;
    if (!LEDGER) return;
    do { d[n] = arena_init(0); calls = vp_alloc_calls(); arena_alloc(d[n], 2); n++; } while (vp_alloc_calls() == calls && n < 64);
    while (n) arena_free(d[--n]);
}
void vp_child_init(void) { raii_init(); }
void vp_case(uint64_t seed, uint64_t idx) {
    static world W[4]; vp_rng r = vp_rng_make(seed, idx, 14); int i, n; size_t live0;
    drain(); live0 = vp_live();
#ifdef VP_CONFIG_tsan
    n = 2 + (int)vp_below(&r, 3);
#else
    n = vp_chance(&r, 1, 5) ? 2 + (int)vp_below(&r, 3) : 1;
#endif
    for (i = 0; i < n; i++) { memset(&W[i], 0, sizeof W[i]); W[i].r = vp_rng_make(seed, idx, 1400 + (uint64_t)i); W[i].id = i; W[i].threads = n; W[i].ops = vp_chance(&r, 1, 3) ? 12 : 20 + (int)vp_below(&r, n > 1 ? 60 : 160); }
    if (n == 1) run(&W[0]);
    else { for (i = 0; i < n; i++) if (pthread_create(&W[i].t, 0, run, &W[i])) abort(); for (i = 0; i < n; i++) pthread_join(W[i].t, 0); vp_count("threaded_cases", 1); }
    VP_CHECK(arena_capacity(NULL) == 0 && arena_total(NULL) == 0, "null", "no arena has a capacity");
    arena_clear(NULL); arena_free(NULL); free_arena(NULL);
    drain();
    VP_CHECK(vp_live() == live0, "leak", "%ld blocks remain after every arena was freed", (long)(vp_live() - live0));
    vp_ledger_check();
}
