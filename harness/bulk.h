/* What the programs of prog.c are too small for: scopes with very many entries and very large blocks. */
enum { B_RUN, B_FREE, B_CUSTOM };
typedef struct { unsigned char kind, live, adds, custom; unsigned int size; size_t idx; uint64_t serial; unsigned char *ptr; } bent;
static struct { bent *e; int n, cap, top, *stack, firing, ended, tracked, ran, gone; memory_t *s; int kind; vp_rng *r; size_t bytes; } B;
static void b_add(int kind);
static unsigned char b_pat(int i, size_t at) { return (unsigned char)((size_t)i * 37 + at * 11 + 5); }
static void b_fill(int i) { bent *e = &B.e[i]; size_t k, step = e->size > 4096 ? 61 : 1; for (k = 0; k < e->size; k += step) e->ptr[k] = b_pat(i, k); if (e->size) e->ptr[e->size - 1] = 0x5a; }
static void b_check(int i) {
    bent *e = &B.e[i]; size_t k, step = e->size > 4096 ? 61 : 1;
    for (k = 0; k < e->size; k += step) if (e->ptr[k] != (k == e->size - 1 ? 0x5a : b_pat(i, k))) vp_fail("bulk-changed", "byte %zu of block %d (%u bytes) of %d changed while its scope lives", k, i, e->size, B.n);
    if (e->size && e->ptr[e->size - 1] != 0x5a) vp_fail("bulk-changed", "the last byte of block %d (%u bytes) of %d changed while its scope lives", i, e->size, B.n);
}
/* the entries over the one that is released now: those without a function of ours must have been released */
static void b_pop_silent(int upto) {
    while (B.top) {
        int i = B.stack[B.top - 1]; bent *e = &B.e[i];
        if (e->live && (e->kind != B_FREE || i == upto)) break;
        if (e->live) { e->live = 0; B.gone++; if (B.tracked && vp_block_serial(e->ptr) == e->serial) vp_fail("bulk-kept", "block %d of %d is still allocated when what was added before it is released", i, B.n); }
        B.top--;
    }
}
static int b_released(void *p, int kind) {
    int i;
    if (B.firing >= 0) { i = B.firing; B.firing = -1; }
    else { if (!B.ended) vp_fail("bulk-early", "something is released before its scope ends"); b_pop_silent(-1); if (!B.top) vp_fail("bulk-extra", "something is released after everything was"); i = B.stack[--B.top]; }
    if (B.e[i].kind != kind || (void *)(kind == B_RUN ? (void *)&B.e[i] : (void *)B.e[i].ptr) != p) vp_fail("bulk-order", "entry %d of %d is due, another one is released", i, B.n);
    B.e[i].live = 0;
    return i;
}
static void b_run(void *p) { int i = b_released(p, B_RUN), k; B.ran++; if (!(B.ran & 4095)) vp_beat(); for (k = B.e[i].adds; k > 0; k--) b_add(vp_chance(B.r, 1, 2) ? B_RUN : B_FREE); }
static void b_custom(void *p) { int i = b_released(p, B_CUSTOM); B.gone++; b_check(i); if (B.tracked && vp_block_serial(p) != B.e[i].serial) vp_fail("bulk-twice", "block %d is released but not allocated any more", i); RAII_FREE(p); }
static void b_add(int kind) {
    int i = B.n; bent *e = &B.e[i]; size_t z, k; int zero = vp_chance(B.r, 1, 3), cnt;
    if (B.n >= B.cap) return;
    memset(e, 0, sizeof *e); e->kind = (unsigned char)kind; e->live = 1;
    if (kind == B_RUN) { if (!B.kind && vp_chance(B.r, 1, 2)) e->idx = raii_defer(b_run, e); else e->idx = raii_deferred(B.s, b_run, e); if (vp_chance(B.r, 1, 40)) e->adds = 1 + (unsigned char)vp_below(B.r, 3); }
    else {
        z = vp_below(B.r, 48); if (B.bytes < (96u << 20)) { if (vp_chance(B.r, 1, 300)) z = vp_below(B.r, 70000); if (vp_chance(B.r, 1, 2000)) z = vp_below(B.r, 40u << 20); }
        cnt = z && vp_chance(B.r, 1, 2) ? z % 4 == 0 ? (int)(z / 4) : (int)z : 1; if (kind == B_CUSTOM) cnt = z ? (int)z : 1;
        B.bytes += z; e->size = (unsigned)z;
        if (kind == B_CUSTOM) e->ptr = zero ? calloc_full(B.s, cnt, z / (size_t)cnt, b_custom) : malloc_full(B.s, z, b_custom);
        else if (!B.kind && vp_chance(B.r, 1, 2)) e->ptr = zero ? calloc_default(cnt, z / (size_t)cnt) : malloc_default(z);
        else e->ptr = zero ? calloc_by(B.s, cnt, z / (size_t)cnt) : malloc_by(B.s, z);
        if (!e->ptr) vp_fail("bulk-null", "a request of %zu bytes gave null", z);
        if (B.tracked) { if (!(e->serial = vp_block_serial(e->ptr)) || vp_block_size(e->ptr) < z) vp_fail("bulk-bounds", "a request of %zu bytes gave a block of %zu", z, vp_block_size(e->ptr)); }
        if (zero) for (k = 0; k < z; k++) if (e->ptr[k]) vp_fail("bulk-zero", "byte %zu of a zeroed block of %zu is %d", k, z, e->ptr[k]);
        e->idx = raii_last_mid(B.s); b_fill(i);
    }
    B.stack[B.top++] = i; B.n++;
}
static void b_stop(int fire) { /* some entry that is pending */
    int tries = 20, i = 0, at; bent *e;
    while (tries--) { i = vp_chance(B.r, 1, 3) && B.n > 300 ? B.n - 1 - (int)vp_below(B.r, 300) : (int)vp_below(B.r, (uint32_t)B.n); if (B.e[i].live) break; }
    e = &B.e[i]; if (!e->live) return;
    e->live = 0; at = B.top - 1; if (B.stack[at] == i) B.top--; /* the last one leaves the list, before it runs */
    if (!fire) { if (!B.kind && vp_chance(B.r, 1, 2)) raii_defer_cancel(e->idx); else raii_deferred_cancel(B.s, e->idx); if (e->kind != B_RUN) { b_check(i); RAII_FREE(e->ptr); } }
    else { e->live = 1; B.firing = e->kind == B_FREE ? -1 : i; if (!B.kind && vp_chance(B.r, 1, 2)) raii_defer_fire(e->idx); else raii_deferred_fire(B.s, e->idx); if (B.firing >= 0) vp_fail("bulk-fire", "firing entry %d of %d (index %zu) did not run it", i, B.n, e->idx);
        if (e->kind == B_FREE) { e->live = 0; if (B.tracked && vp_block_serial(e->ptr) == e->serial) vp_fail("bulk-fire", "firing entry %d of %d (index %zu) did not release its block", i, B.n, e->idx); } }
}
static void b_body(int n, int stops, int runs) {
    int i;
    for (i = 0; i < n; i++) {
        if (!(i & 4095)) vp_beat();
        b_add((int)vp_below(B.r, 100) < runs ? B_RUN : vp_chance(B.r, 1, 2) ? B_FREE : B_CUSTOM);
        if ((int)vp_below(B.r, 1000) < stops && B.n) b_stop(vp_chance(B.r, 1, 2));
    }
    for (i = 0; i < B.n; i++) if (B.e[i].live && B.e[i].kind != B_RUN) b_check(i);
    B.ended = 1;
}
EX_EXCEPTION(bulk_end);
static __attribute__((noinline)) int b_guard(int n, int stops, int runs, int how) {
    guard { _assign_ptr(us); B.s = us; b_body(n, stops, runs); if (how == 1) break; if (how == 2) { _return(7); } if (how == 3) throw(bulk_end); } guarded;
    return 0;
}
static void case_bulk(vp_rng *r, int prop) {
    size_t live; int n, stops, runs, how = (int)vp_below(r, 4), i; void *t;
    n = vp_chance(r, 1, 2) ? 200 + (int)vp_below(r, 1000) : vp_chance(r, 4, 5) ? 1000 + (int)vp_below(r, 9000) : 65000 + (int)vp_below(r, 10000);
    stops = prop == 8 ? 1 + (int)vp_below(r, 250) : (int)vp_below(r, 20); runs = prop == 2 ? 5 + (int)vp_below(r, 20) : 60 + (int)vp_below(r, 40);
    memset(&B, 0, sizeof B); B.cap = n * 2 + 100; B.e = calloc((size_t)B.cap, sizeof *B.e); B.stack = calloc((size_t)B.cap, sizeof *B.stack); B.r = r; B.firing = -1; B.kind = (int)vp_below(r, 3);
    t = RAII_MALLOC(8); B.tracked = vp_is_live(t); RAII_FREE(t);
    vp_log("%d entries of a %s, %d of 1000 are cancelled or fired, %d%% functions, ended by way %d", n, B.kind == 0 ? "thread's default scope" : B.kind == 1 ? "smart pointer" : "guard", stops, runs, how);
    raii_deferred_clean(); live = vp_live();
    switch (B.kind) {
        case 0: B.s = raii_init(); b_body(n, stops, runs); if (how & 1) raii_destroy(); else if (how & 2) raii_deferred_free(B.s); else raii_deferred_clean(); break;
        case 1: B.s = unique_init(); b_body(n, stops, runs); raii_delete(B.s); break;
        default: { volatile int caught_it = 0, v = 0; try { v = b_guard(n, stops, runs, how); } catch (bulk_end) { caught_it = 1; } end_try; if (caught_it != (how == 3) || v != (how == 2 ? 7 : 0)) vp_fail("bulk-control", "a guard with %d entries ended in another way", n); }
    }
    b_pop_silent(-1);
    if (B.top) vp_fail("bulk-missing", "%d of %d entries were not released when their scope ended", B.top, B.n);
    for (i = 0; i < B.n; i++) if (B.e[i].live) vp_fail("bulk-missing", "entry %d of %d was not released when its scope ended", i, B.n);
    if (vp_live() != live) vp_fail("leak", "%ld blocks of the library remain after a scope with %d entries ended", (long)(vp_live() - live), B.n);
    vp_count("bulk_scopes", 1); vp_count("bulk_entries", (uint64_t)B.n); vp_count("bulk_deferred_runs", (uint64_t)B.ran); vp_count("bulk_blocks", (uint64_t)B.gone); vp_max("largest_scope", (uint64_t)B.n);
    vp_sig(vp_hash((uint64_t)B.n * 4 + (uint64_t)B.kind, (uint64_t)B.ran));
    free(B.e); free(B.stack);
}
