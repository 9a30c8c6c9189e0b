/* C09: requests for memory fail at chosen places. Half of the cases are random programs (prog.h) with failing
   requests among their statements; the others use the whole interface with any request inside a call failing. */
#include "prog.h"
#include "gen.h"
const vp_config_t vp_cfg = { "C09", 32, 15, 0 };
static const prog_cfg cfg = { .w = { [N_MARK] = 6, [N_THROW] = 3, [N_NOMEM] = 16, [N_TRY] = 14, [N_GUARD] = 14, [N_DEFER] = 14, [N_ALLOC] = 12, [N_UNEW] = 5, [N_UDEL] = 4, [N_CLEAN] = 2, [N_CANCEL] = 1, [N_FIRE] = 1,
    [N_PROTECT] = 6, [N_CALL] = 5 }, .max_depth = 6, .max_stmts = 6, .max_nodes = 260, .throw_in_act = 25, .custom_free = 40, .recover = 45 };
static prog *p;

#define NS 7            /* 0: the default scope; 1-3 smart pointers; 4-6 guards */
#define MAXI 600
typedef struct { int kind, id, n, pat, inarena; char *p; uint64_t serial; } item;
typedef struct { memory_t *m; int live, arena, n, ending; item it[MAXI]; } scope_t;
static scope_t S[NS];
static int depth, next_id, running_scope;
static vp_rng *R;
#define RB(k) ((int)vp_below(R, (uint32_t)(k)))
static char ids[20000];
static unsigned long n_fired, n_panics, n_ops, n_ok, n_run, n_worker;
static uint64_t sig;

static void fill(item *i) { int k; for (k = 0; k < i->n; k++) i->p[k] = (char)(i->pat + k * 7); }
static void verify(int s, int kk) {
    item *i = &S[s].it[kk]; int k;
    if (i->kind) return;
    if (!i->inarena && vp_block_serial(i->p) != i->serial) vp_fail("block-lost", "a block of %d bytes of scope %d is not allocated any more while its scope lives", i->n, s);
    for (k = 0; k < i->n; k++) if (i->p[k] != (char)(i->pat + k * 7)) vp_fail("block-changed", "byte %d of a block of %d bytes of scope %d changed", k, i->n, s);
}
static void verify_all(void) { int s, k; for (s = 0; s < NS; s++) if (S[s].live) for (k = 0; k < S[s].n; k++) verify(s, k); vp_beat(); }
static void add_block(int s, void *q, size_t n, int inarena, int zeroed) {
    item *i; size_t k;
    VP_CHECK(q != NULL, "null", "a request of %zu bytes gave null instead of a panic", n);
    if (!inarena) VP_CHECK(vp_block_size(q) >= n && vp_block_serial(q), "short-block", "a request of %zu bytes gave a block of %zu", n, vp_block_size(q));
    if (zeroed) for (k = 0; k < n; k++) VP_CHECK(!((char *)q)[k], "zero", "byte %zu of zeroed memory is %d", k, ((char *)q)[k]);
    if (S[s].n >= MAXI) abort();
    i = &S[s].it[S[s].n++]; memset(i, 0, sizeof *i); i->p = q; i->n = (int)n; i->pat = RB(256); i->inarena = inarena; i->serial = inarena ? 0 : vp_block_serial(q); fill(i);
}
/* ids[] : 1 pending, 2 has run */
static void ran(void *d) {
    long id = (char *)d - ids; scope_t *z = &S[running_scope]; item *i;
    VP_CHECK(id >= 0 && id < next_id, "argument", "a deferred function got another argument");
    VP_CHECK(ids[id] == 1, "ran-twice", "deferred function %ld runs again", id);
    VP_CHECK(z->ending, "early", "deferred function %ld runs before its scope ends", id);
    while (z->n && !z->it[z->n - 1].kind) { z->n--; if (!z->it[z->n].inarena) VP_CHECK(vp_block_serial(z->it[z->n].p) != z->it[z->n].serial, "order", "a block bound after deferred function %ld is still there when it runs", id); }
    VP_CHECK(z->n > 0, "never-bound", "deferred function %ld runs though deferring it failed", id);
    i = &z->it[--z->n];
    VP_CHECK(i->id == id, "order", "deferred function %ld runs where %d should", id, i->id);
    ids[id] = 2; n_run++;
    { int k; for (k = 0; k < z->n; k++) verify(running_scope, k); }
}
static void ended(int s) {
    scope_t *z = &S[s]; int k;
    for (k = 0; k < z->n; k++) { VP_CHECK(!z->it[k].kind, "missing", "deferred function %d never ran", z->it[k].id); if (!z->it[k].inarena) VP_CHECK(vp_block_serial(z->it[k].p) != z->it[k].serial, "kept", "a block of %d bytes is still allocated after its scope ended", z->it[k].n); }
    z->n = 0; z->live = 0; z->m = NULL; z->ending = 0;
}
static void end_scope(int s) {
    int keep = running_scope;
    for (int k = 0; k < S[s].n; k++) verify(s, k);
    running_scope = s; S[s].ending = 1;
    if (!s) { if (RB(2)) raii_deferred_clean(); else raii_destroy(); } else if (S[s].arena) free_arena(S[s].m); else raii_delete(S[s].m);
    ended(s); if (!s) S[0].live = 1, S[0].m = raii_init();
    running_scope = keep;
}

/* one call of the library with the k-th request inside it failing */
EX_EXCEPTION(late);
typedef struct { int op, s, a, b, arm, sticky, how, done, late; size_t z; int huge; long cnt; void *out; size_t live; int delta; } call;
static char fixed[3000]; static struct args_s fake;
static void arm(call *c) { c->live = vp_live(); c->delta = 0; if (c->arm) vp_fail_at(c->arm, c->sticky); }
static unsigned long seen_total;
static void stop(void) { vp_fail_at(0, 0); }
/* none fails any more once it's disarmed: what failed on whichever thread is counted then */
static int disarm(void) { unsigned long t; int f; stop(); t = vp_fail_total(); f = t != seen_total; seen_total = t; if (f) n_fired++; return f; }
static void same_text(const char *x, const char *y, const char *what) { VP_CHECK(x && !strcmp(x, y), "text", "%s gave \"%.60s\", expected \"%.60s\"", what, x ? x : "(null)", y); }
typedef struct { arena_t a; int n, zero; char *p[40]; int len[40], pat[40]; } free_arena_t;
static free_arena_t A[2];
static void verify_arenas(void) { int i, j, k; for (i = 0; i < 2; i++) if (A[i].a) for (j = 0; j < A[i].n; j++) for (k = 0; k < A[i].len[j]; k++) VP_CHECK(A[i].p[j][k] == (char)(A[i].pat[j] + k), "arena", "byte %d of an arena block of %d changed", k, A[i].len[j]); }
static void body(call *c) {
    scope_t *z = &S[c->s]; memory_t *m = z->m; void *q = NULL; char **parts; int n = 0; args_t g;
    switch (c->op) {
        case 0: c->out = unique_init(); break;
        case 1: c->out = unique_init_arena(); break;
        case 2: q = c->s == 0 && c->b & 1 ? malloc_default(c->z) : c->b & 2 ? malloc_full(m, c->z, RAII_FREE) : malloc_by(m, c->z); c->out = q; break;
        case 3: q = c->s == 0 && c->b & 1 ? calloc_default((int)c->cnt, c->z) : c->b & 2 ? calloc_full(m, (int)c->cnt, c->z, RAII_FREE) : calloc_by(m, (int)c->cnt, c->z); c->out = q; break;
        case 4: switch (c->b & 3) { case 0: raii_deferred(m, (func_t)ran, ids + c->a); break; case 1: if (c->s == 0) raii_defer((func_t)ran, ids + c->a); else raii_deferred(m, (func_t)ran, ids + c->a); break;
                case 2: raii_recover_by(m, (func_t)ran, ids + c->a); break; default: if (c->s == 0) raii_recover((func_t)ran, ids + c->a); else raii_deferred(m, (func_t)ran, ids + c->a); } break;
        case 5: c->out = arena_init((size_t)c->a); break;
        case 6: c->out = c->b & 1 ? arena_calloc(A[c->a].a, c->cnt, (long)c->z) : arena_alloc(A[c->a].a, (long)c->z); break;
        case 7: g = raii_args_for(c->b & 1 ? m : NULL, "sdz", "one", -2, (size_t)3); c->out = g; break;
        case 8: g = args_for("pis", (void *)fixed, 77, "x"); c->out = g; break;
        case 9: switch (c->b % 6) {
            case 0: parts = c->s ? str_split_ex(m, "a,bc,def", ",", &n) : raii_split("a,bc,def", ",", &n); VP_CHECK(parts && n == 3, "text", "split gave %d pieces", n); same_text(parts[0], "a", "split"); same_text(parts[2], "def", "split"); c->out = NULL; break;
            case 1: same_text(raii_concat(3, "ab", "", "cde"), "abcde", "concat"); break;
            case 2: same_text(c->s ? str_replace_ex(m, "a-b-c", "-", "++") : raii_replace("a-b-c", "-", "++"), "a++b++c", "replace"); break;
            case 3: same_text((const char *)(c->s ? str_encode64_ex(m, (u_string_t)"hello") : raii_encode64((u_string_t)"hello")), "aGVsbG8=", "encode"); break;
            case 4: same_text((const char *)(c->s ? str_decode64_ex(m, (u_string_t)"aGVsbG8=") : raii_decode64((u_string_t)"aGVsbG8=")), "hello", "decode"); break;
            default: same_text(c->s ? str_memdup_ex(m, "duplicate", 9) : (char *)raii_memdup("duplicate", 9), "duplicate", "memdup"); break; } break;
        case 10: switch (c->b % 2) {
            case 0: parts = str_split_ex(NULL, "a,bc,def", ",", &n); c->out = parts; VP_CHECK(parts && n == 3, "text", "split gave %d pieces", n); same_text(parts[1], "bc", "split"); break;
            default: c->out = str_replace_ex(NULL, "a-b-c", "-", "++"); same_text(c->out, "a++b++c", "replace"); break; } break;
        case 11: switch (c->b % 3) { case 0: c->out = try_malloc(c->z); break; case 1: c->out = try_calloc((int)c->cnt, c->z); break; default: c->out = try_realloc(NULL, c->z); } break;
        case 12: guard { c->done = -1; } guarded; break;
        case 13: (void)thrd_scope(); break;
    }
    c->done = 1;
}
static int recovered;
static void recoverer(void *d) { const char *m = _get_message(); (void)d; if (m) { recovered = _recover(m) || _is_caught(panic); } }
static __attribute__((noinline)) void in_guard(call *c) { guard { _defer(recoverer, NULL); arm(c); body(c); stop(); } guarded; }
static char name_seen[40]; static int text_seen;
/* 1: it returned, 0: it panicked */
static int attempt(call *c) {
    volatile int caught_it = 0; volatile int in = 0; int f;
    c->done = 0; recovered = 0; name_seen[0] = 0; n_ops++;
    vp_log("op %d scope %d a %d b %d size %zu x %ld, request %d fails%s", c->op, c->s, c->a, c->b, c->z, c->cnt, c->arm, c->sticky ? " and those after it" : "");
    try { if (c->how && c->op != 12) { in = 1; in_guard(c); } else { arm(c); body(c); } stop(); if (c->late && c->done == 1) throw(late); }
    catch (late) { VP_CHECK(c->late && c->done == 1, "late", "an exception nobody threw"); }
    catch_any { caught_it = 1; snprintf(name_seen, sizeof name_seen, "%s", err); text_seen = ex_err.panic != NULL && *ex_err.panic; } end_try;
    f = disarm();
    if (caught_it || recovered) {
        VP_CHECK(f || c->huge, "spurious", "operation %d raised %s though no request failed", c->op, caught_it ? name_seen : "something");
        if (caught_it) { VP_CHECK(!strcmp(name_seen, "panic"), "not-panic", "a failed request raised \"%s\"", name_seen); VP_CHECK(text_seen, "no-text", "a panic without a message"); VP_CHECK(!in, "not-recovered", "a panic left a guard whose deferred function recovered"); }
        VP_CHECK(c->done != 1, "done", "operation %d went on after its panic", c->op);
        n_panics++;
    } else { VP_CHECK(!c->huge, "impossible", "operation %d of %ld times %zu bytes was given memory", c->op, c->cnt, c->z); VP_CHECK(c->done == 1, "swallowed", "operation %d neither completed nor panicked", c->op); n_ok++; }
    sig = vp_hash(sig, (uint64_t)(c->op * 4 + f * 2 + caught_it));
    verify_all(); verify_arenas();
    return !(caught_it || recovered);
}
static void unchanged(call *c, const char *what) { VP_CHECK(vp_live() == c->live, "leak", "%ld blocks more after %s failed", (long)(vp_live() - c->live), what); }
static void fresh(call *c, int op, int s) {
    static const int far[] = { 1, 1, 1, 2, 2, 3, 4 };
    memset(c, 0, sizeof *c); c->op = op; c->s = s; c->b = RB(64); c->z = (size_t)(1 + (RB(6) ? RB(100) : RB(6000))); c->arm = RB(3) ? far[RB(7)] : 0; c->sticky = RB(3) == 0; c->how = RB(3) == 0; c->late = RB(3) == 0; c->cnt = 1;
}
/* no memory is that large, nor count times size */
static unsigned long n_huge;
static void impossible(call *c) {
    int k;
    if (RB(10)) return;
    c->arm = 0; c->huge = 1; n_huge++;
    switch (RB(6)) { case 0: c->z = ((size_t)1 << (33 + RB(29))) + (size_t)RB(5000); break; case 1: c->z = (size_t)LONG_MAX - (size_t)RB(3000); break; case 2: c->z = c->op == 6 ? (size_t)LONG_MAX / 2 - (size_t)RB(3000) : SIZE_MAX - (size_t)RB(3000); break;
        case 3: c->z = c->op == 6 ? (size_t)LONG_MAX : (size_t)LONG_MAX + 1 + (size_t)RB(3000); break;
        default: if (c->op == 2 || (c->op == 6 && !(c->b & 1)) || (c->op == 11 && c->b % 3 != 1)) { c->z = (size_t)LONG_MAX - (size_t)RB(20); break; }
            k = 2 + RB(c->op == 6 ? 50 : 28); c->cnt = 1L << k; c->z = ((size_t)1 << (64 - k)) + (size_t)RB(3) * (size_t)RB(100); if (k < 20 && c->op == 6 && RB(2)) c->z >>= 1; }
}
static int pick(void) { int k, t; for (t = 0; t < 10; t++) { k = RB(NS); if (S[k].live && !S[k].ending) return k; } return 0; }
static void ops(int n);
static __attribute__((noinline)) void guard_body(volatile int s, volatile int n, volatile int guard_boom) {
    guard {
        _assign_ptr(us); S[s].m = us; S[s].live = 1; S[s].arena = 0; S[s].n = 0;
        ops(n);
        for (int k = 0; k < S[s].n; k++) verify(s, k);
        S[s].ending = 1; running_scope = s;
        if (guard_boom) { call c; fresh(&c, 11, 0); c.arm = 1; c.how = 0; vp_fail_at(1, c.sticky); try_malloc(c.z); vp_fail("swallowed", "try_malloc returned"); }
    } guarded;
}
/* ---- threads */
static char wdone[64]; static int wpending, wruns; static unsigned long wfail;
static void wran(void *d) { *(char *)d += 1; }
static void *worker(args_t a) {
    volatile int k; int v = 5; char *q;
    k = (int)(intptr_t)a & 15;
    __atomic_add_fetch(&wpending, 1, __ATOMIC_SEQ_CST);
    raii_defer((func_t)wran, &wdone[k]);
    __atomic_add_fetch(&wruns, 1, __ATOMIC_SEQ_CST);
    q = malloc_default(40); memset(q, k, 40);
    if (k & 1) { guard { char *g = _malloc(20); memset(g, k, 20); v = g[19]; } guarded; VP_CHECK(v == k, "worker", "a worker's block changed"); }
    if (k & 2) { int n = 0; char **s = raii_split("1,2,3", ",", &n); v = atoi(s[2]); VP_CHECK(v == 3 && n == 3, "worker", "split in a worker"); }
    if (k & 4) { char *o = try_malloc(16); memset(o, 'a' + k, 16); return thrd_returning(&fake, o, 16); }
    VP_CHECK(q[39] == k, "worker", "a worker's block changed");
    return (void *)(intptr_t)(100 + k);
}
static int ex_made, ex_seen; static size_t ex_unread;
static void *worker_ex(args_t a) {
    __atomic_add_fetch(&ex_seen, 1, __ATOMIC_SEQ_CST);
    volatile int try1, ok = 0; volatile int v = 0;
    for (try1 = 0; try1 < 2 && !ok; try1++) { try { v = get_args(a, 0).integer; ok = 1; } catch (panic) { __atomic_add_fetch(&wfail, 1, __ATOMIC_SEQ_CST); } end_try; }
    if (!ok) { args_free(a); return (void *)1; }
    return (void *)(intptr_t)(v + args_in(a, 1).integer);
}
static volatile int vfired;
static void check_workers(int from) { int i; VP_CHECK(wruns >= from, "worker", "lost count"); { int sum = 0; for (i = 0; i < 64; i++) { sum += wdone[i]; wdone[i] = 0; } VP_CHECK(sum == wruns, "worker-deferred", "%d functions deferred in ended workers, %d ran", wruns, sum); } wruns = wpending = 0; }
static __attribute__((noinline)) void futures(void) {
    future f; volatile int got = 0, thrown = 0, k = 1 + RB(15), started = 0; int fired = 0; volatile int a = RB(3) ? 1 + RB(8) : 0;
    future volatile fv = NULL;
    try { if (a) vp_fail_at(a, RB(4) == 0); f = thrd_async(worker, (void *)(intptr_t)(k | 16)); fv = f; started = 1; }
    catch (panic) { thrown = 1; } end_try;
    if (!started) { fired = disarm(); VP_CHECK(fired && thrown, "spurious", "thrd_async raised though no request failed"); n_panics++; VP_CHECK(!wpending, "worker", "a worker runs though thrd_async panicked"); return; }
    try { values_type v = thrd_get(fv); got = 1;
        if (k & 4) VP_CHECK(*(char *)v.object == 'a' + k, "worker", "a worker's object changed"); else VP_CHECK(v.integer == 100 + k, "worker", "a worker's value changed: %d", v.integer);
    } catch_any { thrown = !strcmp(err, "panic"); VP_CHECK(ex_err.panic && *ex_err.panic, "no-text", "a panic of a worker without a message"); } end_try;
    fired = disarm();
    VP_CHECK(got || (thrown && fired), "worker", "thrd_get raised something else than the failed request of its worker");
    n_worker++; if (!got) { n_panics++; }
    check_workers(0);
}
static __attribute__((noinline)) void spawns(void) {
    future_t volatile pool = NULL; result_t id[12]; int val[12]; volatile int i, n = 0, want = 1 + RB(12), ok, ex; volatile int any = 0; int fired;
    volatile int part;
    try { if (RB(2)) vp_fail_at(1 + RB(4), 0); pool = thrd_scope(); } catch (panic) { pool = NULL; } end_try;
    fired = disarm(); if (!pool) { VP_CHECK(fired, "spurious", "thrd_scope raised though no request failed"); n_panics++; return; }
    part = RB(3);
    for (i = 0; i < want; i++) {
        ok = 0; ex = RB(3) == 0;
        try { if (RB(2)) vp_fail_at(1 + RB(7), RB(5) == 0);
            id[n] = ex ? thrd_spawn_ex(worker_ex, "ii", (int)i, 1000) : thrd_spawn(worker, (void *)(intptr_t)((i & 15) | 16)); ok = 1; }
        catch (panic) { ok = 0; } end_try;
        if (part == 0) fired = disarm(); else fired = vp_fail_total() != seen_total;
        if (fired) any = 1;
        if (ok) { if (ex) ex_made++; val[n] = ex ? 1000 + i : (i & 4) ? -(i & 15) - 1 : 100 + (i & 15); n++; } else { VP_CHECK(fired, "spurious", "thrd_spawn raised though no request failed"); n_panics++; }
    }
    for (part = 0; ; part++) {
        volatile int raised = 0; ok = 0;
        if (part > 20) vp_fail("sync", "thrd_sync raises for ever");
        try { if (part == 0 && RB(2)) vp_fail_at(1 + RB(2 * want), 0); thrd_sync(pool); ok = 1; } catch (panic) { raised = 1; VP_CHECK(ex_err.panic && *ex_err.panic, "no-text", "a panic of a worker without a message"); } end_try;
        if (disarm()) any = 1;
        VP_CHECK(ok || raised, "sync", "thrd_sync ended with something else");
        if (ok) break;
        VP_CHECK(any, "spurious", "thrd_sync raised though no request failed"); n_panics++;
    }
    for (i = 0; i < n; i++) {
        values_type v = thrd_result(id[i]);
        /* a worker that panicked has no value */
        if (val[i] < 0) VP_CHECK(!v.object ? any : *(char *)v.object == 'a' - 1 - val[i], "worker", "the object of worker %d changed", i);
        else VP_CHECK(v.integer == val[i] || (any && (!v.object || v.integer == 1)), "worker", "the value of worker %d is %d, expected %d", i, v.integer, val[i]);
    }
    thrd_destroy(pool); ex_unread += (size_t)(ex_made - ex_seen); VP_CHECK(any || ex_made == ex_seen, "worker", "a worker never ran"); ex_made = ex_seen = 0; n_worker += (unsigned long)n; check_workers(0);
}
static void ops(int n) {
    call c; int s, i;
    for (; n > 0; n--) {
        switch (RB(18)) {
            case 0: case 1: for (s = 1; s <= 3 && S[s].live; s++) {} if (s > 3) break;
                fresh(&c, RB(3) == 0, 0); if (attempt(&c)) { S[s].m = c.out; S[s].live = 1; S[s].arena = c.op; S[s].n = 0; } else if (!c.how) unchanged(&c, "making a scope"); break;
            case 2: case 3: case 4: s = pick(); if (S[s].n > MAXI - 40) break; fresh(&c, 2 + RB(2), s); impossible(&c);
                if (attempt(&c)) add_block(s, c.out, c.z, S[s].arena && !(c.b & 2), c.op == 3); break;
            case 5: case 6: case 7: s = pick(); if (S[s].n > MAXI - 40 || next_id > (int)sizeof ids - 100) break;
                for (i = RB(4) ? 1 : 1 + RB(33); i > 0; i--) {
                    fresh(&c, 4, s); c.a = next_id; ids[next_id++] = 1; if (i > 1 && RB(3)) c.arm = 0;
                    if (attempt(&c)) { item *t = &S[s].it[S[s].n++]; memset(t, 0, sizeof *t); t->kind = 1; t->id = c.a; } else ids[c.a] = 3;
                } break;
            case 8: s = 1 + RB(3); if (S[s].live && !S[s].ending) end_scope(s); break;
            case 9: i = RB(2); if (A[i].a) { if (RB(2)) { arena_clear(A[i].a); A[i].n = 0; } else { arena_free(A[i].a); A[i].a = NULL; A[i].n = 0; } break; }
                fresh(&c, 5, 0); c.a = RB(12); if (attempt(&c)) { A[i].a = c.out; A[i].n = 0; } else if (!c.how) unchanged(&c, "arena_init"); break;
            case 10: case 11: i = RB(2); if (!A[i].a || A[i].n >= 38) break; fresh(&c, 6, 0); c.a = i; if (RB(2)) c.z = (size_t)(1 + RB(20000)); impossible(&c);
                if (attempt(&c)) { int k, j = A[i].n++; VP_CHECK(c.out != NULL, "null", "an arena request gave null"); A[i].p[j] = c.out; A[i].len[j] = (int)c.z; A[i].pat[j] = RB(256);
                    if (c.b & 1) for (k = 0; k < (int)c.z; k++) VP_CHECK(!A[i].p[j][k], "zero", "byte %d of zeroed arena memory is not", k);
                    for (k = 0; k < (int)c.z; k++) A[i].p[j][k] = (char)(A[i].pat[j] + k); verify_arenas(); }
                else if (!c.how) unchanged(&c, "an arena request"); break;
            case 12: s = pick(); fresh(&c, 7 + RB(2), s); 
                if (attempt(&c)) { args_t g = c.out; volatile int ok = 0; int f; volatile int x = 0;
                    try { if (RB(2)) vp_fail_at(1, 0); x = raii_get_args(c.op == 7 && c.b & 1 ? S[s].m : NULL, g, 1).integer; ok = 1; } catch (panic) {} end_try;
                    f = disarm(); VP_CHECK(ok || f, "spurious", "reading an argument raised though no request failed");
                    if (ok) VP_CHECK(x == (c.op == 7 ? -2 : 77), "args", "an argument is %d", x);
                    else { n_panics++; if (RB(2)) VP_CHECK(get_args(g, 1).integer == (c.op == 7 ? -2 : 77), "args", "an argument changed"); else args_free(g); } }
                else if (!c.how) unchanged(&c, "making a container"); break;
            case 13: s = pick(); if (S[s].n > MAXI - 40) break; fresh(&c, 9, s); attempt(&c); break;
            case 14: fresh(&c, 10 + RB(3), 0); if (c.op == 12) c.how = 0; if (c.op == 11) impossible(&c); if (attempt(&c)) { if (c.op != 12) RAII_FREE(c.out); } else if (!c.how) unchanged(&c, "an unbound request"); break;
            case 15: if (depth >= 3) break; depth++; { volatile int boom = RB(3) == 0; volatile int thrown = 0; int keep = running_scope;
                try { guard_body(3 + depth, RB(8), boom); } catch (panic) { thrown = 1; } end_try; vp_log("guard ended");
                if (disarm()) { VP_CHECK(boom, "spurious", "a request failed unarmed"); } VP_CHECK(thrown == boom, "guard", "a guard ended %s a panic", thrown ? "with" : "without"); ended(3 + depth); running_scope = keep; } depth--; break;
            case 16: if (RB(2)) futures(); else spawns(); break;
            case 17: if (RB(5) == 0 && !depth) end_scope(0); break;
        }
    }
}
static void drain(void) {     /* takes the chunks the arenas cache for reuse and gives them back */
    arena_t d[64]; int n = 0; size_t calls;
    do { d[n] = arena_init(0); calls = vp_alloc_calls(); arena_alloc(d[n], 2); n++; } while (vp_alloc_calls() == calls && n < 64);
    while (n) arena_free(d[--n]);
}
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 9); size_t live; int n, tries = 0, s;
    R = &r;
    if (!p) p = prog_new();
    if (idx % 2) {
        do { prog_gen(p, &r, &cfg); prog_model(p); n = prog_events(p); } while (n < 0 && ++tries < 20);
        if (n < 0) return;
        prog_dump(p); live = vp_live(); prog_run(p);
        VP_CHECK(vp_live() == live, "leak", "%ld blocks of the library remain after every scope ended", (long)(vp_live() - live));
        vp_ledger_check(); prog_flush(p, 9); return;
    }
    raii_destroy(); drain(); live = vp_live(); seen_total = vp_fail_total();
    memset(S, 0, sizeof S); memset(A, 0, sizeof A); next_id = 0; memset(ids, 0, sizeof ids); depth = 0; sig = 5; ex_unread = 0; n_huge = n_fired = n_panics = n_ops = n_ok = n_run = n_worker = wfail = 0; wruns = wpending = 0; memset(wdone, 0, sizeof wdone);
    S[0].live = 1; S[0].m = raii_init(); running_scope = 0;
    ops(10 + RB(70));
    for (s = 1; s <= 3; s++) if (S[s].live) end_scope(s);
    end_scope(0);
    for (s = 0; s < 2; s++) if (A[s].a) arena_free(A[s].a);
    raii_destroy(); drain();
    /* a container nobody read (its worker got no memory to start with) stays */
    VP_CHECK(vp_live() == live + 2 * ex_unread, "leak", "%ld blocks remain after every scope ended", (long)(vp_live() - live));
    vp_ledger_check();
    vp_sig(sig); vp_count("calls", n_ops); vp_count("failed_requests", n_fired); vp_count("panics", n_panics); vp_count("impossible_sizes", n_huge); vp_count("completed", n_ok); vp_count("deferred_ran", n_run); vp_count("workers", n_worker); vp_count("worker_reads_failed", wfail);
}
