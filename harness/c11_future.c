/* C11 (PROP 11): futures; C12 (PROP 12): thread scopes. Workers report what they did, the caller must see exactly that. */
#include <pthread.h>
#include <sched.h>
#include "raii.h"
#include "gen.h"
#ifndef PROP
#define PROP 11
#endif
#if PROP == 11
const vp_config_t vp_cfg = { "C11", 8, 20, 0 };
#else
const vp_config_t vp_cfg = { "C12", 8, 20, 0 };
#endif
#ifdef VP_CONFIG_tsan
#define LEDGER 0
#define vp_live() ((size_t)0)
#define vp_ledger_check() ((void)0)
#define vp_is_live(p) 1
#define vp_in_live(p, n) 1
#define vp_block_serial(p) ((uint64_t)0)
#else
#define LEDGER 1
#endif
EX_EXCEPTION(we0); EX_EXCEPTION(we1); EX_EXCEPTION(we2);
static const char *const XN[] = { "we0", "we1", "we2", "division_by_zero", "out_of_memory", "panic" };
static const char *const MS[] = { "worker went wrong", "", "a longer text that tells what the worker was doing when it stopped, at some length", "%s %d" };
enum { VAL, NUL, OBJ, OBJ_VAL, OBJ_TWICE, THROW, PANIC, OBJ_THROW, CAUGHT, GUARDED, SUB, SUB_THROW, DEF_ONLY, NB };
static const char *const BN[] = { "value", "null", "object", "object dropped", "object twice", "throw", "panic", "object then throw", "caught inside", "recovered inside", "own futures", "own future throws", "defer" };
enum { A_NULL, A_TASK, A_ARGS };
extern void vp_noise(void); extern unsigned vp_noise_seed; extern void vp_thrd_fail_at(int n);
typedef struct task {
    int id, behave, form, gate, nargs; struct task *after; uint64_t value; size_t osize; uint64_t oseed; int ex, msg, ndef, nalloc, reads, presleep;
    args_t args; uint64_t args_serial; pthread_t caller;
    uint64_t argv[6];
    /* written by the worker */
    int runs, same_thread, started, finished, def_run, def_order_bad, bad_arg; uint64_t serial[6]; void *blk[6]; int open; void *orig;
    uint64_t extra; struct world *w;
} task;
typedef struct world { vp_rng r; int id, thread; task T[48]; int n; pthread_t t; task *null_task; uint64_t sig; } world;
#define LOADA(x) __atomic_load_n(&(x), __ATOMIC_RELAXED)
#define STOREA(x, v) __atomic_store_n(&(x), v, __ATOMIC_RELAXED)
#define ADDA(x) __atomic_add_fetch(&(x), 1, __ATOMIC_RELAXED)

static unsigned char pat(uint64_t s, size_t i) { return (unsigned char)((s >> ((i & 7) * 8)) + i * 29); }
static void deferred(void *p) { task *t = p; ADDA(t->def_run); vp_noise(); }
static void recovering(void *p) { task *t = p; ADDA(t->def_run); if (!_recover(_get_message())) ADDA(t->bad_arg); }
static void stop_with(int ex, int msg) {
    switch (ex) { case 0: throw(we0); break; case 1: throw(we1); break; case 2: throw(we2); break; case 3: throw(division_by_zero); break; case 4: throw(out_of_memory); break; default: raii_panic(msg < 0 ? NULL : MS[msg]); }
}
static void *make_obj(size_t n, uint64_t seed) { size_t i; unsigned char *o = try_calloc(1, n); for (i = 0; i < n; i++) { if (o[i]) vp_fail("zero", "memory requested zeroed is not"); o[i] = pat(seed, i); } return o; }
static void in_guard(task *t) {
    guard {
        char *m = _malloc(40); memset(m, 7, 40); _defer(deferred, t); _defer(recovering, t);
        vp_noise(); stop_with(t->ex, t->msg);
    } guarded;
}
static void in_try(task *t) {
    static const char *const pm = "panic"; volatile int seen = 0; (void)pm;
    try { char *m = malloc_default(24); memset(m, 3, 24); vp_noise(); stop_with(t->ex, t->msg); }
    catch_any { seen = !strcmp(err, XN[t->ex]); } finally { ADDA(t->def_run); } end_try;
    if (!seen) ADDA(t->bad_arg);
}
typedef struct { uint64_t v; task *t; int stop, msg; } sub;
static void *sub_worker(args_t a) { sub *q = (sub *)a; task *t = q->t; void *m = malloc_default(33); memset(m, 1, 33); raii_defer((func_t)deferred, t); vp_noise(); if (q->stop) stop_with(t->ex, t->msg); return thrd_value((void *)(uintptr_t)(q->v * 3)); }
static uint64_t subs(task *t) {
    sub q[3]; future f[3]; int i, n = 1 + (int)(t->extra % 3); uint64_t s = 0;
    for (i = 0; i < n; i++) { q[i].v = t->extra + (uint64_t)i; q[i].t = t; q[i].stop = 0; f[i] = thrd_async(sub_worker, &q[i]); }
    for (i = n; i-- > 0; ) s += thrd_get(f[i]).max_size;
    if (t->behave == SUB_THROW) { q[0].stop = 1; thrd_get(thrd_async(sub_worker, &q[0])); ADDA(t->bad_arg); }
    return s;
}
static uint64_t subs_want(task *t) { int i, n = 1 + (int)(t->extra % 3); uint64_t s = 0; for (i = 0; i < n; i++) s += (t->extra + (uint64_t)i) * 3; return s; }
static void *work(task *t, args_t a) {
    int i; void *o = NULL; raii_values_t *res = NULL, *first;
    ADDA(t->runs); if (pthread_equal(pthread_self(), t->caller)) STOREA(t->same_thread, 1);
    STOREA(t->started, 1); vp_noise();
    if (t->form == A_ARGS) { t->args = a; t->args_serial = vp_block_serial(a); }
    if (t->form == A_ARGS) for (i = 0; i < t->reads; i++) { int k = 1 + i % t->nargs; uint64_t got = (i & 1) ? get_args(a, k).max_size : raii_get_args(NULL, a, k).max_size; if (got != t->argv[k]) ADDA(t->bad_arg); }
    for (i = 0; i < t->ndef; i++) raii_defer((func_t)deferred, t);
    for (i = 0; i < t->nalloc; i++) { size_t n = 16 + (size_t)i * 100; char *m = i & 1 ? calloc_default(1, n) : malloc_default(n); memset(m, i, n); t->blk[i] = m; t->serial[i] = vp_block_serial(m); }
    if (t->gate == 1) while (!__atomic_load_n(&t->open, __ATOMIC_ACQUIRE)) sched_yield();
    if (t->after) while (!LOADA(t->after->finished)) sched_yield();
    if (t->presleep) usleep((useconds_t)t->presleep);
    switch (t->behave) {
        case CAUGHT: in_try(t); break;
        case GUARDED: in_guard(t); break;
        case SUB: case SUB_THROW: t->value = subs_want(t); { uint64_t got; if (t->behave == SUB_THROW) STOREA(t->finished, 1); got = subs(t); if (got != t->value) ADDA(t->bad_arg); } break;
        case OBJ: case OBJ_VAL: case OBJ_THROW: o = make_obj(t->osize, t->oseed); res = thrd_returning(a, o, t->osize); break;
        case OBJ_TWICE: first = thrd_returning(a, make_obj(t->osize / 2 + 1, 1), t->osize / 2 + 1); (void)first; o = make_obj(t->osize, t->oseed); res = thrd_returning(a, o, t->osize); break;
        default: break;
    }
    t->orig = o; vp_noise(); STOREA(t->finished, 1);
    switch (t->behave) {
        case NUL: return NULL;
        case OBJ: case OBJ_TWICE: return res;
        case THROW: case PANIC: case OBJ_THROW: stop_with(t->ex, t->msg); ADDA(t->bad_arg); return NULL;
        default: return thrd_value((void *)(uintptr_t)t->value);
    }
}
static task *volatile null_slot[4];
static void *w_task(args_t a) { return work((task *)a, a); }
static void *w_args(args_t a) { return work((task *)args_in(a, 0).object, a); }
static void *w_null0(args_t a) { if (a) vp_fail("argument", "a null argument became %p", (void *)a); return work(null_slot[0], a); }
static void *w_null1(args_t a) { if (a) vp_fail("argument", "a null argument became %p", (void *)a); return work(null_slot[1], a); }
static void *w_null2(args_t a) { if (a) vp_fail("argument", "a null argument became %p", (void *)a); return work(null_slot[2], a); }
static void *w_null3(args_t a) { if (a) vp_fail("argument", "a null argument became %p", (void *)a); return work(null_slot[3], a); }
static const thrd_func_t w_null[] = { w_null0, w_null1, w_null2, w_null3 };
static int throws(const task *t) { return t->behave == THROW || t->behave == PANIC || t->behave == OBJ_THROW || t->behave == SUB_THROW; }
static int gives_obj(const task *t) { return t->behave == OBJ || t->behave == OBJ_TWICE; }
static task *new_task(world *w) {
    vp_rng *r = &w->r; task *t = &w->T[w->n]; int i; memset(t, 0, sizeof *t);
    t->id = w->n; t->w = w; t->caller = pthread_self(); t->form = (int)vp_below(r, 3); if (t->form == A_NULL && w->null_task) t->form = A_TASK;
    do t->behave = (int)vp_below(r, NB); while ((t->behave == OBJ || t->behave == OBJ_VAL || t->behave == OBJ_TWICE || t->behave == OBJ_THROW) && t->form != A_ARGS);
    if (t->form == A_NULL) { w->null_task = t; null_slot[w->id] = t; }
    t->value = gen_u64(r); if (t->behave == VAL && vp_chance(r, 1, 6)) t->value = 0; if (t->behave == NUL) t->value = 0; t->extra = gen_u64(r);
    t->osize = 1 + (vp_chance(r, 1, 4) ? vp_below(r, 5000) : vp_below(r, 64)); if (vp_chance(r, 1, 4)) t->osize = sizeof(values_type) * (1 + vp_below(r, 3)); t->oseed = vp_next(r);
    if (vp_chance(r, 1, 50)) { t->osize = 60000 + vp_below(r, 200000); if (vp_chance(r, 1, 8)) t->osize = 1000000 + vp_below(r, 3000000); }
    t->ex = t->behave == PANIC ? 5 : (int)vp_below(r, 6); t->msg = (int)vp_below(r, 5) - 1;
    t->ndef = vp_chance(r, 1, 2) ? (int)vp_below(r, 4) : 0; t->nalloc = vp_chance(r, 1, 2) ? (int)vp_below(r, 6) : 0; t->presleep = vp_chance(r, 1, 3) ? (int)vp_below(r, 200) : 0;
    t->nargs = 1 + (int)vp_below(r, 4); t->reads = vp_chance(r, 2, 3) ? 1 + (int)vp_below(r, 6) : 0; for (i = 1; i < 6; i++) t->argv[i] = vp_next(r);
    w->n++;
    return t;
}
static const char *const FM[] = { "p", "pz", "pzz", "pzzz", "pzzzz" };
static void make_args(task *t) {
    if (t->form != A_ARGS) return;
    t->args = vp_chance(&t->w->r, 1, 2) ? args_for(FM[t->nargs], t, t->argv[1], t->argv[2], t->argv[3], t->argv[4]) : raii_args_for(NULL, FM[t->nargs], t, t->argv[1], t->argv[2], t->argv[3], t->argv[4]);
}
static int defs_want(const task *t) { int n = t->ndef; switch (t->behave) { case CAUGHT: n += 1; break; case GUARDED: n += 2; break; case SUB: n += 1 + (int)(t->extra % 3); break; case SUB_THROW: n += 2 + (int)(t->extra % 3); break; } return n; }
/* everything of the worker is over */
static void over(task *t, const char *when) {
    int i;
    VP_CHECK(LOADA(t->runs) == 1, "runs", "%s: the function of call %d ran %d times", when, t->id, LOADA(t->runs));
    VP_CHECK(!LOADA(t->same_thread), "same-thread", "%s: the function of call %d ran on the calling thread", when, t->id);
    VP_CHECK(LOADA(t->finished), "not-finished", "%s: the function of call %d (%s) has not finished", when, t->id, BN[t->behave]);
    VP_CHECK(!LOADA(t->bad_arg), "argument", "%s: call %d (%s) saw a wrong argument or a wrong value inside", when, t->id, BN[t->behave]);
    VP_CHECK(LOADA(t->def_run) == defs_want(t), "deferred", "%s: %d of the %d deferred functions of call %d (%s) have run", when, LOADA(t->def_run), defs_want(t), t->id, BN[t->behave]);
    if (LEDGER) { for (i = 0; i < t->nalloc; i++) VP_CHECK(vp_block_serial(t->blk[i]) != t->serial[i], "worker-memory", "%s: memory of the worker of call %d is still there", when, t->id);
        if (t->form == A_ARGS && t->reads) VP_CHECK(vp_block_serial(t->args) != t->args_serial, "worker-args", "%s: the arguments of call %d are still there", when, t->id); }
}
static void free_args(task *t) { if (t->form == A_ARGS && !t->reads) { args_free(t->args); t->args = NULL; } }
static void check_exc(task *t, const char *name, const char *msg, const char *when) {
    VP_CHECK(throws(t), "raised", "%s: call %d (%s) ended normally, %s was raised", when, t->id, BN[t->behave], name);
    VP_CHECK(!strcmp(name, XN[t->ex]), "exception", "%s: call %d raised %s, the caller got %s", when, t->id, XN[t->ex], name);
    if (t->ex == 5) VP_CHECK(t->msg < 0 ? !msg : msg && !strcmp(msg, MS[t->msg]), "message", "%s: the panic of call %d came with '%s' instead of '%s'", when, t->id, msg ? msg : "(none)", t->msg < 0 ? "(none)" : MS[t->msg]);
    vp_count("raised_in_caller", 1);
}
static void check_obj(task *t, const void *p, const char *when) { size_t i; const unsigned char *o = p; VP_CHECK(o != NULL, "object", "%s: no object from call %d", when, t->id); if (LEDGER) VP_CHECK(vp_in_live(o, t->osize), "object", "%s: the object of call %d does not lie in live memory", when, t->id); for (i = 0; i < t->osize; i++) VP_CHECK(o[i] == pat(t->oseed, i), "object", "%s: byte %zu of %zu of the object of call %d differs", when, i, t->osize, t->id); vp_count("objects", 1); }
static void *opener(void *p) { world *w = p; int i; vp_rng r = w->r; for (i = 0; i < w->n; i++) { if (vp_chance(&r, 1, 3)) usleep(vp_below(&r, 150)); __atomic_store_n(&w->T[i].open, 1, __ATOMIC_RELEASE); } return NULL; }
static void chain(world *w) {        /* some calls end only after another one did, whatever the order of asking */
    int i, j, perm[48]; task *before = NULL;
    for (i = 0; i < w->n; i++) perm[i] = i;
    for (i = w->n - 1; i > 0; i--) { j = (int)vp_below(&w->r, (uint32_t)i + 1); { int x = perm[i]; perm[i] = perm[j]; perm[j] = x; } }
    for (i = 0; i < w->n; i++) { task *t = &w->T[perm[i]]; if (vp_chance(&w->r, 1, 2)) { t->after = before; before = t; } }
}
static void my_yield(void) { vp_count("own_yields", 1); sched_yield(); }
static volatile int left_n[4];
static void left(void *p) { world *w = p; if (_recover(_get_message())) left_n[w->id]++; }
#if PROP == 11
static void fetch(world *w, task *t, future f, int how);
static task *G_t[4]; static future G_f[4]; static int G_id[4];
static __thread int me;
static void got_in_guard(void *p) { world *w = p; task *t = G_t[w->id]; const char *m = _get_message(); VP_CHECK(m != NULL && (t->ex == 5 && t->msg >= 0 ? !strcmp(m, MS[t->msg]) : !strcmp(m, XN[t->ex])), "exception", "the deferred function of the caller sees '%s'", m ? m : "(none)"); if (!_recover(m)) vp_fail("recover", "'%s' is not recovered", m); vp_count("recovered_by_caller", 1); }
static void plain_defer(void *p) { (*(int *)p)++; }
static void fetch_guarded(world *w, task *t, future f) {
    static volatile int after[4], d[4]; after[w->id] = d[w->id] = 0; G_t[w->id] = t; G_f[w->id] = f;
    guard {
        _defer(plain_defer, (void *)&d[w->id]);
        if (throws(t)) _defer(got_in_guard, w);
        { values_type v = thrd_get(G_f[w->id]); after[w->id] = 1; VP_CHECK(!throws(G_t[w->id]), "not-raised", "call %d raised nothing in the caller", G_t[w->id]->id); if (gives_obj(G_t[w->id])) check_obj(G_t[w->id], v.object, "get in a guard"); else VP_CHECK(v.max_size == G_t[w->id]->value, "value", "call %d (%s) gave %#zx instead of %#llx", G_t[w->id]->id, BN[G_t[w->id]->behave], v.max_size, (unsigned long long)G_t[w->id]->value); }
    } guarded;
    VP_CHECK(after[w->id] == !throws(t), "flow", "statements after the call to get ran: %d", after[w->id]);
    VP_CHECK(d[w->id] == 1, "caller-deferred", "the caller's deferred function ran %d times", d[w->id]);
}
static void fetch(world *w, task *t, future f, int how) {
    values_type *volatile v = malloc(sizeof *v); volatile int exc = 0, normal = 0;
    if (how == 2) { free(v); fetch_guarded(w, t, f); over(t, "after get in a guard"); vp_count("gets", 1); return; }
    try { values_type x = thrd_get(f); memcpy(v, &x, sizeof x); normal = 1; }
    catch_any { exc = 1; check_exc(t, err, ex_err.panic, "get"); } end_try;
    VP_CHECK(exc + normal == 1, "flow", "get of call %d neither returned nor raised", t->id);
    if (normal) {
        VP_CHECK(!throws(t), "not-raised", "call %d (%s) raised %s, get returned", t->id, BN[t->behave], XN[t->ex]);
        if (gives_obj(t)) { check_obj(t, v->object, "get"); t->blk[5] = v->object; t->nalloc = t->nalloc > 5 ? 5 : t->nalloc; }
        else VP_CHECK(v->max_size == t->value, "value", "call %d (%s) gave %#zx instead of %#llx", t->id, BN[t->behave], v->max_size, (unsigned long long)t->value);
        vp_count("values", 1);
    }
    free(v); over(t, "after get"); vp_count("gets", 1); w->sig = vp_hash(w->sig, (uint64_t)t->behave * 4 + (uint64_t)t->form + 64 * (uint64_t)t->ex);
}
/* calls begun in a protected block that an exception then leaves */
static future call_now(world *w, task *t) { return thrd_async(t->form == A_NULL ? w_null[w->id] : t->form == A_ARGS ? w_args : w_task, t->form == A_NULL ? NULL : t->form == A_ARGS ? (void *)t->args : (void *)t); }
static future *volatile new_f[4]; static task *volatile new_t[4];
static void call_guarded(world *w) { guard { _defer(left, w); *new_f[w->id] = call_now(w, new_t[w->id]); throw(we0); } guarded; }
static future started(world *w, task *t) {
    static future F[4]; int how = (int)vp_below(&w->r, 8); future *volatile f = &F[w->id]; volatile int got = 0; *f = NULL;
    switch (how) {
        case 0: try { *f = call_now(w, t); throw(we1); } catch (we1) { got = 1; } end_try; break;
        case 1: try { try { *f = call_now(w, t); } finally { got++; } end_try; throw(we2); } catch (we2) { got++; } end_try; got = got == 2; break;
        case 2: new_f[w->id] = f; new_t[w->id] = t; left_n[w->id] = 0; call_guarded(w); got = left_n[w->id] == 1; break;
        default: *f = call_now(w, t); return *f;
    }
    VP_CHECK(got, "left", "an exception thrown after a call began was lost"); vp_count("begun_in_left_block", 1);
    return *f;
}
static void round_(world *w) {
    future F[48]; int i, k, n = vp_chance(&w->r, 1, 4) ? 1 : 1 + (int)vp_below(&w->r, 8), order[48], failed = -1; pthread_t op; void *objs[48]; int no = 0;
    w->n = 0; w->null_task = NULL;
    for (i = 0; i < n; i++) { task *t = new_task(w); t->nalloc = t->nalloc > 5 ? 5 : t->nalloc; t->gate = vp_chance(&w->r, 1, 2); }
    chain(w);
    for (i = 0; i < n; i++) {
        task *t = &w->T[i]; int fail = w->thread == 0 && vp_chance(&w->r, 1, 40) && i == n - 1; volatile int got = 0;
        make_args(t);
        vp_log("w%d call %d: %s (%s, %s), %d deferred, %d blocks%s%s", w->id, i, BN[t->behave], t->form == A_NULL ? "null" : t->form == A_TASK ? "pointer" : "arguments", throws(t) ? XN[t->ex] : "-", t->ndef, t->nalloc, t->gate ? ", gated" : "", t->after ? ", after another" : "");
        if (fail) { vp_thrd_fail_at(1); try { thrd_async(t->form == A_NULL ? w_null[w->id] : t->form == A_ARGS ? w_args : w_task, t->form == A_NULL ? NULL : t->form == A_ARGS ? (void *)t->args : (void *)t); }
            catch_any { got = !strcmp(err, "future_error"); } end_try; vp_thrd_fail_at(0); VP_CHECK(got, "create", "a thread that can not be created is not reported"); failed = i; if (t->form == A_ARGS) args_free(t->args); vp_count("create_failed", 1); continue; }
        F[i] = started(w, t);
        VP_CHECK(F[i] != NULL && is_type(F[i], RAII_FUTURE), "null", "no future");
        if (t->gate) { for (k = 0; k < 3; k++) VP_CHECK(!thrd_is_done(F[i]), "done-early", "call %d reports done and can not be", i); vp_count("seen_not_done", 1); }
        vp_count("calls", 1);
    }
    if (failed >= 0) { STOREA(w->T[failed].finished, 1); }
    if (pthread_create(&op, 0, opener, w)) abort();
    for (i = 0; i < n; i++) order[i] = i;
    for (i = n - 1; i > 0; i--) { k = (int)vp_below(&w->r, (uint32_t)i + 1); { int x = order[i]; order[i] = order[k]; order[k] = x; } }
    for (i = 0; i < n; i++) { int j = order[i]; task *t = &w->T[j]; int m = (int)vp_below(&w->r, 4); if (j == failed) continue;
        if (m == 1) { thrd_wait(F[j], vp_chance(&w->r, 1, 2) ? thrd_yield : my_yield); }
        if (m == 2) while (!thrd_is_done(F[j])) sched_yield();
        if (m == 1 || m == 2) { over(t, "reported done"); for (k = 0; k < 3; k++) VP_CHECK(thrd_is_done(F[j]), "not-done", "call %d was done and is not any more", j); vp_count("seen_done", 1); }
        else if (thrd_is_done(F[j])) { over(t, "reported done"); VP_CHECK(thrd_is_done(F[j]), "not-done", "call %d was done and is not any more", j); }
        t->blk[5] = NULL; fetch(w, t, F[j], (int)vp_below(&w->r, 3)); if (gives_obj(t) && t->blk[5]) objs[no++] = t;
        free_args(t);
    }
    for (i = 0; i < no; i++) { task *t = objs[i]; check_obj(t, t->blk[5], "later"); }
    pthread_join(op, 0);
}
static void bad_get(world *w) { struct _future f; volatile int got = 0; memset(&f, 0, sizeof f); f.type = vp_chance(&w->r, 1, 2) ? RAII_FUTURE : RAII_PROMISE; try { thrd_get(&f); } catch (logic_error) { got = 1; } end_try; VP_CHECK(got, "no-promise", "a future without a promise gives a value"); vp_count("bad_gets", 1); }
#else
static future_t SC; 
static void *acc_cb(void *result, size_t i, values_type v);
typedef struct { world *w; size_t next, bad; uint64_t h; task **order; int n; } acc;
static void *acc_cb(void *result, size_t i, values_type v) {
    acc *a = result; task *t;
    if (i != a->next || (int)i >= a->n) { a->bad = 1; return result; }
    t = a->order[i]; a->next++;
    if (throws(t)) { if (v.max_size != 0) a->bad = 2; }
    else if (gives_obj(t)) check_obj(t, v.object, "continuation");
    else if (v.max_size != t->value) a->bad = 3;
    a->h = vp_hash(a->h, i); return a + 1;
}
static void *acc_chain(void *result, size_t i, values_type v) { acc *a = result; acc *n = acc_cb(a, i, v); n->next = a->next; n->bad = a->bad; n->order = a->order; n->n = a->n; n->w = a->w; return n; }
static int must_throw(volatile int *seen, void (*f)(void *), void *p, const char *name) { *seen = 0; try { f(p); } catch_any { *seen = name ? !strcmp(err, name) : 1; } end_try; return *seen; }
static void ask(void *p) { thrd_result((result_t)p); }
static void spawn_any(void *p) { thrd_spawn(w_task, p); }
static void sync_any(void *p) { thrd_sync((future_t)p); }
static future_t *volatile new_sc[4];
static void scope_guarded(world *w) { guard { _defer(left, w); *new_sc[w->id] = thrd_scope(); throw(we0); } guarded; }
static future_t new_scope(world *w) {
    static future_t F[4]; future_t *volatile f = &F[w->id]; volatile int got = 0; *f = NULL;
    switch (vp_below(&w->r, 6)) {
        case 0: try { *f = thrd_scope(); throw(we1); } catch (we1) { got = 1; } end_try; break;
        case 1: new_sc[w->id] = f; left_n[w->id] = 0; scope_guarded(w); got = left_n[w->id] == 1; break;
        default: *f = thrd_scope(); got = 2;
    }
    VP_CHECK(got, "left", "an exception thrown after a thread scope was made was lost"); if (got == 1) vp_count("scope_in_left_block", 1);
    return *f;
}
static void begin(world *w, task *t, result_t *R);
static result_t *volatile new_r[4]; static task *volatile new_t[4];
static void begin_guarded(world *w) { guard { _defer(left, w); begin(w, new_t[w->id], new_r[w->id]); throw(we0); } guarded; }
static void begin_any(world *w, task *t, result_t *R) {
    volatile int got = 0;
    switch (vp_below(&w->r, 8)) {
        case 0: try { begin(w, t, R); throw(we1); } catch (we1) { got = 1; } end_try; break;
        case 1: try { try { begin(w, t, R); } finally { got++; } end_try; throw(we2); } catch (we2) { got++; } end_try; got = got == 2; break;
        case 2: new_r[w->id] = R; new_t[w->id] = t; left_n[w->id] = 0; begin_guarded(w); got = left_n[w->id] == 1; break;
        default: begin(w, t, R); return;
    }
    VP_CHECK(got, "left", "an exception thrown after a worker was spawned was lost"); vp_count("spawned_in_left_block", 1);
}
static void begin(world *w, task *t, result_t *R) {
    int ex = t->form == A_ARGS && vp_chance(&w->r, 1, 2);
    t->gate = vp_chance(&w->r, 1, 2);
    if (ex && !t->reads) t->reads = 1;       /* only a function that reads them can release them */
    if (ex) { R[t->id] = thrd_spawn_ex(w_args, FM[t->nargs], t, t->argv[1], t->argv[2], t->argv[3], t->argv[4]); }
    else { make_args(t); R[t->id] = thrd_spawn(t->form == A_NULL ? w_null[w->id] : t->form == A_ARGS ? w_args : w_task, t->form == A_NULL ? NULL : t->form == A_ARGS ? (void *)t->args : (void *)t); }
    vp_log("w%d spawn%s %d: %s (%s) %s%s", w->id, ex ? "_ex" : "", t->id, BN[t->behave], t->form == A_NULL ? "null" : t->form == A_TASK ? "pointer" : "arguments", throws(t) ? XN[t->ex] : "", t->gate ? ", gated" : "");
    VP_CHECK(R[t->id] != NULL && is_type(R[t->id], RAII_VALUE), "null", "no result handle"); vp_count("spawned", 1);
}
static void check_result(world *w, task *t, result_t r, const char *when) {
    values_type v = thrd_result(r); (void)w;
    if (throws(t)) VP_CHECK(v.max_size == 0, "value", "%s: a worker that raised has the value %#zx", when, v.max_size);
    else if (gives_obj(t)) { check_obj(t, v.object, when); VP_CHECK(v.object != t->orig, "copy", "%s: the result of worker %d is the worker's object, not a copy", when, t->id); }
    else VP_CHECK(v.max_size == t->value, "value", "%s: result %d (%s) is %#zx instead of %#llx", when, t->id, BN[t->behave], v.max_size, (unsigned long long)t->value);
    vp_count("results", 1);
}
static void *w_plain(args_t a) { uint64_t *v = (uint64_t *)a; vp_noise(); return thrd_value((void *)(uintptr_t)(*v + 1)); }
static void *count_cb(void *p, size_t i, values_type v) { int *n = p; if ((int)i == *n) ++*n; (void)v; return p; }
static void end_outer(future_t outer, result_t *OR, const uint64_t *ov, int no) { int i, seen_n = 0; VP_CHECK(thrd_sync(outer) == outer, "sync", "sync returned something else"); for (i = 0; i < no; i++) VP_CHECK(thrd_result(OR[i]).max_size == ov[i] + 1, "value", "a result of an earlier thread scope is not what its worker returned"); thrd_then(count_cb, outer, &seen_n); VP_CHECK(seen_n == no, "continuation", "the continuation was called %d times for %d workers", seen_n, no); thrd_destroy(outer); }
static void round_(world *w) {
    future_t outer = NULL; result_t OR[4]; uint64_t ov[4]; int no = 0;
    result_t R[48]; task *order[48]; future_t f; int i, k, n, part, parts = 1 + (int)vp_below(&w->r, 3), from = 0; volatile int seen, thrown; pthread_t op; static acc A[4][50];
    w->n = 0; w->null_task = NULL;
    if (vp_chance(&w->r, 1, 3)) { VP_CHECK(must_throw(&seen, spawn_any, &w->T[47], "panic"), "no-scope", "a worker is spawned without a thread scope"); vp_count("refused_spawns", 1); }
    if (vp_chance(&w->r, 1, 4)) { outer = new_scope(w); no = (int)vp_below(&w->r, 4); for (i = 0; i < no; i++) { ov[i] = vp_next(&w->r); OR[i] = thrd_spawn(w_plain, &ov[i]); } vp_count("outer_scopes", 1); }
    f = new_scope(w); VP_CHECK(f != NULL && is_type(f, RAII_SPAWN), "null", "no thread scope");
    for (part = 0; part < parts; part++) {
        if (outer && part && vp_chance(&w->r, 1, 2)) { end_outer(outer, OR, ov, no); outer = NULL; vp_count("older_scope_destroyed_first", 1); }
        n = vp_chance(&w->r, 1, 6) ? 8 + (int)vp_below(&w->r, 7) : (int)vp_below(&w->r, 6); if (w->n + n > 40) n = 0;
        for (i = 0; i < n; i++) { task *t = new_task(w); if (i == n - 1 && w->thread == 0 && vp_chance(&w->r, 1, 40)) { make_args(t); w->n--; vp_thrd_fail_at(1); VP_CHECK(must_throw(&seen, spawn_any, t, "future_error"), "create", "a thread that can not be created is not reported"); vp_thrd_fail_at(0); if (t->form == A_ARGS) args_free(t->args); if (w->null_task == t) w->null_task = NULL; vp_count("create_failed", 1); continue; } order[t->id] = t; begin_any(w, t, R); }
        for (i = from; i < w->n; i++) { if (vp_chance(&w->r, 1, 3)) { VP_CHECK(must_throw(&seen, ask, R[i], "logic_error"), "early-result", "a result is given before synchronisation"); vp_count("early_refused", 1); } if (order[i]->gate) { VP_CHECK(!thrd_is_finish(f), "finished-early", "the scope reports finished while worker %d can not be", i); vp_count("seen_unfinished", 1); } }
        if (pthread_create(&op, 0, opener, w)) abort();
        if (vp_chance(&w->r, 1, 3)) { while (!thrd_is_finish(f)) thrd_yield(); for (i = from; i < w->n; i++) over(order[i], "reported finished"); vp_count("seen_finished", 1); }
        thrown = -1; for (i = from; i < w->n && thrown < 0; i++) if (throws(order[i])) thrown = i;
        seen = 0;
        if (thrown < 0) { VP_CHECK(thrd_sync(f) == f, "sync", "sync returned something else"); }
        else { try { thrd_sync(f); } catch_any { seen = 1; check_exc(order[thrown], err, ex_err.panic, "sync"); } end_try; VP_CHECK(seen, "not-raised", "worker %d raised %s, sync returned", thrown, XN[order[thrown]->ex]); vp_count("sync_raised", 1); }
        for (i = from; i < w->n; i++) over(order[i], "after sync");
        VP_CHECK(thrd_is_finish(f), "not-finished", "not finished after sync");
        pthread_join(op, 0); vp_count("syncs", 1);
        for (i = from; i < w->n; i++) { task *t = order[i]; if (t->form == A_ARGS && !t->reads && t->args) free_args(t); }
        for (i = 0; i < w->n; i++) check_result(w, order[i], R[i], "after sync");
        if (vp_chance(&w->r, 1, 2)) { VP_CHECK(thrd_sync(f) == f, "sync", "a second sync returned something else"); for (i = 0; i < w->n; i++) check_result(w, order[i], R[i], "after a second sync"); vp_count("second_syncs", 1); }
        memset(A[w->id], 0, sizeof A[w->id]); A[w->id][0].order = order; A[w->id][0].n = w->n; A[w->id][0].w = w;
        thrd_then(acc_chain, f, &A[w->id][0]);
        for (i = 0; i <= w->n; i++) VP_CHECK(!A[w->id][i].bad, "continuation", "the continuation for worker %d got %s", i, A[w->id][i].bad == 1 ? "another position" : "another value");
        VP_CHECK(A[w->id][w->n].next == (size_t)w->n, "continuation", "the continuation was called for %zu of %d workers", A[w->id][w->n].next, w->n);
        vp_count("continuations", (uint64_t)w->n); from = w->n; w->null_task = NULL;
        { void *objs[48]; int a, b; for (a = 0; a < w->n; a++) objs[a] = gives_obj(order[a]) ? thrd_result(R[a]).object : NULL; for (a = 0; a < w->n; a++) for (b = 0; b < a; b++) VP_CHECK(!objs[a] || objs[a] != objs[b], "copy", "two results share their object"); }
    }
    for (i = 0; i < w->n; i++) w->sig = vp_hash(w->sig, (uint64_t)order[i]->behave * 4 + (uint64_t)order[i]->form);
    if (w->n && gives_obj(order[0])) { values_type v = thrd_result(R[0]); memset(v.object, 0x11, order[0]->osize); for (i = 1; i < w->n; i++) check_result(w, order[i], R[i], "after another was written"); memset(v.object, 0, 1); }
    thrd_destroy(f); vp_count("scopes", 1);
    if (outer) end_outer(outer, OR, ov, no);
    if (vp_chance(&w->r, 1, 3)) { VP_CHECK(must_throw(&seen, spawn_any, &w->T[47], "panic"), "no-scope", "a worker is spawned after its thread scope was destroyed"); vp_count("refused_spawns", 1); }
    (void)k;
}
#endif
/* many workers at once */
#define MANY 400
typedef struct { uint64_t v; int stop, gate, ran; void *blk; } mw;
static int many_open;
static void *w_many(args_t a) { mw *q = (mw *)a; ADDA(q->ran); q->blk = malloc_default(20); if (q->gate) while (!__atomic_load_n(&many_open, __ATOMIC_ACQUIRE)) usleep(50); if (q->stop) throw(we1); return thrd_value((void *)(uintptr_t)(q->v + 1)); }
#if PROP == 11
static void many(vp_rng *r) {
    static mw q[MANY]; static future F[MANY]; static int ord[MANY]; int i, n = 60 + (int)vp_below(r, MANY - 60), gated = (int)vp_below(r, 3); volatile int raised;
    STOREA(many_open, 0);
    for (i = 0; i < n; i++) { q[i].v = vp_next(r); q[i].ran = 0; q[i].stop = vp_chance(r, 1, 20); q[i].gate = gated && vp_chance(r, 1, (uint32_t)gated); ord[i] = i; F[i] = thrd_async(w_many, &q[i]); if (q[i].gate) VP_CHECK(!thrd_is_done(F[i]), "done-early", "call %d of many reports done and can not be", i); if (!(i & 31)) vp_beat(); }
    for (i = 0; i < n; i++) if (q[i].gate) VP_CHECK(!thrd_is_done(F[i]), "done-early", "call %d of %d outstanding reports done and can not be", i, n);
    __atomic_store_n(&many_open, 1, __ATOMIC_RELEASE);
    for (i = n - 1; i > 0; i--) { int k = (int)vp_below(r, (uint32_t)i + 1), x = ord[i]; ord[i] = ord[k]; ord[k] = x; }
    for (i = 0; i < n; i++) { int k = ord[i]; static size_t got; raised = 0; got = 0;
        try { got = thrd_get(F[k]).max_size; } catch_any { raised = !strcmp(err, "we1") ? 1 : 2; } end_try;
        VP_CHECK(raised == q[k].stop, "many", "call %d of %d outstanding: raised %d, should have %d", k, n, raised, q[k].stop);
        if (!raised) VP_CHECK(got == q[k].v + 1, "many", "call %d of %d outstanding gave %#zx instead of %#llx", k, n, got, (unsigned long long)q[k].v + 1);
        VP_CHECK(LOADA(q[k].ran) == 1, "runs", "the function of call %d of many ran %d times", k, LOADA(q[k].ran)); if (!(i & 31)) vp_beat(); }
    vp_count("many_calls", (uint64_t)n); vp_max("most_outstanding", (uint64_t)n); vp_sig(vp_hash(99, (uint64_t)n));
}
#else
typedef struct { int next, bad; mw *q; int n; } macc;
static void *many_cb(void *p, size_t i, values_type v) { macc *a = p; if ((int)i != a->next) a->bad = 1; else if (v.max_size != (a->q[i].stop ? 0 : a->q[i].v + 1)) a->bad = 2; a->next++; return p; }
static void many(vp_rng *r) {
    static mw q[MANY]; static result_t R[MANY]; int i, n = 0, part, parts = 1 + (int)vp_below(r, 3), stops = vp_chance(r, 1, 3), from = 0; volatile int raised; static macc A; future_t f = thrd_scope();
    for (part = 0; part < parts && n < MANY; part++) {
        int add = (part ? 1 : 60) + (int)vp_below(r, 150), stop_at; if (n + add > MANY) add = MANY - n; stop_at = stops ? n + (int)vp_below(r, (uint32_t)add) : -1;
        STOREA(many_open, 0);
        for (i = 0; i < add; i++, n++) { q[n].v = vp_next(r); q[n].ran = 0; q[n].stop = n == stop_at; q[n].gate = vp_chance(r, 1, 20); R[n] = thrd_spawn(w_many, &q[n]); VP_CHECK(R[n] != NULL && is_type(R[n], RAII_VALUE), "null", "no result handle for worker %d", n); if (q[n].gate) VP_CHECK(!thrd_is_finish(f), "finished-early", "the scope of %d workers reports finished while one can not be", n); if (!(n & 31)) vp_beat(); }
        __atomic_store_n(&many_open, 1, __ATOMIC_RELEASE);
        raised = 0; try { thrd_sync(f); } catch_any { raised = !strcmp(err, "we1") ? 1 : 2; } end_try;
        VP_CHECK(raised == (stop_at >= 0), "many", "sync of %d workers: raised %d, should have %d", n, raised, stop_at >= 0);
        for (i = from; i < n; i++) VP_CHECK(LOADA(q[i].ran) == 1, "runs", "the function of worker %d of %d ran %d times", i, n, LOADA(q[i].ran));
        VP_CHECK(thrd_is_finish(f), "not-finished", "the scope of %d workers is not finished after sync", n);
        for (i = 0; i < n; i++) VP_CHECK(thrd_result(R[i]).max_size == (q[i].stop ? 0 : q[i].v + 1), "value", "result %d of %d is %#zx instead of %#llx", i, n, thrd_result(R[i]).max_size, q[i].stop ? 0ull : (unsigned long long)q[i].v + 1);
        A.next = A.bad = 0; A.q = q; A.n = n; thrd_then(many_cb, f, &A);
        VP_CHECK(!A.bad && A.next == n, "continuation", "the continuation for %d workers: %s, %d calls", n, A.bad == 1 ? "wrong position" : A.bad ? "wrong value" : "stopped", A.next);
        from = n; vp_beat();
    }
    thrd_destroy(f); vp_count("many_spawned", (uint64_t)n); vp_max("most_workers_in_scope", (uint64_t)n); vp_sig(vp_hash(98, (uint64_t)n));
}
#endif
static void *run(void *p) {
    world *w = p; int rounds = 1 + (int)vp_below(&w->r, 3);
    raii_init();
    while (rounds--) {
        round_(w); 
#if PROP == 11
        if (vp_chance(&w->r, 1, 8)) bad_get(w);
#else
        if (vp_chance(&w->r, 1, 8)) { volatile int s; struct future_pool q; memset(&q, 0, sizeof q); q.type = RAII_POOL; VP_CHECK(must_throw(&s, sync_any, &q, "logic_error"), "not-scope", "something else than a thread scope is synchronised"); }
#endif
        if (vp_chance(&w->r, 1, 2)) raii_deferred_clean();
        vp_beat();
    }
    vp_sig(w->sig);
    if (w->thread) raii_destroy(); else raii_deferred_clean();
    return NULL;
}
void vp_child_init(void) { raii_init(); }
void vp_case(uint64_t seed, uint64_t idx) {
    static world W[4]; vp_rng r = vp_rng_make(seed, idx, PROP); int i, n = vp_chance(&r, 1, 4) ? 1 + (int)vp_below(&r, 3) : 1; int threads = n > 1 || vp_chance(&r, 1, 4); size_t live0;
    vp_noise_seed = vp_chance(&r, 1, 4) ? 0 : (unsigned)vp_next(&r) | 1;
    live0 = vp_live();
    for (i = 0; i < n; i++) { memset(&W[i], 0, sizeof W[i]); W[i].id = i; W[i].thread = threads; W[i].r = vp_rng_make(seed, idx, (uint64_t)(1100 + i)); }
    if (idx % 128 == 11) { raii_init(); vp_noise_seed = 0; many(&r); raii_deferred_clean(); }
    if (!threads) run(&W[0]);
    else { for (i = 0; i < n; i++) if (pthread_create(&W[i].t, 0, run, &W[i])) abort(); for (i = 0; i < n; i++) pthread_join(W[i].t, 0); vp_count("callers_on_threads", (uint64_t)n); }
    VP_CHECK(vp_live() == live0, "leak", "%ld blocks remain", (long)(vp_live() - live0));
    vp_ledger_check();
}
