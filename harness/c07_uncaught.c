/* C07: programs whose last exception nothing handles, each in a process of its own. What is pending must run, then the
   report, then the hooks, then the end of the process with a failure status. */
#include "prog.h"
#include "exception.h"
#include <pthread.h>
#include <sys/stat.h>
#include <sys/wait.h>
const vp_config_t vp_cfg = { "C07", 1, 20, 0 };
typedef struct { int ready, threw, term, inter, hook_throws, missing, early, leaked, printed_at_hook, expect_int, any_int, hook_term, hook_int, by_signal, callbacks, in_thread, ended, went_on, evs, told, unwinding, deferred, want_deferred, forgotten; char what[100], text[160], fn[24], loc[200]; } note_t;
#define N ((note_t *)vp_note)
static const prog_cfg base = { .w = { [N_MARK] = 8, [N_THROW] = 3, [N_TRY] = 12, [N_GUARD] = 14, [N_DEFER] = 18, [N_ALLOC] = 10, [N_UNEW] = 2, [N_UDEL] = 4, [N_CLEAN] = 1,
    [N_CANCEL] = 2, [N_FIRE] = 2, [N_PROTECT] = 10, [N_CALL] = 6 }, .max_depth = 5, .max_stmts = 6, .max_nodes = 160, .throw_in_act = 0, .custom_free = 40, .recover = 20, .signals = 1, .noraise_in_act = 1 };
static prog *p; static size_t live0; static pthread_t runner; static int threaded;
static size_t printed(void) { struct stat s; return fstat(2, &s) ? 0 : (size_t)s.st_size; }
static void see_all(void) {
    const char *m = prog_done(p);
    N->told = prog_told(p);
    if (m && !N->missing) { N->missing = 1; snprintf(N->what, sizeof N->what, "%s", m); }
}
static void at_hook(void) {
    if (N->term + N->inter == 1) {
        see_all(); N->printed_at_hook = printed() > 0;
#ifndef VP_CONFIG_tsan
        if (!prog_open_scopes(p) && vp_live() != live0) N->leaked = (int)(vp_live() - live0);
#endif
    }
}
static void on_term(void) { N->term++; at_hook(); if (N->hook_throws & 1) raii_panic("by the termination hook"); }
static void on_term_only(void) { N->term++; N->printed_at_hook = printed() > 0; }
static void on_int(void) { N->inter++; at_hook(); if (N->hook_throws & 2) raii_panic("by the interrupt hook"); }
static void each_event(void) { if (printed()) N->early++; N->evs++; }
static void last(void) { N->ended++; if (!N->unwinding && !N->by_signal) see_all(); }
void vp_child_init(void) { atexit(last); }
static void *run(void *q) { (void)q; prog_run_to_exit(p); return NULL; }
/* a release function that throws while the stack is unwound ends the process in the same way, whoever would handle it */
EX_EXCEPTION(first); EX_EXCEPTION(second);
static int how, nvals; static char vals[8];
static void throwing(void *v) { int i = (int)((char *)v - vals); if (i < 0 || i >= nvals) abort(); if (i == how % nvals) { if (how & 16) raii_panic("second"); throw(second); } }
static void count_deferred(void *v) { (void)v; N->deferred++; }
static __attribute__((noinline)) void unwound(int i) { char *q = &vals[i]; protected(q, throwing); if (i + 1 < nvals) unwound(i + 1); else if (how & 32) raise(SIGTERM); else throw(first); unprotected(q); N->went_on++; }
static __attribute__((noinline)) void unwound_in_try(void) { try { unwound(0); } catch_any { N->went_on++; } end_try; }
static void *run_unwound(void *q) {
    int i; (void)q;
    if (how & 64) { raii_init(); for (i = 0; i < 3; i++, N->want_deferred++) raii_defer(count_deferred, NULL); }
    switch ((how >> 8) & 3) {
        case 0: unwound_in_try(); break;
        case 1: try { unwound_in_try(); } catch (second) { N->went_on++; } end_try; break;
        case 2: try { try { unwound(0); } finally { } end_try; } catch_any { N->went_on++; } end_try; break;
        default: unwound(0);
    }
    N->went_on++; return NULL;
}
static void case_unwinding(vp_rng *r) {
    how = (int)vp_below(r, 1 << 10); nvals = 1 + (int)vp_below(r, 8);
    N->hook_term = vp_chance(r, 2, 3); threaded = N->in_thread = vp_chance(r, 1, 5); N->unwinding = 1;
    if ((N->by_signal = how >> 5 & 1)) ex_signal_setup();
    vp_log("release %d of %d throws, variant %d", how % nvals, nvals, how);
    if (N->hook_term) exception_terminate_func = on_term_only;
    N->ready = 1;
    if (threaded) { if (pthread_create(&runner, 0, run_unwound, 0)) abort(); pthread_join(runner, 0); } else run_unwound(NULL);
    vp_fail("returned", "the program went on after a release function threw while the stack was unwound");
}
static const prog_cfg *cfg_for(vp_rng *r, prog_cfg *c) {
    *c = base;
    switch (vp_below(r, 5)) {
        case 0: c->w[N_PROTECT] = 30; break;
        case 1: c->w[N_DEFER] = 40; break;
        case 2: c->w[N_TRY] = 30; c->w[N_THROW] = 8; break;
        case 3: c->w[N_GUARD] = 30; c->recover = 5; break;
    }
    if (vp_chance(r, 1, 4)) { c->w[N_RAISE] = 3; }
    if (vp_chance(r, 1, 4)) c->signals = c->w[N_RAISE] = 0;
    if (vp_chance(r, 1, 5)) { c->hook_funcs = (int[]){ 3, 3, 3, 1, 7, 2 }[vp_below(r, 6)]; c->w[N_UNEW] = 12; }
    return c;
}
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 7); prog_cfg c; int tries = 0; const char *t; int is_int, any, sig;
    memset(N, 0, sizeof *N);
    if (idx % 16 == 7) { case_unwinding(&r); return; }
    p = prog_new();
    do { cfg_for(&r, &c); prog_gen(p, &r, &c); prog_mode(p, PM_UNCAUGHT, &r); prog_model(p); } while (prog_events(p) < 0 && ++tries < 20);
    if (prog_events(p) < 0) _exit(0);
    prog_dump(p);
    t = prog_last_text(p, &is_int, &any, &sig); snprintf(N->text, sizeof N->text, "%s", t);
    { const char *fn; prog_last_where(p, &fn, N->loc, sizeof N->loc); if (fn) snprintf(N->fn, sizeof N->fn, "%s", fn); }
    N->expect_int = is_int; N->any_int = any; N->by_signal = sig;
    N->hook_term = vp_chance(&r, 2, 3); N->hook_int = vp_chance(&r, 2, 3); threaded = vp_chance(&r, 1, 5); N->in_thread = threaded;
    if (vp_chance(&r, 1, 2)) { raii_init(); raii_destroy(); } else if (c.signals) ex_signal_setup();
    if (vp_chance(&r, 1, 5)) { /* a caught interrupt that the program has forgotten about */
        ex_signal_setup(); try { raise(SIGINT); } catch_any { N->forgotten = 1; } end_try; ex_flags_reset();
    }
    N->hook_throws = vp_chance(&r, 1, 5) && !c.hook_funcs ? 1 + (int)vp_below(&r, 3) : 0;
    if (N->hook_term) exception_terminate_func = on_term;
    if (N->hook_int) exception_ctrl_c_func = on_int;
    vp_log("hooks %d %d, %s, last: %s", N->hook_term, N->hook_int, threaded ? "in a thread" : "main thread", t);
    prog_each_event = each_event; prog_hook_funcs(&c); N->callbacks = c.hook_funcs;
#ifndef VP_CONFIG_tsan
    live0 = vp_live();
#endif
    N->ready = 1;
    if (threaded) { if (pthread_create(&runner, 0, run, 0)) abort(); pthread_join(runner, 0); }
    else prog_run_to_exit(p);
    vp_fail("returned", "the program returned");
}
#define BAD(key, ...) do { vp_fail_parent(key, __VA_ARGS__); return 1; } while (0)
int vp_judge(uint64_t idx, int st, const char *err, size_t n) {
    (void)idx;
    if (!N->ready) return WIFEXITED(st) && !WEXITSTATUS(st);
    if (strstr(err, "Sanitizer") || strstr(err, "runtime error")) return 0;
    if (WIFSIGNALED(st)) BAD("killed", "the process was killed by signal %d instead of ending", WTERMSIG(st));
    if (!WEXITSTATUS(st)) BAD("success", "the process ended with status 0");
    if (N->unwinding) {
        if (N->went_on) BAD("went-on", "the program went on after a release function threw while the stack was unwound");
        if (!n) BAD("no-report", "nothing was printed to standard error");
        if (!N->by_signal && N->deferred != N->want_deferred) BAD("missing", "%d of %d deferred functions ran", N->deferred, N->want_deferred);
    }
    if (N->missing) BAD("missing", "the process ended without %s", N->what);
    if (N->early) BAD("report-first", "the report was printed before %d events", N->early);
    if (!n) BAD("no-report", "nothing was printed to standard error");
    if (!strstr(err, N->text)) BAD("report", "the report does not have \"%.80s\"", N->text);
    if (*N->fn && !strstr(err, N->fn)) BAD("report", "the report does not name the function that threw, %s", N->fn);
#ifdef USE_DEBUG
    if (*N->loc && !strstr(err, N->loc)) BAD("report", "the report does not say where it was thrown, %s", N->loc);
#endif
    if (N->term != N->hook_term) BAD("hook", "the termination hook was called %d times (%s)", N->term, N->hook_term ? "installed" : "not installed");
    if (N->expect_int && N->inter != N->hook_int) BAD("int-hook", "the interrupt hook was called %d times for an uncaught SIGINT (%s)", N->inter, N->hook_int ? "installed" : "not installed");
    if (!N->any_int && N->inter) BAD("int-hook", "the interrupt hook was called %d times without SIGINT", N->inter);
    if (N->forgotten && !N->by_signal && !N->unwinding && !N->ended) BAD("atexit", "the process ended without its exit functions");
    if (N->inter > 1) BAD("int-hook", "the interrupt hook was called %d times", N->inter);
    if ((N->term || N->inter) && !N->printed_at_hook) BAD("hook-first", "a hook was called before the report");
    if (N->leaked) BAD("leak", "%d blocks remained when the hook was called", N->leaked);
    if (N->forgotten && !N->by_signal) vp_count("interrupts_forgotten", 1);
    if (*N->fn) vp_count("reports_with_place", 1);
    if (N->unwinding) vp_count("thrown_while_unwinding", 1);
    if (N->hook_throws && (N->term || N->inter)) vp_count("throwing_hooks", 1);
    if (N->hook_term) vp_count("termination_hooks", 1);
    if (N->expect_int && N->hook_int) vp_count("interrupt_hooks", 1);
    if (N->callbacks) vp_count("with_callbacks", 1);
    if (N->in_thread) vp_count("in_threads", 1);
    if (N->by_signal) vp_count("with_signals", 1); else vp_count("without_signals", 1);
    vp_count("events", (uint64_t)N->evs); vp_count("uncaught", 1); if (N->told) vp_count("deferred_told_what", (uint64_t)N->told);
    vp_sig(vp_hash_bytes((uint64_t)N->evs * 8 + (uint64_t)N->hook_term + 2 * (uint64_t)N->hook_int, N->text, strlen(N->text)));
    return 1;
}
