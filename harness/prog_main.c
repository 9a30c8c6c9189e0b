/* C01-C06, C08: random programs, one thread. The property selects the weights and what is generated. */
#include "prog.h"
#ifndef PROP
#define PROP 1
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
#if PROP > 9
#define C_ "C"
#else
#define C_ "C0"
#endif
const vp_config_t vp_cfg = { C_ STR(PROP), 32, 10, 0 };
static const prog_cfg cfgs[] = {
 [1] = { .w = { [N_MARK] = 6, [N_THROW] = 4, [N_TRY] = 6, [N_GUARD] = 14, [N_DEFER] = 26, [N_ALLOC] = 3, [N_UNEW] = 6, [N_UDEL] = 5, [N_CLEAN] = 4, [N_CANCEL] = 1, [N_FIRE] = 1, [N_CALL] = 5 }, .max_depth = 5, .max_stmts = 8, .max_nodes = 260, .throw_in_act = 15, .custom_free = 40, .recover = 25 },
 [2] = { .w = { [N_MARK] = 8, [N_THROW] = 4, [N_TRY] = 7, [N_GUARD] = 12, [N_DEFER] = 4, [N_ALLOC] = 30, [N_UNEW] = 8, [N_UDEL] = 6, [N_CLEAN] = 4, [N_CANCEL] = 2, [N_FIRE] = 2, [N_CALL] = 5 }, .max_depth = 5, .max_stmts = 8, .max_nodes = 260, .throw_in_act = 10, .custom_free = 45, .recover = 25 },
 [3] = { .w = { [N_MARK] = 8, [N_THROW] = 12, [N_TRY] = 8, [N_GUARD] = 24, [N_DEFER] = 16, [N_ALLOC] = 6, [N_UNEW] = 2, [N_UDEL] = 2, [N_CLEAN] = 1, [N_CANCEL] = 1, [N_FIRE] = 1, [N_PROTECT] = 2, [N_CALL] = 5 }, .max_depth = 6, .max_stmts = 5, .max_nodes = 240, .throw_in_act = 25, .custom_free = 40, .recover = 55 },
 [4] = { .w = { [N_MARK] = 10, [N_THROW] = 16, [N_TRY] = 34, [N_GUARD] = 3, [N_DEFER] = 2, [N_ALLOC] = 1, [N_CALL] = 6, [N_PROTECT] = 1 }, .max_depth = 7, .max_stmts = 5, .max_nodes = 240, .throw_in_act = 10, .custom_free = 40, .recover = 40 },
 [5] = { .w = { [N_MARK] = 5, [N_THROW] = 12, [N_TRY] = 18, [N_GUARD] = 5, [N_DEFER] = 3, [N_ALLOC] = 3, [N_CALL] = 4, [N_PROTECT] = 30 }, .max_depth = 6, .max_stmts = 5, .max_nodes = 240, .throw_in_act = 10, .custom_free = 40, .recover = 40 },
 [6] = { .w = { [N_MARK] = 6, [N_THROW] = 3, [N_RAISE] = 16, [N_TRY] = 26, [N_GUARD] = 9, [N_DEFER] = 5, [N_ALLOC] = 2, [N_CALL] = 8, [N_PROTECT] = 3, [N_UNEW] = 1, [N_UDEL] = 1 }, .max_depth = 6, .max_stmts = 6, .max_nodes = 260, .throw_in_act = 20, .custom_free = 40, .recover = 45, .signals = 1, .own_signals = 1, .mask = 1 },
 [24] = { .w = { [N_MARK] = 8, [N_THROW] = 16, [N_RAISE] = 3, [N_TRY] = 26, [N_GUARD] = 5, [N_DEFER] = 20, [N_ALLOC] = 10, [N_CANCEL] = 2, [N_FIRE] = 2, [N_CALL] = 6, [N_PROTECT] = 10, [N_UNEW] = 16, [N_UDEL] = 4, [N_CLEAN] = 1 }, .max_depth = 6, .max_stmts = 7, .max_nodes = 260, .throw_in_act = 0, .custom_free = 40, .recover = 40, .signals = 1, .noraise_in_act = 1, .hook_funcs = 3 },
 [8] = { .w = { [N_MARK] = 4, [N_THROW] = 2, [N_TRY] = 4, [N_GUARD] = 8, [N_DEFER] = 34, [N_ALLOC] = 6, [N_UNEW] = 6, [N_UDEL] = 3, [N_CLEAN] = 2, [N_CANCEL] = 14, [N_FIRE] = 14, [N_CALL] = 8 }, .max_depth = 4, .max_stmts = 14, .max_nodes = 320, .throw_in_act = 8, .custom_free = 40, .recover = 20 },
};
static prog *p;
#if PROP == 1 || PROP == 2 || PROP == 8
#include "bulk.h"
#endif
#if PROP == 6
static int defaulted;
void vp_child_init(void) { vp_rng r = vp_rng_make(6, (uint64_t)getpid(), 66); raii_init(); prog_own_signals(&r, 1); }
static void after_defaults(void) {
    static const int s[] = { SIGFPE, SIGSEGV, SIGILL, SIGBUS, SIGTERM, SIGINT, SIGHUP, SIGQUIT, SIGTRAP, SIGALRM, SIGABRT, SIGWINCH }; unsigned i; struct sigaction a;
    for (i = 0; i < sizeof s / sizeof *s; i++) { sigaction(s[i], NULL, &a); VP_CHECK(a.sa_handler != SIG_DFL && a.sa_handler != SIG_IGN, "handler-gone", "the handler of signal %d is not installed any more", s[i]); }
    ex_signal_default();
    for (i = 0; i < sizeof s / sizeof *s; i++) { sigaction(s[i], NULL, &a); VP_CHECK(a.sa_handler == SIG_DFL, "not-default", "signal %d does not have its default disposition after ex_signal_default", s[i]); }
    VP_CHECK(!exception_signal_set, "set-flag", "exception_signal_set after ex_signal_default");
    prog_default_names(); defaulted = 1;      /* the next block installs them again */
    vp_count("defaults_restored", 1);
}
#endif
#if PROP == 6
#include <sys/wait.h>
#include <fcntl.h>
/* more signals made exceptions of than the library has room for, in a process of its own: each is raised as the name it was
   given last, or was refused and is left as it was */
static void case_many(vp_rng *r) {
    static char names[65][8]; int st = 0, i, k, n = 0, ok = 0, refused = 0, order[64], room = 32; pid_t kid; struct sigaction a;
    for (i = 1; i < 65; i++) if (i != SIGKILL && i != SIGSTOP && i != 32 && i != 33) order[n++] = i;
    for (i = n - 1; i > 0; i--) { int t; k = (int)vp_below(r, (uint32_t)i + 1); t = order[i]; order[i] = order[k]; order[k] = t; }
    n -= (int)vp_below(r, 40); vp_log("%d signals are made exceptions of", n);
    sigset_t chld, was; sigemptyset(&chld); sigaddset(&chld, SIGCHLD); pthread_sigmask(SIG_BLOCK, &chld, &was);
    if ((kid = fork()) == 0) {
        int keep = dup(2), null = open("/dev/null", O_WRONLY); sigset_t none; sigemptyset(&none); pthread_sigmask(SIG_SETMASK, &none, NULL);
        ex_signal_setup();
        for (i = 1; i < 65; i++) if (i != 32 && i != 33 && !sigaction(i, NULL, &a) && a.sa_handler != SIG_DFL && a.sa_handler != SIG_IGN) room--;
        dup2(null, 2);
        for (i = 0; i < n; i++) { sigaction(order[i], NULL, &a); snprintf(names[order[i]], 8, "sig%d", order[i]); ex_signal(order[i], names[order[i]]); if (a.sa_handler == SIG_DFL && room-- > 0) { sigaction(order[i], NULL, &a); if (a.sa_handler == SIG_DFL) { dup2(keep, 2); vp_fail("refused", "signal %d is refused with room for %d more", order[i], room + 1); } } }
        dup2(keep, 2);
        for (i = 0; i < n; i++) {
            volatile int s = order[i], caught_it = 0;
            sigaction(s, NULL, &a);
            if (a.sa_handler == SIG_DFL) { refused++; continue; }
            try { raise(s); vp_fail("raise-returned", "execution went on after signal %d", s); } catch_any { if (strcmp(err, names[s])) vp_fail("exception-name", "signal %d is raised as \"%.40s\", expected \"%s\"", s, err, names[s]); caught_it = 1; } end_try;
            if (!caught_it) vp_fail("not-caught", "signal %d is not caught", s);
            ok++;
        }
        _exit(refused ? 68 : 66);
    }
    if (kid < 0) abort();
    while (waitpid(kid, &st, 0) < 0) {}
    { struct timespec z = { 0, 0 }; while (sigtimedwait(&chld, NULL, &z) > 0) {} } pthread_sigmask(SIG_SETMASK, &was, NULL);
    if (!WIFEXITED(st) || WEXITSTATUS(st) < 66 || WEXITSTATUS(st) > 68) vp_fail("many-signals", "a process that made exceptions of %d signals ended with %s %d", n, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    vp_count("many_signals", 1); if (WEXITSTATUS(st) == 68) vp_count("more_signals_than_room", 1);
}
#endif
#if PROP == 1
#include <sys/wait.h>
/* the process ends (exit in this thread or another one): what is deferred on the default scope runs then */
static int exiting;
static void at_last(void) {
    const char *m;
    if (!exiting) return;
    if ((m = prog_done(p))) vp_fail("exit-missing", "the process exited without %s", m);
    prog_flush(p, 101); _exit(66);
}
void vp_child_init(void) { atexit(at_last); }
static void *exit_in_thread(void *q) { (void)q; prog_run_to_exit(p); exit(0); return NULL; }
static void case_exit(vp_rng *r) {
    int st = 0, tries = 0, thr = vp_chance(r, 1, 4); pid_t k; prog_cfg c = cfgs[PROP]; pthread_t t; c.throw_in_act = 0; c.recover = 10; c.noraise_in_act = 1;
    do { prog_mode(p, PM_EXIT, r); prog_gen(p, r, &c); prog_model(p); } while (prog_events(p) < 0 && ++tries < 20);
    if (prog_events(p) < 0) { prog_mode(p, PM_SWEEP, r); return; }
    prog_dump(p); vp_log("then exit(0)%s", thr ? " in a thread" : "");
    if ((k = fork()) == 0) {
        exiting = 1;
        if (thr) { pthread_create(&t, 0, exit_in_thread, 0); pthread_join(t, 0); }
        prog_run_to_exit(p); exit(0);
    }
    if (k < 0) abort();
    while (waitpid(k, &st, 0) < 0) {}
    prog_mode(p, PM_SWEEP, r);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 66) vp_fail("exit", "a process that exits with functions pending ended with %s %d", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    vp_count(thr ? "exits_in_threads" : "exits", 1);
}
#endif
#if PROP == 4
/* every exception the library predefines is thrown and caught under its own name, and under no other */
#define PREDEFINED \
    X(invalid_type) X(range_error) X(divide_by_zero) X(logic_error) X(future_error) X(system_error) X(domain_error) X(length_error) X(out_of_range) \
    X(invalid_argument) X(division_by_zero) X(out_of_memory) X(panic) X(sig_int) X(sig_abrt) X(sig_alrm) X(sig_bus) X(sig_fpe) X(sig_ill) X(sig_quit) \
    X(sig_segv) X(sig_term) X(sig_trap) X(sig_hup) X(sig_break) X(sig_winch) X(sig_info) X(access_violation) X(array_bounds_exceeded) X(breakpoint) \
    X(datatype_misalignment) X(flt_denormal_operand) X(flt_divide_by_zero) X(flt_inexact_result) X(flt_invalid_operation) X(flt_overflow) X(flt_stack_check) \
    X(flt_underflow) X(illegal_instruction) X(in_page_error) X(int_divide_by_zero) X(int_overflow) X(invalid_disposition) X(noncontinuable_exception) \
    X(priv_instruction) X(single_step) X(stack_overflow) X(invalid_handle) X(bad_alloc)
EX_EXCEPTION(not_predefined);
static volatile int np_handled, np_finally, np_wrong; static const char *volatile np_name; static volatile int np_line, np_want; static volatile int np_same;
#define X(e) extern const char ex_err_##e[] __attribute__((weak)); static __attribute__((noinline)) void once_##e(int how) { \
    np_handled = np_finally = np_wrong = np_same = 0; np_name = NULL; np_line = 0; np_want = 1; \
    try { \
        try { np_want = __LINE__; if (how < 3) throw(e); } catch (not_predefined) { np_wrong++; } finally { np_finally++; } end_try; \
        np_wrong += 100; \
    } NP_CATCH(e) finally { np_finally++; } end_try; }
#define NP_CATCH(e) catch (e) { np_handled++; np_name = err; np_line = err_line; np_same = !strcmp(err_file, __FILE__); }
PREDEFINED
#undef X
#define X(e) static __attribute__((noinline)) void if_##e(void) { np_handled = np_wrong = 0; try { throw(e); } catch_if { if (caught(not_predefined)) np_wrong++; else if (caught(e)) { np_handled++; np_name = err; } } end_try; }
PREDEFINED
#undef X
static const struct { const char *name, *text; void (*once)(int); void (*by_if)(void); } predefined[] = {
#define X(e) { #e, ex_err_##e, once_##e, if_##e },
PREDEFINED
#undef X
};
static void case_predefined(vp_rng *r) {
    int i, n = (int)(sizeof predefined / sizeof *predefined), k;
    for (k = 0; k < 8; k++) {
        i = (int)vp_below(r, (uint32_t)n); vp_log("predefined exception %s", predefined[i].name);
        VP_CHECK(predefined[i].text != NULL && !strcmp(predefined[i].text, predefined[i].name), "predefined", "the predefined exception %s is missing or has another text", predefined[i].name);
        predefined[i].once(0);
        VP_CHECK(np_handled == 1 && np_wrong == 0 && np_finally == 2, "predefined", "%s was handled %d times, by another clause %d times, with %d finally clauses run", predefined[i].name, np_handled, np_wrong, np_finally);
        VP_CHECK(np_name && !strcmp(np_name, predefined[i].name) && np_line == np_want && np_same, "predefined", "%s is reported as \"%.40s\" from line %d (thrown in %d)", predefined[i].name, np_name ? np_name : "", np_line, np_want);
        predefined[i].by_if();
        VP_CHECK(np_handled == 1 && np_wrong == 0 && !strcmp(np_name, predefined[i].name), "predefined", "a catch_if block handled %s %d times, another %d times", predefined[i].name, np_handled, np_wrong);
    }
    vp_count("predefined", 8); vp_sig(vp_hash(404, vp_next(r)));
}
#endif
#if PROP == 5
/* pointers protected and unprotected in one function, some unprotected again long after: that must not touch the others */
static char slots[12]; static int sl_rel[64], sl_nrel; static ex_ptr_t sl_p[12]; static void *sl_v[12];
static void sl_release(void *v) { if (sl_nrel < 64) sl_rel[sl_nrel++] = (int)((char *)v - slots); }
static int sl_stack[12], sl_n, sl_was[12], sl_again, sl_seen[64], sl_nwant;
static void sl_want(void) { int i; for (i = sl_n, sl_nwant = 0; i > 0; i--) if (sl_v[sl_stack[i - 1]]) sl_seen[sl_nwant++] = sl_stack[i - 1]; }
static __attribute__((noinline)) void sl_ops(vp_rng *r) {
    int k, i, j, ops = 4 + (int)vp_below(r, 40);
    for (k = 0; k < ops; k++) switch (vp_below(r, 5)) {
        case 0: case 1:
            i = (int)vp_below(r, 12); for (j = 0; j < sl_n && sl_stack[j] != i; j++) ;
            if (j < sl_n) break;
            sl_v[i] = vp_chance(r, 1, 6) ? NULL : &slots[i]; vp_log("protect %d%s", i, sl_v[i] ? "" : " (null)");
            ex_protect_ptr(&sl_p[i], &sl_v[i], sl_release); sl_stack[sl_n++] = i; break;
        case 2: if (sl_n) { i = sl_stack[--sl_n]; sl_was[i] = 1; vp_log("unprotect %d", i); ex_unprotected_ptr(&sl_p[i]); } break;
        case 3:
            i = (int)vp_below(r, 12); for (j = 0; j < sl_n && sl_stack[j] != i; j++) ;
            if (j == sl_n && sl_was[i]) { vp_log("unprotect %d again", i); ex_unprotected_ptr(&sl_p[i]); sl_again++; } break;
        default: if (sl_n) { i = sl_stack[vp_below(r, (uint32_t)sl_n)]; sl_v[i] = sl_v[i] ? NULL : &slots[i]; vp_log("%d is %s now", i, sl_v[i] ? "set" : "null"); }
    }
    sl_want();
}
static void case_again(vp_rng *r) {
    int round, i; volatile int threw, ended;
    memset(sl_was, 0, sizeof sl_was); sl_again = 0;
    for (round = 0; round < 4; round++) {
        sl_n = sl_nrel = 0; threw = ended = 0;
        switch (vp_below(r, 3)) {
            case 0: try { sl_ops(r); vp_log("throw"); throw(range_error); } catch_any { threw = 1; } end_try; break;
            case 1: try { sl_ops(r); vp_log("panic"); raii_panic("again"); } catch (panic) { threw = 1; } end_try; break;
            default: try { sl_ops(r); while (sl_n) { i = sl_stack[--sl_n]; sl_was[i] = 1; ex_unprotected_ptr(&sl_p[i]); } vp_log("ended"); ended = 1; } catch_any { threw = 1; } end_try; sl_nwant = 0;
        }
        VP_CHECK(threw != ended, "control-flow", "round %d: threw %d ended %d", round, threw, ended);
        VP_CHECK(sl_nrel == sl_nwant, "protected-count", "%d protected pointers were released, expected %d", sl_nrel, sl_nwant);
        for (i = 0; i < sl_nrel; i++) VP_CHECK(sl_rel[i] == sl_seen[i], "protected-value", "release %d was of pointer %d, expected %d", i, sl_rel[i], sl_seen[i]);
        if (threw) for (i = 0; i < sl_n; i++) sl_was[sl_stack[i]] = 0;
        vp_count("released_alone", (uint64_t)sl_nrel);
    }
    vp_count("unprotected_again", (uint64_t)sl_again); vp_sig(vp_hash(505, vp_next(r)));
}
#endif
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, PROP); size_t live; int n, tries = 0;
    if (!p) p = prog_new();
#if PROP == 1
    if (idx % 32 == 5) { case_exit(&r); return; }
#endif
#if PROP == 4
    if (idx % 64 == 13) { raii_init(); case_predefined(&r); raii_deferred_clean(); return; }
#endif
#if PROP == 5
    if (idx % 32 == 19) { raii_init(); case_again(&r); raii_deferred_clean(); return; }
#endif
#if PROP == 6
    if (idx % 256 == 9) { case_many(&r); return; }
#endif
#if PROP == 1 || PROP == 2 || PROP == 8
    if (idx % 2048 == 77) { case_bulk(&r, PROP); return; }
#endif
    prog_cfg c = cfgs[PROP];
#if PROP != 2 && PROP != 8
    if (idx % 64 == 21) { c.deep = vp_chance(&r, 1, 2) ? 40 + (int)vp_below(&r, 60) : 60 + (int)vp_below(&r, 440); c.deep_guards = (int[]){ 0, 0, 10, 50, 90 }[vp_below(&r, 5)]; if (PROP == 1 || PROP == 3) c.deep_guards = 50 + (int)vp_below(&r, 50); c.max_nodes = 7000; }
#endif
#if PROP == 24
    c.hook_funcs = (int[]){ 3, 3, 3, 3, 3, 1, 7, 2 }[vp_below(&r, 8)]; if (vp_chance(&r, 1, 3)) c.signals = c.w[N_RAISE] = 0;
    if (c.hook_funcs != 3) vp_count(c.hook_funcs == 1 ? "only_setup" : c.hook_funcs == 2 ? "only_unwind" : "nothing_to_unwind", 1);
    prog_hook_funcs(&c);
#endif
    do { prog_gen(p, &r, &c); prog_model(p); n = prog_events(p); } while (n < 0 && ++tries < 20);
    if (n < 0) return;
#if PROP == 6
    { sigset_t s; sigemptyset(&s); if (vp_chance(&r, 1, 2)) sigaddset(&s, SIGTSTP); if (vp_chance(&r, 1, 3)) sigaddset(&s, SIGTTIN); if (vp_chance(&r, 1, 4)) sigaddset(&s, SIGTTOU); pthread_sigmask(SIG_SETMASK, &s, NULL); }
#endif
#if PROP == 6
    if (!defaulted && vp_chance(&r, 1, 3)) prog_own_signals(&r, 0);
#endif
    prog_dump(p);
    live = vp_live();
    prog_run(p);
    VP_CHECK(vp_live() == live, "leak", "%ld blocks of the library remain after every scope ended", (long)(vp_live() - live));
    vp_ledger_check();
    if (c.deep) { vp_count("deep_programs", 1); vp_max("deepest_chain", (uint64_t)c.deep); }
    prog_flush(p, PROP);
#if PROP == 6
    if (defaulted) { struct sigaction a; sigaction(SIGTERM, NULL, &a); defaulted = a.sa_handler == SIG_DFL; }
    if (vp_chance(&r, 1, 4)) after_defaults();
#endif
}
