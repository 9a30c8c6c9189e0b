/* Random programs over scopes, guards, try blocks and protected pointers: generated, evaluated by a reference
   model that yields the expected event trace, then run by the library with every event compared on line. */
#ifndef PROG_H
#define PROG_H
#include "raii.h"
#include "vp.h"
#include <signal.h>
#include <pthread.h>

enum { N_MARK, N_THROW, N_TRY, N_GUARD, N_DEFER, N_ALLOC, N_UNEW, N_UDEL, N_CLEAN, N_CANCEL, N_FIRE, N_RECOVER, N_PROTECT,
       N_RETHROW, N_BREAK, N_RETURN, N_RAISE, N_CALL, N_UNPROT, N_HOOK, N_NOMEM, N_OPS };
typedef struct node node;
struct node { unsigned char op; short id; int a, b, c, d; node *body, *h[4], *fin, *next, *pre; };

/* weights of the statements in a generated sequence */
typedef struct {
    int w[N_OPS];
    int max_depth, max_stmts, max_nodes;
    int throw_in_act;   /* percent of acts that may throw */
    int signals;        /* exceptions raised as signals */
    int hook_funcs;     /* 1: exception_setup_func, 2: exception_unwind_func installed (prog_hook_funcs); 4: nothing is to be unwound */
    int own_signals;    /* those of the program's own too */
    int mask;           /* compare the signal mask after every block */
    int custom_free;    /* percent of blocks with their own release function */
    int recover;        /* percent of acts in guards that recover */
    int hooks;          /* number of kinds of foreign statements (prog_hook) */
    int noraise_in_act; /* deferred functions raise no signals */
    int deep;           /* one chain of this many nested blocks instead */
    int deep_guards;    /* percent of them that are guards */
    int noscopes;       /* no smart pointers, default scope */
} prog_cfg;

typedef struct prog prog;
extern void (*prog_hook)(prog *p, int kind, int a);     /* a foreign statement: must not throw */
extern void (*prog_each_event)(void);
prog *prog_new(void);
void prog_hook_funcs(const prog_cfg *c);
void prog_own_signals(vp_rng *r, int fresh); /* registers them all, or some again */
void prog_default_names(void);              /* the library has put its own back (ex_signal_setup) */
void prog_free(prog *p);
void prog_gen(prog *p, vp_rng *r, const prog_cfg *c);
void prog_model(prog *p);                   /* compute the expected trace */
void prog_run(prog *p);                     /* run and compare; the calling thread's own default scope is used */
void prog_flush(prog *p, uint64_t salt);    /* counters and the signature of the observed behaviour */
void prog_dump(prog *p);
int prog_events(prog *p);
/* programs that end the process (set the mode before prog_model): */
enum { PM_SWEEP, PM_UNCAUGHT, PM_EXIT };
void prog_mode(prog *p, int mode, vp_rng *r);
void prog_run_to_exit(prog *p);             /* PM_UNCAUGHT: does not return; PM_EXIT: the caller exits then */
const char *prog_done(prog *p);             /* null once everything expected was observed, else what is missing */
const char *prog_last_text(prog *p, int *is_int, int *any_int, int *by_signal);   /* what the uncaught exception is reported as */
void prog_last_where(prog *p, const char **fn, char *loc, size_t n);
int prog_told(prog *p);   /* deferred functions that were told what ends the process */
int prog_open_scopes(prog *p);
#endif
