/* See prog.h. One statement engine, two evaluations: the model (m_*) and the library (r_*). */
#include "prog.h"

EX_EXCEPTION(ve0); EX_EXCEPTION(ve1); EX_EXCEPTION(ve2); EX_EXCEPTION(ve3);
C_API const char EX_NAME(panic)[];
#define SIGS(X) X(fpe, SIGFPE) X(segv, SIGSEGV) X(ill, SIGILL) X(bus, SIGBUS) X(term, SIGTERM) X(int, SIGINT) X(hup, SIGHUP) X(quit, SIGQUIT) X(trap, SIGTRAP) X(alrm, SIGALRM) X(abrt, SIGABRT) X(winch, SIGWINCH)
#define X(n, s) C_API const char EX_NAME(sig_##n)[];
SIGS(X)
#undef X
/* signals that the program itself makes exceptions of (ex_signal) */
#define OWN(X) X(usr1, SIGUSR1) X(usr2, SIGUSR2) X(pipe, SIGPIPE) X(chld, SIGCHLD) X(urg, SIGURG) X(xcpu, SIGXCPU) X(xfsz, SIGXFSZ) X(vtalrm, SIGVTALRM) X(prof, SIGPROF) X(io, SIGIO) X(sys, SIGSYS) X(pwr, SIGPWR) X(rt40, 40) X(rt41, 41) X(rt64, 64)
#define X(n, s) EX_EXCEPTION(own_##n); EX_EXCEPTION(other_##n);
OWN(X)
#undef X
EX_EXCEPTION(other_hup); EX_EXCEPTION(other_alrm); EX_EXCEPTION(other_abrt);
enum { X_VE0, X_VE1, X_VE2, X_VE3, X_PANIC, X_SIG0, X_N = X_SIG0 + 12, X_NN = X_N + 15, X_ANY = -1 };
static const char *xname[X_NN] = { EX_NAME(ve0), EX_NAME(ve1), EX_NAME(ve2), EX_NAME(ve3), EX_NAME(panic),
#define X(n, s) EX_NAME(sig_##n),
SIGS(X)
#undef X
#define X(n, s) EX_NAME(own_##n),
OWN(X)
#undef X
};
static const int xsig[27] = {
#define X(n, s) s,
SIGS(X)
OWN(X)
#undef X
};
/* registers what the program makes of signal k again, under the name it had or another one */
static void own_signal(int k, int other) {
    static const char *const oname[] = {
#define X(n, s) EX_NAME(other_##n),
OWN(X)
#undef X
    }, *const wname[] = {
#define X(n, s) EX_NAME(own_##n),
OWN(X)
#undef X
    }; const char *name = NULL;
    if (k >= 12) name = other ? oname[k - 12] : wname[k - 12];
    else switch (xsig[k]) {
        case SIGHUP: name = other ? EX_NAME(other_hup) : EX_NAME(sig_hup); break;
        case SIGALRM: name = other ? EX_NAME(other_alrm) : EX_NAME(sig_alrm); break;
        case SIGABRT: name = other ? EX_NAME(other_abrt) : EX_NAME(sig_abrt); break;
        default: return;
    }
    if (k == 12 || k == 22 || k == 26) name = wname[k - 12];      /* these have handlers by name */
    ex_signal(xsig[k], name); xname[X_SIG0 + k] = name;
}
void prog_default_names(void) {
    static const char *const d[12] = {
#define X(n, s) EX_NAME(sig_##n),
SIGS(X)
#undef X
    }; int i; for (i = 0; i < 12; i++) xname[X_SIG0 + i] = d[i];
}
void prog_own_signals(vp_rng *r, int fresh) {
    struct sigaction a; int k, i, order[27];
    if (fresh) { for (i = 0; i < 27; i++) order[i] = i; for (i = 26; i > 0; i--) { k = (int)vp_below(r, (uint32_t)i + 1); int t = order[i]; order[i] = order[k]; order[k] = t; } for (i = 0; i < 27; i++) own_signal(order[i], 0); }
    else for (i = (int)vp_below(r, 4); i > 0; i--) {
        k = vp_chance(r, 3, 4) ? 12 + (int)vp_below(r, 15) : (int)vp_below(r, 12);
        own_signal(k, vp_chance(r, 1, 2)); vp_count("own_registered", 1);
    }
    for (i = 12; i < 27; i++) { sigaction(xsig[i], NULL, &a); VP_CHECK(a.sa_handler != SIG_DFL && a.sa_handler != SIG_IGN, "handler-gone", "signal %d, which the program made an exception of, has no handler", xsig[i]); }
}
/* messages; some equal exception names */
static const char *const msgs[] = { "boom", "disk on fire", "ve1", "panic", "", "a message that is rather longer than the others, to be copied nowhere at all", "boo" };
#define NMSG ((int)(sizeof msgs / sizeof *msgs))
#define MSG_NOMEM 1000      /* any text: the library chooses it */
static const char *const files[] = { __FILE__, "unknown", "dir/other.c", "x" };

typedef struct { int ex, msg, line, file, fn; } exc;
typedef struct { short k; short a; int b, c, d; exc x; } ev;
enum { E_MARK, E_THROW, E_HANDLER, E_FINALLY, E_AFTER, E_GUARD, E_GEND, E_DEFER, E_RUN, E_MSG, E_RECOV, E_ALLOC, E_REL, E_FREED, E_UNEW, E_UDEL, E_UDONE,
       E_CLEAN, E_CDONE, E_CANCEL, E_FIRE, E_FIRED, E_PROT, E_UNPROT, E_RELP, E_CAUGHT_TOP, E_RAISE, E_HOOK, E_REASSIGN, E_SWEEP, E_SWEPT, E_NOMEM, E_TICK, E_SETUP, E_UNWIND, E_UNWOUND, E_N };
static const char *const ename[E_N] = { "mark", "throw", "handler", "finally", "after-try", "guard", "guard-end", "defer", "deferred-run", "message", "recover-test", "alloc", "release", "freed", "scope-new", "scope-delete", "scope-deleted",
       "clean", "cleaned", "cancel", "fire", "fired", "protect", "unprotect", "release-protected", "left-program", "raise", "hook", "reassign", "sweep", "swept", "no-memory", "shared-argument-run", "setup-hook", "unwind-hook", "unwound" };

#define MAXEV 30000
#define MAXENT 6000
#define MAXSC 3000
#define MAXN 8000
#define MAXCTX 1200
#define MAXGS 700
#define MAXSLOT 400
typedef struct { int kind, act, live, idxable, sc, custom, size, zero, fn, recov; const node *n;
                 /* real side */ size_t idx; char *ptr; uint64_t serial; int rlive; struct prog *p; } ent;
typedef struct { int kind, n, run, alive, has_err, recovered; exc err; int e[160]; memory_t *ptr; } scope_t;
typedef struct { int n, grd, slot[MAXSLOT]; } mctx;
struct prog {
    node nodes[MAXN]; int nn; node *top; prog_cfg c; vp_rng *r;
    ev evs[MAXEV]; int nev, at; int overflow;
    ent ents[MAXENT]; int nent, rent;
    scope_t sc[MAXSC]; int nsc; int uslot[3];
    int gs[MAXGS], ngs; int actd;
    mctx ctx[MAXCTX]; int nctx;
    int slotval[MAXENT], nslot, nval; char vals[2 * MAXENT], ticks[4];
    exc cur, final; /* model: the exception in flight; the uncaught one */
    sigset_t mask0; int tracked, running;
    int starved, mode, leaving, leave_at, rp; node last; int depth;
    uint64_t hash, counts[E_N];
    unsigned long n_handled, n_recovered, n_signals, n_rethrown, n_deep, n_told; int maxdepth;
};
void (*prog_hook)(prog *p, int kind, int a);
void (*prog_each_event)(void);
static __thread prog *P;

/* ---------------------------------------------------------------- generator */
#define HAS_FIN(f) (forms[f].fin)
typedef struct { int nc; int cl[4]; int fin, isif, more; } form_t;   /* more: 1 an else that handles nothing, 2 statements before the tests; theirs is the clause nc */
static const form_t forms[] = {
 /*0*/ {1,{X_VE0},0,0}, /*1*/ {2,{X_VE0,X_VE1},0,0}, /*2*/ {1,{X_ANY},0,0}, /*3*/ {2,{X_VE1,X_ANY},0,0}, /*4*/ {0,{0},1,0}, /*5*/ {1,{X_VE0},1,0},
 /*6*/ {1,{X_ANY},1,0}, /*7*/ {3,{X_VE2,X_VE0,X_ANY},1,0}, /*8*/ {2,{X_VE0,X_VE1},0,1}, /*9*/ {1,{X_VE1},1,1}, /*10*/ {1,{X_PANIC},0,0},
 /*11*/ {2,{X_PANIC,X_VE1},1,0}, /*12*/ {1,{X_ANY},1,0} /* finality */, /*13*/ {3,{X_VE3,X_VE2,X_VE1},0,0},
 /*14*/ {2,{X_SIG0,X_SIG0+1},1,0} /* fpe, segv */, /*15*/ {2,{X_SIG0+4,X_SIG0+5},0,0} /* term, int */, /*16*/ {2,{X_SIG0+1,X_SIG0+3},1,1}, /*17*/ {0,{0},0,0},
 /*18*/ {3,{X_N,X_N+14,X_N+10},0,1,0} /* usr1, rt64, sys */, /*19*/ {2,{X_VE0,X_VE1},0,1,1}, /*20*/ {1,{X_VE1},1,1,2}, /*21*/ {0,{0},0,1,2},
};
#define NFORMS 22
static node *nn(int op) { node *n; if (P->nn >= MAXN) return NULL; n = &P->nodes[P->nn]; memset(n, 0, sizeof *n); n->op = (unsigned char)op; n->id = (short)P->nn++; return n; }
#define RB(k) ((int)vp_below(P->r, (uint32_t)(k)))
enum { F_GUARD = 1, F_HANDLER = 2, F_ACT = 4, F_NOTHROW = 8, F_FIN = 16 };
static node *g_seq(int depth, int flags, int max);
static node *g_act(int depth, int guard_scope) {
    node *n = nn(N_DEFER); if (!n) return NULL;
    int flags = F_ACT;
    n->d = RB(3); n->c = -1;
    if (RB(100) >= P->c.throw_in_act) flags |= F_NOTHROW;
    if (guard_scope && RB(100) < P->c.recover) { n->c = RB(X_VE3 + 1 + NMSG + 1); if (RB(3) == 0) n->c = 1000; /* whatever is reported */ }
    if (RB(3) == 0) n->body = g_seq(depth + 2, flags, 3);
    return n;
}
static int g_scope(void) { return P->c.noscopes ? 4 + RB(2) : RB(7); }
static void g_throw(node *n) { n->a = RB(4); n->b = RB(P->c.signals ? P->c.own_signals ? X_NN : X_N : X_PANIC); n->c = RB(NMSG + 1) - 1; n->d = 1 + RB(99999); }
static node *g_stmt(int depth, int flags) {
    int t = 0, i, k; node *n;
    int w[N_OPS];
    for (i = 0; i < N_OPS; i++) { w[i] = P->c.w[i]; 
        if (depth >= P->c.max_depth && (i == N_TRY || i == N_GUARD || i == N_CALL || i == N_PROTECT)) w[i] = 0;
        if ((flags & F_NOTHROW) && (i == N_THROW || i == N_RAISE || i == N_NOMEM)) w[i] = 0; if ((flags & F_ACT) && i == N_RAISE && P->c.noraise_in_act) w[i] = 0;
        if ((flags & F_ACT) && (i == N_UDEL || i == N_CLEAN)) w[i] = 0;
        t += w[i]; }
    if (!t) return nn(N_MARK);
    k = RB(t);
    for (i = 0; k >= w[i]; i++) k -= w[i];
    n = nn(i); if (!n) return NULL;
    switch (i) {
        case N_THROW: g_throw(n); break;
        case N_RAISE: n->a = RB(P->c.own_signals ? 27 : 12); n->b = RB(3); break;
        case N_NOMEM: n->a = g_scope(); n->b = RB(5000); n->c = RB(9); n->d = RB(3) == 0; break;
        case N_TRY: {
            const form_t *f;
            n->a = RB(P->c.own_signals ? 19 : P->c.signals ? 18 : 14); if (RB(12) == 0) n->a = 17; else if (RB(8) == 0) n->a = 19 + RB(3); f = &forms[n->a]; n->b = RB(4) == 0; n->c = RB(3);
            n->body = g_seq(depth + 1, (flags & ~(F_GUARD | F_HANDLER)) & ~(f->nc && f->cl[f->nc - 1] == X_ANY && RB(2) ? F_NOTHROW : 0), P->c.max_stmts);
            for (k = 0; k < f->nc + !!f->more; k++) if (n->a != 12) n->h[k] = g_seq(depth + 1, (flags & ~F_GUARD) | F_HANDLER, 3);
            if (f->fin) n->fin = g_seq(depth + 1, (flags & ~(F_GUARD | F_HANDLER)) | F_FIN, 2);
            break; }
        case N_GUARD:
            n->a = RB(4); n->c = 1 + RB(1000); 
            for (k = RB(4); k > 0; k--) { node *q = RB(3) ? g_act(depth + 1, 1) : nn(N_ALLOC); if (!q) break; if (q->op == N_ALLOC) { q->b = RB(3) ? RB(100) : RB(3000); q->c = RB(2); } q->next = n->pre; n->pre = q; }
            n->body = g_seq(depth + 1, (flags & ~F_HANDLER) | F_GUARD, P->c.max_stmts); break;
        case N_DEFER: { node *q; int s = g_scope(); P->nn--; q = g_act(depth, s >= 4); if (!q) return NULL; q->a = s; q->b = RB(3); if (q->c != -1) q->a = 4 + (s % 3); n = q;
            if (RB(6) == 0) { /* the same function with the same argument, more than once */
                q->c = -1; q->body = NULL; q->d = 3 + RB(2);
                for (k = RB(4); k > 0; k--) { node *t2 = nn(N_DEFER); if (!t2) break; t2->a = q->a; t2->b = RB(3); t2->c = -1; t2->d = q->d; q->next = t2; q = t2; }
            } break; }
        case N_ALLOC: n->a = g_scope(); n->b = RB(4) ? RB(64) : RB(60) ? RB(5000) : RB(300000); n->c = RB(2); n->d = (RB(100) < P->c.custom_free) ? 1 + RB(2) : 0; break;
        case N_UNEW: case N_UDEL: n->a = RB(3); n->b = RB(4) == 0; break;
        case N_CLEAN: n->a = RB(3); break;
        case N_CANCEL: case N_FIRE: n->a = g_scope(); n->b = RB(1000); break;
        case N_PROTECT: n->a = RB(6) == 0; n->c = RB(4); n->d = RB(2); n->pre = RB(2) ? g_seq(depth + 1, flags & ~(F_GUARD | F_HANDLER), 2) : NULL; n->body = g_seq(depth + 1, flags & ~(F_GUARD | F_HANDLER), 3); break;
        case N_CALL: n->a = 1 + (RB(5) == 0) + (RB(9) == 0); n->body = g_seq(depth + 1, flags & ~(F_GUARD | F_HANDLER), P->c.max_stmts); break;
        case N_HOOK: n->a = RB(P->c.hooks); n->b = RB(1 << 20); break;
    }
    return n;
}
static node *g_seq(int depth, int flags, int max) {
    node *first = NULL, **tail = &first, *n; int i, k = 1 + RB(max);
    if (depth > P->maxdepth) P->maxdepth = depth;
    for (i = 0; i < k; i++) {
        if (P->nn > P->c.max_nodes) break;
        if (i == k - 1 && (flags & F_GUARD) && RB(3) == 0) n = nn(RB(2) ? N_BREAK : N_RETURN);
        else if (i == k - 1 && (flags & F_HANDLER) && !(flags & F_NOTHROW) && RB(4) == 0) n = nn(N_RETHROW);
        else n = g_stmt(depth, flags);
        if (!n) break;
        *tail = n; while (n->next) n = n->next; tail = &n->next;
    }
    if ((n = nn(N_MARK))) { *tail = n; }
    return first;
}
/* one block in another, down to `levels`, with little else */
static node *g_chain(int levels, int flags) {
    int k = RB(10), d = P->c.max_depth, i; node *n, *m = NULL, *tail; const form_t *f;
    if (levels <= 0) { if (RB(4)) { n = nn(P->c.w[N_RAISE] && RB(3) == 0 ? N_RAISE : N_THROW); if (!n) return NULL; if (n->op == N_THROW) g_throw(n); else n->a = RB(12); return n; } return g_seq(d, flags, 2); }
    i = P->c.deep_guards ? RB(100) < P->c.deep_guards ? 1 : k < 6 ? 0 : k < 9 ? 2 : 3 : k < 7 ? 0 : k < 9 ? 2 : 3;
    n = nn(i == 0 ? N_TRY : i == 1 ? N_GUARD : i == 2 ? N_PROTECT : N_CALL); if (!n) return NULL;
    if (RB(12) == 0) m = g_stmt(d, flags);
    switch (n->op) {
        case N_TRY: n->a = RB(14); if (RB(3)) n->a = (int[]){ 4, 0, 8, 10, 13, 17, 19, 20, 21 }[RB(9)]; f = &forms[n->a]; n->b = RB(4) == 0; n->c = RB(3);
            n->body = g_chain(levels - 1, 0);
            for (k = 0; k < f->nc + !!f->more; k++) if (n->a != 12) { n->h[k] = RB(3) ? nn(N_RETHROW) : RB(2) ? NULL : g_seq(d, F_HANDLER, 2); if (!n->h[k] && !(n->h[k] = nn(N_MARK))) return NULL; }
            if (f->fin) n->fin = g_seq(d, F_FIN, 1);
            break;
        case N_GUARD: n->a = RB(4); n->c = 1 + RB(1000); n->d = 0;
            if (RB(2)) { node *q = g_act(d, RB(8) == 0); if (q) { q->body = NULL; n->pre = q; } }
            n->body = g_chain(levels - 1, F_GUARD); break;
        case N_PROTECT: n->a = RB(8) == 0; n->c = RB(4); n->d = RB(2); n->body = g_chain(levels - 1, flags & ~(F_GUARD | F_HANDLER)); break;
        default: n->a = 1; n->body = g_chain(levels - 1, flags & ~(F_GUARD | F_HANDLER));
    }
    if (!n->body) return NULL;
    if (RB(6) == 0 && (tail = nn(N_MARK))) n->next = tail;
    if (m) { m->next = n; return m; }
    return n;
}
void prog_gen(prog *p, vp_rng *r, const prog_cfg *c) {
    P = p; P->c = *c; P->r = r; P->nn = 0; P->maxdepth = 0;
    P->top = c->deep ? g_chain(c->deep, 0) : g_seq(0, 0, c->max_stmts + 2);
}

/* ---------------------------------------------------------------- model */
enum { C_OK, C_EXC, C_BREAK, C_RET, C_RETHROW };
static int m_seq(const node *n);
static ev *emit(int k, int a, int b, int c) {
    static ev dummy; ev *e;
    if (P->nev >= MAXEV) { P->overflow = 1; return &dummy; }
    e = &P->evs[P->nev++]; memset(e, 0, sizeof *e); e->k = (short)k; e->a = (short)a; e->b = b; e->c = c; return e;
}
static int m_new_scope(int kind) { int i = P->nsc; if (i >= MAXSC) { P->overflow = 1; return i - 1; } P->nsc++; memset(&P->sc[i], 0, sizeof P->sc[i]); P->sc[i].kind = kind; P->sc[i].alive = 1; return i; }
static int m_pick(int sel) {
    if (sel >= 1 && sel <= 3 && P->uslot[sel - 1] >= 0) return P->uslot[sel - 1];
    if (sel >= 4) { if (P->ngs) return P->gs[P->ngs - 1 - (sel - 4) % P->ngs]; if (P->uslot[sel - 4] >= 0) return P->uslot[sel - 4]; }
    return 0;
}
static int m_entry(int s, int kind) {
    int i = P->nent; ent *e;
    if (i >= MAXENT || P->sc[s].n >= 150) { P->overflow = 1; return 0; }
    P->nent++; e = &P->ents[i]; memset(e, 0, sizeof *e); e->kind = kind; e->live = 1; e->sc = s;
    P->sc[s].e[P->sc[s].n++] = i;
    return i;
}
/* the program's own set-up function picks a smart pointer to be unwound, its own unwinding function does that */
static int m_scope_run(int s);
static void m_hooks(exc x) {
    int i, k, s = -1, was = P->leaving; ev *e = emit(E_SETUP, P->nctx, -1, P->nev % 3); int at = P->nev - 1;
    e->x = x;
    if (!(P->c.hook_funcs & 4)) for (k = 0; k < 3 && s < 0; k++) {
        s = P->uslot[(k + at) % 3]; if (s < 0) continue;
        if (P->sc[s].run) { s = -1; continue; }
        for (i = 0; i < P->sc[s].n; i++) if (P->ents[P->sc[s].e[i]].recov) { s = -1; break; }
    }
    if (s < 0 || P->overflow) return;
    P->evs[at].b = s;
    if (!(P->c.hook_funcs & 2)) return;
    emit(E_UNWIND, P->nctx, s, 0)->x = x;
    if (P->nctx == 1) P->leaving = 1;
    if (m_scope_run(s) != C_OK) P->overflow = 1;
    P->leaving = was; P->cur = x;
    emit(E_UNWOUND, 0, s, 0);
}
static int m_throw(exc x) {      /* unwinds the protected pointers of the current context */
    mctx *c = &P->ctx[P->nctx - 1];
    P->cur = x;
    if (P->nctx == 1) P->leave_at = P->nev;
    if ((P->c.hook_funcs & 1) && !c->grd) m_hooks(x);
    while (c->n) { int s = c->slot[--c->n]; if (P->slotval[s] >= 0) emit(E_RELP, 0, P->slotval[s], s)->d = P->nctx == 1; }
    return C_EXC;
}
static const char *xstr(exc x) { return x.msg == MSG_NOMEM ? "(any)" : x.msg >= 0 ? msgs[x.msg] : xname[x.ex]; }
static const char *recov_name(const node *n) { return n->c <= X_VE3 ? xname[n->c] : n->c <= X_VE3 + NMSG ? msgs[n->c - X_VE3 - 1] : "no such message"; }
static int m_act(int e) {
    const node *n = P->ents[e].n; int code;
    ev *x = emit(E_RUN, P->mode == PM_UNCAUGHT && P->leaving && P->nctx == 1 && !(P->c.hook_funcs & 1), e, n->d); (void)x;
    P->actd++;
    if (n->c != -1 && !P->leaving) {
        scope_t *g = P->ngs ? &P->sc[P->gs[P->ngs - 1]] : NULL; int match;
        const char *want = n->c == 1000 ? (g && g->has_err ? xstr(g->err) : "nothing") : recov_name(n);
        x = emit(E_MSG, g && g->recovered ? 2 : g && g->has_err, 0, 0); if (g && g->has_err) x->x = g->err;
        match = g && g->has_err && (n->c == 1000 || !strcmp(want, xstr(g->err)));
        x = emit(E_RECOV, g && g->recovered ? 2 : match, e, n->c);
        if (match && !g->recovered) { g->recovered = 1; P->n_recovered++; }
    }
    code = n->body ? m_seq(n->body) : C_OK;
    P->actd--;
    return code;
}
static int m_release(int e) {
    ent *t = &P->ents[e];
    t->live = 0;
    if (t->kind == 0) return m_act(e);
    if (t->kind == 3) { emit(E_TICK, t->fn - 3, 0, 0); return C_OK; }
    emit(t->custom ? E_REL : E_FREED, 0, e, 0);
    return C_OK;
}
static int m_scope_run(int s) {
    P->sc[s].run++;
    while (P->sc[s].n > 0) {
        int e = P->sc[s].e[--P->sc[s].n];
        if (!P->ents[e].live) continue;
        if (m_release(e) == C_EXC) { P->sc[s].run--; return C_EXC; }
        if (P->overflow) break;
    }
    P->sc[s].run--;
    return C_OK;
}
static void m_arena_gone(int s) { int i; if (P->sc[s].kind == 3) for (i = 0; i < P->nent; i++) if (P->ents[i].sc == s && P->ents[i].kind == 2 && P->ents[i].live) { P->ents[i].live = 0; emit(E_FREED, 0, i, 0); } }
static int m_value(void) { return P->nval++; }
static int m_try(const node *n) {
    const form_t *f = &forms[n->a]; int code, i, failed; exc x;
    if (P->nctx >= MAXCTX - 2) { P->overflow = 1; return C_OK; }
    P->ctx[P->nctx].grd = 0; P->ctx[P->nctx++].n = 0;
    if (n->b) { int s = P->nslot++; P->slotval[s] = m_value(); emit(E_PROT, s, P->slotval[s], 0); P->ctx[P->nctx - 1].slot[P->ctx[P->nctx - 1].n++] = s;
        if (n->c == 1) { P->slotval[s] = m_value(); emit(E_REASSIGN, s, P->slotval[s], 0); } else if (n->c == 2) { P->slotval[s] = -1; emit(E_REASSIGN, s, -1, 0); } }
    code = m_seq(n->body);
    x = P->cur; failed = code == C_EXC;
    if (code == C_EXC) {
        ev *e;
        for (i = 0; i < f->nc; i++) if (f->cl[i] == X_ANY || f->cl[i] == x.ex) break;
        if (f->more == 2 || (f->more && i == f->nc)) {     /* handles nothing */
            int c2; e = emit(E_HANDLER, n->id, f->nc, 0); e->x = x; c2 = m_seq(n->h[f->nc]);
            if (c2 == C_RETHROW) { P->n_rethrown++; m_throw(x); i = f->nc; } else if (c2 == C_EXC) { x = P->cur; i = f->nc; }
        }
        if (i < f->nc) {
            code = C_OK;
            P->n_handled++;
            if (n->a != 12) { e = emit(E_HANDLER, n->id, i, 0); e->x = x; code = m_seq(n->h[i]);
                if (code == C_RETHROW) { P->n_rethrown++; code = m_throw(x); } else if (code == C_EXC) x = P->cur; }
        }
    }
    P->nctx--;
    if (f->fin) {
        int c2; ev *e = emit(E_FINALLY, n->id, failed, 0); e->x = x;
        c2 = m_seq(n->fin);
        if (c2 == C_EXC) return C_EXC;
    }
    if (code == C_EXC) return m_throw(x);
    emit(E_AFTER, n->id, 0, 0);
    return C_OK;
}
static int m_alloc(int s, const node *n) {
    int e = m_entry(s, 1); ent *t = &P->ents[e];
    if (P->sc[s].kind == 3 && n->d == 0) { t->kind = 2; P->sc[s].n--; }  /* the arena's, there until after the scope's last deferred function */
    t->custom = n->d == 1; t->size = n->b; t->zero = n->c; t->idxable = 1; t->n = n;
    emit(E_ALLOC, s, e, 0);
    return e;
}
static int m_defer(int s, const node *n, int lexical) {
    int e = m_entry(s, 0); ent *t = &P->ents[e];
    t->n = n; t->fn = n->d; t->recov = n->c != -1; if (n->d >= 3) t->kind = 3;
    t->idxable = !lexical && n->b != 2;
    emit(E_DEFER, s, e, 0);
    return e;
}
static int m_guard(const node *n) {
    int s, code, ret = 0; const node *q; exc x;
    if (P->nctx >= MAXCTX - 2 || P->ngs >= MAXGS - 2) { P->overflow = 1; return C_OK; }
    s = m_new_scope(2);
    P->gs[P->ngs++] = s; P->ctx[P->nctx].grd = 1; P->ctx[P->nctx++].n = 0;
    emit(E_GUARD, n->id, s, 0);
    for (q = n->pre; q; q = q->next) if (q->op == N_DEFER) m_defer(s, q, 1); else { int e = m_alloc(s, q); P->ents[e].custom = 0; }
    code = m_seq(n->body);
    ret = code == C_RET ? n->c : 0;
    for (;;) {
        if (code == C_EXC) { x = P->cur; P->sc[s].has_err = 1; P->sc[s].err = x; P->sc[s].recovered = 0; ret = 0; }
        if (m_scope_run(s) == C_EXC) { code = C_EXC; if (P->overflow) break; continue; }
        break;
    }
    P->nctx--; P->ngs--; P->sc[s].alive = 0;
    if (code == C_EXC && !P->sc[s].recovered) return m_throw(x);
    if (!ret && n->a == 1) ret = -n->c;
    emit(E_GEND, n->id, ret, s);
    return C_OK;
}
static int m_kth(int s, int k, int fire) {
    int i, m = 0; scope_t *q = &P->sc[s];
    for (i = 0; i < q->n; i++) { ent *e = &P->ents[q->e[i]]; if (e->live && e->idxable && !(fire && P->actd && (q->kind == 2 || e->recov))) m++; }
    if (!m) return -1;
    k %= m;
    for (i = 0; i < q->n; i++) { ent *e = &P->ents[q->e[i]]; if (e->live && e->idxable && !(fire && P->actd && (q->kind == 2 || e->recov))) if (k-- == 0) return q->e[i]; }
    return -1;
}
/* a stopped entry leaves the list when it is the last one; the order of the others does not change */
static void m_stop(int e) { scope_t *q = &P->sc[P->ents[e].sc]; P->ents[e].live = 0; if (q->n && q->e[q->n - 1] == e) q->n--; }
static int m_stmt(const node *n) {
    int s, e, c, i; exc x;
    if (P->overflow) return C_OK;
    switch (n->op) {
        case N_MARK: emit(E_MARK, n->id, 0, 0); return C_OK;
        case N_THROW: {
            ev *v = emit(E_THROW, n->a, 0, 0);
            memset(&x, 0, sizeof x);
            switch (n->a) {
                case 0: case 1: x.ex = n->b <= X_VE3 ? n->b : n->b % 4; x.msg = -1; x.file = 0; x.line = -1; x.fn = 1; break;
                case 2: x.ex = X_PANIC; x.msg = n->c < 0 ? 0 : n->c; x.file = 0; x.line = -1; x.fn = 1; break;
                default: x.ex = n->b; x.msg = n->c; x.line = n->d; x.file = 2 + n->d % 2; x.fn = 2; break;
            }
            v->x = x; return m_throw(x); }
        case N_NOMEM: { ev *v = emit(E_NOMEM, m_pick(n->a), 0, 0); memset(&x, 0, sizeof x); x.ex = X_PANIC; x.msg = MSG_NOMEM; x.file = -1; x.line = -1; v->x = x; return m_throw(x); }
        case N_RAISE: { ev *v = emit(E_RAISE, n->a, n->b, 0); memset(&x, 0, sizeof x); x.ex = X_SIG0 + n->a; x.msg = -1; x.line = 0; x.file = 1; v->x = x; P->n_signals++; return m_throw(x); }
        case N_TRY: return m_try(n);
        case N_GUARD: return m_guard(n);
        case N_DEFER: m_defer(m_pick(n->a), n, 0); return C_OK;
        case N_ALLOC: m_alloc(m_pick(n->a), n); return C_OK;
        case N_UNEW: s = -1; if (P->uslot[n->a] < 0) { s = m_new_scope(n->b ? 3 : 1); P->uslot[n->a] = s; } emit(E_UNEW, n->a, s, 0); return C_OK;
        case N_UDEL: s = P->uslot[n->a]; if (s >= 0 && P->sc[s].run) s = -1; emit(E_UDEL, n->a, s, 0); if (s < 0) return C_OK;
            if ((c = m_scope_run(s))) return c;
            m_arena_gone(s); P->uslot[n->a] = -1; P->sc[s].alive = 0; emit(E_UDONE, n->a, s, 0); return C_OK;
        case N_CLEAN: s = P->sc[0].run ? -1 : 0; emit(E_CLEAN, n->a, s, 0); if (s < 0) return C_OK; if ((c = m_scope_run(0))) return c; emit(E_CDONE, 0, 0, 0); return C_OK;
        case N_CANCEL: e = m_kth(m_pick(n->a), n->b, 0); emit(E_CANCEL, 0, e, 0); if (e >= 0) m_stop(e); return C_OK;
        case N_FIRE: e = m_kth(m_pick(n->a), n->b, 1); emit(E_FIRE, 0, e, 0); if (e < 0) return C_OK; m_stop(e); P->ents[e].live = 1; if ((c = m_release(e))) return c; emit(E_FIRED, 0, e, 0); return C_OK;
        case N_PROTECT: {
            int sl = P->nslot++; mctx *k = &P->ctx[P->nctx - 1];
            if (k->n >= MAXSLOT - 4) { P->overflow = 1; return C_OK; }
            P->slotval[sl] = n->a ? -1 : m_value(); emit(E_PROT, sl, P->slotval[sl], 0); k->slot[k->n++] = sl;
            if (n->pre && (c = m_seq(n->pre))) return c;
            if (n->c == 1) { P->slotval[sl] = m_value(); emit(E_REASSIGN, sl, P->slotval[sl], 0); } else if (n->c == 2) { P->slotval[sl] = -1; emit(E_REASSIGN, sl, -1, 0); }
            if ((c = m_seq(n->body))) return c;
            P->ctx[P->nctx - 1].n--; emit(E_UNPROT, sl, 0, 0); return C_OK; }
        case N_CALL: for (i = 0; i < n->a; i++) if ((c = m_seq(n->body))) return c; return C_OK;
        case N_HOOK: emit(E_HOOK, n->a, n->b, 0); return C_OK;
        case N_RETHROW: return C_RETHROW;
        case N_BREAK: return C_BREAK;
        case N_RETURN: return C_RET;
    }
    return C_OK;
}
static int m_seq(const node *n) { int c; for (; n; n = n->next) if ((c = m_stmt(n))) return c; return C_OK; }
void prog_model(prog *p) {
    int i, again;
    P = p; p->nev = p->at = p->overflow = 0; p->nent = p->rent = 0; p->nsc = 0; p->ngs = 0; p->actd = 0; p->nctx = 1; p->ctx[0].n = p->ctx[0].grd = 0; p->nslot = p->nval = 0; 
    p->n_handled = p->n_recovered = p->n_signals = p->n_rethrown = 0;
    for (i = 0; i < 3; i++) p->uslot[i] = -1;
    m_new_scope(0); p->leaving = 0; p->rp = -1;
    if (p->mode == PM_UNCAUGHT) {
        int c = m_seq(p->top);
        if (c == C_OK) c = m_stmt(&p->last);
        if (c != C_EXC) { p->overflow = 1; return; }
        p->leaving = 1; p->final = p->cur; if (m_scope_run(0)) p->overflow = 1;
        p->leaving = 0; return;
    }
    p->ctx[p->nctx].grd = 0; p->ctx[p->nctx++].n = 0;
    if (m_seq(p->top) == C_EXC) { ev *e = emit(E_CAUGHT_TOP, 0, 0, 0); e->x = p->cur; }
    p->nctx--;
    if (p->mode == PM_EXIT) { p->leaving = 1; p->leave_at = p->nev; if (m_scope_run(0)) p->overflow = 1; p->leaving = 0; return; }
    /* end every scope; each attempt inside its own try */
    for (again = 1; again && !p->overflow;) {
    for (i = 0; i < 3; i++) {
        int guardn = 0;
        while (p->uslot[i] >= 0 && !p->overflow && guardn++ < 400) {
            int s = p->uslot[i]; p->ctx[p->nctx].grd = 0; p->ctx[p->nctx++].n = 0;
            emit(E_SWEEP, i, s, 0);
            if (m_scope_run(s)) { ev *e; p->nctx--; e = emit(E_CAUGHT_TOP, 1, 0, 0); e->x = p->cur; continue; }
            m_arena_gone(s); p->nctx--; p->uslot[i] = -1; emit(E_SWEPT, i, s, 0);
        }
    }
    again = 0;
    { int n = 0; for (;;) { p->ctx[p->nctx].grd = 0; p->ctx[p->nctx++].n = 0; emit(E_SWEEP, 3, 0, 0); if (!m_scope_run(0)) { p->nctx--; emit(E_SWEPT, 3, 0, 0); break; } p->nctx--; { ev *e = emit(E_CAUGHT_TOP, 1, 0, 0); e->x = p->cur; } if (++n > 400 || p->overflow) break; } }
    for (i = 0; i < 3; i++) if (p->uslot[i] >= 0) again = 1;   /* made by a deferred function */
    }
}

/* ---------------------------------------------------------------- the library's side */
static int r_seq(const node *n);
static void block_gone(int e) {
    ent *t = &P->ents[e];
    if (t->kind != 2 && t->rlive && P->tracked && vp_block_serial(t->ptr) == t->serial) vp_fail("block-kept", "block %d of %d bytes is still allocated after its release (event %d of %d)", e, t->size, P->at, P->nev);
    t->rlive = 0;
}
static void silent(void) {
    while (P->at < P->nev && P->evs[P->at].k == E_FREED) { block_gone(P->evs[P->at].b); P->counts[E_FREED]++; P->at++; }
}
static ev *expect(int k) {
    ev *e;
    silent();
    while (P->at < P->nev && P->evs[P->at].k == E_RELP && P->evs[P->at].d) { P->at++; silent(); }
    if (P->starved) { vp_fail_at(0, 0); P->starved = 0; }
    if (prog_each_event) prog_each_event();
    if (P->at >= P->nev) vp_fail("event-extra", "event %s after the last expected one", ename[k]);
    e = &P->evs[P->at];
    if (e->k != k) { char key[80]; snprintf(key, sizeof key, "expected-%s-got-%s", ename[e->k], ename[k]); vp_fail(key, "event %d: expected %s(%d, %d), the library did %s", P->at, ename[e->k], e->a, e->b, ename[k]); }
    P->at++; P->counts[k]++; P->hash = vp_hash(P->hash, (uint64_t)k * 31 + (uint64_t)(k == E_RECOV || k == E_HANDLER ? e->b : 0));
    return e;
}
static void pat(char *p, int n, int e) { int i; for (i = 0; i < n; i++) p[i] = (char)(e * 37 + i * 11 + 5); }
static void check_pat(int e) {
    ent *t = &P->ents[e]; int i;
    for (i = 0; i < t->size; i += i > 6000 && i < t->size - 6000 ? 97 : 1) if (t->ptr[i] != (char)(e * 37 + i * 11 + 5)) vp_fail("block-changed", "byte %d of block %d (%d bytes) changed while its scope lives", i, e, t->size);
}
static void check_blocks(void) {
    int i, n = 0;
    for (i = P->rent; i < P->nent && n < 60; i++) {
        ent *t = &P->ents[i];
        if (!t->rlive) { if (i == P->rent) P->rent++; continue; }
        n++;
        if (P->tracked && t->kind != 2 && vp_block_serial(t->ptr) != t->serial) vp_fail("block-lost", "block %d of %d bytes was released before its scope ended (event %d)", i, t->size, P->at);
        check_pat(i);
    }
    vp_beat();
}
static void check_mask(const char *where) {
    sigset_t s; int i;
    if (!P->c.mask) return;
    pthread_sigmask(SIG_SETMASK, NULL, &s);
    for (i = 1; i < 32; i++) if (sigismember(&s, i) != sigismember(&P->mask0, i)) vp_fail("mask", "signal %d is %s after %s (event %d)", i, sigismember(&s, i) ? "blocked" : "unblocked", where, P->at);
}
static void on_run(int fn, void *d) {
    ent *t = d; const node *n; ev *e; int i;
    if (t < P->ents || t >= P->ents + P->nent || ((char *)t - (char *)P->ents) % (long)sizeof *t) vp_fail("deferred-argument", "a deferred function got an argument that was never given");
    i = (int)(t - P->ents);
    e = expect(E_RUN);
    if (e->b != i) vp_fail("deferred-order", "deferred function %d ran where %d should (event %d)", i, e->b, P->at);
    if (e->c != fn) vp_fail("deferred-function", "function %d ran with the argument given to %d", fn, e->c);
    n = t->n;
    if (e->a) { /* what nothing handled is there for what runs because of it */
        const char *want = xstr(P->final), *m = i & 1 ? raii_message() : raii_message_by(raii_local());
        if (!m || (P->final.msg != MSG_NOMEM && strcmp(m, want))) vp_fail("message-leaving", "a function that runs because \"%.60s\" was not handled is told \"%.60s\"", want, m ? m : "(null)");
        if (i & 2 ? raii_caught("no such message") : raii_is_caught(raii_local(), "no such message")) vp_fail("recover-test", "the recover test holds for what was not thrown");
        P->n_told++;
    }
    if (n->c != -1 && !(P->mode && P->at > P->leave_at)) {
        const char *m; bool r; ev *v; raii_init(); /* these are for guards, which have the default scope made */ m = _get_message(); v = expect(E_MSG); char keep[128] = "nothing"; 
        if (v->a == 1) { if (!m || (v->x.msg != MSG_NOMEM && strcmp(m, xstr(v->x)))) vp_fail("message", "the reported message is \"%.80s\", expected \"%.80s\"", m ? m : "(null)", xstr(v->x)); }
        else if (v->a == 0 && m) vp_fail("message-none", "a message (\"%.60s\") is reported while nothing is raised", m);
        if (m) snprintf(keep, sizeof keep, "%s", m);
        v = expect(E_RECOV);
        r = n->c == 1000 ? (v->a == 2 ? _recover(keep) : _recover(keep)) : n->c == X_VE0 && n->d == 1 ? _is_caught(ve0) : _recover(recov_name(n));
        if (v->a != 2 && r != (v->a == 1)) vp_fail("recover-test", "the recover test gave %d, expected %d (event %d)", r, v->a == 1, P->at);
    }
    if (n->body) r_seq(n->body);
}
static void tick(void *d) {
    ev *e = expect(E_TICK);
    if (d != (void *)&P->ticks[e->a]) vp_fail("deferred-argument", "a function deferred with a shared argument got %p", d);
}
static void check_exc(const exc *x, const char *name, const char *panic, const char *file, int line, const char *fn, const char *where);
/* ---- the program's own functions for the library's callbacks */
static void on_setup(ex_context_t *ctx, const char *ex, const char *panic) {
    ev *e = expect(E_SETUP); memory_t *m; void *old;
    if (ctx != ex_local()) vp_fail("setup-context", "the set-up function got another context than the current one (event %d)", P->at);
    check_exc(&e->x, ex, panic, ctx->file, ctx->line, ctx->function, "the set-up function");
    if (ex_uncaught_exception()) vp_fail("setup-late", "the set-up function is called while unwinding has begun");
    if (e->b < 0) { if (e->c) ex_unwind_set(ctx, false); return; }
    m = P->sc[e->b].ptr; m->err = (void *)ex; m->panic = panic;
    if (!ctx->is_raii) { /* as often as it likes */
        int k;
        for (k = 1 + P->at % 3; k >= 0; k--) {
            ex_data_set(ctx, &P->ticks[k]);
            if (ex_data_get(ctx, NULL) != (void *)&P->ticks[k]) vp_fail("context-data", "ex_data_get does not return the data set last");
            if (!k) break;
            ex_swap_set(ctx, m); if (ctx->prev != (void *)&P->ticks[k] || ex_data_get(ctx, NULL) != m) vp_fail("context-data", "ex_swap_set does not keep the data that was set before");
            ex_swap_reset(ctx); if (ex_data_get(ctx, NULL) != (void *)&P->ticks[k]) vp_fail("context-data", "ex_swap_reset does not put back the data that was set before");
            vp_count("data_swapped", 1);
        }
    }
    old = ex_data_get(ctx, NULL); ex_swap_set(ctx, m);
    if (ctx->prev != old || ex_data_get(ctx, NULL) != m) vp_fail("context-data", "ex_swap_set does not keep the data that was set before");
    ex_unwind_set(ctx, true);
}
static void on_unwind(void *data) {
    ev *e; ex_context_t *ctx = ex_local(); const char *m;
    if (!(P->c.hook_funcs & 1)) { if (data == raii_local()) raii_deferred_free(data); return; }
    e = expect(E_UNWIND);
    if (data != P->sc[e->b].ptr) vp_fail("unwind-data", "the unwinding function got other data than the set-up function chose");
    if (!ex_uncaught_exception()) vp_fail("uncaught-test", "ex_uncaught_exception denies that unwinding is going on");
    m = raii_message_by(data); if (!m || strcmp(m, xstr(e->x))) vp_fail("message", "the scope reports \"%.60s\", expected \"%.60s\"", m ? m : "(null)", xstr(e->x));
    raii_deferred_free(data);
    expect(E_UNWOUND);
    ((memory_t *)data)->err = NULL; ((memory_t *)data)->panic = NULL;
    if (ex_local() != ctx) vp_fail("context", "the current context is another one after unwinding a scope");
    ex_swap_reset(ctx);
    if (ex_data_get(ctx, NULL) != (ctx->is_raii ? (void *)raii_local() : (void *)&P->ticks[0])) vp_fail("context-data", "ex_swap_reset does not put back the data that was set before");
}
void prog_hook_funcs(const prog_cfg *c) { exception_setup_func = c->hook_funcs & 1 ? on_setup : NULL; exception_unwind_func = c->hook_funcs & 2 ? on_unwind : NULL; }
static void df0(void *d) { on_run(0, d); }
static void df1(void *d) { on_run(1, d); }
static void df2(void *d) { on_run(2, d); }
static func_t const df[5] = { df0, df1, df2, tick, tick };
#define ARG(n, t) ((n)->d < 3 ? (void *)(t) : (void *)&P->ticks[(n)->d - 3])
static void on_release(void *p) {
    ev *e = expect(E_REL); ent *t = &P->ents[e->b];
    if (t->ptr != p) vp_fail("release-argument", "the release function got %p, expected block %d at %p", p, e->b, (void *)t->ptr);
    if (P->tracked && vp_block_serial(p) != t->serial) vp_fail("release-twice", "block %d is released but not allocated any more", e->b);
    check_pat(e->b);
    t->rlive = 0; RAII_FREE(p);
}
/* those of the outermost level are released as the thread's scope is ended: before, after or between, but in their order */
static int base_release(void *v) {
    int i;
    for (i = P->rp + 1; i < P->nev; i++) if (P->evs[i].k == E_RELP && P->evs[i].d) break;
    if (i >= P->nev || v != (void *)&P->vals[P->evs[i].b]) return 0;
    silent();
    if (P->at < P->leave_at) return 0;
    P->rp = i; P->counts[E_RELP]++; return 1;
}
static void on_release_prot(void *v) {
    ev *e;
    if (P->mode == PM_UNCAUGHT && base_release(v)) return;
    e = expect(E_RELP);
    if (v != (void *)&P->vals[e->b]) vp_fail("protected-value", "a protected pointer was released with another value (offset %ld, expected %d)", (long)((char *)v - P->vals), e->b);
}
static void check_exc(const exc *x, const char *name, const char *panic, const char *file, int line, const char *fn, const char *where) {
    if (name != xname[x->ex] && (!name || strcmp(name, xname[x->ex]))) vp_fail("exception-name", "%s sees exception \"%.40s\", expected \"%s\"", where, name ? name : "(null)", xname[x->ex]);
    if (x->msg == MSG_NOMEM) { if (!panic || !*panic) vp_fail("exception-message", "%s sees no message of a failed allocation", where); return; }
    if (x->msg < 0 ? panic != NULL : panic != msgs[x->msg] && (!panic || strcmp(panic, msgs[x->msg]))) vp_fail("exception-message", "%s sees message \"%.60s\", expected \"%.60s\"", where, panic ? panic : "(null)", x->msg < 0 ? "(null)" : msgs[x->msg]);
    if (!file || strcmp(file, files[x->file])) vp_fail("exception-file", "%s sees file \"%.60s\", expected \"%.60s\"", where, file ? file : "(null)", files[x->file]);
    if (line != (x->line >= 0 ? x->line : line)) vp_fail("exception-line", "%s sees line %d, expected %d", where, line, x->line);
    if (x->fn == 2 && (!fn || strcmp(fn, "thrower"))) vp_fail("exception-function", "%s sees function \"%.60s\"", where, fn ? fn : "(null)");
}
static __thread int thrown_line;
__attribute__((noinline)) static void r_throw(const node *n, const ev *e) {
    const exc *x = &e->x; static const char thrower[] = "thrower";
    switch (n->a) {
        case 0: case 1: switch (x->ex) {
            case 0: ((ev *)e)->x.line = __LINE__; throw(ve0); break;
            case 1: ((ev *)e)->x.line = __LINE__; throw(ve1); break;
            case 2: ((ev *)e)->x.line = __LINE__; throw(ve2); break;
            default: ((ev *)e)->x.line = __LINE__; throw(ve3); break;
        } break;
        case 2: if (x->msg & 1) raii_panic(msgs[x->msg]); else _panic(msgs[x->msg]); break;
        default: ex_throw(xname[x->ex], files[x->file], x->line, thrower, x->msg < 0 ? NULL : msgs[x->msg], NULL);
    }
    vp_fail("throw-returned", "throw returned");
}
/* the next request for memory fails, or all until the next event */
__attribute__((noinline)) static void r_nomem(const node *n, int s) {
    memory_t *m = s ? P->sc[s].ptr : raii_init(); void *volatile q = NULL; size_t z = (size_t)n->b;
    if (n->c == 4) { q = RAII_MALLOC(8); memcpy(q, "unmoved", 8); }
    int how = m->is_arena && (n->c == 2 || n->c == 3) ? n->c - 2 : n->c;
    P->starved = 1; vp_fail_at(1, n->d);
    if (n->c == 4) {
        volatile int caught_it = 0;
        try { q = try_realloc(q, 10000 + z); } catch (panic) { caught_it = 1; } end_try;
        vp_fail_at(0, 0);
        if (!caught_it) vp_fail("nomem-returned", "try_realloc returned although it got no memory");
        if (!vp_is_live(q) || memcmp(q, "unmoved", 8)) vp_fail("nomem-lost", "a block was lost when it could not grow");
        RAII_FREE(q); vp_fail_at(1, n->d); try_malloc(z);
    }
    switch (how) {
        case 0: malloc_full(m, z, on_release); break;
        case 1: calloc_full(m, 1, z, RAII_FREE); break;
        case 2: s ? malloc_by(m, z) : malloc_default(z); break;
        case 3: s ? calloc_by(m, 1, z) : calloc_default(1, z); break;
        case 5: unique_init(); break;
        case 6: guard { vp_fail("nomem-returned", "a guard was entered although it got no memory"); } guarded; break;
        case 7: try_calloc(1, z); break;
        default: str_memdup_ex(m, "0123456789", 10); break;
    }
    vp_fail("nomem-returned", "a request returned although there was no memory");
}
static volatile int *volatile null_int; static volatile int zero_int;
__attribute__((noinline, no_sanitize("undefined", "address"))) static void r_raise(int s, int how) {
    int sig = xsig[s];
    if (how == 1 && sig == SIGSEGV) { *null_int = 3; }
    else if (how == 1 && sig == SIGILL) __asm__ volatile("ud2");
    else if (how == 1 && sig == SIGTRAP) __asm__ volatile("int3");
#if defined(__x86_64__)
    else if (how == 1 && sig == SIGFPE) __asm__ volatile("xorl %%ecx, %%ecx; movl $1, %%eax; cdq; idivl %%ecx" ::: "eax", "ecx", "edx", "cc");
#endif
    else if (how == 2) pthread_kill(pthread_self(), sig);
    else raise(sig);
    vp_fail("raise-returned", "execution went on after signal %d", sig);
}
static void r_handler(const node *n, int clause, const char *err, const char *panic, const char *file, int line, const char *fn) {
    if (P->at < P->nev && P->evs[P->at].k != E_HANDLER) vp_log("handler %d of try %d (form %d) ran for %s %s", clause, n->id, n->a, err, panic ? panic : "");
    ev *e = expect(E_HANDLER); char w[40];
    if (e->a != n->id) vp_fail("handler-which", "try %d handles what try %d should", n->id, e->a);
    if (e->b != clause) vp_fail("handler-clause", "clause %d of try %d runs, expected clause %d", clause, n->id, e->b);
    snprintf(w, sizeof w, "handler %d", n->id);
    check_exc(&e->x, err, panic, file, line, fn, w);
}
static void r_finally(const node *n, const char *err, const char *panic, const char *file, int line, const char *fn) {
    ev *e = expect(E_FINALLY); char w[40];
    if (e->a != n->id) vp_fail("finally-which", "finally of try %d runs, expected that of %d", n->id, e->a);
    if (!e->b) { if (err) vp_fail("finally-told", "finally of try %d is told %s, nothing was raised", n->id, err); return; }
    if (!err) vp_fail("finally-untold", "finally of try %d is told nothing", n->id);
    snprintf(w, sizeof w, "finally %d", n->id);
    check_exc(&e->x, err, panic, file, line, fn, w);
}
static void r_rethrow_guard(int c) { (void)c; }
static void r_prot_ev(ex_ptr_t *x, void **p) { (void)x; (void)p; }
static void *r_value(int v) { return v < 0 ? NULL : (void *)&P->vals[v]; }
#define BODY \
    if (n->b) { ev *e_ = expect(E_PROT); p = r_value(e_->b); } \
    if (n->b) { protected(p, on_release_prot); r_prot_ev(&ex_protected_p, &p); if (n->c == 1 || n->c == 2) p = r_value(expect(E_REASSIGN)->b); r_seq(n->body); } else r_seq(n->body);
#define HANDLE(i) { r_handler(n, i, err, ex_err.panic, err_file, err_line, ex_err.function); if (r_seq(n->h[i]) == C_RETHROW) { rethrow(); } }
#define FIN { r_finally(n, err, ex_err.panic, err_file, err_line, ex_err.function); r_seq(n->fin); }
/* one function per shape, so that each is compiled as a user would write it */
#define T(k) static __attribute__((noinline)) void t_##k(const node *n) { void *p = NULL; (void)p; 
T(0) try { BODY } catch (ve0) { HANDLE(0) } end_try; }
T(1) try { BODY } catch (ve0) { HANDLE(0) } catch (ve1) { HANDLE(1) } end_try; }
T(2) try { BODY } catch_any { HANDLE(0) } end_try; }
T(3) try { BODY } catch (ve1) { HANDLE(0) } catch_any { HANDLE(1) } end_try; }
T(4) try { BODY } finally { FIN } end_try; }
T(5) try { BODY } catch (ve0) { HANDLE(0) } finally { FIN } end_try; }
T(6) try { BODY } catch_any { HANDLE(0) } finally { FIN } end_try; }
T(7) try { BODY } catch (ve2) { HANDLE(0) } catch (ve0) { HANDLE(1) } catch_any { HANDLE(2) } finally { FIN } end_try; }
T(8) try { BODY } catch_if { if (caught(ve0)) HANDLE(0) else if (caught(ve1)) HANDLE(1) } end_try; }
T(9) try { BODY } catch_if { if (caught(ve1)) HANDLE(0) } finally { FIN } end_try; }
T(10) try { BODY } catch (panic) { HANDLE(0) } end_try; }
T(11) try { BODY } catch (panic) { HANDLE(0) } catch (ve1) { HANDLE(1) } finally { FIN } end_try; }
T(12) try { BODY } finality { FIN } end_trying; }
T(13) try { BODY } catch (ve3) { HANDLE(0) } catch (ve2) { HANDLE(1) } catch (ve1) { HANDLE(2) } end_try; }
T(14) try { BODY } catch (sig_fpe) { HANDLE(0) } catch (sig_segv) { HANDLE(1) } finally { FIN } end_try; }
T(15) try { BODY } catch (sig_term) { HANDLE(0) } catch (sig_int) { HANDLE(1) } end_try; }
T(16) try { BODY } catch_if { if (caught(sig_segv)) HANDLE(0) else if (caught(sig_bus)) HANDLE(1) } finally { FIN } end_try; }
T(17) try { BODY } end_try; }
T(18) try { BODY } catch_if { if (caught(own_usr1)) HANDLE(0) else if (caught(own_rt64)) HANDLE(1) else if (caught(own_sys)) HANDLE(2) } end_try; }
T(19) try { BODY } catch_if { if (caught(ve0)) HANDLE(0) else if (caught(ve1)) HANDLE(1) else HANDLE(2) } end_try; }
T(20) try { BODY } catch_if { HANDLE(1) if (caught(ve1)) HANDLE(0) } finally { FIN } end_try; }
T(21) try { BODY } catch_if { HANDLE(0) } end_try; }
static void (*const tf[NFORMS])(const node *) = { t_0, t_1, t_2, t_3, t_4, t_5, t_6, t_7, t_8, t_9, t_10, t_11, t_12, t_13, t_14, t_15, t_16, t_17, t_18, t_19, t_20, t_21 };
static void r_try(const node *n) {
    ev *e;
    tf[n->a](n);
    e = expect(E_AFTER);
    if (e->a != n->id) vp_fail("after-which", "control goes on after try %d, expected after %d", n->id, e->a);
    check_mask("a try block");
}
static void took(int e, void *ptr, memory_t *s) {
    ent *t = &P->ents[e]; int i;
    if (!ptr) vp_fail("alloc-null", "a request of %d bytes gave null", t->size);
    t->ptr = ptr; t->rlive = 1; t->idx = raii_last_mid(s);
    if (t->kind == 2) { if (P->tracked && !vp_in_live(ptr, (size_t)t->size)) vp_fail("alloc-bounds", "a request of %d bytes gave a block that is not all in one piece of memory", t->size); }
    else if (P->tracked) { if (!(t->serial = vp_block_serial(ptr)) || vp_block_size(ptr) < (size_t)t->size) vp_fail("alloc-bounds", "a request of %d bytes gave a block of %zu", t->size, vp_block_size(ptr)); }
    if (t->zero) for (i = 0; i < t->size; i++) if (t->ptr[i]) vp_fail("alloc-zero", "byte %d of a zeroed block of %d is %d", i, t->size, t->ptr[i]);
    pat(t->ptr, t->size, e);
}
static int r_scope_id(const ev *e) { return e->a; }
static void r_alloc(const node *n) {
    ev *e = expect(E_ALLOC); int s = r_scope_id(e), i = e->b; memory_t *m = s ? P->sc[s].ptr : raii_init(); void *p; size_t z = (size_t)n->b; int cnt = z && z % 4 == 0 ? 4 : 1;
    if (P->ents[i].kind == 2) { z += !z; if (z % (size_t)cnt) cnt = 1; p = n->id & 1 ? (n->c ? calloc_by(m, 1, z) : malloc_by(m, z)) : (n->c ? calloc_arena(m, cnt, z / (size_t)cnt) : malloc_arena(m, z)); took(i, p, m); return; }
    if (z && n->id % 5 == 0) cnt = (int)z;
    if (n->d == 1) p = n->c ? calloc_full(m, cnt, z / (size_t)cnt, on_release) : malloc_full(m, z, on_release);
    else if (n->d == 2) p = n->c ? calloc_full(m, cnt, z / (size_t)cnt, RAII_FREE) : malloc_full(m, z, RAII_FREE);
    else if (!s) p = n->c ? calloc_default(cnt, z / (size_t)cnt) : malloc_default(z);
    else p = n->c ? calloc_by(m, cnt, z / (size_t)cnt) : malloc_by(m, z);
    took(i, p, m);
    if (!s && raii_mid() != P->ents[i].idx) vp_fail("mid", "raii_mid differs from raii_last_mid of the default scope");
}
static void r_defer(const node *n) {
    ev *e = expect(E_DEFER); int s = r_scope_id(e); ent *t = &P->ents[e->b]; memory_t *m = s ? P->sc[s].ptr : raii_init(); size_t before = raii_deferred_count(m);
    if (n->b == 2) { if (!s) raii_recover(df[n->d], ARG(n, t)); else raii_recover_by(m, df[n->d], ARG(n, t)); }
    else if (!s && n->b == 0) t->idx = raii_defer(df[n->d], ARG(n, t));
    else t->idx = raii_deferred(m, df[n->d], ARG(n, t));
    if (raii_deferred_count(m) != before + 1) vp_fail("count", "deferring one function changed the count from %zu to %zu", before, raii_deferred_count(m));
}
/* guards: the forms a user writes */
#define GPRE for (q = n->pre; q; q = q->next) { if (q->op == N_DEFER) { ev *e_ = expect(E_DEFER); _defer(df[q->d], &P->ents[e_->b]); } \
    else { ev *e_ = expect(E_ALLOC); void *m_ = q->c ? _calloc(1, (size_t)q->b) : _malloc((size_t)q->b); took(e_->b, m_, P->sc[sid].ptr); } }
#define GIN _assign_ptr(us); P->sc[sid].ptr = us; GPRE
static __attribute__((noinline)) int g_0(const node *n, int sid) { const node *volatile q; int c;
    guard { GIN c = r_seq(n->body); if (c == C_BREAK) break; if (c == C_RET) { _return(n->c); } } guarded;
    return 0; }
static __attribute__((noinline)) int g_1(const node *n, int sid) { const node *volatile q; int c;
    guard { GIN c = r_seq(n->body); if (c == C_BREAK) break; if (c == C_RET) { _return(n->c); } } unguarded(-n->c) }
block(static int, g_2, const node *n, int sid) { const node *volatile q; int c; GIN c = r_seq(n->body); if (c == C_BREAK) break; if (c == C_RET) { _return(n->c); } } unblocked(0)
static __attribute__((noinline)) int g_3(const node *n, int sid) { const node *volatile q; int c; volatile int once = 0;
    for (; !once; once++) { guard { GIN c = r_seq(n->body); if (c == C_BREAK) break; if (c == C_RET) { _return(n->c); } } guarded; }
    return 0; }
static void r_guard(const node *n) {
    ev *e = expect(E_GUARD); int r;
    if (e->a != n->id) vp_fail("guard-which", "guard %d starts, expected %d", n->id, e->a);
    switch (n->a) { case 0: r = g_0(n, e->b); break; case 1: r = g_1(n, e->b); break; case 2: r = g_2(n, e->b); break; default: r = g_3(n, e->b); }
    e = expect(E_GEND);
    if (e->a != n->id) vp_fail("guard-end-which", "control goes on after guard %d, expected after %d", n->id, e->a);
    if (r != e->b) vp_fail("guard-value", "a guarded function returned %d, expected %d", r, e->b);
    check_mask("a guard");
}
static __attribute__((noinline)) void r_protect(const node *n) {
    void *p; ev *e = expect(E_PROT);
    p = r_value(e->b);
    {
        protected(p, on_release_prot);
        if (n->pre) r_seq(n->pre);
        if (n->c == 1 || n->c == 2) p = r_value(expect(E_REASSIGN)->b);
        r_seq(n->body);
        if (n->d) { unprotected(p); } else ex_unprotected_ptr(&EX_PNAME(p));
    }
    expect(E_UNPROT);
}
static void r_end(int s) { if (P->sc[s].kind == 3) free_arena(P->sc[s].ptr); else raii_delete(P->sc[s].ptr); }
static int r_stmt(const node *n) {
    ev *e; ent *t; int i;
    switch (n->op) {
        case N_MARK: e = expect(E_MARK); if (e->a != n->id) vp_fail("control-flow", "statement %d runs where %d should (event %d)", n->id, e->a, P->at); check_blocks(); break;
        case N_THROW: r_throw(n, expect(E_THROW)); break;
        case N_NOMEM: r_nomem(n, expect(E_NOMEM)->a); break;
        case N_RAISE: e = expect(E_RAISE); r_raise(e->a, e->b); break;
        case N_TRY: r_try(n); break;
        case N_GUARD: r_guard(n); break;
        case N_DEFER: r_defer(n); break;
        case N_ALLOC: r_alloc(n); break;
        case N_UNEW: e = expect(E_UNEW); if (e->b >= 0) P->sc[e->b].ptr = P->sc[e->b].kind == 3 ? unique_init_arena() : unique_init(); break;
        case N_UDEL: e = expect(E_UDEL); if (e->b >= 0) { r_end(e->b); expect(E_UDONE); } break;
        case N_CLEAN: e = expect(E_CLEAN); if (e->b >= 0) { if (e->a == 1) { raii_init(); raii_destroy(); } else if (e->a == 2) raii_deferred_free(raii_init()); else raii_deferred_clean(); expect(E_CDONE); if (raii_deferred_count(raii_init())) vp_fail("count", "%zu deferred functions remain after the scope ended", raii_deferred_count(raii_init())); } break;
        case N_CANCEL: e = expect(E_CANCEL); if (e->b < 0) break; t = &P->ents[e->b];
            if (!t->sc && (n->b & 1)) raii_defer_cancel(t->idx); else raii_deferred_cancel(t->sc ? P->sc[t->sc].ptr : raii_init(), t->idx);
            if (t->kind == 1) { check_pat(e->b); t->rlive = 0; RAII_FREE(t->ptr); } break;
        case N_FIRE: e = expect(E_FIRE); if (e->b < 0) break; t = &P->ents[e->b];
            if (!t->sc && (n->b & 1)) raii_defer_fire(t->idx); else raii_deferred_fire(t->sc ? P->sc[t->sc].ptr : raii_init(), t->idx);
            expect(E_FIRED); break;
        case N_PROTECT: r_protect(n); break;
        case N_CALL: for (i = 0; i < n->a; i++) r_seq(n->body); break;
        case N_HOOK: e = expect(E_HOOK); if (prog_hook) prog_hook(P, e->a, e->b); break;
        case N_RETHROW: return C_RETHROW;
        case N_BREAK: return C_BREAK;
        case N_RETURN: return C_RET;
    }
    return C_OK;
}
static int r_seq(const node *n) { int c; for (; n; n = n->next) if ((c = r_stmt(n))) return c; return C_OK; }
static void r_top_caught(int where, const char *err, const char *panic, const char *file, int line, const char *fn) {
    ev *e = expect(E_CAUGHT_TOP); if (e->a != where) vp_fail("left-where", "an exception left elsewhere"); check_exc(&e->x, err, panic, file, line, fn, "the caller");
}
static __attribute__((noinline)) void r_top(void) { try { r_seq(P->top); } catch_any { r_top_caught(0, err, ex_err.panic, err_file, err_line, ex_err.function); } end_try; }
static __attribute__((noinline)) int r_sweep(int i) {
    volatile int done = 0;
    try { ev *e = expect(E_SWEEP); if (i < 3) r_end(e->b); else raii_deferred_clean(); expect(E_SWEPT); done = 1; }
    catch_any { r_top_caught(1, err, ex_err.panic, err_file, err_line, ex_err.function); } end_try;
    return done;
}
void prog_run(prog *p) {
    int i; void *t; ex_context_t *c0;
    P = p; p->at = 0; p->hash = 7; memset(p->counts, 0, sizeof p->counts);
    t = RAII_MALLOC(8); p->tracked = vp_is_live(t); RAII_FREE(t);
    pthread_sigmask(SIG_SETMASK, NULL, &p->mask0);
    c0 = ex_init();
    r_top();
    for (;;) {
        silent();
        if (p->at >= p->nev) break;
        if (p->evs[p->at].k != E_SWEEP) vp_fail("trace-short", "the program ended where %s was expected (event %d of %d)", ename[p->evs[p->at].k], p->at, p->nev);
        r_sweep(p->evs[p->at].a);
    }
    for (i = 0; i < p->nent; i++) if (p->ents[i].rlive) vp_fail("block-unreleased", "block %d was never released", i);
    if (ex_local() != c0) vp_fail("context", "the exception context differs after the program");
    check_mask("the program");
}
void prog_flush(prog *p, uint64_t salt) {
    int i;
    vp_sig(vp_hash(p->hash, salt));
    for (i = 0; i < E_N; i++) if (p->counts[i]) vp_count(ename[i], p->counts[i]);
    vp_count("programs", 1); vp_count("events", (uint64_t)p->at); vp_max("longest_trace", (uint64_t)p->at); vp_max("deepest_program", (uint64_t)p->maxdepth);
    if (p->n_handled) vp_count("exceptions_handled", p->n_handled);
    if (p->n_recovered) vp_count("exceptions_recovered", p->n_recovered);
    if (p->n_rethrown) vp_count("rethrown", p->n_rethrown);
    if (p->n_signals) vp_count("signals", p->n_signals);
}
void prog_dump(prog *p) {
    int i, d = 0; char b[200];
    for (i = 0; i < p->nev && i < 400; i++) { ev *e = &p->evs[i]; 
        snprintf(b, sizeof b, "%d: %s %d %d %d", i, ename[e->k], e->a, e->b, e->c);
        if (e->k == E_THROW || e->k == E_HANDLER || e->k == E_SETUP || e->k == E_RAISE || e->k == E_NOMEM) snprintf(b + strlen(b), sizeof b - strlen(b), " <%s%s%s>", xname[e->x.ex], e->x.msg >= 0 ? ": " : "", e->x.msg == MSG_NOMEM ? "(any)" : e->x.msg >= 0 ? msgs[e->x.msg] : "");
        vp_log("%s", b); (void)d; }
}
int prog_events(prog *p) { return p->overflow ? -1 : p->nev; }
prog *prog_new(void) { return calloc(1, sizeof(prog)); }
void prog_free(prog *p) { free(p); }

/* ---------------------------------------------------------------- programs that end the process */
void prog_mode(prog *p, int mode, vp_rng *r) {
    P = p; p->mode = mode; p->r = r; memset(&p->last, 0, sizeof p->last);
    p->last.op = p->c.signals && RB(2) ? N_RAISE : N_THROW; p->last.id = 9999; p->depth = RB(3) ? 0 : RB(60);
    if (p->last.op == N_THROW) g_throw(&p->last); else { p->last.a = RB(12); p->last.b = RB(3); }
}
__attribute__((noinline)) static void r_deep(int n) { volatile char pad[64]; pad[0] = (char)n; if (n) r_deep(n - 1); else r_stmt(&P->last); if (pad[0] != (char)n) abort(); }
void prog_run_to_exit(prog *p) {
    void *t;
    P = p; p->at = 0; p->hash = 7; memset(p->counts, 0, sizeof p->counts); p->rp = -1;
    t = RAII_MALLOC(8); p->tracked = vp_is_live(t); RAII_FREE(t);
    pthread_sigmask(SIG_SETMASK, NULL, &p->mask0);
    if (p->mode == PM_EXIT) { r_top(); return; }
    r_seq(p->top);
    r_deep(p->depth);
    vp_fail("went-on", "execution went on after an exception that nothing handles");
}
const char *prog_done(prog *p) {
    static char b[100]; int i;
    P = p; silent();
    while (p->at < p->nev && p->evs[p->at].k == E_RELP && p->evs[p->at].d) { p->at++; silent(); }
    if (p->at < p->nev) { snprintf(b, sizeof b, "%s(%d, %d), event %d of %d", ename[p->evs[p->at].k], p->evs[p->at].a, p->evs[p->at].b, p->at, p->nev); return b; }
    for (i = p->rp + 1; i < p->nev; i++) if (p->evs[i].k == E_RELP && p->evs[i].d) return "the release of a protected pointer";
    return NULL;
}
const char *prog_last_text(prog *p, int *is_int, int *any_int, int *by_signal) {
    int i; *any_int = *is_int = *by_signal = 0;
    for (i = 0; i < p->nev; i++) if (p->evs[i].k == E_RAISE) { *by_signal = 1; if (xsig[p->evs[i].a] == SIGINT) *any_int = 1; }
    *is_int = p->final.ex >= X_SIG0 && p->final.file == 1 && p->final.line == 0 && xsig[p->final.ex - X_SIG0] == SIGINT;
    return xstr(p->final);
}
/* where the exception that ends the program was thrown, if the program says so itself */
void prog_last_where(prog *p, const char **fn, char *loc, size_t n) {
    const exc *x = &p->final; *fn = NULL; *loc = 0;
    if (x->msg == MSG_NOMEM || x->file < 0 || x->ex >= X_SIG0 && x->file == 1) return;
    *fn = x->fn == 2 ? "thrower" : "r_throw";
    if (x->fn == 2) snprintf(loc, n, "%s:%d", files[x->file], x->line); else snprintf(loc, n, "%s:", files[x->file]);
}
int prog_told(prog *p) { return (int)p->n_told; }
int prog_open_scopes(prog *p) { int i, n = 0; for (i = 0; i < 3; i++) n += p->uslot[i] >= 0; return n; }
