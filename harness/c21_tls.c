/* C21: thread-local variables through the macros against one model per thread. */
#include <pthread.h>
#include <sched.h>
#include "c21.h"
#include "gen.h"
const vp_config_t vp_cfg = { "C21", 16, 20, 0 };
thrd_local(double, v_dbl, NULL)
thrd_local_plain(long, p_neg, -7)
thrd_static(int, v_priv, NULL)
thrd_static(big, v_own, 0)
thrd_static_plain(char, s_small, 0)
thrd_static_plain(void *, s_dbl, 0)
PVAR(a, trio, v_trio) PVAR(a, double, v_dbl) PVAR(a, big, v_big) PVAR(a, int, v_priv) PVAR(a, big, v_own) PVAR(a, memory_t, raii)
NVAR(a, int, p_int) NVAR(a, long, p_neg) NVAR(a, trio *, p_ptr) NVAR(a, char, s_small) NVAR(a, void *, s_dbl)
const pvar a_p[NP] = { PROW(a, trio, v_trio), PROW(a, double, v_dbl), PROW(a, big, v_big), PROW(a, int, v_priv), PROW(a, big, v_own), PROW(a, memory_t, raii) };
const nvar a_n[NN] = { NROW(a, int, p_int, 0), NROW(a, long, p_neg, (uint64_t)-7), NROW(a, trio *, p_ptr, 0), NROW(a, char, s_small, 0), NROW(a, void *, s_dbl, 0) };
#define NV 9       /* pointer variables: 0-2 and 5 shared by the units, 3-4 one per unit (unit b at +4) */
#define NW 7
enum { SHP = 3 };
typedef struct { int set, made; unsigned char *at; uint64_t seed; int live; } pm;      /* set: not empty; live: contents known */
typedef struct { vp_rng r; int id, ops, fresh; pm P[8]; uint64_t N[8]; unsigned char own[8][3008]; pthread_t t; thrd_t ct; int c11; unsigned char *buf[8]; uint64_t sig; } T;
static pthread_barrier_t bar; static volatile int together;
extern void vp_noise(void); extern unsigned vp_noise_seed;
/* model slot of variable k seen from unit u: shared ones have one slot */
static int pslot(int u, int k) { return k < 3 ? k : k == 5 ? 3 : 4 + (k - 3) * 2 + u; }
static int nslot(int u, int k) { return k < 3 ? k : 3 + (k - 3) * 2 + u; }
static unsigned char pat(uint64_t s, size_t i) { return (unsigned char)((s >> ((i & 7) * 8)) + i * 37); }
static void put(T *t, pm *m, unsigned char *p, size_t n) { size_t i; m->seed = vp_next(&t->r); for (i = 0; i < n; i++) p[i] = pat(m->seed, i); m->live = 1; }
static void chk(T *t, pm *m, const pvar *v, unsigned char *p) { size_t i; if (m->live) for (i = 0; i < v->size; i++) if (p[i] != pat(m->seed, i)) vp_fail("value", "thread %d: byte %zu of %s is not what this thread stored", t->id, i, v->name); }
static void step_p(T *t) {
    int u = (int)vp_below(&t->r, 2), k = (int)vp_below(&t->r, NP), s = pslot(u, k), op = (int)vp_below(&t->r, 12); const pvar *v = u ? &b_p[k] : &a_p[k]; pm *m = &t->P[s]; unsigned char *p; bool e; size_t i;
    if (k == 5 && op > 9) op = 4;                          /* the library's own variable: kept as it is */
    if (op < 3) { e = v->empty(); VP_CHECK(e == !m->set, "empty", "thread %d: %s is reported %s (%s)", t->id, v->name, e ? "empty" : "not empty", m->made ? "was created before" : "never used in this thread"); vp_count(e ? "reported_empty" : "reported_in_use", 1); return; }
    if (op < 10) {
        p = v->get(); VP_CHECK(p != NULL, "null", "%s() is null", v->name);
        if (!m->set) {
            if (!m->made) { for (i = 0; i < v->size; i++) VP_CHECK(p[i] == 0, "not-fresh", "thread %d: byte %zu of %s is %d at its first use in this thread", t->id, i, v->name, p[i]); vp_count("created", 1); }
            else vp_count("created_again", 1);
            m->set = m->made = 1; m->at = p; m->live = 0; t->buf[s] = p;
            if (k != 5) put(t, m, p, v->size);
        }
        VP_CHECK(p == m->at, "moved", "thread %d: %s moved to another object", t->id, v->name);
        e = v->empty(); VP_CHECK(!e, "empty", "thread %d: %s is reported empty after use", t->id, v->name);
        if (k == 5) { vp_count("read", 1); return; }
        chk(t, m, v, p); vp_count("read", 1);
        if (op > 5) { put(t, m, p, v->size); vp_noise(); chk(t, m, v, v->get()); vp_count("written", 1); }
        return;
    }
    if (op == 10) { v->del(); m->set = 0; m->live = 0; e = v->empty(); VP_CHECK(e, "empty", "thread %d: %s is reported in use after deletion", t->id, v->name); vp_count("deleted", 1); }
    else if (vp_chance(&t->r, 1, 6)) { v->upd(NULL); m->set = 0; m->live = 0; VP_CHECK(v->empty(), "empty", "%s is not empty after being given nothing", v->name); }
    else { v->upd(t->own[s]); m->set = m->made = 1; m->at = t->own[s]; put(t, m, t->own[s], v->size); VP_CHECK(v->get() == (void *)t->own[s], "update", "%s() is not the object given", v->name); VP_CHECK(!v->empty(), "empty", "%s is reported empty after being given an object", v->name); vp_count("updated", 1); }
}
static void step_n(T *t) {
    int u = (int)vp_below(&t->r, 2), k = (int)vp_below(&t->r, NN), s = nslot(u, k), op = (int)vp_below(&t->r, 8); const nvar *v = u ? &b_n[k] : &a_n[k]; uint64_t *m = &t->N[s], got;
    got = v->get() & v->mask; VP_CHECK(got == (*m & v->mask), "value", "thread %d: %s is %#llx, this thread left %#llx", t->id, v->name, (unsigned long long)got, (unsigned long long)(*m & v->mask));
    vp_count("plain_read", 1);
    { bool e = v->empty(); VP_CHECK(e == ((*m & v->mask) == (v->initial & v->mask)), "empty", "thread %d: %s with %#llx is reported %s", t->id, v->name, (unsigned long long)(*m & v->mask), e ? "empty" : "in use"); }
    if (op < 5) { *m = gen_u64(&t->r); if (v->mask == ~0ull && k == 4 && !u) *m &= ~0ull; if (k == 4 && u) { double d = (double)(int64_t)*m; memcpy(m, &d, 8); if (d == 0) *m = 0; } v->upd(*m); vp_noise(); VP_CHECK((v->get() & v->mask) == (*m & v->mask), "value", "%s is not what was just stored", v->name); vp_count("plain_written", 1); }
    else if (op == 5) { v->del(); *m = v->initial; VP_CHECK(v->empty() && (v->get() & v->mask) == (v->initial & v->mask), "empty", "%s is not what it was at first after deletion", v->name); vp_count("plain_deleted", 1); }
}
static void reset(T *t) { int u, k; memset(t->P, 0, sizeof t->P); memset(t->buf, 0, sizeof t->buf); for (u = 0; u < 2; u++) for (k = 0; k < NN; k++) t->N[nslot(u, k)] = (u ? b_n : a_n)[k].initial; }
static void all_unused(T *t) { int u, k; for (u = 0; u < 2; u++) { for (k = 0; k < NP; k++) { const pvar *v = &(u ? b_p : a_p)[k]; VP_CHECK(v->empty(), "empty", "thread %d: %s is in use before this thread's first use of it", t->id, v->name); }
    for (k = 0; k < NN; k++) { const nvar *v = &(u ? b_n : a_n)[k]; VP_CHECK(v->empty() && (v->get() & v->mask) == (v->initial & v->mask), "empty", "thread %d: %s does not start with its initial value", t->id, v->name); } } vp_count("fresh_threads", 1); }
static void *body(void *p) {
    T *t = p; int i;
    if (vp_chance(&t->r, 1, 2)) all_unused(t);
    if (together) pthread_barrier_wait(&bar);
    for (i = 0; i < t->ops; i++) { if (vp_chance(&t->r, 1, 3)) step_n(t); else step_p(t); if (vp_chance(&t->r, 1, 20)) sched_yield(); }
    for (i = 0; i < 8; i++) t->sig = vp_hash(t->sig, (uint64_t)t->P[i].set + 2 * (uint64_t)t->P[i].made + 4 * (t->P[i].at == t->own[i]));
    if (together) pthread_barrier_wait(&bar);       /* all instances exist here */
    if (together) pthread_barrier_wait(&bar);
    vp_sig(t->sig); return NULL;
}
static int body11(void *p) { body(p); return 0; }
static T M;
void vp_child_init(void) { M.id = 99; reset(&M); }
void vp_case(uint64_t seed, uint64_t idx) {
    static T W[5]; vp_rng r = vp_rng_make(seed, idx, 21); int n = 1 + (int)vp_below(&r, 5), i, j, k, round, rounds = 1 + (int)vp_below(&r, 3); T *all[6];
    vp_noise_seed = (unsigned)vp_next(&r) | 1;
    M.r = vp_rng_make(seed, idx, 999); 
    for (round = 0; round < rounds; round++) {
        for (i = 0; i < 10; i++) { if (i & 1) step_n(&M); else step_p(&M); }
        together = vp_chance(&r, 3, 4); if (together) pthread_barrier_init(&bar, 0, (unsigned)n + 1);
        for (i = 0; i < n; i++) { memset(&W[i], 0, sizeof W[i]); W[i].id = i; W[i].r = vp_rng_make(seed, idx, (uint64_t)(100 + round * 8 + i)); W[i].ops = 4 + (int)vp_below(&r, 60); reset(&W[i]); W[i].c11 = vp_chance(&r, 1, 2);
            if (W[i].c11) { if (thrd_create(&W[i].ct, body11, &W[i]) != thrd_success) abort(); } else if (pthread_create(&W[i].t, 0, body, &W[i])) abort(); }
        if (together) pthread_barrier_wait(&bar);
        for (i = 0; i < 20; i++) { if (i & 1) step_n(&M); else step_p(&M); }
        if (together) {
            pthread_barrier_wait(&bar);
            for (i = 0; i < n; i++) all[i] = &W[i]; all[n] = &M;
            for (k = 0; k < 8; k++) for (i = 0; i <= n; i++) for (j = 0; j < i; j++) if (all[i]->buf[k] && all[j]->buf[k]) { VP_CHECK(all[i]->buf[k] != all[j]->buf[k], "shared", "two live threads have the same instance of a variable"); vp_count("instance_pairs", 1); }
            pthread_barrier_wait(&bar);
        }
        for (i = 0; i < n; i++) { if (W[i].c11) thrd_join(W[i].ct, NULL); else pthread_join(W[i].t, 0); vp_count("threads", 1); }
        if (together) pthread_barrier_destroy(&bar);
    }
}
