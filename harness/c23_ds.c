/* C23: the bundled queue and tree macros against plain models. */
#include "vp.h"
#include "gen.h"
#include <string.h>
#undef __unused
#define __unused __attribute__((unused))
#if defined(VP_CONFIG_o0) || defined(VP_CONFIG_asan)
#define QUEUE_MACRO_DEBUG
#endif
#include <compat/sys/queue.h>
/* the tree macros call this where a node's subtree changed; it derives the number of nodes below, up to the root */
static void augment(void *node);
#define RB_AUGMENT(x) augment(x)
#include <compat/sys/tree.h>
const vp_config_t vp_cfg = { "C23", 64, 10, 0 };
static vp_rng *R;
#define RB_(k) ((int)vp_below(R, (uint32_t)(k)))
#define NE 48
#define NH 3
typedef struct el el;
struct el { int id; int pad; 
    SLIST_ENTRY(el) s; LIST_ENTRY(el) l; SIMPLEQ_ENTRY(el) q; XSIMPLEQ_ENTRY(el) x; TAILQ_ENTRY(el) t; TAILQ_ENTRY(el) t2; };
SLIST_HEAD(slh, el); LIST_HEAD(lh, el); SIMPLEQ_HEAD(sqh, el); XSIMPLEQ_HEAD(xqh, el); TAILQ_HEAD(tqh, el); TAILQ_HEAD(tqh2, el);
static el *E[NE];
/* one model for every kind: the sequence of every head */
typedef struct { int n, a[NE]; } seq;
static seq M[NH]; static signed char at[NE];
static int kind; static uint64_t nops; static uint64_t sig;
static struct slh S[NH]; static struct lh L[NH]; static struct sqh Q[NH]; static struct xqh X[NH]; static struct tqh T[NH]; static struct tqh2 T2[NH];
static const char *const kname[] = { "SLIST", "LIST", "SIMPLEQ", "XSIMPLEQ", "TAILQ", "TAILQ(2nd field)" };
static void m_ins(int h, int pos, int e) { memmove(M[h].a + pos + 1, M[h].a + pos, sizeof(int) * (size_t)(M[h].n - pos)); M[h].a[pos] = e; M[h].n++; at[e] = (signed char)h; }
static void m_del(int h, int pos) { at[M[h].a[pos]] = -1; M[h].n--; memmove(M[h].a + pos, M[h].a + pos + 1, sizeof(int) * (size_t)(M[h].n - pos)); }
static void see(int h, int i, el *e, const char *how) {
    VP_CHECK(i < M[h].n, "longer", "%s %d: %s enumerates more than its %d members", kname[kind], h, how, M[h].n);
    VP_CHECK(e == E[M[h].a[i]], "order", "%s %d: %s enumerates something else at place %d of %d", kname[kind], h, how, i, M[h].n);
}
#define FWD(P, H, f) { i = 0; P##_FOREACH(e, H, f) see(h, i++, e, "FOREACH"); len(h, i, "FOREACH"); i = 0; P##_FOREACH_SAFE(e, H, f, e2) see(h, i++, e, "FOREACH_SAFE"); len(h, i, "FOREACH_SAFE"); \
    VP_CHECK(!P##_EMPTY(H) == (M[h].n > 0), "empty", "%s: EMPTY is wrong for %d members", kname[kind], M[h].n); VP_CHECK(P##_FIRST(H) == (M[h].n ? E[M[h].a[0]] : NULL), "first", "%s: FIRST is wrong", kname[kind]); }
static void len(int h, int i, const char *how) { VP_CHECK(i == M[h].n, "shorter", "%s %d: %s enumerates %d of %d members", kname[kind], h, how, i, M[h].n); }
#define BACK(H, hn, f) { i = M[h].n; TAILQ_FOREACH_REVERSE(e, H, hn, f) see(h, --i, e, "FOREACH_REVERSE"); VP_CHECK(i == 0, "shorter", "%s: FOREACH_REVERSE leaves %d out", kname[kind], i); \
    i = M[h].n; TAILQ_FOREACH_REVERSE_SAFE(e, H, hn, f, e2) see(h, --i, e, "FOREACH_REVERSE_SAFE"); VP_CHECK(i == 0, "shorter", "%s: FOREACH_REVERSE_SAFE leaves %d out", kname[kind], i); \
    VP_CHECK(TAILQ_LAST(H, hn) == (M[h].n ? E[M[h].a[M[h].n - 1]] : NULL), "last", "LAST is wrong"); }
static void look(int h) {
    el *e, *e2; int i;
    switch (kind) {
        case 0: FWD(SLIST, &S[h], s); break;
        case 1: FWD(LIST, &L[h], l); for (i = 0; i < M[h].n; i++) VP_CHECK(*E[M[h].a[i]]->l.le_prev == E[M[h].a[i]], "back-link", "LIST: the back link of place %d is wrong", i); break;
        case 2: FWD(SIMPLEQ, &Q[h], q); break;
        case 3: { i = 0; XSIMPLEQ_FOREACH(e, &X[h], x) see(h, i++, e, "FOREACH"); len(h, i, "FOREACH"); i = 0; XSIMPLEQ_FOREACH_SAFE(e, &X[h], x, e2) see(h, i++, e, "FOREACH_SAFE"); len(h, i, "FOREACH_SAFE");
            VP_CHECK(!XSIMPLEQ_EMPTY(&X[h]) == (M[h].n > 0), "empty", "XSIMPLEQ: EMPTY is wrong"); VP_CHECK(XSIMPLEQ_FIRST(&X[h]) == (M[h].n ? E[M[h].a[0]] : NULL), "first", "XSIMPLEQ: FIRST is wrong"); break; }
        case 4: FWD(TAILQ, &T[h], t); BACK(&T[h], tqh, t); for (i = 1; i < M[h].n; i++) VP_CHECK(TAILQ_PREV(E[M[h].a[i]], tqh, t) == E[M[h].a[i - 1]], "previous", "PREV of place %d is wrong", i); break;
        default: FWD(TAILQ, &T2[h], t2); BACK(&T2[h], tqh2, t2); break;
    }
}
static void init(int h) { switch (kind) { case 0: SLIST_INIT(&S[h]); break; case 1: LIST_INIT(&L[h]); break; case 2: SIMPLEQ_INIT(&Q[h]); break; case 3: XSIMPLEQ_INIT(&X[h]); break; case 4: TAILQ_INIT(&T[h]); break; default: TAILQ_INIT(&T2[h]); } }
static void init_static(int h) {
    static struct slh s0 = SLIST_HEAD_INITIALIZER(s0); static struct lh l0 = LIST_HEAD_INITIALIZER(l0);
    switch (kind) { case 0: S[h] = s0; break; case 1: L[h] = l0; break;
        case 2: { struct sqh q0 = SIMPLEQ_HEAD_INITIALIZER(Q[h]); Q[h] = q0; break; } case 4: { struct tqh t0 = TAILQ_HEAD_INITIALIZER(T[h]); T[h] = t0; break; } default: init(h); }
}
static void gone(int e) {       /* what is removed belongs to the user again */
#ifdef QUEUE_MACRO_DEBUG
#define INV(x) VP_CHECK((void *)(x) == (void *)-1, "not-invalid", "%s: a removed member's link is not invalid though QUEUE_MACRO_DEBUG is set", kname[kind])
    switch (kind) { case 1: INV(E[e]->l.le_next); INV(E[e]->l.le_prev); break; case 4: INV(E[e]->t.tqe_next); INV(E[e]->t.tqe_prev); break; case 5: INV(E[e]->t2.tqe_next); INV(E[e]->t2.tqe_prev); break; }
#endif
    free(E[e]); E[e] = malloc(sizeof(el)); memset(E[e], 0xA5, sizeof(el)); E[e]->id = e;
}
static int fresh_el(void) { int k, e; for (k = 0; k < 20; k++) { e = RB_(NE); if (at[e] < 0) return e; } return -1; }
static void lists(void) {
    int i, h, g, e, n, pos, o; el *a, *b;
    kind = RB_(6); sig = (uint64_t)kind;
    for (i = 0; i < NE; i++) { E[i] = malloc(sizeof(el)); memset(E[i], 0xA5, sizeof(el)); E[i]->id = i; at[i] = -1; }
    memset(M, 0, sizeof M);
    for (h = 0; h < NH; h++) { if (RB_(3)) init(h); else init_static(h); look(h); }
    n = 5 + RB_(80);
    vp_log("%s, %d operations", kname[kind], n);
    for (; n > 0; n--) {
        h = RB_(RB_(3) ? 1 : NH); o = RB_(12); nops++;
        e = fresh_el(); pos = M[h].n ? RB_(M[h].n) : 0; if (M[h].n && RB_(4) == 0) pos = RB_(2) ? 0 : M[h].n - 1;
        vp_log("op %d head %d (%d) place %d element %d", o, h, M[h].n, pos, e);
        switch (o) {
            case 0: case 1: if (e < 0) break;
                switch (kind) { case 0: SLIST_INSERT_HEAD(&S[h], E[e], s); break; case 1: LIST_INSERT_HEAD(&L[h], E[e], l); break; case 2: SIMPLEQ_INSERT_HEAD(&Q[h], E[e], q); break;
                    case 3: XSIMPLEQ_INSERT_HEAD(&X[h], E[e], x); break; case 4: TAILQ_INSERT_HEAD(&T[h], E[e], t); break; default: TAILQ_INSERT_HEAD(&T2[h], E[e], t2); }
                m_ins(h, 0, e); break;
            case 2: case 3: if (e < 0 || kind < 2) break;
                switch (kind) { case 2: SIMPLEQ_INSERT_TAIL(&Q[h], E[e], q); break; case 3: XSIMPLEQ_INSERT_TAIL(&X[h], E[e], x); break; case 4: TAILQ_INSERT_TAIL(&T[h], E[e], t); break; default: TAILQ_INSERT_TAIL(&T2[h], E[e], t2); }
                m_ins(h, M[h].n, e); break;
            case 4: case 5: if (e < 0 || !M[h].n) break; a = E[M[h].a[pos]];
                switch (kind) { case 0: SLIST_INSERT_AFTER(a, E[e], s); break; case 1: LIST_INSERT_AFTER(a, E[e], l); break; case 2: SIMPLEQ_INSERT_AFTER(&Q[h], a, E[e], q); break;
                    case 3: XSIMPLEQ_INSERT_AFTER(&X[h], a, E[e], x); break; case 4: TAILQ_INSERT_AFTER(&T[h], a, E[e], t); break; default: TAILQ_INSERT_AFTER(&T2[h], a, E[e], t2); }
                m_ins(h, pos + 1, e); break;
            case 6: if (e < 0 || !M[h].n || kind == 0 || kind == 2 || kind == 3) break; a = E[M[h].a[pos]];
                switch (kind) { case 1: LIST_INSERT_BEFORE(a, E[e], l); break; case 4: TAILQ_INSERT_BEFORE(a, E[e], t); break; default: TAILQ_INSERT_BEFORE(a, E[e], t2); }
                m_ins(h, pos, e); break;
            case 7: if (!M[h].n) break; pos = kind == 2 || kind == 3 ? 0 : pos; e = M[h].a[pos]; a = E[e];
                switch (kind) { case 0: if (pos == 0 && RB_(2)) SLIST_REMOVE_HEAD(&S[h], s); else SLIST_REMOVE(&S[h], a, el, s); break; case 1: LIST_REMOVE(a, l); break; case 2: SIMPLEQ_REMOVE_HEAD(&Q[h], q); break;
                    case 3: XSIMPLEQ_REMOVE_HEAD(&X[h], x); break; case 4: TAILQ_REMOVE(&T[h], a, t); break; default: TAILQ_REMOVE(&T2[h], a, t2); }
                m_del(h, pos); gone(e); break;
            case 8: if (M[h].n < 2 || pos == M[h].n - 1 || kind == 1 || kind >= 4) break; e = M[h].a[pos + 1]; a = E[M[h].a[pos]];
                switch (kind) { case 0: SLIST_REMOVE_AFTER(a, s); break; case 2: SIMPLEQ_REMOVE_AFTER(&Q[h], a, q); break; default: XSIMPLEQ_REMOVE_AFTER(&X[h], a, x); }
                m_del(h, pos + 1); gone(e); break;
            case 9: if (e < 0 || !M[h].n || (kind != 1 && kind < 4)) break; i = M[h].a[pos]; a = E[i];
                switch (kind) { case 1: LIST_REPLACE(a, E[e], l); break; case 4: TAILQ_REPLACE(&T[h], a, E[e], t); break; default: TAILQ_REPLACE(&T2[h], a, E[e], t2); }
                m_del(h, pos); m_ins(h, pos, e); gone(i); break;
            case 10: g = (h + 1) % NH; if (kind != 2 && kind < 4) break; 
                switch (kind) { case 2: SIMPLEQ_CONCAT(&Q[h], &Q[g]); break; case 4: TAILQ_CONCAT(&T[h], &T[g], t); break; default: TAILQ_CONCAT(&T2[h], &T2[g], t2); }
                while (M[g].n) { i = M[g].a[0]; m_del(g, 0); m_ins(h, M[h].n, i); }
                look(g); break;
            case 11: {   /* removing while enumerating with the safe form */
                int k = 0, mod = 2 + RB_(3);
                if (RB_(3)) break;
#define SW(P, H, f, REM) P##_FOREACH_SAFE(a, H, f, b) { see(h, k, a, "FOREACH_SAFE with removal"); e = a->id; if (e % mod == 0) { REM; m_del(h, k); gone(e); } else k++; }
                switch (kind) { case 0: SW(SLIST, &S[h], s, SLIST_REMOVE(&S[h], a, el, s)) break; case 1: SW(LIST, &L[h], l, LIST_REMOVE(a, l)) break;
                    case 4: if (RB_(2)) SW(TAILQ, &T[h], t, TAILQ_REMOVE(&T[h], a, t)) else { k = M[h].n; TAILQ_FOREACH_REVERSE_SAFE(a, &T[h], tqh, t, b) { k--; see(h, k, a, "FOREACH_REVERSE_SAFE with removal"); e = a->id; if (e % mod == 0) { TAILQ_REMOVE(&T[h], a, t); m_del(h, k); gone(e); } } } break;
                    case 5: SW(TAILQ, &T2[h], t2, TAILQ_REMOVE(&T2[h], a, t2)) break; default: break; }
                break; }
        }
        look(h); sig = vp_hash(sig, (uint64_t)(o * 8 + (pos == 0) + 2 * (M[h].n == 0) + 4 * (pos == M[h].n - 1)));
    }
    for (h = 0; h < NH; h++) look(h);
    for (i = 0; i < NE; i++) free(E[i]);
    vp_sig(sig); vp_count(kname[kind], nops);
}

/* ---- trees */
typedef struct tn tn;
struct tn { int key, in; int below; SPLAY_ENTRY(tn) sp; RB_ENTRY(tn) rb; RB_ENTRY(tn) rb2; };
static int sign = 1; static unsigned long ncmp;
static int cmp(tn *a, tn *b) { ncmp++; return a->key < b->key ? -1 : a->key > b->key; }
static int rcmp(tn *a, tn *b) { ncmp++; return a->key < b->key ? 5000 : a->key > b->key ? -70000 : 0; }
SPLAY_HEAD(spt, tn); RB_HEAD(rbt, tn); RB_HEAD(rbs, tn);
SPLAY_PROTOTYPE(spt, tn, sp, cmp)
SPLAY_GENERATE(spt, tn, sp, cmp)
RB_PROTOTYPE(rbt, tn, rb, cmp)
RB_GENERATE(rbt, tn, rb, cmp)
RB_PROTOTYPE_STATIC(rbs, tn, rb2, rcmp)
RB_GENERATE_STATIC(rbs, tn, rb2, rcmp)
#define MAXK 2600
static tn *K[MAXK]; static int nk, members; static unsigned long treeops;
static struct spt sp; static struct rbt rb; static struct rbs rs;
static int which;    /* 0 splay, 1 rb, 2 rb, static, reversed order */
static int walk_n, walk_last, walk_any, max_depth;
static void seen(tn *x, int depth, const char *how) {
    VP_CHECK(x->key >= 0 && x->key < nk && K[x->key] == x, "stranger", "the tree holds something that was never inserted (%s)", how);
    VP_CHECK(x->in, "removed-member", "key %d is in the tree though it was removed (%s)", x->key, how);
    VP_CHECK(!walk_any || (which == 2 ? x->key < walk_last : x->key > walk_last), "unsorted", "key %d follows key %d (%s)", x->key, walk_last, how);
    walk_any = 1; walk_last = x->key; walk_n++; if (depth > max_depth) max_depth = depth;
    VP_CHECK(walk_n <= members, "cycle", "more than the %d members are enumerated (%s)", members, how);
}
static void walk_sp(tn *x, int d) { VP_CHECK(d < MAXK + 5, "cycle", "a path longer than the number of keys"); if (!x) return; walk_sp(SPLAY_LEFT(x, sp), d + 1); seen(x, d, "walk"); walk_sp(SPLAY_RIGHT(x, sp), d + 1); }
#define WALK(name, f) static int walk_##name(tn *x, tn *parent, int d) { int l, r, n0 = walk_n; if (!x) return 0; \
    VP_CHECK(d < 60, "depth", "a path of %d in a red-black tree", d); \
    VP_CHECK(RB_PARENT(x, f) == parent, "parent", "the parent link of key %d is wrong", x->key); \
    VP_CHECK(RB_COLOR(x, f) == RB_RED || RB_COLOR(x, f) == RB_BLACK, "colour", "key %d has colour %d", x->key, RB_COLOR(x, f)); \
    VP_CHECK(!parent || !(RB_COLOR(x, f) == RB_RED && RB_COLOR(parent, f) == RB_RED), "red-red", "red key %d has a red parent", x->key); \
    l = walk_##name(RB_LEFT(x, f), x, d + 1); seen(x, d, "walk"); r = walk_##name(RB_RIGHT(x, f), x, d + 1); \
    VP_CHECK(x->below == walk_n - n0, "augment", "the augmentation of key %d is %d, its subtree has %d nodes", x->key, x->below, walk_n - n0); \
    VP_CHECK(l == r, "black-height", "paths with %d and %d black nodes below key %d", l, r, x->key); return l + (RB_COLOR(x, f) == RB_BLACK); }
WALK(rb, rb) WALK(rs, rb2)
static unsigned long augmented;
#define AUG(f) for (; x; x = RB_PARENT(x, f)) { x->below = 1 + (RB_LEFT(x, f) ? RB_LEFT(x, f)->below : 0) + (RB_RIGHT(x, f) ? RB_RIGHT(x, f)->below : 0); VP_CHECK(++up < 400, "cycle", "a parent path of more than 400 nodes"); }
static void augment(void *node) { tn *x = node; int up = 0; augmented++; if (which == 1) { AUG(rb) } else { AUG(rb2) } }
static void tree_check(void) {
    walk_n = walk_any = 0;
    switch (which) { case 0: walk_sp(SPLAY_ROOT(&sp), 0); break; case 1: walk_rb(RB_ROOT(&rb), NULL, 0); break; default: walk_rs(RB_ROOT(&rs), NULL, 0); }
    VP_CHECK(walk_n == members, "missing-member", "%d of %d members are in the tree", walk_n, members);
    if (which) { int lim = 0; while ((1 << lim) < members + 1) lim++; VP_CHECK(members == 0 || max_depth < 2 * lim, "height", "height %d for %d members", max_depth + 1, members); }
    max_depth = 0;
}
static tn *m_ge(int k) { for (; which == 2 ? k >= 0 : k < nk; k += which == 2 ? -1 : 1) if (K[k]->in) return K[k]; return NULL; }    /* first at or after k in the tree's order */
static tn *m_le(int k) { for (; which == 2 ? k < nk : k >= 0; k += which == 2 ? 1 : -1) if (K[k]->in) return K[k]; return NULL; }
static tn *m_first(void) { return m_ge(which == 2 ? nk - 1 : 0); }
static tn *m_last(void) { return m_le(which == 2 ? 0 : nk - 1); }
static tn *m_next(int k) { return m_ge(which == 2 ? k - 1 : k + 1); }
static tn *m_prev(int k) { return m_le(which == 2 ? k + 1 : k - 1); }
static int kk(tn *x) { return x ? x->key : -1; }
static void same(tn *got, tn *want, const char *what, int k) { VP_CHECK(got == want, what, "%s(%d) gave %d, expected %d of %d members", what, k, got && K[(unsigned)got->key % (unsigned)nk] == got ? got->key : got ? -2 : -1, kk(want), members); }
static void enumerate(void) {
    tn *x, *y; 
#define BEGIN walk_n = walk_any = 0
#define END(w) VP_CHECK(walk_n == members, "missing-member", w " enumerates %d of %d members", walk_n, members)
    switch (which) {
        case 0: BEGIN; SPLAY_FOREACH(x, spt, &sp) seen(x, 0, "SPLAY_FOREACH"); END("SPLAY_FOREACH"); break;
        case 1: BEGIN; RB_FOREACH(x, rbt, &rb) seen(x, 0, "RB_FOREACH"); END("RB_FOREACH"); BEGIN; RB_FOREACH_SAFE(x, rbt, &rb, y) seen(x, 0, "RB_FOREACH_SAFE"); END("RB_FOREACH_SAFE");
            which = 2; BEGIN; RB_FOREACH_REVERSE(x, rbt, &rb) seen(x, 0, "RB_FOREACH_REVERSE"); END("RB_FOREACH_REVERSE"); BEGIN; RB_FOREACH_REVERSE_SAFE(x, rbt, &rb, y) seen(x, 0, "RB_FOREACH_REVERSE_SAFE"); END("RB_FOREACH_REVERSE_SAFE"); which = 1; break;
        default: BEGIN; RB_FOREACH(x, rbs, &rs) seen(x, 0, "RB_FOREACH"); END("RB_FOREACH"); which = 1; BEGIN; RB_FOREACH_REVERSE(x, rbs, &rs) seen(x, 0, "RB_FOREACH_REVERSE"); END("RB_FOREACH_REVERSE"); which = 2; break;
    }
}
static void removed(int k) { free(K[k]); K[k] = malloc(sizeof(tn)); memset(K[k], 0x5A, sizeof(tn)); K[k]->key = k; K[k]->in = 0; }
static void t_insert(int k) {
    tn dup, *x = K[k], *was = x->in ? x : NULL, *got; treeops++;
    if (was) { memset(&dup, 0x77, sizeof dup); dup.key = k; x = &dup; }
    x->below = 1;
    switch (which) { case 0: got = SPLAY_INSERT(spt, &sp, x); break; case 1: got = RB_INSERT(rbt, &rb, x); break; default: got = RB_INSERT(rbs, &rs, x); }
    same(got, was, "insert", k);
    if (!was) { K[k]->in = 1; members++; }
}
static void t_remove(int k) {
    tn *x = K[k], *got, probe; treeops++;
    if (!x->in) { if (which) return; memset(&probe, 0x77, sizeof probe); probe.key = k; same(SPLAY_REMOVE(spt, &sp, &probe), NULL, "remove-absent", k); return; }
    switch (which) { case 0: got = SPLAY_REMOVE(spt, &sp, x); break; case 1: got = RB_REMOVE(rbt, &rb, x); break; default: got = RB_REMOVE(rbs, &rs, x); }
    same(got, x, "remove", k); members--; removed(k);
}
static void t_find(int k) {
    tn probe, *w = K[k]->in ? K[k] : NULL; memset(&probe, 0x77, sizeof probe); probe.key = k; treeops++;
    switch (which) {
        case 0: same(SPLAY_FIND(spt, &sp, &probe), w, "find", k); if (w) { VP_CHECK(SPLAY_ROOT(&sp) == w, "not-splayed", "what was found is not at the root"); same(SPLAY_NEXT(spt, &sp, w), m_next(k), "next", k); }
            same(SPLAY_MIN(spt, &sp), m_first(), "min", 0); same(SPLAY_MAX(spt, &sp), m_last(), "max", 0); VP_CHECK(!SPLAY_EMPTY(&sp) == (members > 0), "empty", "EMPTY is wrong for %d members", members); break;
        case 1: same(RB_FIND(rbt, &rb, &probe), w, "find", k); same(RB_NFIND(rbt, &rb, &probe), m_ge(k), "nfind", k); if (w) { same(RB_NEXT(rbt, &rb, w), m_next(k), "next", k); same(RB_PREV(rbt, &rb, w), m_prev(k), "prev", k); }
            same(RB_MIN(rbt, &rb), m_first(), "min", 0); same(RB_MAX(rbt, &rb), m_last(), "max", 0); VP_CHECK(!RB_EMPTY(&rb) == (members > 0), "empty", "EMPTY is wrong for %d members", members); break;
        default: same(RB_FIND(rbs, &rs, &probe), w, "find", k); same(RB_NFIND(rbs, &rs, &probe), m_ge(k), "nfind", k); if (w) { same(RB_NEXT(rbs, &rs, w), m_next(k), "next", k); same(RB_PREV(rbs, &rs, w), m_prev(k), "prev", k); }
            same(RB_MIN(rbs, &rs), m_first(), "min", 0); same(RB_MAX(rbs, &rs), m_last(), "max", 0); break;
    }
}
static void drop_some(void) {     /* removing while enumerating with the safe form */
    tn *x, *y; int mod = 2 + RB_(3);
    if (which == 1) { if (RB_(2)) { RB_FOREACH_SAFE(x, rbt, &rb, y) { int k = x->key; if (k % mod == 0) { RB_REMOVE(rbt, &rb, x); members--; removed(k); treeops++; } } }
        else { RB_FOREACH_REVERSE_SAFE(x, rbt, &rb, y) { int k = x->key; if (k % mod == 0) { RB_REMOVE(rbt, &rb, x); members--; removed(k); treeops++; } } } }
    else if (which == 2) { RB_FOREACH_SAFE(x, rbs, &rs, y) { int k = x->key; if (k % mod == 0) { RB_REMOVE(rbs, &rs, x); members--; removed(k); treeops++; } } }
    tree_check(); { int i; for (i = 0; i < nk; i++) VP_CHECK(which == 0 || !(K[i]->in && i % mod == 0), "safe-missed", "the safe enumeration passed key %d over", i); }
}
/* splaying about halves a long path */
static int depth_sp(void) { int d; max_depth = 0; walk_n = walk_any = 0; walk_sp(SPLAY_ROOT(&sp), 0); d = max_depth; max_depth = 0; return d; }
static void halving(void) {
    int i, n = 20 + RB_(300), up = RB_(2), by = RB_(2), d0, d1; tn probe, *x;
    which = 0; nk = n; members = 0; for (i = 0; i < n; i++) { K[i] = NULL; removed(i); }
    memset(&sp, 0x5A, sizeof sp); SPLAY_INIT(&sp);
    for (i = 0; i < n; i++) t_insert(up ? i : n - 1 - i);
    vp_log("splay tree, %d keys inserted in %s order, then the %s", n, up ? "rising" : "falling", by ? "last of the path is searched" : "minimum or maximum is asked for");
    tree_check(); d0 = depth_sp(); VP_CHECK(d0 == n - 1, "splay-chain", "%d keys inserted in order make a path of %d", n, d0);
    { int k = up ? 0 : n - 1; memset(&probe, 0x77, sizeof probe); probe.key = k;
        x = by ? SPLAY_FIND(spt, &sp, &probe) : up ? SPLAY_MIN(spt, &sp) : SPLAY_MAX(spt, &sp); same(x, K[k], "find", k); d1 = depth_sp();
        VP_CHECK(d1 <= d0 / 2 + 3, "splay-depth", "after the end of a path of %d was brought to the root the tree still has a path of %d", d0, d1);
    }
    tree_check(); enumerate(); vp_count("paths_halved", 1); vp_max("longest_path", (uint64_t)n); vp_sig(vp_hash(77, (uint64_t)(n * 4 + up * 2 + by)));
    for (i = 0; i < n; i++) free(K[i]);
}
static void trees(void) {
    int i, n, big = RB_(12) == 0, order, bias, ph; static const char *const tname[] = { "splay", "red-black", "red-black, reversed" };
    which = RB_(3); nk = big ? 200 + RB_(MAXK - 200) : 1 + RB_(40); members = 0; treeops = 0; max_depth = 0; sig = (uint64_t)which;
    for (i = 0; i < nk; i++) { K[i] = NULL; removed(i); }
    memset(&sp, 0x5A, sizeof sp); memset(&rb, 0x5A, sizeof rb); memset(&rs, 0x5A, sizeof rs);
    SPLAY_INIT(&sp); RB_INIT(&rb); RB_INIT(&rs);
    if (RB_(2)) { struct spt s0 = SPLAY_INITIALIZER(&s0); struct rbt r0 = RB_INITIALIZER(&r0); sp = s0; rb = r0; }
    order = RB_(4); vp_log("%s tree, %d keys, order %d", tname[which], nk, order);
    tree_check(); t_find(RB_(nk));
    for (ph = 0; ph < 3; ph++) {
        bias = RB_(11); n = big ? nk : 10 + RB_(60);
        for (i = 0; i < n; i++) {
            int k = order == 0 ? i % nk : order == 1 ? nk - 1 - i % nk : RB_(nk), o = RB_(10);
            if (!big) vp_log("%s %d", o < bias ? "insert" : "remove", k);
            if (o < bias) t_insert(k); else t_remove(k);
            if (!big || i % 61 == 0) { tree_check(); t_find(RB_(nk)); if (!big && RB_(6) == 0) enumerate(); tree_check(); }
            if (members < 24) sig = vp_hash(sig, (uint64_t)(o < bias) * 64 + (uint64_t)members);
        }
        enumerate(); tree_check(); if (RB_(4) == 0) drop_some(); vp_beat();
    }
    enumerate();
    for (i = 0; i < nk; i++) if (K[i]->in && (which || RB_(2))) { t_remove(i); if (!big) tree_check(); }
    tree_check(); t_find(RB_(nk));
    vp_sig(sig); vp_count(tname[which], treeops); vp_max("largest_tree", (uint64_t)nk); vp_count("comparisons", ncmp); ncmp = 0; vp_count("augmentations", augmented); augmented = 0;
    for (i = 0; i < nk; i++) free(K[i]);
}
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 23); R = &r; nops = 0; (void)sign;
    if (RB_(2)) lists(); else if (RB_(40) == 0) halving(); else trees();
}
