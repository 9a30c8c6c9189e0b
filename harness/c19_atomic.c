/* C19: every atomic operation against a reference on its object (alone), and concurrent histories that some order must explain. */
#include <pthread.h>
#include <sched.h>
#include "raii.h"
#include "gen.h"
const vp_config_t vp_cfg = { "C19",
#ifdef VP_CONFIG_tsan
    4,
#else
    32,
#endif
    20, 0 };
enum { LOAD, STORE, XCHG, CASS, CASW, CASV, ADD, SUB, OR, XOR, AND, TAS, CLEAR, NOPS };
static const char *opname[] = { "load", "store", "exchange", "cas-strong", "cas-weak", "cas-value", "add", "sub", "or", "xor", "and", "test-and-set", "clear" };
typedef uint64_t (*opf)(volatile void *o, uint64_t a, uint64_t *e);
typedef struct { const char *name; int bits, sgn, op, rel, acq; opf f; } form;   /* rel/acq: publishes / observes */
#define V (uint64_t)(int64_t)
#define U (uint64_t)
#define DEFX(N, T, X, BODY) static uint64_t N(volatile void *o, uint64_t a, uint64_t *e) { T *p = (T *)o; T ee = (T)*e; uint64_t r = 0; (void)p; (void)a; (void)ee; BODY; *e = X ee; return r; }
#define TYPED(S, T, X) \
 DEFX(k##S##_ld, T, X, r = X c89atomic_load_##S(p)) DEFX(k##S##_st, T, X, c89atomic_store_##S(p, (T)a)) DEFX(k##S##_xc, T, X, r = X c89atomic_exchange_##S(p, (T)a)) \
 DEFX(k##S##_cs, T, X, r = c89atomic_compare_exchange_strong_##S(p, &ee, (T)a)) DEFX(k##S##_cw, T, X, r = c89atomic_compare_exchange_weak_##S(p, &ee, (T)a)) \
 DEFX(k##S##_cv, T, X, r = X c89atomic_compare_and_swap_##S(p, ee, (T)a)) \
 DEFX(k##S##_ad, T, X, r = X c89atomic_fetch_add_##S(p, (T)a)) DEFX(k##S##_su, T, X, r = X c89atomic_fetch_sub_##S(p, (T)a)) DEFX(k##S##_or, T, X, r = X c89atomic_fetch_or_##S(p, (T)a)) \
 DEFX(k##S##_xo, T, X, r = X c89atomic_fetch_xor_##S(p, (T)a)) DEFX(k##S##_an, T, X, r = X c89atomic_fetch_and_##S(p, (T)a)) \
 DEFX(k##S##_ts, T, X, r = X c89atomic_test_and_set_##S(p)) DEFX(k##S##_cl, T, X, c89atomic_clear_##S(p))
#define TYPEDX(S, O, RD, WR, T, X) \
 DEFX(k##S##_##O##_ld, T, X, r = X c89atomic_load_explicit_##S(p, c89atomic_memory_order_##RD)) DEFX(k##S##_##O##_st, T, X, c89atomic_store_explicit_##S(p, (T)a, c89atomic_memory_order_##WR)) \
 DEFX(k##S##_##O##_xc, T, X, r = X c89atomic_exchange_explicit_##S(p, (T)a, c89atomic_memory_order_##O)) \
 DEFX(k##S##_##O##_cs, T, X, r = c89atomic_compare_exchange_strong_explicit_##S(p, &ee, (T)a, c89atomic_memory_order_##O, c89atomic_memory_order_##RD)) \
 DEFX(k##S##_##O##_cw, T, X, r = c89atomic_compare_exchange_weak_explicit_##S(p, &ee, (T)a, c89atomic_memory_order_##O, c89atomic_memory_order_##RD)) \
 DEFX(k##S##_##O##_ad, T, X, r = X c89atomic_fetch_add_explicit_##S(p, (T)a, c89atomic_memory_order_##O)) DEFX(k##S##_##O##_su, T, X, r = X c89atomic_fetch_sub_explicit_##S(p, (T)a, c89atomic_memory_order_##O)) \
 DEFX(k##S##_##O##_or, T, X, r = X c89atomic_fetch_or_explicit_##S(p, (T)a, c89atomic_memory_order_##O)) DEFX(k##S##_##O##_xo, T, X, r = X c89atomic_fetch_xor_explicit_##S(p, (T)a, c89atomic_memory_order_##O)) \
 DEFX(k##S##_##O##_an, T, X, r = X c89atomic_fetch_and_explicit_##S(p, (T)a, c89atomic_memory_order_##O)) DEFX(k##S##_##O##_ts, T, X, r = X c89atomic_test_and_set_explicit_##S(p, c89atomic_memory_order_##O)) \
 DEFX(k##S##_##O##_cl, T, X, c89atomic_clear_explicit_##S(p, c89atomic_memory_order_##WR))
#define ALLX(S, T, X) TYPED(S, T, X) TYPEDX(S, relaxed, relaxed, relaxed, T, X) TYPEDX(S, acquire, acquire, relaxed, T, X) TYPEDX(S, release, relaxed, release, T, X) \
 TYPEDX(S, acq_rel, acquire, release, T, X) TYPEDX(S, seq_cst, seq_cst, seq_cst, T, X)
ALLX(8, uint8_t, U) ALLX(16, uint16_t, U) ALLX(32, uint32_t, U) ALLX(64, c89atomic_uint64, U)
ALLX(i8, int8_t, V) ALLX(i16, int16_t, V) ALLX(i32, int32_t, V) ALLX(i64, c89atomic_int64, V)
/* generic forms: A the atomic type, T its value type */
#define DEFG(N, A, T, X, BODY) static uint64_t N(volatile void *o, uint64_t a, uint64_t *e) { A *p = (A *)o; T ee = (T)*e; uint64_t r = 0; (void)p; (void)a; (void)ee; BODY; *e = X ee; return r; }
#define GEN(A, T, X) \
 DEFG(g_##A##_ld, A, T, X, r = X atomic_load(p)) DEFG(g_##A##_st, A, T, X, atomic_store(p, (T)a)) DEFG(g_##A##_in, A, T, X, atomic_init(p, (T)a)) DEFG(g_##A##_ge, A, T, X, r = X atomic_get(T, p)) \
 DEFG(g_##A##_xc, A, T, X, r = X atomic_exchange(p, (T)a)) DEFG(g_##A##_cs, A, T, X, r = atomic_compare_exchange_strong(p, &ee, (T)a)) DEFG(g_##A##_cw, A, T, X, r = atomic_compare_exchange_weak(p, &ee, (T)a)) \
 DEFG(g_##A##_ad, A, T, X, r = X atomic_fetch_add(p, (T)a)) DEFG(g_##A##_su, A, T, X, r = X atomic_fetch_sub(p, (T)a)) DEFG(g_##A##_or, A, T, X, r = X atomic_fetch_or(p, (T)a)) \
 DEFG(g_##A##_xo, A, T, X, r = X atomic_fetch_xor(p, (T)a)) DEFG(g_##A##_an, A, T, X, r = X atomic_fetch_and(p, (T)a)) DEFG(g_##A##_ca, A, T, X, r = atomic_cas(p, &ee, (T)a)) DEFG(g_##A##_sw, A, T, X, r = atomic_swap(p, &ee, (T)a))
#define GENX(A, O, RD, WR, T, X) \
 DEFG(gx_##A##_##O##_ld, A, T, X, r = X atomic_load_explicit(p, memory_order_##RD)) DEFG(gx_##A##_##O##_st, A, T, X, atomic_store_explicit(p, (T)a, memory_order_##WR)) \
 DEFG(gx_##A##_##O##_xc, A, T, X, r = X atomic_exchange_explicit(p, (T)a, memory_order_##O)) \
 DEFG(gx_##A##_##O##_cs, A, T, X, r = atomic_compare_exchange_strong_explicit(p, &ee, (T)a, memory_order_##O, memory_order_##RD)) DEFG(gx_##A##_##O##_cw, A, T, X, r = atomic_compare_exchange_weak_explicit(p, &ee, (T)a, memory_order_##O, memory_order_##RD)) \
 DEFG(gx_##A##_##O##_ad, A, T, X, r = X atomic_fetch_add_explicit(p, (T)a, memory_order_##O)) DEFG(gx_##A##_##O##_su, A, T, X, r = X atomic_fetch_sub_explicit(p, (T)a, memory_order_##O)) \
 DEFG(gx_##A##_##O##_or, A, T, X, r = X atomic_fetch_or_explicit(p, (T)a, memory_order_##O)) DEFG(gx_##A##_##O##_xo, A, T, X, r = X atomic_fetch_xor_explicit(p, (T)a, memory_order_##O)) DEFG(gx_##A##_##O##_an, A, T, X, r = X atomic_fetch_and_explicit(p, (T)a, memory_order_##O))
#define ALLG(A, T, X) GEN(A, T, X) GENX(A, relaxed, relaxed, relaxed, T, X) GENX(A, acq_rel, acquire, release, T, X) GENX(A, seq_cst, seq_cst, seq_cst, T, X)
ALLG(atomic_char, int8_t, V) ALLG(atomic_schar, int8_t, V) ALLG(atomic_uchar, uint8_t, U) ALLG(atomic_short, int16_t, V) ALLG(atomic_ushort, uint16_t, U) ALLG(atomic_int, int32_t, V) ALLG(atomic_uint, uint32_t, U)
ALLG(atomic_long, long, V) ALLG(atomic_ulong, unsigned long, U) ALLG(atomic_llong, long long, V) ALLG(atomic_ullong, unsigned long long, U) ALLG(atomic_size_t, size_t, U) ALLG(atomic_ptrdiff_t, ptrdiff_t, V)
ALLG(atomic_intptr_t, intptr_t, V) ALLG(atomic_uintptr_t, uintptr_t, U) ALLG(atomic_intmax_t, intmax_t, V) ALLG(atomic_uintmax_t, uintmax_t, U)
typedef void *vptr;
#define P(x) (uint64_t)(uintptr_t)
DEFX(ptr_ld, vptr, P(), r = (uint64_t)(uintptr_t)c89atomic_load_ptr(p)) DEFX(ptr_st, vptr, P(), c89atomic_store_ptr(p, (void *)(uintptr_t)a)) DEFX(ptr_xc, vptr, P(), r = (uint64_t)(uintptr_t)c89atomic_exchange_ptr(p, (void *)(uintptr_t)a))
DEFX(ptr_cs, vptr, P(), r = c89atomic_compare_exchange_strong_ptr(p, &ee, (void *)(uintptr_t)a)) DEFX(ptr_cw, vptr, P(), r = c89atomic_compare_exchange_weak_ptr(p, &ee, (void *)(uintptr_t)a))
DEFX(ptr_cv, vptr, P(), r = (uint64_t)(uintptr_t)c89atomic_compare_and_swap_ptr((volatile void **)p, ee, (void *)(uintptr_t)a))
DEFG(g_ptr_ld, atomic_ptr_t, vptr, P(), r = (uint64_t)(uintptr_t)atomic_load(p)) DEFG(g_ptr_ge, atomic_ptr_t, vptr, P(), r = (uint64_t)(uintptr_t)atomic_get(void *, p)) DEFG(g_ptr_st, atomic_ptr_t, vptr, P(), atomic_store(p, (void *)(uintptr_t)a))
DEFG(g_ptr_xc, atomic_ptr_t, vptr, P(), r = (uint64_t)(uintptr_t)atomic_exchange(p, (void *)(uintptr_t)a)) DEFG(g_ptr_cs, atomic_ptr_t, vptr, P(), r = atomic_compare_exchange_strong(p, &ee, (void *)(uintptr_t)a)) DEFG(g_ptr_cw, atomic_ptr_t, vptr, P(), r = atomic_compare_exchange_weak(p, &ee, (void *)(uintptr_t)a))
DEFG(g_ptr_sw, atomic_ptr_t, vptr, P(), r = atomic_swap(p, &ee, (void *)(uintptr_t)a))
static const form forms[] = {
#define E_(N, B, S, O, R, Q, F) { N, B, S, O, R, Q, F },
#define LT(S, B, G) E_("c89atomic_load_" #S, B, G, LOAD, 0, 1, k##S##_ld) E_("c89atomic_store_" #S, B, G, STORE, 1, 0, k##S##_st) E_("c89atomic_exchange_" #S, B, G, XCHG, 1, 1, k##S##_xc) E_("c89atomic_compare_exchange_strong_" #S, B, G, CASS, 1, 1, k##S##_cs) \
 E_("c89atomic_compare_exchange_weak_" #S, B, G, CASW, 1, 1, k##S##_cw) E_("c89atomic_compare_and_swap_" #S, B, G, CASV, 1, 1, k##S##_cv) E_("c89atomic_fetch_add_" #S, B, G, ADD, 1, 1, k##S##_ad) E_("c89atomic_fetch_sub_" #S, B, G, SUB, 1, 1, k##S##_su) \
 E_("c89atomic_fetch_or_" #S, B, G, OR, 1, 1, k##S##_or) E_("c89atomic_fetch_xor_" #S, B, G, XOR, 1, 1, k##S##_xo) E_("c89atomic_fetch_and_" #S, B, G, AND, 1, 1, k##S##_an) E_("c89atomic_test_and_set_" #S, B, G, TAS, 1, 1, k##S##_ts) E_("c89atomic_clear_" #S, B, G, CLEAR, 1, 0, k##S##_cl)
#define LTX(S, O, B, G, R, Q) E_("c89atomic_load_explicit_" #S "(" #O ")", B, G, LOAD, 0, Q, k##S##_##O##_ld) E_("c89atomic_store_explicit_" #S "(" #O ")", B, G, STORE, R, 0, k##S##_##O##_st) E_("c89atomic_exchange_explicit_" #S "(" #O ")", B, G, XCHG, R, Q, k##S##_##O##_xc) \
 E_("c89atomic_compare_exchange_strong_explicit_" #S "(" #O ")", B, G, CASS, R, Q, k##S##_##O##_cs) E_("c89atomic_compare_exchange_weak_explicit_" #S "(" #O ")", B, G, CASW, R, Q, k##S##_##O##_cw) E_("c89atomic_fetch_add_explicit_" #S "(" #O ")", B, G, ADD, R, Q, k##S##_##O##_ad) \
 E_("c89atomic_fetch_sub_explicit_" #S "(" #O ")", B, G, SUB, R, Q, k##S##_##O##_su) E_("c89atomic_fetch_or_explicit_" #S "(" #O ")", B, G, OR, R, Q, k##S##_##O##_or) E_("c89atomic_fetch_xor_explicit_" #S "(" #O ")", B, G, XOR, R, Q, k##S##_##O##_xo) \
 E_("c89atomic_fetch_and_explicit_" #S "(" #O ")", B, G, AND, R, Q, k##S##_##O##_an) E_("c89atomic_test_and_set_explicit_" #S "(" #O ")", B, G, TAS, R, Q, k##S##_##O##_ts) E_("c89atomic_clear_explicit_" #S "(" #O ")", B, G, CLEAR, R, 0, k##S##_##O##_cl)
#define LALL(S, B, G) LT(S, B, G) LTX(S, relaxed, B, G, 0, 0) LTX(S, acquire, B, G, 0, 1) LTX(S, release, B, G, 1, 0) LTX(S, acq_rel, B, G, 1, 1) LTX(S, seq_cst, B, G, 1, 1)
 LALL(8, 8, 0) LALL(16, 16, 0) LALL(32, 32, 0) LALL(64, 64, 0) LALL(i8, 8, 1) LALL(i16, 16, 1) LALL(i32, 32, 1) LALL(i64, 64, 1)
#define LG(A, B, G) E_("atomic_load(" #A ")", B, G, LOAD, 0, 1, g_##A##_ld) E_("atomic_get(" #A ")", B, G, LOAD, 0, 1, g_##A##_ge) E_("atomic_store(" #A ")", B, G, STORE, 1, 0, g_##A##_st) E_("atomic_init(" #A ")", B, G, STORE, 0, 0, g_##A##_in) \
 E_("atomic_exchange(" #A ")", B, G, XCHG, 1, 1, g_##A##_xc) E_("atomic_compare_exchange_strong(" #A ")", B, G, CASS, 1, 1, g_##A##_cs) E_("atomic_compare_exchange_weak(" #A ")", B, G, CASW, 1, 1, g_##A##_cw) E_("atomic_fetch_add(" #A ")", B, G, ADD, 1, 1, g_##A##_ad) \
 E_("atomic_fetch_sub(" #A ")", B, G, SUB, 1, 1, g_##A##_su) E_("atomic_fetch_or(" #A ")", B, G, OR, 1, 1, g_##A##_or) E_("atomic_fetch_xor(" #A ")", B, G, XOR, 1, 1, g_##A##_xo) E_("atomic_fetch_and(" #A ")", B, G, AND, 1, 1, g_##A##_an) \
 E_("atomic_cas(" #A ")", B, G, CASS, 1, 1, g_##A##_ca) E_("atomic_swap(" #A ")", B, G, CASS, 1, 1, g_##A##_sw)
#define LGX(A, O, B, G, R, Q) E_("atomic_load_explicit(" #A "," #O ")", B, G, LOAD, 0, Q, gx_##A##_##O##_ld) E_("atomic_store_explicit(" #A "," #O ")", B, G, STORE, R, 0, gx_##A##_##O##_st) E_("atomic_exchange_explicit(" #A "," #O ")", B, G, XCHG, R, Q, gx_##A##_##O##_xc) \
 E_("atomic_compare_exchange_strong_explicit(" #A "," #O ")", B, G, CASS, R, Q, gx_##A##_##O##_cs) E_("atomic_compare_exchange_weak_explicit(" #A "," #O ")", B, G, CASW, R, Q, gx_##A##_##O##_cw) E_("atomic_fetch_add_explicit(" #A "," #O ")", B, G, ADD, R, Q, gx_##A##_##O##_ad) \
 E_("atomic_fetch_sub_explicit(" #A "," #O ")", B, G, SUB, R, Q, gx_##A##_##O##_su) E_("atomic_fetch_or_explicit(" #A "," #O ")", B, G, OR, R, Q, gx_##A##_##O##_or) E_("atomic_fetch_xor_explicit(" #A "," #O ")", B, G, XOR, R, Q, gx_##A##_##O##_xo) E_("atomic_fetch_and_explicit(" #A "," #O ")", B, G, AND, R, Q, gx_##A##_##O##_an)
#define LGALL(A, B, G) LG(A, B, G) LGX(A, relaxed, B, G, 0, 0) LGX(A, acq_rel, B, G, 1, 1) LGX(A, seq_cst, B, G, 1, 1)
 LGALL(atomic_char, 8, 1) LGALL(atomic_schar, 8, 1) LGALL(atomic_uchar, 8, 0) LGALL(atomic_short, 16, 1) LGALL(atomic_ushort, 16, 0) LGALL(atomic_int, 32, 1) LGALL(atomic_uint, 32, 0) LGALL(atomic_long, 64, 1) LGALL(atomic_ulong, 64, 0)
 LGALL(atomic_llong, 64, 1) LGALL(atomic_ullong, 64, 0) LGALL(atomic_size_t, 64, 0) LGALL(atomic_ptrdiff_t, 64, 1) LGALL(atomic_intptr_t, 64, 1) LGALL(atomic_uintptr_t, 64, 0) LGALL(atomic_intmax_t, 64, 1) LGALL(atomic_uintmax_t, 64, 0)
 E_("c89atomic_load_ptr", 64, 0, LOAD, 0, 1, ptr_ld) E_("c89atomic_store_ptr", 64, 0, STORE, 1, 0, ptr_st) E_("c89atomic_exchange_ptr", 64, 0, XCHG, 1, 1, ptr_xc) E_("c89atomic_compare_exchange_strong_ptr", 64, 0, CASS, 1, 1, ptr_cs)
 E_("c89atomic_compare_exchange_weak_ptr", 64, 0, CASW, 1, 1, ptr_cw) E_("c89atomic_compare_and_swap_ptr", 64, 0, CASV, 1, 1, ptr_cv)
 E_("atomic_load(atomic_ptr_t)", 64, 0, LOAD, 0, 1, g_ptr_ld) E_("atomic_get(atomic_ptr_t)", 64, 0, LOAD, 0, 1, g_ptr_ge) E_("atomic_store(atomic_ptr_t)", 64, 0, STORE, 1, 0, g_ptr_st) E_("atomic_exchange(atomic_ptr_t)", 64, 0, XCHG, 1, 1, g_ptr_xc)
 E_("atomic_compare_exchange_strong(atomic_ptr_t)", 64, 0, CASS, 1, 1, g_ptr_cs) E_("atomic_compare_exchange_weak(atomic_ptr_t)", 64, 0, CASW, 1, 1, g_ptr_cw) E_("atomic_swap(atomic_ptr_t)", 64, 0, CASS, 1, 1, g_ptr_sw)
};
#define NF (int)(sizeof forms / sizeof *forms)
static uint64_t ext(uint64_t v, int bits, int sgn) {
    if (bits == 64) return v;
    v &= (1ull << bits) - 1;
    if (sgn && (v >> (bits - 1) & 1)) v |= ~((1ull << bits) - 1);
    return v;
}
/* the definition: new value of the object and result of the operation (weak: *may_fail) */
static uint64_t ref(int op, uint64_t old, uint64_t a, uint64_t *e, int bits, int sgn, uint64_t *nv) {
    uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1, o = ext(old, bits, sgn);
    *nv = old & m;
    switch (op) {
        case LOAD: return o;
        case STORE: *nv = a & m; return 0;
        case XCHG: *nv = a & m; return o;
        case CASS: case CASW: if (((*e ^ old) & m) == 0) { *nv = a & m; return 1; } *e = o; return 0;
        case CASV: if (((*e ^ old) & m) == 0) *nv = a & m; return o;
        case ADD: *nv = (old + a) & m; return o;
        case SUB: *nv = (old - a) & m; return o;
        case OR: *nv = (old | a) & m; return o;
        case XOR: *nv = (old ^ a) & m; return o;
        case AND: *nv = (old & a) & m; return o;
        case TAS: *nv = 1; return o;
        case CLEAR: *nv = 0; return 0;
    }
    abort();
}
static uint64_t get(volatile void *p, int bits) { switch (bits) { case 8: return *(volatile uint8_t *)p; case 16: return *(volatile uint16_t *)p; case 32: return *(volatile uint32_t *)p; default: return *(volatile uint64_t *)p; } }
static void put(volatile void *p, int bits, uint64_t v) { switch (bits) { case 8: *(volatile uint8_t *)p = (uint8_t)v; break; case 16: *(volatile uint16_t *)p = (uint16_t)v; break; case 32: *(volatile uint32_t *)p = (uint32_t)v; break; default: *(volatile uint64_t *)p = v; } }
static uint64_t val(vp_rng *r, int bits) {
    uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
    switch (vp_below(r, 5)) { case 0: return vp_below(r, 3); case 1: return m - vp_below(r, 3); case 2: return (m >> 1) + vp_below(r, 4) - 1; case 3: return vp_next(r) & m; default: return gen_u64(r) & m; }
}
static unsigned char arena_[256] __attribute__((aligned(64)));
static void t_alone(vp_rng *r) {
    int k;
    for (k = 0; k < 400; k++) {
        const form *f = &forms[vp_below(r, NF)]; int n = f->bits / 8, i; size_t off = 64 + (size_t)n * vp_below(r, (uint32_t)(64 / n));
        uint64_t old = val(r, f->bits), a = val(r, f->bits), e, e0, er, want, got, nv, m = f->bits == 64 ? ~0ull : (1ull << f->bits) - 1; unsigned char keep[256];
        if (f->op == STORE || f->op == XCHG) if (f->sgn && vp_chance(r, 1, 2)) a = ext(a, f->bits, 1);
        for (i = 0; i < 256; i++) arena_[i] = (unsigned char)vp_next(r);
        put(arena_ + off, f->bits, old); memcpy(keep, arena_, 256);
        e = vp_chance(r, 1, 2) ? old : val(r, f->bits); e = ext(e, f->bits, f->sgn); e0 = er = e;
        if (k < 8) vp_log("%s object %#llx operand %#llx expected %#llx at +%zu", f->name, (unsigned long long)old, (unsigned long long)a, (unsigned long long)e, off - 64);
        want = ref(f->op, old, a, &er, f->bits, f->sgn, &nv);
        got = f->f(arena_ + off, a, &e);
        if (f->op == CASW && want && !got) { want = 0; nv = old; }     /* a weak exchange may fail for no reason */
        VP_CHECK(got == want, "result", "%s on %#llx with %#llx (expected %#llx) gave %#llx instead of %#llx", f->name, (unsigned long long)old, (unsigned long long)a, (unsigned long long)e0, (unsigned long long)got, (unsigned long long)want);
        VP_CHECK((get(arena_ + off, f->bits) ^ nv) == 0, "value", "%s on %#llx with %#llx (expected %#llx) left %#llx instead of %#llx", f->name, (unsigned long long)old, (unsigned long long)a, (unsigned long long)e0, (unsigned long long)get(arena_ + off, f->bits), (unsigned long long)nv);
        VP_CHECK(e == er, "expected", "%s on %#llx left %#llx as the value read instead of %#llx", f->name, (unsigned long long)old, (unsigned long long)e, (unsigned long long)er);
        for (i = 0; i < 256; i++) if ((size_t)i < off || (size_t)i >= off + (size_t)n)
            VP_CHECK(arena_[i] == keep[i], "neighbour", "%s changed the byte at %+d of its object", f->name, i - (int)off);
        (void)m;
        vp_sig(vp_hash(vp_hash(vp_hash(11, (uint64_t)(f - forms)), old), a));
    }
    vp_count("operations_alone", 400);
}
#define FLT(T, S, B) static void t_##S(vp_rng *r) { \
    struct { T g1; volatile T o; T g2; } x; T a = (T)((int)vp_below(r, 2000) - 1000) / 4, b = (T)((int)vp_below(r, 2000) - 1000) / 8, e, q; x.g1 = 7; x.g2 = 9; x.o = 0; \
    c89atomic_store_##S(&x.o, a); VP_CHECK(x.o == a && c89atomic_load_##S(&x.o) == a, "float", "store or load of " #T " lost its value"); \
    q = c89atomic_exchange_##S(&x.o, b); VP_CHECK(q == a && x.o == b, "float", "exchange of " #T); \
    q = c89atomic_fetch_add_##S(&x.o, a); VP_CHECK(q == b && x.o == b + a, "float", "fetch_add of " #T " on %g with %g left %g", (double)b, (double)a, (double)x.o); \
    q = c89atomic_fetch_sub_##S(&x.o, b); VP_CHECK(q == b + a && x.o == b + a - b, "float", "fetch_sub of " #T " left %g", (double)x.o); \
    c89atomic_store_##S(&x.o, a); e = a; VP_CHECK(c89atomic_compare_exchange_strong_##S(&x.o, &e, b) && x.o == b, "float", "cas of " #T); \
    e = b + 1; VP_CHECK(!c89atomic_compare_exchange_strong_##S(&x.o, &e, a) && x.o == b && e == b, "float", "failed cas of " #T); \
    q = c89atomic_compare_and_swap_##S(&x.o, b, a); VP_CHECK(q == b && x.o == a, "float", "compare_and_swap of " #T); \
    e = a + 1; VP_CHECK(!c89atomic_compare_exchange_weak_##S(&x.o, &e, b) && x.o == a && e == a, "float", "failed weak cas of " #T); \
    { int tries = 0; while (!c89atomic_compare_exchange_weak_##S(&x.o, &e, b)) { VP_CHECK(e == a && x.o == a && ++tries < 1000, "float", "weak cas of " #T); } } VP_CHECK(x.o == b, "float", "weak cas of " #T " did not store"); \
    { union { T f; uint##B##_t i; } o, v, w; int op; for (op = 0; op < 3; op++) { o.f = a; v.f = b; x.o = a; w.f = op == 0 ? c89atomic_fetch_or_##S(&x.o, b) : op == 1 ? c89atomic_fetch_xor_##S(&x.o, b) : c89atomic_fetch_and_##S(&x.o, b); \
        VP_CHECK(w.i == o.i, "float", "bit operation %d of " #T " does not give the old value", op); w.f = x.o; VP_CHECK(w.i == (op == 0 ? (o.i | v.i) : op == 1 ? (o.i ^ v.i) : (o.i & v.i)), "float", "bit operation %d of " #T " left another value", op); } } \
    c89atomic_clear_##S(&x.o); VP_CHECK(x.o == 0, "float", "clear of " #T); VP_CHECK(x.g1 == 7 && x.g2 == 9, "neighbour", "an operation on " #T " changed its neighbour"); \
    vp_count("float_operations", 14); }
FLT(float, f32, 32) FLT(double, f64, 64)

/* ---- concurrent ---- */
#define MT 4
typedef struct { int n; volatile int arrived, gen; } bar;
static void bar_wait(bar *b) {
    int g = __atomic_load_n(&b->gen, __ATOMIC_ACQUIRE), k = 0;
    if (__atomic_add_fetch(&b->arrived, 1, __ATOMIC_ACQ_REL) == b->n) { __atomic_store_n(&b->arrived, 0, __ATOMIC_RELAXED); __atomic_store_n(&b->gen, g + 1, __ATOMIC_RELEASE); }
    else while (__atomic_load_n(&b->gen, __ATOMIC_ACQUIRE) == g) if (++k > 2000) { sched_yield(); k = 0; }
}
static bar B; static vp_rng TR[MT]; static void (*body)(int t, int round, vp_rng *r); static void (*after)(int round); static int ROUNDS, NT;
static void *thr(void *p) {
    int t = (int)(intptr_t)p, i; vp_rng *r = &TR[t];
    for (i = 0; i < ROUNDS; i++) {
        bar_wait(&B);
        { volatile unsigned k; unsigned n = vp_below(r, 3) ? 0 : vp_below(r, 120); for (k = 0; k < n; k++) ; }
        body(t, i, r);
        bar_wait(&B);
        if (t == 0) after(i);
    }
    return 0;
}
static void concurrent(vp_rng *r, int nt, int rounds, void (*b)(int, int, vp_rng *), void (*a)(int)) {
    pthread_t th[MT]; int i;
    B.n = nt; B.arrived = 0; ROUNDS = rounds; NT = nt; body = b; after = a;
    for (i = 0; i < nt; i++) TR[i] = vp_rng_make(vp_next(r), (uint64_t)i, 5);
    for (i = 1; i < nt; i++) if (pthread_create(&th[i], 0, thr, (void *)(intptr_t)i)) abort();
    thr(0);
    for (i = 1; i < nt; i++) pthread_join(th[i], 0);
}
#ifdef VP_CONFIG_tsan
#define SCALE 12
#else
#define SCALE 120
#endif
/* histories of any operations on one object: some order respecting each thread's own must explain all results */
#define NOP 5
typedef struct { const form *f; uint64_t a, e0, e, res; } hop;
static hop H[MT][NOP]; static const form *pool[64]; static int npool; static uint64_t init_v; static int hbits; static volatile void *hobj;
static void h_body(int t, int round, vp_rng *r) {
    int i;
    for (i = 0; i < NOP; i++) { hop *h = &H[t][i]; h->f = pool[vp_below(r, (uint32_t)npool)]; h->a = vp_chance(r, 1, 2) ? vp_below(r, 4) : val(r, hbits); h->e0 = ext(vp_chance(r, 1, 2) ? init_v : vp_below(r, 4), hbits, h->f->sgn); h->e = h->e0; }
    for (i = 0; i < NOP; i++) { hop *h = &H[t][i]; h->res = h->f->f(hobj, h->a, &h->e); }
}
static int explain(int *pos, uint64_t v, uint64_t fin, unsigned *budget) {
    int t, done = 1;
    if (++*budget > 400000) return -1;
    for (t = 0; t < NT; t++) if (pos[t] < NOP) {
        hop *h = &H[t][pos[t]]; uint64_t e = h->e0, nv, w = ref(h->f->op, v, h->a, &e, hbits, h->f->sgn, &nv); int k;
        done = 0;
        if (h->f->op == CASW && w && !h->res) { w = 0; nv = v; }
        if (w != h->res || e != h->e) continue;
        pos[t]++; k = explain(pos, nv, fin, budget); pos[t]--;
        if (k) return k;
    }
    return done ? v == fin : 0;
}
static uint64_t hist, hseen;
static void h_after(int round) {
    int pos[MT] = { 0 }, t, i, k; unsigned budget = 0; uint64_t fin = get(hobj, hbits), s = 3;
    k = explain(pos, init_v, fin, &budget);
    if (k == 0) {
        for (t = 0; t < NT; t++) for (i = 0; i < NOP; i++) { hop *h = &H[t][i]; vp_log("thread %d: %s operand %#llx expected %#llx -> %#llx (read %#llx)", t, h->f->name, (unsigned long long)h->a, (unsigned long long)h->e0, (unsigned long long)h->res, (unsigned long long)h->e); }
        vp_fail("history", "no order of the operations on the %d-bit object %#llx explains the results and the final %#llx", hbits, (unsigned long long)init_v, (unsigned long long)fin);
    }
    hist++; for (t = 0; t < NT; t++) for (i = 0; i < NOP; i++) s = vp_hash(s, H[t][i].res);
    vp_sig(s); hseen += k > 0;
    put(hobj, hbits, init_v); vp_beat();
}
static void t_history(vp_rng *r) {
    static const int bs[] = { 8, 16, 32, 64 }; int i;
    hbits = bs[vp_below(r, 4)]; hobj = arena_ + 64 + (unsigned)(hbits / 8) * vp_below(r, (uint32_t)(64 / (hbits / 8))); init_v = vp_below(r, 4);
    npool = 0; while (npool < 24) { const form *f = &forms[vp_below(r, NF)]; if (f->bits == hbits && strncmp(f->name, "atomic_init", 11)) pool[npool++] = f; }
    put(hobj, hbits, init_v); hist = hseen = 0;
    concurrent(r, 2 + (int)vp_below(r, 3), SCALE, h_body, h_after);
    vp_count("histories", hist); vp_count("histories_explained", hseen); (void)i;
}
/* counters: no update lost, every old value returned once */
static const form *cf, *cg; static uint64_t cstart; static uint64_t got_[MT][64]; static int cn; 
static uint8_t seen_[65536];
static void c_body(int t, int round, vp_rng *r) { int i; uint64_t e = 0; for (i = 0; i < cn; i++) got_[t][i] = cf->f(hobj, 1, &e); }
static void c_after(int round) {
    int t, i, tot = NT * cn; uint64_t fin = get(hobj, hbits), m = hbits == 64 ? ~0ull : (1ull << hbits) - 1, d;
    VP_CHECK(((cf->op == ADD ? cstart + (unsigned)tot : cstart - (unsigned)tot) & m) == fin, "lost-update", "%d times %s by 1 from %#llx left %#llx", tot, cf->name, (unsigned long long)cstart, (unsigned long long)fin);
    memset(seen_, 0, (size_t)tot);
    for (t = 0; t < NT; t++) for (i = 0; i < cn; i++) {
        d = (cf->op == ADD ? got_[t][i] - cstart : cstart - got_[t][i]) & m;
        VP_CHECK(d < (unsigned)tot && !seen_[d], "counter", "%s returned %#llx twice or out of range", cf->name, (unsigned long long)got_[t][i]);
        seen_[d] = 1;
    }
    cstart = fin; vp_beat();
}
static void t_counter(vp_rng *r) {
    do cf = &forms[vp_below(r, NF)]; while (cf->op != ADD && cf->op != SUB);
    hbits = cf->bits; hobj = arena_ + 64 + (unsigned)(hbits / 8) * vp_below(r, (uint32_t)(64 / (hbits / 8))); cstart = val(r, hbits); cn = 10 + (int)vp_below(r, 50); put(hobj, hbits, cstart);
    concurrent(r, 2 + (int)vp_below(r, 3), SCALE, c_body, c_after); vp_count("counter_rounds", SCALE); vp_sig(vp_hash(21, (uint64_t)(cf - forms)));
}
/* exchange and compare-exchange: each value written is taken out exactly once */
static void x_body(int t, int round, vp_rng *r) { int i; uint64_t e = 0; for (i = 0; i < cn; i++) got_[t][i] = cf->f(hobj, (uint64_t)(1 + t * cn + i), &e); }
static void x_after(int round) {
    int t, i, tot = NT * cn; uint64_t v; memset(seen_, 0, (size_t)tot + 1); seen_[get(hobj, hbits) & 0xffff]++;
    VP_CHECK(get(hobj, hbits) <= (unsigned)tot, "exchange", "%s left a value nobody wrote", cf->name);
    for (t = 0; t < NT; t++) for (i = 0; i < cn; i++) { v = got_[t][i] & (hbits == 8 ? 0xff : 0xffff); VP_CHECK(v <= (unsigned)tot && !seen_[v], "exchange", "%s returned %llu a second time or out of thin air", cf->name, (unsigned long long)v); seen_[v]++; }
    put(hobj, hbits, 0); vp_beat();
}
static void t_exchange(vp_rng *r) {
    do cf = &forms[vp_below(r, NF)]; while (cf->op != XCHG);
    hbits = cf->bits; hobj = arena_ + 64 + (unsigned)(hbits / 8) * vp_below(r, (uint32_t)(64 / (hbits / 8))); cn = 10 + (int)vp_below(r, 50); put(hobj, hbits, 0);
    concurrent(r, 2 + (int)vp_below(r, 3), SCALE, x_body, x_after); vp_count("exchange_rounds", SCALE); vp_sig(vp_hash(22, (uint64_t)(cf - forms)));
}
static uint64_t casfail[MT];
static void s_body(int t, int round, vp_rng *r) {   /* a counter made of compare-exchange */
    int i; uint64_t e = 0, z = 0;
    for (i = 0; i < cn; i++) {
        e = ext(cg->f(hobj, 0, &z), hbits, cf->sgn);
        if (cf->op == CASV) { uint64_t o; while (((o = cf->f(hobj, e + 1, &e)) ^ e) & (hbits == 64 ? ~0ull : (1ull << hbits) - 1)) { e = o; casfail[t]++; } }
        else while (!cf->f(hobj, e + 1, &e)) casfail[t]++;
        got_[t][i] = e;
    }
}
static void s_after(int round) {
    int t, i, tot = NT * cn; uint64_t fin = get(hobj, hbits), m = hbits == 64 ? ~0ull : (1ull << hbits) - 1, d;
    VP_CHECK(((cstart + (unsigned)tot) & m) == fin, "lost-update", "%d increments by %s from %#llx left %#llx", tot, cf->name, (unsigned long long)cstart, (unsigned long long)fin);
    memset(seen_, 0, (size_t)tot);
    for (t = 0; t < NT; t++) for (i = 0; i < cn; i++) { d = (got_[t][i] - cstart) & m; VP_CHECK(d < (unsigned)tot && !seen_[d], "cas", "%s succeeded twice from %#llx", cf->name, (unsigned long long)got_[t][i]); seen_[d] = 1; }
    cstart = fin; vp_beat();
}
static void t_cas(vp_rng *r) {
    int i; do cf = &forms[vp_below(r, NF)]; while (cf->op != CASS && cf->op != CASW && cf->op != CASV);
    do cg = &forms[vp_below(r, NF)]; while (cg->op != LOAD || cg->bits != cf->bits);
    hbits = cf->bits; hobj = arena_ + 64 + (unsigned)(hbits / 8) * vp_below(r, (uint32_t)(64 / (hbits / 8))); cstart = val(r, hbits); cn = 10 + (int)vp_below(r, 50); put(hobj, hbits, cstart); memset(casfail, 0, sizeof casfail);
    concurrent(r, 2 + (int)vp_below(r, 3), SCALE, s_body, s_after); vp_count("cas_rounds", SCALE); for (i = 0; i < MT; i++) vp_count("cas_contended", casfail[i]); vp_sig(vp_hash(23, (uint64_t)(cf - forms)));
}
/* own bits of a shared object, own objects side by side */
static volatile int wrong;
static const form *bf[3]; 
static void b_body(int t, int round, vp_rng *r) {
    int i, own = 0; uint64_t bit = 1ull << (hbits - 1 - t), e = 0, o;
    for (i = 0; i < cn; i++) {
        int k = (int)vp_below(r, 3);
        o = bf[k]->f(hobj, k == 1 ? ~bit : bit, &e);
        if (!!(o & bit) != own) wrong = 1;
        own = k == 0 ? 1 : k == 1 ? 0 : !own;
    }
    o = bf[1]->f(hobj, ~bit, &e); if (!!(o & bit) != own) wrong = 1;
}
static void b_after(int round) { VP_CHECK(!wrong, "bits", "%s, %s or %s lost another thread's bit", bf[0]->name, bf[1]->name, bf[2]->name); VP_CHECK(get(hobj, hbits) == 0, "bits", "bits left behind"); vp_beat(); }
static void t_bits(vp_rng *r) {
    static const int bs[] = { 8, 16, 32, 64 }, os[] = { OR, AND, XOR }; int i; hbits = bs[vp_below(r, 4)]; wrong = 0;
    for (i = 0; i < 3; i++) do bf[i] = &forms[vp_below(r, NF)]; while (bf[i]->op != os[i] || bf[i]->bits != hbits);
    hobj = arena_ + 64; put(hobj, hbits, 0); cn = 30;
    concurrent(r, 2 + (int)vp_below(r, 3), SCALE, b_body, b_after); vp_count("bit_rounds", SCALE);
}
static const form *nf[MT][8];
static void n_body(int t, int round, vp_rng *r) {
    volatile unsigned char *o = (volatile unsigned char *)hobj + (unsigned)t * (unsigned)(hbits / 8); uint64_t v = get(o, hbits), e, e0, nv, w, g; int i;
    for (i = 0; i < cn; i++) {
        const form *f = nf[t][vp_below(r, 8)]; uint64_t a = val(r, hbits);
        e = ext(vp_chance(r, 1, 2) ? v : 0, hbits, f->sgn); e0 = e; w = ref(f->op, v, a, &e0, hbits, f->sgn, &nv); g = f->f(o, a, &e);
        if (f->op == CASW && w && !g) continue;
        if (g != w) wrong = 1;
        v = nv; if (f->op != LOAD && (f->op == STORE || f->op == CLEAR) && get(o, hbits) != v) wrong = 1;
    }
    if (get(o, hbits) != v) wrong = 1;
}
static void n_after(int round) { VP_CHECK(!wrong, "neighbour", "operations of several threads on adjacent %d-bit objects disturbed each other", hbits); vp_beat(); }
static void t_neighbours(vp_rng *r) {
    static const int bs[] = { 8, 16, 32, 64 }; int i, t; hbits = bs[vp_below(r, 4)]; wrong = 0;
    for (t = 0; t < MT; t++) for (i = 0; i < 8; i++) do nf[t][i] = &forms[vp_below(r, NF)]; while (nf[t][i]->bits != hbits);
    hobj = arena_ + 64; cn = 40;
    concurrent(r, 4, SCALE, n_body, n_after); vp_count("neighbour_rounds", SCALE);
}
/* sequentially consistent stores and loads, or fences between relaxed ones: not both threads read the old value */
static volatile uint64_t sx[64] __attribute__((aligned(64))); static const form *sst, *sld; static int sfence; static uint64_t sr[2]; static uint64_t sb[4];
static void sb_body(int t, int round, vp_rng *r) {
    uint64_t e = 0; 
    if (sfence) { c89atomic_store_explicit_64((volatile c89atomic_uint64 *)&sx[t * 32], 1, c89atomic_memory_order_relaxed); if (sfence == 1) atomic_thread_fence(memory_order_seq_cst); else c89atomic_thread_fence(c89atomic_memory_order_seq_cst); sr[t] = c89atomic_load_explicit_64((volatile c89atomic_uint64 *)&sx[32 - t * 32], c89atomic_memory_order_relaxed); }
    else { e = 0; sst->f(&sx[t * 32], 1, &e); e = 0; sr[t] = sld->f(&sx[32 - t * 32], 0, &e); }
}
static void sb_after(int round) {
    sb[sr[0] * 2 + sr[1]]++;
    VP_CHECK(sr[0] || sr[1], "store-buffer", "both threads read the old value: %s then %s", sfence ? "relaxed store, fence" : sst->name, sfence ? "relaxed load" : sld->name);
    sx[0] = sx[32] = 0; vp_beat();
}
static void t_sc(vp_rng *r) {
    memset(sb, 0, sizeof sb); sfence = vp_chance(r, 1, 5) ? 1 + (int)vp_below(r, 2) : 0; 
    do sst = &forms[vp_below(r, NF)]; while (sst->op != STORE || strstr(sst->name, "explicit") || strstr(sst->name, "init"));
    if (vp_chance(r, 1, 3)) do sst = &forms[vp_below(r, NF)]; while (sst->op != STORE || !strstr(sst->name, "seq_cst"));
    do sld = &forms[vp_below(r, NF)]; while (sld->op != LOAD || sld->bits != sst->bits || (strstr(sld->name, "explicit") && !strstr(sld->name, "seq_cst")));
    sx[0] = sx[32] = 0;
    concurrent(r, 2, SCALE * 4, sb_body, sb_after); vp_count("store_buffer_rounds", SCALE * 4); vp_count("store_buffer_overlap", sb[3]); vp_sig(vp_hash(24, (uint64_t)(sst - forms)));
}
/* publication: what was written before is seen after; ThreadSanitizer judges the plain data */
static uint64_t data_[2]; static const form *prel, *pacq; 
static void p_body(int t, int round, vp_rng *r) {
    uint64_t e = 0; int k = 0;
    if (t == 0) { data_[0] = (uint64_t)round * 3 + 1; e = 0; prel->f(hobj, prel->op == AND ? 1 : 2, &e); }
    else for (;;) {
        uint64_t v, m = hbits == 64 ? ~0ull : (1ull << hbits) - 1; e = 5;
        v = pacq->f(hobj, pacq->op == AND ? ~0ull : 0, &e); if (pacq->op == CASS || pacq->op == CASW) v = e;
        if ((v & m) != (prel->op == AND ? 3u : 0u)) { if (data_[0] != (uint64_t)round * 3 + 1) wrong = 1; break; }
        if (++k > 500) { sched_yield(); k = 0; }
    }
}
static void p_after(int round) { VP_CHECK(!wrong, "publication", "data written before %s was not seen after %s", prel->name, pacq->name); put(hobj, hbits, prel->op == AND ? 3 : 0); vp_beat(); }
static void t_publish(vp_rng *r) {
    wrong = 0; data_[0] = 0;
    do prel = &forms[vp_below(r, NF)]; while (!prel->rel || (prel->op != STORE && prel->op != XCHG && prel->op != CASS && prel->op != CASV && prel->op != ADD && prel->op != OR && prel->op != XOR && prel->op != AND && prel->op != TAS));
    do pacq = &forms[vp_below(r, NF)]; while (!pacq->acq || pacq->bits != prel->bits || pacq->op == XCHG || pacq->op == CASV || pacq->op == TAS || (pacq->op != LOAD && vp_chance(r, 1, 2)) || pacq->op == CASW || pacq->op == CASS);
    if (prel->op == AND) do pacq = &forms[vp_below(r, NF)]; while (!pacq->acq || pacq->bits != prel->bits || pacq->op != LOAD);
    hbits = prel->bits; hobj = arena_ + 64; put(hobj, hbits, prel->op == AND ? 3 : 0);
    vp_log("publication by %s to %s", prel->name, pacq->name);
    concurrent(r, 2, SCALE, p_body, p_after); vp_count("publications", SCALE); vp_sig(vp_hash(vp_hash(25, (uint64_t)(prel - forms)), (uint64_t)(pacq - forms)));
}
static void fl_body(int t, int round, vp_rng *r) { int i; for (i = 0; i < cn; i++) { if (cf) c89atomic_fetch_add_f64((volatile double *)hobj, 1.0); else c89atomic_fetch_add_f32((volatile float *)hobj, 1.0f); } }
static void fl_after(int round) { double v = cf ? *(volatile double *)hobj : (double)*(volatile float *)hobj; VP_CHECK(v == (double)(NT * cn), "lost-update", "%d additions of 1 to an atomic float left %g", NT * cn, v); memset((void *)hobj, 0, 8); vp_beat(); }
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 19); int i;
#ifdef VP_CONFIG_tsan
    i = 3 + (int)vp_below(&r, 8);
#else
    i = (int)vp_below(&r, 11);
#endif
    switch (i) {
        case 0: case 1: case 2: t_alone(&r); for (i = 0; i < 6; i++) { t_f32(&r); t_f64(&r); } break;
        case 3: t_history(&r); break;
        case 4: t_counter(&r); break;
        case 5: t_exchange(&r); break;
        case 6: t_cas(&r); break;
        case 7: t_bits(&r); break;
        case 8: t_neighbours(&r); break;
        case 9: t_publish(&r); break;
        default: if (vp_chance(&r, 1, 8)) { hobj = arena_ + 64; memset((void *)hobj, 0, 8); cn = 20; cf = vp_chance(&r, 1, 2) ? forms : 0; concurrent(&r, 3, SCALE, fl_body, fl_after); vp_count("float_rounds", SCALE); } else t_sc(&r); break;
    }
}
