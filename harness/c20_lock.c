/* C20: spin locks and flags under contention; the plain data they guard is judged by counting and by ThreadSanitizer. */
#include <pthread.h>
#include <sched.h>
#include "raii.h"
#include "gen.h"
#ifdef VP_CONFIG_tsan
#define SCALE 1
#else
#define SCALE 8
#endif
const vp_config_t vp_cfg = { "C20", SCALE * 2, 20, 0 };
#define MT 6
/* the lock between its neighbours */
static struct { unsigned char a[7]; volatile c89atomic_flag lock[8]; unsigned char b[9]; } L[4];
static int nt, iters, form_, nl, holdlen; static volatile int start_;
static uint64_t plain[4][9]; static int inside[4]; static uint64_t acq[MT], waited[MT]; static int bad; static char why[128]; static vp_rng TR[MT];
static void spin(unsigned n) { volatile unsigned i; for (i = 0; i < n; i++) ; }
static void go(void) { int k = 0; while (!__atomic_load_n(&start_, __ATOMIC_ACQUIRE)) if (++k > 1000) { sched_yield(); k = 0; } }
static void acquire(int l) { if (form_ == 0) atomic_lock(&L[l].lock[3]); else if (form_ == 1) c89atomic_spinlock_lock((atomic_spinlock *)&L[l].lock[3]); else { int k = 0; for (;;) {
    int was = form_ == 2 ? atomic_flag_test_and_set(&L[l].lock[3]) : form_ == 3 ? atomic_flag_test_and_set_explicit(&L[l].lock[3], memory_order_acquire) : form_ == 4 ? c89atomic_flag_test_and_set(&L[l].lock[3]) : c89atomic_flag_test_and_set_explicit(&L[l].lock[3], c89atomic_memory_order_acquire);
    if (!was) break; if (++k > 300) { sched_yield(); k = 0; } } } }
static void release(int l) { switch (form_) { case 0: atomic_unlock(&L[l].lock[3]); break; case 1: c89atomic_spinlock_unlock((atomic_spinlock *)&L[l].lock[3]); break; case 2: atomic_flag_clear(&L[l].lock[3]); break;
    case 3: atomic_flag_clear_explicit(&L[l].lock[3], memory_order_release); break; case 4: c89atomic_flag_clear(&L[l].lock[3]); break; default: c89atomic_flag_clear_explicit(&L[l].lock[3], c89atomic_memory_order_release); } }
static void *locker(void *p) {
    int t = (int)(intptr_t)p, i, k; vp_rng *r = &TR[t]; go();
    for (i = 0; i < iters; i++) {
        int l = (int)vp_below(r, (uint32_t)nl); uint64_t v;
        acquire(l);
#ifndef VP_CONFIG_tsan
        if (__atomic_add_fetch(&inside[l], 1, __ATOMIC_RELAXED) != 1) { bad = 1; snprintf(why, sizeof why, "two threads hold lock %d", l); }
#endif
        v = plain[l][0];
        for (k = 1; k < 9; k++) if (plain[l][k] != v * (uint64_t)k) { bad = 1; snprintf(why, sizeof why, "data guarded by lock %d is torn", l); }
        if (vp_chance(r, 1, 4)) spin(vp_below(r, (uint32_t)holdlen)); if (vp_chance(r, 1, 64)) sched_yield();
        plain[l][0] = v + 1; for (k = 1; k < 9; k++) plain[l][k] = (v + 1) * (uint64_t)k;
        acq[t]++;
#ifndef VP_CONFIG_tsan
        __atomic_sub_fetch(&inside[l], 1, __ATOMIC_RELAXED);
#endif
        release(l);
        if (vp_chance(r, 1, 3)) spin(vp_below(r, 60));
    }
    return 0;
}
static void run(void *(*f)(void *), vp_rng *r) {
    pthread_t th[MT]; int i; start_ = 0;
    for (i = 0; i < nt; i++) TR[i] = vp_rng_make(vp_next(r), (uint64_t)i, 6);
    for (i = 0; i < nt; i++) if (pthread_create(&th[i], 0, f, (void *)(intptr_t)i)) abort();
    __atomic_store_n(&start_, 1, __ATOMIC_RELEASE);
    for (i = 0; i < nt; i++) pthread_join(th[i], 0);
    vp_beat();
}
static void fill(void) { memset((void *)L, 0xa5, sizeof L); }
static void neighbours(void) { int i; size_t k; for (i = 0; i < nl; i++) { const unsigned char *q = (const unsigned char *)&L[i]; for (k = 0; k < sizeof L[i]; k++) if (k != (size_t)((const unsigned char *)&L[i].lock[3] - q) && q[k] != 0xa5) vp_fail("neighbour", "the operations on a lock changed a byte beside it"); } }
static void t_lock(vp_rng *r) {
    int i, k; uint64_t tot = 0; nt = 2 + (int)vp_below(r, MT - 1); nl = 1 + (int)vp_below(r, 4); form_ = vp_chance(r, 1, 2) ? 0 : (int)vp_below(r, 6); iters = 40 * SCALE + (int)vp_below(r, 60 * SCALE); holdlen = 1 + (int)vp_below(r, 300);
    memset(plain, 0, sizeof plain); memset(inside, 0, sizeof inside); memset(acq, 0, sizeof acq); bad = 0; fill(); for (i = 0; i < nl; i++) { L[i].lock[3] = 1; if (form_ < 2) atomic_flag_clear(&L[i].lock[3]); else release(i); }
    vp_log("%d threads, %d locks, form %d, %d rounds each", nt, nl, form_, iters);
    run(locker, r);
    VP_CHECK(!bad, "exclusion", "%s (%d threads, form %d)", why, nt, form_);
    for (i = 0; i < nl; i++) { tot += plain[i][0]; VP_CHECK(!atomic_flag_load(&L[i].lock[3]), "left-locked", "lock %d is set after every release", i); for (k = 1; k < 9; k++) VP_CHECK(plain[i][k] == plain[i][0] * (uint64_t)k, "exclusion", "torn data"); }
    VP_CHECK(tot == (uint64_t)nt * (uint64_t)iters, "exclusion", "%llu of %llu guarded increments survived (%d threads, form %d)", (unsigned long long)tot, (unsigned long long)nt * (unsigned)iters, nt, form_);
    neighbours(); vp_count("lock_acquisitions", tot); vp_sig(vp_hash(vp_hash(1, (uint64_t)form_), (uint64_t)(nt * 100 + nl)));
}
/* a flag: exactly one winner per clear, and the one who finds it set sees what the setter wrote before */
static uint64_t wins[MT]; static int rounds; static volatile int gen_, arr_; static volatile int tasres[MT];
static void bar(void) { int g = __atomic_load_n(&gen_, __ATOMIC_ACQUIRE), k = 0; if (__atomic_add_fetch(&arr_, 1, __ATOMIC_ACQ_REL) == nt) { __atomic_store_n(&arr_, 0, __ATOMIC_RELAXED); __atomic_store_n(&gen_, g + 1, __ATOMIC_RELEASE); } else while (__atomic_load_n(&gen_, __ATOMIC_ACQUIRE) == g) if (++k > 1500) { sched_yield(); k = 0; } }
static void *tas(void *p) {
    int t = (int)(intptr_t)p, i, k; vp_rng *r = &TR[t]; go();
    for (i = 0; i < rounds; i++) {
        bar(); if (vp_chance(r, 1, 2)) spin(vp_below(r, 40));
        tasres[t] = form_ < 2 ? atomic_flag_test_and_set(&L[0].lock[3]) : form_ < 4 ? atomic_flag_test_and_set_explicit(&L[0].lock[3], memory_order_acq_rel) : form_ == 4 ? c89atomic_flag_test_and_set(&L[0].lock[3]) : c89atomic_flag_test_and_set_explicit(&L[0].lock[3], c89atomic_memory_order_seq_cst);
        if (!tasres[t]) wins[t]++;
        bar();
        if (t == 0) { int w = 0; for (k = 0; k < nt; k++) { if (tasres[k] != 0 && tasres[k] != 1) { bad = 1; snprintf(why, sizeof why, "test-and-set reports %d", tasres[k]); } w += !tasres[k]; } if (w != 1) { bad = 1; snprintf(why, sizeof why, "%d threads won one clear", w); }
            if (!atomic_flag_load(&L[0].lock[3])) { bad = 1; snprintf(why, sizeof why, "the flag does not read as set"); }
            switch (form_ % 3) { case 0: atomic_flag_clear(&L[0].lock[3]); break; case 1: atomic_flag_clear_explicit(&L[0].lock[3], memory_order_release); break; default: c89atomic_flag_clear(&L[0].lock[3]); }
            if (atomic_flag_load_explicit(&L[0].lock[3], memory_order_acquire)) { bad = 1; snprintf(why, sizeof why, "the flag reads as set after a clear"); } }
    }
    return 0;
}
static void t_tas(vp_rng *r) {
    nt = 2 + (int)vp_below(r, MT - 2); nl = 1; form_ = (int)vp_below(r, 6); rounds = 30 * SCALE; bad = 0; fill(); L[0].lock[3] = 0; gen_ = arr_ = 0;
    vp_log("flag, %d threads, form %d", nt, form_);
    run(tas, r); VP_CHECK(!bad, "flag", "%s (%d threads, form %d)", why, nt, form_); neighbours(); vp_count("flag_rounds", (uint64_t)rounds); vp_sig(vp_hash(2, (uint64_t)(form_ * 10 + nt)));
}
static uint64_t data_[4];
static void *setter(void *p) {
    int t = (int)(intptr_t)p, i, k, n = 0; vp_rng *r = &TR[t]; go();
    for (i = 0; i < rounds; i++) {
        volatile c89atomic_flag *f = &L[i & 1].lock[3], *back = &L[2 + (i & 1)].lock[3];
        if (t == 0) {
            if (vp_chance(r, 1, 3)) spin(vp_below(r, 100));
            for (k = 0; k < 4; k++) data_[k] = (uint64_t)i * 4 + (uint64_t)k;
            if (form_ & 1) atomic_flag_test_and_set(f); else atomic_flag_test_and_set_explicit(f, memory_order_release);
            while (form_ & 4 ? !atomic_flag_load(back) : !atomic_flag_load_explicit(back, memory_order_acquire)) if (++n > 500) { sched_yield(); n = 0; }
            for (k = 0; k < 4; k++) if (data_[k] != (uint64_t)i * 8 + (uint64_t)k) bad = 1;
            atomic_flag_clear(back);
        } else {
            while (form_ & 2 ? !atomic_flag_load(f) : !atomic_flag_load_explicit(f, memory_order_acquire)) if (++n > 500) { sched_yield(); n = 0; }
            for (k = 0; k < 4; k++) { if (data_[k] != (uint64_t)i * 4 + (uint64_t)k) bad = 1; data_[k] = (uint64_t)i * 8 + (uint64_t)k; }
            atomic_flag_clear(f);
            if (form_ & 1) atomic_flag_test_and_set(back); else atomic_flag_test_and_set_explicit(back, memory_order_release);
        }
    }
    return 0;
}
static void t_publish(vp_rng *r) {
    int i; nt = 2; nl = 4; form_ = (int)vp_below(r, 8); rounds = 40 * SCALE; bad = 0; fill(); for (i = 0; i < 4; i++) L[i].lock[3] = 0;
    vp_log("hand-over through flags, form %d", form_);
    run(setter, r); VP_CHECK(!bad, "publication", "what was written before setting a flag was not seen by the one who found it set (form %d)", form_); neighbours(); vp_count("hand_overs", (uint64_t)rounds * 2); vp_sig(vp_hash(3, (uint64_t)form_));
}
/* a waiter obtains the lock once it is released, with no further contention */
static void *waiter(void *p) {
    int t = (int)(intptr_t)p, i; vp_rng *r = &TR[t]; go();
    for (i = 0; i < rounds; i++) {
        if (t == 0) { acquire(0); bar(); spin(vp_below(r, 2000)); if (vp_chance(r, 1, 3)) sched_yield(); plain[0][0]++; release(0); bar(); }
        else { bar(); acquire(0); plain[0][0]++; release(0); waited[t]++; bar(); }
    }
    return 0;
}
static void t_wake(vp_rng *r) {
    nt = 2 + (int)vp_below(r, 3); nl = 1; form_ = (int)vp_below(r, 3) ? 0 : (int)vp_below(r, 6); rounds = 10 * SCALE; bad = 0; fill(); L[0].lock[3] = 0; gen_ = arr_ = 0; plain[0][0] = 0;
    vp_log("%d waiters, form %d", nt - 1, form_); run(waiter, r);
    VP_CHECK(plain[0][0] == (uint64_t)(rounds * nt), "exclusion", "a guarded increment was lost among waiters"); neighbours(); vp_count("waits_ended", (uint64_t)(rounds * (nt - 1))); vp_sig(vp_hash(4, (uint64_t)(form_ * 10 + nt)));
}
void vp_case(uint64_t seed, uint64_t idx) {
    vp_rng r = vp_rng_make(seed, idx, 20);
    switch (vp_below(&r, 6)) { case 0: case 1: case 2: t_lock(&r); break; case 3: t_tas(&r); break; case 4: t_publish(&r); break; default: t_wake(&r); }
}
