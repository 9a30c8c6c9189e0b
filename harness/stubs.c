/* What the sandbox lacks: rpmalloc's per-thread entry points (no-ops, the library is given another allocator),
   and for ThreadSanitizer builds C11 threads over pthreads, which the tool intercepts. */
#include <pthread.h>
#include <threads.h>
#include <stdint.h>
#include <sched.h>
#include <stdlib.h>
int rpmalloc_initialize(void) { return 0; }
void rpmalloc_finalize(void) {}
int rpmalloc_init(void) { return 0; }
void rpmalloc_thread_finalize(int r) { (void)r; }
/* injected scheduling noise: spins or yields at thread start and at every yield, from a per-thread generator */
unsigned vp_noise_seed;
void (*vp_on_thread_start)(void);
static __thread int fail_create_at;
void vp_thrd_fail_at(int n) { fail_create_at = n; }
static __thread unsigned ns;
static void noise(void) {
    unsigned k;
    if (!vp_noise_seed) return;
    if (!ns) ns = vp_noise_seed ^ (unsigned)(uintptr_t)&ns;
    ns = ns * 1664525u + 1013904223u;
    k = (ns >> 16) % 16;
    if (k < 3) sched_yield();
    else if (k < 6) { volatile unsigned i; for (i = 0; i < (ns >> 20) % 2000; i++) ; }
}
void vp_noise(void) { noise(); }
struct arg { thrd_start_t f; void *a; };
static void *tramp(void *p) {
    struct arg a = *(struct arg *)p; free(p);
    noise();
    if (vp_on_thread_start) vp_on_thread_start();
    return (void *)(intptr_t)a.f(a.a);
}
int thrd_create(thrd_t *t, thrd_start_t f, void *a) {
    struct arg *p;
    if (fail_create_at > 0 && --fail_create_at == 0) return thrd_error;
    p = malloc(sizeof *p);
    if (!p) return thrd_nomem;
    p->f = f; p->a = a;
    if (pthread_create((pthread_t *)t, 0, tramp, p)) { free(p); return thrd_error; }
    noise();
    return thrd_success;
}
int thrd_join(thrd_t t, int *res) { void *r; if (pthread_join((pthread_t)t, &r)) return thrd_error; if (res) *res = (int)(intptr_t)r; return thrd_success; }
void thrd_yield(void) { noise(); sched_yield(); }
_Noreturn void thrd_exit(int r) { pthread_exit((void *)(intptr_t)r); }
thrd_t thrd_current(void) { return (thrd_t)pthread_self(); }
