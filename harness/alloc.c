/* Tracked allocator given to the library through RAII_MALLOC & co. Ledger, canaries, injected failures. */
#include "vp.h"
#include <malloc.h>
#include <pthread.h>

#if defined(__SANITIZE_ADDRESS__)
# define VP_ASAN 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define VP_ASAN 1
# endif
#endif

#ifdef VP_ASAN
# define PRE 0
# define POST 0
#else
# define PRE 32
# define POST 32
#endif
#define CAN 0xA7

typedef struct { char *p; size_t n; uint64_t serial; } ent;
static ent *tab; static size_t cap, used, live_n, live_b; /* open addressing, tombstone p==(char*)1 */
static uint64_t serial;
static size_t calls; static long fail_at; static int fail_sticky, fail_fired; static unsigned long fail_total;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
int vp_alloc_fill = 1;

static size_t hp(const void *p) { return (size_t)(((uint64_t)(uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 20); }
static void put(char *p, size_t n);
static void grow(void) {
    ent *o = tab; size_t oc = cap, i;
    cap = cap ? cap * 2 : 4096; tab = calloc(cap, sizeof *tab); used = 0;
    if (!tab) abort();
    live_n = 0; live_b = 0;
    uint64_t keep = serial;
    for (i = 0; i < oc; i++) if (o[i].p > (char *)1) { put(o[i].p, o[i].n); 
        size_t h = hp(o[i].p) & (cap - 1); while (tab[h].p != o[i].p) h = (h + 1) & (cap - 1); tab[h].serial = o[i].serial; }
    serial = keep;
    free(o);
}
static void put(char *p, size_t n) {
    if ((used + 1) * 2 > cap) grow();
    size_t h = hp(p) & (cap - 1);
    while (tab[h].p > (char *)1) h = (h + 1) & (cap - 1);
    if (!tab[h].p) used++;
    tab[h].p = p; tab[h].n = n; tab[h].serial = ++serial; live_n++; live_b += n;
}
static ent *find(const void *p) {
    if (!cap) return NULL;
    size_t h = hp(p) & (cap - 1);
    while (tab[h].p) { if (tab[h].p == p) return &tab[h]; h = (h + 1) & (cap - 1); }
    return NULL;
}
static int should_fail(void) {
    calls++;
    if (fail_at > 0) {
        if (fail_at == 1) { fail_fired++; fail_total++; if (!fail_sticky) fail_at = 0; return 1; }
        fail_at--;
    }
    return 0;
}
static int canary_ok(const ent *e) {
#if PRE
    int i; const unsigned char *b = (const unsigned char *)e->p;
    for (i = 0; i < PRE; i++) if (b[-1 - i] != CAN) return 0;
    for (i = 0; i < POST; i++) if (b[e->n + (size_t)i] != CAN) return 0;
#else
    (void)e;
#endif
    return 1;
}
static void *get(size_t n, int zero) {
    char *raw, *p;
    pthread_mutex_lock(&mu);
    if (should_fail() || n > ((size_t)1 << 32)) { pthread_mutex_unlock(&mu); errno = ENOMEM; return NULL; }
    raw = malloc(n + PRE + POST);
    if (!raw) { pthread_mutex_unlock(&mu); return NULL; }
    p = raw + PRE;
#if PRE
    memset(raw, CAN, PRE); memset(p + n, CAN, POST);
#endif
    if (zero) memset(p, 0, n);
    else if (vp_alloc_fill && n < 65536) { static uint64_t z = 1; size_t i; for (i = 0; i < n; i++) { if (!(i & 7)) z = z * 6364136223846793005ull + 1442695040888963407ull; p[i] = (char)((z >> (8 * (i & 7))) | (i % 8 == 7) * 0x80); } }     /* what was never written is never the same */
    put(p, n);
    pthread_mutex_unlock(&mu);
    return p;
}
void *vp_malloc(size_t n) { return get(n, 0); }
void *vp_calloc(size_t n, size_t m) {
    size_t t;
    if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return NULL; }
    return get(t, 1);
}
void *vp_memalign(size_t a, size_t n) { (void)a; return get(n, 0); }
void vp_free(void *p) {
    ent *e; size_t n;
    if (!p) return;
    pthread_mutex_lock(&mu);
    e = find(p);
    if (!e) { pthread_mutex_unlock(&mu); vp_fail("bad-free", "the library freed a pointer that is not a live block (double or foreign free)"); }
    if (!canary_ok(e)) { n = e->n; pthread_mutex_unlock(&mu); vp_fail("heap-overrun", "bytes around a block of %zu bytes were overwritten", n); }
    n = e->n; live_n--; live_b -= n; e->p = (char *)1;
    pthread_mutex_unlock(&mu);
#if PRE
    if (n < 65536) memset(p, 0xDD, n);
#endif
    free((char *)p - PRE);
}
void *vp_realloc(void *p, size_t n) {
    void *q; size_t o = 0; ent *e;
    if (!p) return get(n, 0);
    pthread_mutex_lock(&mu);
    e = find(p);
    if (!e) { pthread_mutex_unlock(&mu); vp_fail("bad-realloc", "the library reallocated a pointer that is not a live block"); }
    o = e->n;
    pthread_mutex_unlock(&mu);
    q = get(n, 0);
    if (!q) return NULL;
    memcpy(q, p, o < n ? o : n);
    vp_free(p);
    return q;
}
size_t vp_live(void) { size_t r; pthread_mutex_lock(&mu); r = live_n; pthread_mutex_unlock(&mu); return r; }
size_t vp_live_bytes(void) { return live_b; }
size_t vp_alloc_calls(void) { return calls; }
void vp_ledger_reset(void) { pthread_mutex_lock(&mu); if (tab) memset(tab, 0, cap * sizeof *tab); used = live_n = live_b = 0; pthread_mutex_unlock(&mu); }
void vp_fail_at(long nth, int sticky) { pthread_mutex_lock(&mu); fail_at = nth; fail_sticky = sticky; fail_fired = 0; pthread_mutex_unlock(&mu); }
int vp_fail_fired(void) { return fail_fired; }
int vp_is_live(const void *p) { int r; pthread_mutex_lock(&mu); r = find(p) != NULL; pthread_mutex_unlock(&mu); return r; }
size_t vp_block_size(const void *p) { size_t r = 0; ent *e; pthread_mutex_lock(&mu); e = find(p); if (e) r = e->n; pthread_mutex_unlock(&mu); return r; }
uint64_t vp_block_serial(const void *p) { uint64_t r = 0; ent *e; pthread_mutex_lock(&mu); e = find(p); if (e) r = e->serial; pthread_mutex_unlock(&mu); return r; }
int vp_in_live(const void *p, size_t n) {
    size_t i; int r = 0; const char *c = p;
    pthread_mutex_lock(&mu);
    for (i = 0; i < cap && !r; i++) if (tab[i].p > (char *)1 && c >= tab[i].p && c + n <= tab[i].p + tab[i].n) r = 1;
    pthread_mutex_unlock(&mu);
    return r;
}
void vp_ledger_check(void) {
    size_t i, n = 0; int bad = 0;
    pthread_mutex_lock(&mu);
    for (i = 0; i < cap && !bad; i++) if (tab[i].p > (char *)1 && !canary_ok(&tab[i])) { bad = 1; n = tab[i].n; }
    pthread_mutex_unlock(&mu);
    if (bad) vp_fail("heap-overrun", "bytes around a block of %zu bytes were overwritten", n);
}
void vp_ledger_dump(void) {
    size_t i; for (i = 0; i < cap; i++) if (tab[i].p > (char *)1) vp_log("live block #%llu %zu bytes", (unsigned long long)tab[i].serial, tab[i].n);
}
unsigned long vp_fail_total(void) { unsigned long n; pthread_mutex_lock(&mu); n = fail_total; pthread_mutex_unlock(&mu); return n; }
