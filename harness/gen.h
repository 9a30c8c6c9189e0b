/* shared generators */
#ifndef GEN_H
#define GEN_H
#include "vp.h"
static inline uint64_t gen_u64(vp_rng *r) {
    static const uint64_t p10[] = {1ull,10ull,100ull,1000ull,10000ull,100000ull,1000000ull,10000000ull,100000000ull,1000000000ull,
        10000000000ull,100000000000ull,1000000000000ull,10000000000000ull,100000000000000ull,1000000000000000ull,
        10000000000000000ull,100000000000000000ull,1000000000000000000ull,10000000000000000000ull};
    switch (vp_below(r, 8)) {
        case 0: return vp_below(r, 300);
        case 1: return p10[vp_below(r, 20)] + vp_below(r, 5) - 2;
        case 2: { unsigned b = vp_below(r, 64); return (1ull << b) + vp_below(r, 5) - 2; }
        case 3: return vp_next(r) >> vp_below(r, 64);
        case 4: return p10[vp_below(r, 20)] * vp_below(r, 10);
        case 5: return UINT64_MAX - vp_below(r, 200);
        case 6: return (uint64_t)INT64_MAX + vp_below(r, 5) - 2;
        default: { uint64_t d = p10[vp_below(r, 20)]; uint64_t v = vp_next(r); return d > 1 ? v % d : v; }
    }
}
/* a text buffer: body of length n, random alignment, adversarial bytes around; stays valid until the next call on the slot */
static inline char *gen_place(vp_rng *r, char *store, size_t cap, const char *body, size_t n, const char *alphabet) {
    size_t i, off = 16 + vp_below(r, 16); size_t al = strlen(alphabet);
    if (off + n + 24 > cap) abort();
    for (i = 0; i < off + n + 24; i++) store[i] = al ? alphabet[vp_below(r, (uint32_t)al)] : (char)vp_next(r);
    memcpy(store + off, body, n);
    return store + off;
}
#endif
