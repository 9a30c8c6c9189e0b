/* variables shared by two translation units (one compiled as C90, one as C11) */
#include "raii.h"
#include <stdint.h>
typedef struct { uint64_t a[5]; char c[3]; } trio;
typedef struct { unsigned char x[3001]; } big;
thrd_local_extern(trio, v_trio)
thrd_local_extern(double, v_dbl)
thrd_local_extern(big, v_big)
thrd_local_external(int, p_int)
thrd_local_external(long, p_neg)
thrd_local_external(trio *, p_ptr)
typedef struct { const char *name; size_t size; void *(*get)(void); void (*upd)(void *); bool (*empty)(void); void (*del)(void); } pvar;   /* read as a pointer */
typedef struct { const char *name; uint64_t initial, mask; uint64_t (*get)(void); void (*upd)(uint64_t); bool (*empty)(void); void (*del)(void); } nvar; /* read as a value */
#define PVAR(tag, type, v) static void *tag##_##v##_g(void) { return v(); } static void tag##_##v##_u(void *p) { v##_update((type *)p); } static bool tag##_##v##_e(void) { return is_##v##_empty(); } static void tag##_##v##_d(void) { v##_del(); }
#define PROW(tag, type, v) { #v, sizeof(type), tag##_##v##_g, tag##_##v##_u, tag##_##v##_e, tag##_##v##_d }
#define NVAR(tag, type, v) static uint64_t tag##_##v##_g(void) { union { uint64_t u; type t; } x; x.u = 0; x.t = v(); return x.u; } static void tag##_##v##_u(uint64_t n) { union { uint64_t u; type t; } x; x.u = n; v##_update(x.t); } static bool tag##_##v##_e(void) { return is_##v##_empty(); } static void tag##_##v##_d(void) { v##_del(); }
#define NROW(tag, type, v, init) { #v, init, sizeof(type) >= 8 ? ~0ull : (1ull << (8 * sizeof(type))) - 1, tag##_##v##_g, tag##_##v##_u, tag##_##v##_e, tag##_##v##_d }
#define NP 6
#define NN 5
extern const pvar a_p[NP], b_p[NP];
extern const nvar a_n[NN], b_n[NN];
