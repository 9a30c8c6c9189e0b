/* forced into every translation unit of the library and of the harness */
#include <stddef.h>
#include <stdlib.h>
#include <malloc.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vp_malloc(size_t n);
void vp_free(void *p);
void *vp_realloc(void *p, size_t n);
void *vp_calloc(size_t n, size_t m);
void *vp_memalign(size_t a, size_t n);
#ifdef __cplusplus
}
#endif
