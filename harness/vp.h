/* Runner shared by all monitors: cases run in forked children, failures are attributed to a case. */
#ifndef VP_H
#define VP_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>

typedef struct {
    const char *name;
    int batch;              /* cases per forked child (1: a process per case) */
    int hang_s;             /* seconds without progress before a child counts as hung */
    int child_output;       /* 1: the case itself owns stdout/stderr of the child */
} vp_config_t;

extern const vp_config_t vp_cfg;                 /* provided by the harness */
void vp_case(uint64_t seed, uint64_t idx);       /* provided by the harness: run one case */
void vp_child_init(void) __attribute__((weak));  /* once per forked child */
/* For batch==1 harnesses: judge how the child ended. Return 1 when handled (call vp_fail_parent to report). */
int vp_judge(uint64_t idx, int status, const char *err, size_t errlen) __attribute__((weak));
/* Replace the forked body for batch==1 (process exit properties). */

/* deterministic random numbers */
typedef struct { uint64_t s; } vp_rng;
vp_rng vp_rng_make(uint64_t seed, uint64_t idx, uint64_t salt);
uint64_t vp_next(vp_rng *r);
uint32_t vp_below(vp_rng *r, uint32_t n);       /* 0..n-1, n>0 */
int vp_chance(vp_rng *r, int num, int den);

/* report: ends the case (does not return) */
void vp_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
/* the parent's side of a failure, for vp_judge */
void vp_fail_parent(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define VP_CHECK(cond, key, ...) do { if (!(cond)) vp_fail(key, __VA_ARGS__); } while (0)

/* trace of the running case */
void vp_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* observed-events counters, by name */
void vp_count(const char *name, uint64_t n);
void vp_max(const char *name, uint64_t n);
/* a distinct observed behaviour (hashed) */
void vp_sig(uint64_t hash);
uint64_t vp_hash(uint64_t h, uint64_t v);
uint64_t vp_hash_bytes(uint64_t h, const void *p, size_t n);
void vp_beat(void);                              /* progress inside a long case */
extern int vp_verbose;

/* small shared area between child and parent for a case's own records */
#define VP_NOTE_MAX 65536
extern volatile uint32_t *vp_note_len;
extern unsigned char *vp_note;

/* tracked allocator (alloc.c) */
void *vp_malloc(size_t n);
void vp_free(void *p);
void *vp_realloc(void *p, size_t n);
void *vp_calloc(size_t n, size_t m);
void *vp_memalign(size_t a, size_t n);
size_t vp_live(void);               /* live blocks of the library */
size_t vp_live_bytes(void);
size_t vp_alloc_calls(void);        /* requests so far */
void vp_ledger_reset(void);
void vp_fail_at(long nth, int sticky);/* fail the nth request from now (1 = next); 0 = never */
int vp_fail_fired(void);
unsigned long vp_fail_total(void);    /* failed requests so far */
int vp_is_live(const void *p);      /* p is the start of a live block */
int vp_in_live(const void *p, size_t n);/* [p,p+n) lies inside one live block */
size_t vp_block_size(const void *p);
uint64_t vp_block_serial(const void *p); /* unique number of the live block starting at p (0: none) */
void vp_ledger_dump(void);
void vp_ledger_check(void);         /* canaries of all live blocks */
extern int vp_alloc_fill;           /* fill new memory with garbage (default on) */
#endif
