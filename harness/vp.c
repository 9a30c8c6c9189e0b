#include "vp.h"
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <poll.h>

#define NCTR 160
#define SIGBITS (1u << 22)
#define TRACE 49152
#define NSAMP 3

typedef struct {
    volatile uint64_t cur, beat, started, finished, case_evals;
    volatile uint32_t failed;
    char key[160];
    char msg[2048];
    volatile uint32_t tlen;
    char trace[TRACE];
    struct { char name[56]; volatile uint64_t v; volatile uint32_t used; uint32_t is_max; } c[NCTR];
    volatile uint32_t clock;
    volatile uint64_t nsig;
    volatile uint32_t nsamp;
    struct { uint64_t idx; char text[1600]; } samp[NSAMP];
    volatile uint32_t note_len;
    unsigned char note[VP_NOTE_MAX];
    unsigned char sig[SIGBITS / 8];
} shared_t;

static shared_t *S;
static int out_fd = 1;
static int err_fd = -1;
static int child_pid_self;
static uint64_t g_seed;
int vp_verbose;
volatile uint32_t *vp_note_len;
unsigned char *vp_note;

static uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
vp_rng vp_rng_make(uint64_t seed, uint64_t idx, uint64_t salt) {
    vp_rng r; r.s = mix(mix(seed) ^ mix(idx * 0x9E3779B97F4A7C15ull + 1) ^ (salt * 0xD6E8FEB86659FD93ull)); return r;
}
uint64_t vp_next(vp_rng *r) { r->s += 0x9E3779B97F4A7C15ull; uint64_t x = r->s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
uint32_t vp_below(vp_rng *r, uint32_t n) { return n ? (uint32_t)((vp_next(r) >> 16) % n) : 0; }
int vp_chance(vp_rng *r, int num, int den) { return (int)vp_below(r, (uint32_t)den) < num; }
uint64_t vp_hash(uint64_t h, uint64_t v) { return mix(h ^ (v * 0xff51afd7ed558ccdull)); }
uint64_t vp_hash_bytes(uint64_t h, const void *p, size_t n) {
    const unsigned char *b = p; size_t i; for (i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull; return mix(h ^ n);
}

void vp_sig(uint64_t h) {
    uint32_t b = (uint32_t)(mix(h) & (SIGBITS - 1));
    unsigned char m = (unsigned char)(1u << (b & 7));
    unsigned char old = __atomic_fetch_or(&S->sig[b >> 3], m, __ATOMIC_RELAXED);
    if (!(old & m)) __atomic_fetch_add(&S->nsig, 1, __ATOMIC_RELAXED);
}
static int same(const volatile char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }   /* no interceptor sees this file's own sharing */
static void count(const char *name, uint64_t n, int is_max) {
    unsigned i;
    for (i = 0; i < NCTR; i++) {
        uint32_t u = __atomic_load_n(&S->c[i].used, __ATOMIC_ACQUIRE);
        if (u == 2) {
            if (!same(S->c[i].name, name)) continue;
        } else {
            uint32_t z = 0;
            if (!__atomic_compare_exchange_n(&S->c[i].used, &z, 1, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
                while (__atomic_load_n(&S->c[i].used, __ATOMIC_ACQUIRE) != 2) usleep(1);
                i--; continue;
            }
            { unsigned k; for (k = 0; name[k] && k < sizeof S->c[i].name - 1; k++) ((volatile char *)S->c[i].name)[k] = name[k]; }
            S->c[i].is_max = (uint32_t)is_max;
            __atomic_store_n(&S->c[i].used, 2, __ATOMIC_RELEASE);
        }
        if (is_max) {
            uint64_t o = __atomic_load_n(&S->c[i].v, __ATOMIC_RELAXED);
            while (o < n && !__atomic_compare_exchange_n(&S->c[i].v, &o, n, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
        } else __atomic_fetch_add(&S->c[i].v, n, __ATOMIC_RELAXED);
        return;
    }
}
void vp_count(const char *name, uint64_t n) { count(name, n, 0); }
void vp_max(const char *name, uint64_t n) { count(name, n, 1); }
void vp_beat(void) { __atomic_fetch_add(&S->beat, 1, __ATOMIC_RELAXED); }

void vp_log(const char *fmt, ...) {
    char b[512]; va_list ap; int n;
    va_start(ap, fmt); n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) return;
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (vp_verbose) { dprintf(out_fd, "  | %s\n", b); }
    uint32_t at = __atomic_fetch_add(&S->tlen, (uint32_t)n + 1, __ATOMIC_RELAXED);
    if (at + (uint32_t)n + 2 < TRACE) { int k; for (k = 0; k < n; k++) ((volatile char *)S->trace)[at + (uint32_t)k] = b[k]; S->trace[at + n] = '\n'; }
}
static void set_fail(const char *key, const char *fmt, va_list ap) {
    uint32_t z = 0;
    if (__atomic_compare_exchange_n(&S->failed, &z, 1, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
        snprintf(S->key, sizeof S->key, "%s", key);
        vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    }
}
void vp_fail_parent(const char *key, const char *fmt, ...) { va_list ap; va_start(ap, fmt); set_fail(key, fmt, ap); va_end(ap); }
void vp_fail(const char *key, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); set_fail(key, fmt, ap); va_end(ap);
    _exit(77);
}

static void put_json_str(FILE *f, const char *s, size_t n) {
    size_t i; fputc('"', f);
    for (i = 0; i < n && s[i]; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c == '\t') fputs("\\t", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static size_t read_err(char *buf, size_t max) {
    off_t end; ssize_t n; size_t got = 0;
    if (err_fd < 0) { buf[0] = 0; return 0; }
    end = lseek(err_fd, 0, SEEK_END);
    off_t from = 0; (void)end;
    while (got < max - 1 && (n = pread(err_fd, buf + got, max - 1 - got, from + (off_t)got)) > 0) got += (size_t)n;
    buf[got] = 0;
    return got;
}
static char errbuf[32768];

static void emit_fail(FILE *o, uint64_t idx) {
    fprintf(o, "FAIL {\"idx\":%llu,\"key\":", (unsigned long long)idx);
    put_json_str(o, S->key, sizeof S->key); fputs(",\"msg\":", o);
    put_json_str(o, S->msg, sizeof S->msg); fputs(",\"trace\":", o);
    uint32_t t = S->tlen; if (t > TRACE - 2) t = TRACE - 2;
    S->trace[t] = 0;
    { uint32_t from = t > 12000 ? t - 12000 : 0; put_json_str(o, S->trace + from, t - from); }
    fputs(",\"stderr\":", o);
    size_t n = read_err(errbuf, sizeof errbuf);
    put_json_str(o, errbuf, n > 6000 ? 6000 : n);
    fputs("}\n", o); fflush(o);
}

/* a short name for a sanitizer report */
static void classify(const char *e, char *key, size_t n) {
    const char *p = strstr(e, "SUMMARY: "), *q;
    if (p) {
        char l[400]; size_t i = 0; p += 9;
        while (p[i] && p[i] != '\n' && i < sizeof l - 1) { l[i] = p[i]; i++; } l[i] = 0;
        char tool[64] = "", kind[64] = ""; 
        if (sscanf(l, "%63[^:]: %63s", tool, kind) == 2) {
            q = strstr(l, " in ");
            if (!strcmp(kind, "data")) snprintf(kind, sizeof kind, "data-race");
            if (!strcmp(kind, "undefined-behavior")) {
                const char *r = strstr(e, "runtime error: ");
                if (r) { char rr[60]; size_t k = 0; r += 15;
                    while (r[k] && r[k] != '\n' && k < sizeof rr - 1) { rr[k] = (r[k] == ' ') ? '-' : r[k]; k++; } rr[k] = 0;
                    snprintf(key, n, "ubsan:%.50s", rr); return; }
            }
            snprintf(key, n, "%.20s:%.40s%s%.60s", tool, kind, q ? "@" : "", q ? q + 4 : "");
            return;
        }
    }
    p = strstr(e, "runtime error: ");
    if (p) { char rr[60]; size_t k = 0; p += 15;
        while (p[k] && p[k] != '\n' && k < sizeof rr - 1) { rr[k] = (p[k] == ' ') ? '-' : p[k]; k++; } rr[k] = 0;
        snprintf(key, n, "ubsan:%.60s", rr); return; }
    snprintf(key, n, "unexpected-exit");
}

static void child(uint64_t from, uint64_t to) {
    uint64_t i;
    if (!vp_verbose || vp_cfg.child_output) {
        int z = open("/dev/null", O_RDWR);
        dup2(z, 0);
        if (!vp_verbose || vp_cfg.child_output) dup2(z, 1);
        close(z);
    }
    if (err_fd >= 0) dup2(err_fd, 2);
    { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); }
    if (vp_child_init) vp_child_init();
    for (i = from; i < to; i++) {
        S->cur = i; S->tlen = 0; S->note_len = 0;
        __atomic_fetch_add(&S->beat, 1, __ATOMIC_RELAXED);
        S->started++;
        vp_case(g_seed, i);
        S->finished = i + 1;
        if (S->nsamp < NSAMP && S->tlen > 60 && (i % 7) == 0) {
            uint32_t k = S->nsamp, t = S->tlen; if (t > sizeof S->samp[0].text - 1) t = sizeof S->samp[0].text - 1;
            S->samp[k].idx = i; memcpy(S->samp[k].text, S->trace, t); S->samp[k].text[t] = 0; S->nsamp = k + 1;
        }
    }
    _exit(0);
}

int main(int argc, char **argv) {
    uint64_t from = 0, to = 1, at, evals = 0; int maxfail = 5, nfail = 0, ninconcl = 0, i;
    const char *sigfile = NULL; FILE *o;
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--seed")) g_seed = strtoull(argv[++i], 0, 0);
        else if (!strcmp(argv[i], "--from")) from = strtoull(argv[++i], 0, 0);
        else if (!strcmp(argv[i], "--to")) to = strtoull(argv[++i], 0, 0);
        else if (!strcmp(argv[i], "--sigfile")) sigfile = argv[++i];
        else if (!strcmp(argv[i], "--maxfail")) maxfail = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--verbose")) vp_verbose = 1;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 3; }
    }
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 3; }
    vp_note_len = &S->note_len; vp_note = S->note;
    out_fd = dup(1); fcntl(out_fd, F_SETFD, FD_CLOEXEC);
    o = fdopen(dup(1), "w");
    err_fd = memfd_create("err", MFD_CLOEXEC);
    if (err_fd < 0) { perror("memfd"); return 3; }
    fcntl(err_fd, F_SETFL, O_APPEND);
    at = from;
    uint64_t skipped = 0;
    long deadline = getenv("VP_DEADLINE") ? atol(getenv("VP_DEADLINE")) : 0;
    while (at < to && nfail < maxfail) {
        if (deadline && time(NULL) >= deadline) { skipped = to - at; break; }   /* a slow machine: say what was left out */
        uint64_t end = at + (uint64_t)vp_cfg.batch; int st = 0; int hung = 0, retry = 0;
        if (end > to) end = to;
    again:
        S->failed = 0; S->finished = at; S->tlen = 0; S->cur = at; S->note_len = 0;
        if (ftruncate(err_fd, 0)) {}
        fflush(o);
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 3; }
        if (p == 0) { setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() == 1) _exit(3); child_pid_self = getpid(); child(at, end); }
        uint64_t last = ~0ull; int idle = 0; useconds_t nap = 20;
        hung = 0;
        long long spent = 0;
        for (;;) {
            pid_t w = waitpid(p, &st, WNOHANG);
            if (w == p) break;
            if (w < 0 && errno != EINTR) { perror("waitpid"); return 3; }
            usleep(nap); spent += nap; if (nap < 5000) nap += nap / 2 + 1;
            if (spent > 1000000) {
                spent = 0;
                uint64_t b = S->beat;
                if (b == last) idle++; else { idle = 0; last = b; }
                if (idle > vp_cfg.hang_s * (retry ? 3 : 1)) { hung = 1; kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
            }
        }
        kill(-p, SIGKILL);
        if (hung) {
            uint64_t bad = S->cur;
            if (!retry) { evals += bad > at ? bad - at : 0; at = bad; end = bad + 1; retry = 1; goto again; }
            vp_fail_parent("hang", "no progress for %d s (twice)", vp_cfg.hang_s * 3);
            emit_fail(o, bad); nfail++; evals += 1; break;
        }
        if (retry) { ninconcl++; }
        if (vp_cfg.batch == 1 && vp_judge && !S->failed) {
            size_t n = read_err(errbuf, sizeof errbuf);
            if (vp_judge(at, st, errbuf, n)) {
                evals++;
                if (S->failed) { emit_fail(o, at); nfail++; }
                else if (S->nsamp < NSAMP && S->tlen > 60) {
                    uint32_t k = S->nsamp, t = S->tlen; if (t > sizeof S->samp[0].text - 1) t = sizeof S->samp[0].text - 1;
                    S->samp[k].idx = at; memcpy(S->samp[k].text, S->trace, t); S->samp[k].text[t] = 0; S->nsamp = k + 1;
                }
                at = end; continue;
            }
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !S->failed && S->finished == end) { evals += end - at; at = end; continue; }
        {
            uint64_t bad = S->cur;
            evals += bad - at + 1;
            if (!S->failed) {
                char k[150];
                size_t n = read_err(errbuf, sizeof errbuf); (void)n;
                classify(errbuf, k, sizeof k);
                if (WIFSIGNALED(st)) {
                    char k2[170]; snprintf(k2, sizeof k2, "%s%s%d", strcmp(k, "unexpected-exit") ? k : "", strcmp(k, "unexpected-exit") ? "/signal-" : "signal-", WTERMSIG(st));
                    vp_fail_parent(k2, "killed by signal %d", WTERMSIG(st));
                } else vp_fail_parent(k, "exit status %d before the case ended", WEXITSTATUS(st));
            }
            emit_fail(o, bad); nfail++;
            at = bad + 1;
        }
    }
    fprintf(o, "STATS {\"evaluations\":%llu,\"distinct\":%llu,\"failures\":%d,\"inconclusive\":%d,\"skipped\":%llu,\"counters\":{",
            (unsigned long long)evals, (unsigned long long)S->nsig, nfail, ninconcl, (unsigned long long)skipped);
    { int first = 1; for (i = 0; i < NCTR; i++) if (S->c[i].used == 2) {
        fprintf(o, "%s", first ? "" : ","); first = 0; put_json_str(o, S->c[i].name, sizeof S->c[i].name);
        fprintf(o, ":[%llu,%u]", (unsigned long long)S->c[i].v, S->c[i].is_max); } }
    fputs("},\"samples\":[", o);
    for (i = 0; i < (int)S->nsamp; i++) { fprintf(o, "%s{\"idx\":%llu,\"trace\":", i ? "," : "", (unsigned long long)S->samp[i].idx);
        put_json_str(o, S->samp[i].text, sizeof S->samp[i].text); fputc('}', o); }
    fputs("]}\n", o); fflush(o);
    if (sigfile) { FILE *f = fopen(sigfile, "wb"); if (f) { fwrite(S->sig, 1, sizeof S->sig, f); fclose(f); } }
    return nfail ? 1 : 0;
}
