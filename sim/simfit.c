/* Simulated process around the C bath-fit library.
 *
 * The library's objects are compiled with -fsanitize=thread and linked against this file: every memory access is a
 * scheduling point and is checked (out of bounds, freed, uninitialised, null), the heap is a private arena that can
 * refuse an allocation, mutexes belong to simulated threads, and exit() ends the simulated process only.
 * Callers are real threads, parked one at a time; the plan drawn from the seed's tape says who runs.
 */
#define _GNU_SOURCE
#include <complex.h>
#include <errno.h>
#include <pthread.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#define MAXT 8
#define MAXPLAN 4096
#define ARENA (512UL << 20)

void fit(double x[], int *iter, double *fret, int nbath, int nmats, double complex *vals, double beta);
extern void fit_init(double x[], int nbath) __attribute__((weak));

struct call { int kind, nbath, nmats, status; double *x, *vals, *fret; int *iter; double beta; long accesses; };
struct mtx { void *key; int owner, depth; };

enum { RUN, DONE, LOCK };
struct state {
    int ready;
    /* plan */
    int plan_n, plan_i, plan_gap[MAXPLAN], plan_to[MAXPLAN];
    long fail_at, fail_n, allocs, max_steps;
    int garbage;
    /* scheduler */
    pthread_mutex_t mx;
    pthread_cond_t cv[MAXT];
    int cur, team, active, st[MAXT];
    void *wait[MAXT];
    long gap, steps, switches;
    uint64_t hash;
    jmp_buf back[MAXT];
    int ncalls[MAXT];
    struct call *calls[MAXT];
    struct mtx m[32];
    int nm;
    /* outcome */
    int dead;            /* 1: exit() called, 2: violation, 3: gap in the simulator */
    int code;
    char msg[400];
    char err[400];       /* what the library wrote to stderr */
    long contended, failed;
    /* heap */
    char *arena;
    unsigned char *shadow;     /* per 8 bytes: 0 none, 1 allocated, 2 allocated and written, 3 freed */
    size_t top;
    struct { size_t off, size; int freed, byuser, next; } *blk;
    int qhead[4096], qtail[4096], qlen[4096];   /* freed blocks by size, oldest first */
    int nblk, maxblk;
    /* library data as loaded */
    char *data0, *bss0;
};
static struct state *S;
static __thread int tid = -1;

char simfit_data_begin[8] = "begin";
extern char _edata[], __bss_start[], _end[];

void *__real_malloc(size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void __real_exit(int) __attribute__((noreturn));

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
static void mix(uint64_t v) { S->hash = (S->hash ^ v) * 1099511628211ULL; }

static void setup(void)
{
    struct state *s = __real_calloc(1, sizeof *s);
    s->arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    s->shadow = mmap(0, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    s->maxblk = 400000;
    s->blk = __real_calloc(s->maxblk, sizeof *s->blk);
    __real_pthread_mutex_init(&s->mx, 0);
    for (int i = 0; i < MAXT; i++) pthread_cond_init(&s->cv[i], 0);
    s->data0 = __real_malloc(_edata - simfit_data_begin + 1);
    s->bss0 = __real_malloc(_end - __bss_start + 1);
    s->ready = 1;
    S = s;
    __real_memcpy(s->data0, simfit_data_begin, _edata - simfit_data_begin);
    __real_memcpy(s->bss0, __bss_start, _end - __bss_start);
}

static void fresh_heap(void)
{
    __real_memset(S->shadow, 0, S->top / 8 + 64);
    S->top = 256;
    S->nblk = 0;
    __real_memset(S->qhead, 255, sizeof S->qhead);
    __real_memset(S->qlen, 0, sizeof S->qlen);
}

/* a fresh simulated process: the library's static data as loaded, an empty heap */
void simfit_reset(int garbage)
{
    if (!S) setup();
    struct state *s = S;
    __real_memcpy(simfit_data_begin, s->data0, _edata - simfit_data_begin);
    __real_memcpy(__bss_start, s->bss0, _end - __bss_start);
    S = s;
    fresh_heap();
    S->garbage = garbage;
    S->dead = S->code = 0;
    S->msg[0] = S->err[0] = 0;
    S->nm = 0;
    S->allocs = S->fail_at = S->fail_n = S->failed = S->contended = 0;
    S->switches = 0;
    S->steps = 0;
    S->hash = 1469598103934665603ULL;
    S->max_steps = 400000000L;
}

static void unwind(void)
{
    if (tid >= 0) longjmp(S->back[tid], 1);
}

static void fault(int kind, const char *fmt, ...)
{
    if (!S->dead) {
        va_list a;
        va_start(a, fmt);
        vsnprintf(S->msg, sizeof S->msg, fmt, a);
        va_end(a);
        S->dead = kind;
    }
    unwind();
}

/* ------------------------------------------------------------------ scheduling */
static void hand(int to)
{
    int me = tid;
    if (to != me) {
        S->switches++;
        mix((uint64_t)to * 1000003u + (uint64_t)S->steps);
        __real_pthread_mutex_lock(&S->mx);
        S->cur = to;
        pthread_cond_signal(&S->cv[to]);
        while (S->cur != me) pthread_cond_wait(&S->cv[me], &S->mx);
        __real_pthread_mutex_unlock(&S->mx);
    }
    if (S->dead) unwind();
}

static int pick(int want, int self_ok)
{
    int r[MAXT], n = 0;
    for (int i = 0; i < S->team; i++)
        if (S->st[i] == RUN && (self_ok || i != tid)) r[n++] = i;
    return n ? r[want % n] : -1;
}

static int want(void) { return S->plan_i < S->plan_n ? S->plan_to[S->plan_i] : 0; }

static void point(void)
{
    if (tid < 0) return;
    if (++S->steps > S->max_steps) fault(2, "no-progress|more than %ld accesses", S->max_steps);
    if (S->gap && --S->gap == 0) {
        int to = pick(want(), 1);
        S->plan_i++;
        S->gap = S->plan_i < S->plan_n ? S->plan_gap[S->plan_i] : 0;
        if (to >= 0) hand(to);
    }
}

static void check(void *p, int size, int write)
{
    if (S) {
        if ((uintptr_t)p < 65536) fault(2, "null-access|%s at address %p", write ? "write" : "read", p);
        if ((char *)p >= S->arena && (char *)p < S->arena + ARENA) {
            size_t g0 = ((char *)p - S->arena) >> 3, g1 = ((char *)p - S->arena + size - 1) >> 3;
            for (size_t g = g0; g <= g1; g++) {
                unsigned char c = S->shadow[g];
                if (c == 0) fault(2, "out-of-bounds|%s of %d bytes outside every block", write ? "write" : "read", size);
                else if (c == 3) fault(2, "use-after-free|%s of %d bytes", write ? "write" : "read", size);
                else if (c == 1 && !write) fault(2, "uninitialised-read|%d bytes", size);
                else if (write) S->shadow[g] = 2;
            }
        }
    }
    point();
}

/* ------------------------------------------------------------------ heap */
static void *get(size_t n, int written)
{
    size_t g = (n + 7) / 8;
    int reuse = g < 4096 && S->qlen[g] > 100 ? S->qhead[g] : -1;
    if (reuse >= 0) {
        S->qhead[g] = S->blk[reuse].next;
        S->qlen[g]--;
    } else if (S->top + g * 8 + 128 > ARENA || S->nblk >= S->maxblk) { fault(3, "arena full"); return 0; }
    int i = reuse;
    if (i < 0) {
        i = S->nblk++;
        S->blk[i].off = S->top;
        S->top += g * 8 + 64;
        S->top = (S->top + 15) & ~15UL;
        *(long *)(S->arena + S->blk[i].off - 8) = i;
    }
    size_t off = S->blk[i].off;
    __real_memset(S->shadow + off / 8, written ? 2 : 1, g ? g : 0);
    char *p = S->arena + off;
    double *d = (double *)p;
    double fill[3] = { __builtin_nan(""), 1e300, -0.75 };
    if (!written) for (size_t k = 0; k < g; k++) d[k] = fill[S->garbage % 3];
    S->blk[i].size = n; S->blk[i].freed = 0; S->blk[i].byuser = 0;
    return p;
}

static int find(void *p)
{
    if ((char *)p < S->arena + 256 || (char *)p >= S->arena + S->top) return -1;
    long i = ((uintptr_t)p & 15) ? -1 : *(long *)((char *)p - 8);
    return i >= 0 && i < S->nblk && S->arena + S->blk[i].off == (char *)p ? (int)i : -1;
}

void *simfit_alloc(size_t n) { void *p = get(n, 1); S->blk[find(p)].byuser = 1; return p; }

void *__wrap_malloc(size_t n)
{
    if (!S || tid < 0) { if (!S) return __real_malloc(n); return get(n, 0); }
    point();
    S->allocs++;
    if (S->fail_at && S->allocs >= S->fail_at && (!S->fail_n || S->allocs < S->fail_at + S->fail_n)) { S->failed++; errno = ENOMEM; return 0; }
    return get(n, 0);
}
void *__wrap_calloc(size_t a, size_t b)
{
    void *p = __wrap_malloc(a * b);
    if (p && S && (char *)p >= S->arena && (char *)p < S->arena + ARENA) {
        __real_memset(p, 0, a * b);
        __real_memset(S->shadow + ((char *)p - S->arena) / 8, 2, (a * b + 7) / 8);
    }
    return p;
}
static int ours(void *p) { return S && (char *)p >= S->arena && (char *)p < S->arena + ARENA; }
void __wrap_free(void *p)
{
    if (!p) return;
    if (!ours(p)) { if (tid >= 0) fault(2, "bad-free|%p is not a heap block", p); else __real_free(p); return; }
    point();
    int i = find(p);
    if (i < 0) { fault(2, "bad-free|pointer into the middle of nothing"); return; }
    if (S->blk[i].byuser) { fault(2, "bad-free|caller's array freed"); return; }
    if (S->blk[i].freed) { fault(2, "double-free|block of %zu bytes", S->blk[i].size); return; }
    S->blk[i].freed = 1;
    size_t g = (S->blk[i].size + 7) / 8;
    if (g < 4096) {
        if (S->qlen[g]++) S->blk[S->qtail[g]].next = i; else S->qhead[g] = i;
        S->qtail[g] = i;
    }
    __real_memset(S->shadow + S->blk[i].off / 8, 3, (S->blk[i].size + 7) / 8);
}
void *__wrap_realloc(void *p, size_t n)
{
    if (!p) return __wrap_malloc(n);
    if (!ours(p)) return __real_realloc(p, n);
    int i = find(p);
    void *q = __wrap_malloc(n);
    if (!q || i < 0) return q;
    size_t k = S->blk[i].size < n ? S->blk[i].size : n;
    __real_memcpy(q, p, k);
    __real_memcpy(S->shadow + ((char *)q - S->arena) / 8, S->shadow + S->blk[i].off / 8, (k + 7) / 8);
    __wrap_free(p);
    return q;
}
int __wrap_posix_memalign(void **o, size_t a, size_t n) { *o = __wrap_malloc(n); return *o ? 0 : ENOMEM; }
void *__wrap_aligned_alloc(size_t a, size_t n) { return __wrap_malloc(n); }

/* copying moves the written/unwritten marks along */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
static int inarena(const void *p) { return S && (char *)p >= S->arena && (char *)p < S->arena + ARENA; }
static void range(const void *p, size_t n, const char *what)
{
    if (tid >= 0) {
        if (n && (uintptr_t)p < 65536) fault(2, "null-access|%s at address %p", what, p);
        if (n && inarena(p))
            for (size_t g = ((char *)p - S->arena) >> 3; g <= (size_t)((char *)p - S->arena + n - 1) >> 3; g++) {
                if (S->shadow[g] == 0) fault(2, "out-of-bounds|%s of %zu bytes", what, n);
                if (S->shadow[g] == 3) fault(2, "use-after-free|%s of %zu bytes", what, n);
            }
        point();
    }
}
static void marks(void *d, const void *s, size_t n)
{
    if (tid < 0 || !n || !inarena(d)) return;
    size_t a = ((char *)d - S->arena) >> 3, k = (n + 7) / 8;
    if (s && inarena(s)) __real_memmove(S->shadow + a, S->shadow + (((char *)s - S->arena) >> 3), k);
    else __real_memset(S->shadow + a, 2, k);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { range(s, n, "copy from"); range(d, n, "copy to"); __real_memcpy(d, s, n); marks(d, s, n); return d; }
void *__wrap_memmove(void *d, const void *s, size_t n) { range(s, n, "copy from"); range(d, n, "copy to"); __real_memmove(d, s, n); marks(d, s, n); return d; }
void *__wrap_memset(void *d, int c, size_t n) { range(d, n, "fill"); __real_memset(d, c, n); marks(d, 0, n); return d; }

/* ------------------------------------------------------------------ process end, output */
void __wrap_exit(int code)
{
    if (tid < 0) __real_exit(code);
    if (!S->dead) { S->dead = 1; S->code = code; snprintf(S->msg, sizeof S->msg, "exit(%d)", code); }
    unwind();
    __builtin_unreachable();
}
void __wrap_abort(void)
{
    if (tid < 0) __real_exit(134);
    fault(2, "abort|the library aborted");
    __builtin_unreachable();
}
static void note(FILE *f, const char *fmt, va_list a)
{
    if (f == stderr && S) {
        size_t n = strlen(S->err);
        vsnprintf(S->err + n, sizeof S->err - n, fmt, a);
    }
}
int __wrap_printf(const char *f, ...) { point(); return 0; }
int __wrap_fprintf(FILE *o, const char *f, ...) { va_list a; va_start(a, f); note(o, f, a); va_end(a); return 0; }
int __wrap_vfprintf(FILE *o, const char *f, va_list a) { note(o, f, a); return 0; }
int __wrap_puts(const char *s) { return 0; }
int __wrap_putchar(int c) { return c; }
int __wrap_fputc(int c, FILE *o) { return c; }
int __wrap_fputs(const char *s, FILE *o) { if (o == stderr && S) strncat(S->err, s, sizeof S->err - strlen(S->err) - 1); return 0; }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *o)
{ if (o == stderr && S) strncat(S->err, (const char *)p, sizeof S->err - strlen(S->err) - 1); return b; }
void __wrap_perror(const char *s) {}

/* ------------------------------------------------------------------ locks */
static struct mtx *mtx(void *k)
{
    for (int i = 0; i < S->nm; i++) if (S->m[i].key == k) return &S->m[i];
    if (S->nm == 32) { fault(3, "too many mutexes"); return &S->m[0]; }
    S->m[S->nm].key = k; S->m[S->nm].owner = -1; S->m[S->nm].depth = 0;
    return &S->m[S->nm++];
}
static int lock(void *k, int recursive, int try)
{
    if (!S || tid < 0) return 0;
    point();
    struct mtx *m = mtx(k);
    while (m->depth) {
        if (m->owner == tid && recursive) break;
        if (try) return EBUSY;
        if (m->owner == tid) { fault(2, "deadlock|a caller waits for the lock it holds"); return 0; }
        S->contended++;
        S->st[tid] = LOCK; S->wait[tid] = k;
        int to = pick(want(), 0);
        if (to < 0) { fault(2, "deadlock|every caller waits for a lock"); return 0; }
        hand(to);
    }
    m->owner = tid; m->depth++;
    return 0;
}
static int unlock(void *k)
{
    if (!S || tid < 0) return 0;
    struct mtx *m = mtx(k);
    if (!m->depth || m->owner != tid) { fault(2, "bad-unlock|a caller released a lock it does not hold"); return EPERM; }
    if (!--m->depth) {
        m->owner = -1;
        for (int i = 0; i < S->team; i++) if (S->st[i] == LOCK && S->wait[i] == k) S->st[i] = RUN;
    }
    point();
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return lock(m, (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP, 0); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return lock(m, (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP, 1); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return unlock(m); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    int t = PTHREAD_MUTEX_DEFAULT;
    if (a) pthread_mutexattr_gettype(a, &t);
    __real_memset(m, 0, sizeof *m);
    m->__data.__kind = t;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int __wrap_mtx_lock(void *m) { return lock(m, 0, 0); }
int __wrap_mtx_trylock(void *m) { return lock(m, 0, 1); }
int __wrap_mtx_unlock(void *m) { return unlock(m); }
int __wrap_mtx_init(void *m, int t) { return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
    point();
    lock(o, 0, 0);
    if (*(int *)o != 2) { f(); *(int *)o = 2; }
    unlock(o);
    return 0;
}
void __wrap_call_once(void *o, void (*f)(void)) { __wrap_pthread_once(o, f); }
int __wrap_usleep(unsigned u) { if (tid >= 0 && S->team > 1) { int to = pick(want(), 0); if (to >= 0) hand(to); } return 0; }
int __wrap_sched_yield(void) { return __wrap_usleep(0); }

/* ------------------------------------------------------------------ callers */
static void body(int k)
{
    if (!setjmp(S->back[k])) {
        for (int i = 0; i < S->ncalls[k]; i++) {
            struct call *c = &S->calls[k][i];
            long a0 = S->steps;
            point();
            if (c->kind == 0) fit(c->x, c->iter, c->fret, c->nbath, c->nmats, (double complex *)c->vals, c->beta);
            else if (fit_init) fit_init(c->x, c->nbath);
            c->status = 1;
            c->accesses = S->steps - a0;
        }
    }
    S->st[k] = DONE;
    if (S->dead) for (int i = 0; i < S->team; i++) if (S->st[i] == LOCK) S->st[i] = RUN;
}

static void *member(void *p)
{
    tid = (int)(intptr_t)p;
    __real_pthread_mutex_lock(&S->mx);
    while (S->cur != tid) pthread_cond_wait(&S->cv[tid], &S->mx);
    __real_pthread_mutex_unlock(&S->mx);
    if (S->dead) S->st[tid] = DONE; else body(tid);
    int to = pick(want(), 0);
    if (to < 0) {
        for (int i = 0; i < S->team; i++) if (S->st[i] == LOCK) to = i;
        if (to >= 0 && !S->dead) { S->dead = 2; snprintf(S->msg, sizeof S->msg, "deadlock|a finished caller still holds a lock"); }
        if (to >= 0) S->st[to] = RUN;
    }
    __real_pthread_mutex_lock(&S->mx);
    S->cur = to;       /* -1: all done */
    if (to >= 0) pthread_cond_signal(&S->cv[to]);
    __real_pthread_mutex_unlock(&S->mx);
    return 0;
}

int simfit_run(int n, const int *ncalls, struct call **calls, int np, const int *gaps, const int *to, long fail_at, long fail_n, int first)
{
    pthread_t th[MAXT];
    S->team = n;
    S->plan_n = np > MAXPLAN ? MAXPLAN : np;
    S->plan_i = 0;
    __real_memcpy(S->plan_gap, gaps, S->plan_n * sizeof(int));
    __real_memcpy(S->plan_to, to, S->plan_n * sizeof(int));
    S->gap = S->plan_n ? S->plan_gap[0] : 0;
    S->fail_at = fail_at;
    S->fail_n = fail_n;
    S->cur = -2;
    for (int i = 0; i < n; i++) { S->st[i] = RUN; S->ncalls[i] = ncalls[i]; S->calls[i] = calls[i]; }
    for (int i = 0; i < n; i++) if (pthread_create(&th[i], 0, member, (void *)(intptr_t)i)) { S->dead = 3; snprintf(S->msg, 300, "no thread"); return 3; }
    __real_pthread_mutex_lock(&S->mx);
    S->cur = first % n;
    pthread_cond_signal(&S->cv[S->cur]);
    __real_pthread_mutex_unlock(&S->mx);
    for (int i = 0; i < n; i++) pthread_join(th[i], 0);
    return S->dead;
}

/* one call made from the host's own thread (through a wrapper), with the host's arrays */
int simfit_call(struct call *c)
{
    S->team = 1; S->plan_n = S->plan_i = 0; S->gap = 0; S->cur = 0;
    S->st[0] = RUN; S->ncalls[0] = 1; S->calls[0] = c;
    tid = 0;
    body(0);
    tid = -1;
    return S->dead;
}

/* out: switches, accesses, allocations, live blocks of the library, contended, failed, code, hash, held locks */
void simfit_stats(long *out, char *msg, char *err)
{
    int live = 0, held = 0;
    for (int i = 0; i < S->nblk; i++) live += !S->blk[i].freed && !S->blk[i].byuser;
    for (int i = 0; i < S->nm; i++) held += S->m[i].depth > 0;
    out[0] = S->switches; out[1] = S->steps; out[2] = S->allocs; out[3] = live; out[4] = S->contended; out[5] = S->failed;
    out[6] = S->code; out[7] = (long)(S->hash & 0x7fffffffffffffffULL); out[8] = held;
    strcpy(msg, S->msg);
    strcpy(err, S->err);
}

/* ---- memory access hooks emitted by -fsanitize=thread */
#define RW(n) \
    void __tsan_read##n(void *p) { check(p, n, 0); } \
    void __tsan_write##n(void *p) { check(p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { check(p, n, 0); } \
    void __tsan_unaligned_write##n(void *p) { check(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { check(p, n, 0); } \
    void __tsan_volatile_write##n(void *p) { check(p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { check(p, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { check(p, n, 1); } \
    void __tsan_read_write##n(void *p) { check(p, n, 0); check(p, n, 1); } \
    void __tsan_unaligned_read_write##n(void *p) { check(p, n, 0); check(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { check(p, n, 0); }
void __tsan_write_range(void *p, unsigned long n) { check(p, n, 1); }
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_atomic_thread_fence(int mo) { point(); }
void __tsan_atomic_signal_fence(int mo) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }

#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int mo) { point(); return *a; } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { point(); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { point(); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { point(); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { point(); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { point(); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { point(); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { point(); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int f) \
    { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) \
    { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f) \
    { point(); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
