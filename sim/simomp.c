/* Simulated OpenMP run time.
 *
 * The extension under test is compiled with -fopenmp -fsanitize=thread but linked against this file
 * instead of libgomp/libtsan: every memory access and every OpenMP call is a point where the simulator may
 * stop the running thread and let another go on.  Team members are real threads, parked one at a time;
 * which one runs is decided only by the plan handed over from the seed's tape.
 */
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXT 8
#define MAXPLAN 4096

static int plan_threads = 1, plan_n, plan_i;
static int plan_gap[MAXPLAN], plan_to[MAXPLAN];
static long st_access, st_switch, st_regions, st_maxteam, st_chunks;
static uint64_t st_hash = 1469598103934665603ULL;

static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[MAXT];
static int cv_ready;
static int cur = -1, team, active;
enum { RUN, DONE, BARRIER, LOCK };
static int state[MAXT];
static void *lock_wait[MAXT];
static long gap, steps;
static __thread int tid = -1;

struct loop { long next, end, incr, chunk; int guided, isstatic, users; unsigned gen; };
static struct loop lp[MAXT];
static int loop_no[MAXT], single_no[MAXT], single_taken;
static void *crit_owner[16];
static void *crit_key[16];

void simomp_plan(int threads, int n, const int *gaps, const int *to)
{
    plan_threads = threads < 1 ? 1 : threads > MAXT ? MAXT : threads;
    plan_n = n > MAXPLAN ? MAXPLAN : n;
    plan_i = 0;
    memcpy(plan_gap, gaps, plan_n * sizeof(int));
    memcpy(plan_to, to, plan_n * sizeof(int));
    st_access = st_switch = st_regions = st_maxteam = st_chunks = 0;
    st_hash = 1469598103934665603ULL;
}

void simomp_stats(long *out)
{
    out[0] = st_access; out[1] = st_switch; out[2] = st_regions; out[3] = st_maxteam; out[4] = st_chunks;
    out[5] = (long)(st_hash & 0x7fffffffffffffffULL);
}

static void mix(uint64_t v) { st_hash = (st_hash ^ v) * 1099511628211ULL; }

static void die(const char *m) { fprintf(stderr, "simomp: %s\n", m); abort(); }

static void next_gap(void) { gap = plan_i < plan_n ? plan_gap[plan_i] : 0; }

/* pass the token; called by the thread that holds it */
static void hand(int to)
{
    int me = tid;
    if (to == me) return;
    st_switch++;
    mix((uint64_t)to * 1000003u + (uint64_t)steps);
    pthread_mutex_lock(&mx);
    cur = to;
    pthread_cond_signal(&cv[to]);
    while (cur != me) pthread_cond_wait(&cv[me], &mx);
    pthread_mutex_unlock(&mx);
}

static int pick(int want, int self_ok)
{
    int r[MAXT], n = 0;
    for (int i = 0; i < team; i++)
        if (state[i] == RUN && (self_ok || i != tid)) r[n++] = i;
    if (!n) return -1;
    return r[want % n];
}

static void point(void)
{
    if (tid < 0 || !active) return;
    st_access++;
    if (++steps > 200000000L) die("no progress");
    if (gap && --gap == 0) {
        int to = pick(plan_to[plan_i], 1);
        plan_i++;
        next_gap();
        if (to >= 0) hand(to);
    }
}

/* the running thread cannot go on: run someone else until it can */
static void stop_here(int why)
{
    state[tid] = why;
    int want = plan_i < plan_n ? plan_to[plan_i] : 0;
    int to = pick(want, 0);
    if (to < 0) die("deadlock");
    hand(to);
}

struct start { void (*fn)(void *); void *data; int id; };

static void *member(void *p)
{
    struct start *s = p;
    tid = s->id;
    pthread_mutex_lock(&mx);
    while (cur != tid) pthread_cond_wait(&cv[tid], &mx);
    pthread_mutex_unlock(&mx);
    s->fn(s->data);
    state[tid] = DONE;
    int to = pick(plan_i < plan_n ? plan_to[plan_i] : 0, 0);
    if (to < 0) die("deadlock at the end of a team member");
    pthread_mutex_lock(&mx);
    cur = to;
    pthread_cond_signal(&cv[to]);
    pthread_mutex_unlock(&mx);
    return NULL;
}

static void reset_team(int n)
{
    team = n;
    for (int i = 0; i < MAXT; i++) { state[i] = i < n ? RUN : DONE; loop_no[i] = single_no[i] = 0; }
    memset(lp, 0, sizeof lp);
    single_taken = 0;
    memset(crit_owner, 0, sizeof crit_owner);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nthreads, unsigned flags)
{
    if (active) { /* nested: a team of one */
        fn(data);
        return;
    }
    if (!cv_ready) { for (int i = 0; i < MAXT; i++) pthread_cond_init(&cv[i], NULL); cv_ready = 1; }
    int n = nthreads ? (int)nthreads : plan_threads;
    if (n > MAXT) n = MAXT;
    st_regions++;
    if (n > st_maxteam) st_maxteam = n;
    reset_team(n);
    struct start s[MAXT];
    pthread_t th[MAXT];
    cur = 0; tid = 0;
    steps = 0;
    next_gap();
    for (int i = 1; i < n; i++) {
        s[i].fn = fn; s[i].data = data; s[i].id = i;
        if (pthread_create(&th[i], NULL, member, &s[i])) die("no thread");
    }
    active = 1;
    if (n > 1) { int to = pick(plan_i < plan_n ? plan_to[plan_i] : 0, 1); if (to >= 0) hand(to); }
    fn(data);
    for (;;) {
        int left = 0, to;
        for (int i = 1; i < n; i++) left |= state[i] != DONE;
        if (!left) break;
        to = pick(plan_i < plan_n ? plan_to[plan_i] : 0, 0);
        if (to < 0) die("deadlock at the end of a team");
        hand(to);
    }
    active = 0;
    for (int i = 1; i < n; i++) pthread_join(th[i], NULL);
    tid = -1; cur = -1;
}

bool GOMP_cancellation_point(int w) { return false; }
bool GOMP_cancel(int w, bool b) { return false; }

void GOMP_barrier(void)
{
    point();
    if (tid < 0 || team == 1) return;
    int others = 0;
    for (int i = 0; i < team; i++) if (i != tid && state[i] != BARRIER && state[i] != DONE) others++;
    if (!others) {
        for (int i = 0; i < team; i++) if (state[i] == BARRIER) state[i] = RUN;
        return;
    }
    stop_here(BARRIER);
}
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }

/* ---- loops handed out in chunks */
static bool chunk(long *a, long *b)
{
    int me = tid < 0 ? 0 : tid;
    struct loop *l = &lp[loop_no[me] % MAXT];
    point();
    long left = l->incr > 0 ? l->end - l->next : l->next - l->end;
    long step = l->incr > 0 ? l->incr : -l->incr;
    left = (left + step - 1) / step;
    if (left <= 0) return false;
    long c = l->chunk < 1 ? 1 : l->chunk;
    if (l->guided) { long g = (left + team - 1) / (team ? team : 1); if (g > c) c = g; }
    if (c > left) c = left;
    *a = l->next;
    *b = l->next + c * l->incr;
    l->next = *b;
    st_chunks++;
    return true;
}
static bool start(long s, long e, long i, long c, int guided, long *a, long *b)
{
    int me = tid < 0 ? 0 : tid;
    loop_no[me]++;
    struct loop *l = &lp[loop_no[me] % MAXT];
    if (l->gen != (unsigned)loop_no[me]) {
        l->gen = loop_no[me];
        l->next = s; l->end = e; l->incr = i; l->chunk = c; l->guided = guided;
    }
    if (tid < 0) team = 1;
    return chunk(a, b);
}
#define LOOP(kind, g) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return start(s, e, i, c, g, a, b); } \
    bool GOMP_loop_##kind##_next(long *a, long *b) { return chunk(a, b); }
LOOP(static, 0) LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
#define LOOPR(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) { return start(s, e, i, 1, 0, a, b); } \
    bool GOMP_loop_##kind##_next(long *a, long *b) { return chunk(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }

struct pl { void (*fn)(void *); };
static long pl_s, pl_e, pl_i, pl_c; static int pl_g, pl_on;
static void ploop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, int g, unsigned f)
{
    /* the combined construct enters its loop through *_next only */
    if (active) die("nested combined loop");
    int save = plan_threads;
    pl_s = s; pl_e = e; pl_i = i; pl_c = c; pl_g = g; pl_on = 1;
    (void)save;
    /* GOMP_parallel resets the loops, so seed loop 0 through the team start below */
    extern void simomp_parallel_loop(void (*)(void *), void *, unsigned, unsigned);
    simomp_parallel_loop(fn, d, n, f);
    pl_on = 0;
}
static void (*pl_fn)(void *);
static void pl_body(void *d)
{
    lp[0].gen = 0;
    if (pl_on == 1) { lp[0].next = pl_s; lp[0].end = pl_e; lp[0].incr = pl_i; lp[0].chunk = pl_c; lp[0].guided = pl_g; pl_on = 2; }
    pl_fn(d);
}
void simomp_parallel_loop(void (*fn)(void *), void *d, unsigned n, unsigned f) { pl_fn = fn; GOMP_parallel(pl_body, d, n, f); }
#define PLOOP(kind, g) \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) \
    { ploop(fn, d, n, s, e, i, c, g, f); }
PLOOP(static, 0) PLOOP(dynamic, 0) PLOOP(guided, 1) PLOOP(nonmonotonic_dynamic, 0) PLOOP(nonmonotonic_guided, 1)
#define PLOOPR(kind) \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) \
    { ploop(fn, d, n, s, e, i, 1, 0, f); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

bool GOMP_single_start(void)
{
    point();
    int me = tid < 0 ? 0 : tid;
    single_no[me]++;
    if (single_no[me] > single_taken) { single_taken = single_no[me]; return true; }
    return false;
}

/* ---- mutual exclusion */
static int slot_of(void *key)
{
    for (int i = 0; i < 16; i++) if (crit_key[i] == key) return i;
    for (int i = 0; i < 16; i++) if (!crit_key[i]) { crit_key[i] = key; return i; }
    die("too many critical sections");
    return 0;
}
static void enter(void *key)
{
    point();
    if (tid < 0) return;
    int k = slot_of(key);
    while (crit_owner[k]) { lock_wait[tid] = key; stop_here(LOCK); }
    crit_owner[k] = (void *)(intptr_t)(tid + 1);
}
static void leave(void *key)
{
    if (tid < 0) return;
    crit_owner[slot_of(key)] = 0;
    for (int i = 0; i < team; i++) if (state[i] == LOCK && lock_wait[i] == key) state[i] = RUN;
    point();
}
static char anon, atom;
void GOMP_critical_start(void) { enter(&anon); }
void GOMP_critical_end(void) { leave(&anon); }
void GOMP_critical_name_start(void **p) { enter(p); }
void GOMP_critical_name_end(void **p) { leave(p); }
void GOMP_atomic_start(void) { enter(&atom); }
void GOMP_atomic_end(void) { leave(&atom); }
void GOMP_ordered_start(void) { die("ordered loops are not simulated"); }
void GOMP_ordered_end(void) {}
void GOMP_taskwait(void) {}
void GOMP_flush(void) {}

int omp_get_thread_num(void) { return tid < 0 ? 0 : tid; }
int omp_get_num_threads(void) { return tid < 0 ? 1 : team; }
int omp_get_max_threads(void) { return plan_threads; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return active && team > 1; }
int omp_get_level(void) { return active; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_num_threads(int n) { if (n > 0) plan_threads = n > MAXT ? MAXT : n; }
void omp_set_dynamic(int d) {}
void omp_set_nested(int d) {}
void omp_set_schedule(int k, int c) {}
double omp_get_wtime(void) { return 1e-9 * st_access; }
void omp_init_lock(void **l) { *l = l; }
void omp_destroy_lock(void **l) {}
void omp_set_lock(void **l) { enter(l); }
void omp_unset_lock(void **l) { leave(l); }

/* ---- memory access hooks emitted by -fsanitize=thread */
#define RW(n) \
    void __tsan_read##n(void *p) { point(); } \
    void __tsan_write##n(void *p) { point(); } \
    void __tsan_unaligned_read##n(void *p) { point(); } \
    void __tsan_unaligned_write##n(void *p) { point(); } \
    void __tsan_volatile_read##n(void *p) { point(); } \
    void __tsan_volatile_write##n(void *p) { point(); } \
    void __tsan_unaligned_volatile_read##n(void *p) { point(); } \
    void __tsan_unaligned_volatile_write##n(void *p) { point(); } \
    void __tsan_read_write##n(void *p) { point(); } \
    void __tsan_unaligned_read_write##n(void *p) { point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { point(); }
void __tsan_write_range(void *p, unsigned long n) { point(); }
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void *a, void *b) {}
void __tsan_vptr_read(void *a) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_atomic_thread_fence(int mo) { point(); }
void __tsan_atomic_signal_fence(int mo) {}

#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int mo) { point(); return *a; } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { point(); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { point(); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { point(); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { point(); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { point(); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { point(); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { point(); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { point(); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int f) \
    { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) \
    { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f) \
    { point(); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
