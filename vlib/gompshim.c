/* Replacement of the OpenMP runtime entry points that gcc emits, on plain
   pthreads, so that ThreadSanitizer knows every synchronisation exactly
   (threads mode), and, compiled with -DLOGRT, a scheduler that runs one thread
   at a time, switches threads at seeded random memory accesses, and judges
   every access of the instrumented module: conflicting accesses of two threads
   without a common lock or a barrier between them are races. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define MAXT 256
typedef struct team {
    int n;
    void (*fn)(void *);
    void *data;
    pthread_barrier_t bar;
    /* worksharing loops */
    pthread_mutex_t lk;
    long next[64], end[64], incr[64], chunk[64];
    int kind[64], inited[64], arrived_single;
    /* baton */
    int current, alive, waiting;
    char done[MAXT], atbar[MAXT];
    int epoch[MAXT];
} team;

static __thread team *my;
static __thread int me = -1;
static __thread int loopno;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static long n_regions, n_threads, n_switch, n_access, n_race, n_crit, n_loops, n_bar;
static uint64_t seed = 88172645463325252ULL, ihash;
static int delays;
static __thread uint64_t tseed;

static uint64_t rnd(uint64_t *s) { uint64_t x = *s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return *s = x; }

void shim_seed(uint64_t s, int d) { seed = s*2654435761ULL + 88172645463325252ULL; if (!seed) seed = 1; delays = d; ihash = 1469598103934665603ULL; }
long shim_get(int k) {
    long *v[] = {&n_regions, &n_threads, &n_switch, &n_access, &n_race, &n_crit, &n_loops, &n_bar};
    return k == 100 ? (long)(ihash & 0x7fffffffffffffffULL) : *v[k];
}

#ifdef LOGRT
/* ------------------------------------------------ one thread at a time */
static pthread_mutex_t bm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t bc = PTHREAD_COND_INITIALIZER;
static void *lockheld[MAXT];
static team *active;
static int switch_mean = 200;

static void pick(team *t) {            /* bm held; choose the next thread */
    int cand[MAXT], k = 0;
    for (int i = 0; i < t->n; i++) if (!t->done[i] && !t->atbar[i]) cand[k++] = i;
    if (!k) {                           /* everybody waits at the barrier */
        for (int i = 0; i < t->n; i++) { if (t->atbar[i]) { t->atbar[i] = 0; t->epoch[i]++; if (!t->done[i]) cand[k++] = i; } }
        n_bar++;
    }
    if (!k) { t->current = -1; }
    else { t->current = cand[rnd(&seed) % k]; ihash = (ihash ^ (uint64_t)(t->current + 1)) * 1099511628211ULL; }
    pthread_cond_broadcast(&bc);
}
static void waitturn(void) { while (my->current != me) pthread_cond_wait(&bc, &bm); }
static void yieldto(void) { n_switch++; ihash = (ihash ^ (uint64_t)n_access) * 1099511628211ULL; pick(my); waitturn(); }

/* ---------------------------------------------------------- access log */
typedef struct { uintptr_t a; int region, wepoch, wtid, rtid, repoch; void *wlock, *rlock; } rec;
#define NREC (1 << 22)
static rec *tab;
static char report[8192];
const char *shim_report(void) { return report; }
static rec *look(uintptr_t a, int create) {
    if (!tab) tab = calloc(NREC, sizeof(rec));
    uint64_t h = (a*0x9E3779B97F4A7C15ULL) >> 42;
    for (int i = 0; i < NREC; i++, h = (h + 1) & (NREC - 1)) {
        if (tab[h].a == a) return &tab[h];
        if (!tab[h].a) { if (!create) return NULL; tab[h].a = a; tab[h].region = -1; tab[h].wtid = tab[h].rtid = -1; return &tab[h]; }
    }
    return NULL;
}
static long used;
void shim_clear(void) { if (tab) memset(tab, 0, NREC*sizeof(rec)); used = 0; report[0] = 0; }
static void race(const char *what, uintptr_t a, int t1, int t2, void *pc) {
    n_race++;
    size_t l = strlen(report);
    if (l < sizeof(report) - 200)
        snprintf(report + l, sizeof(report) - l, "%s at %lx by threads %d and %d (pc %p); ", what, (long)a, t1, t2, pc);
}
static void access1(uintptr_t a, int write, void *pc) {
    rec *r = look(a, 1);
    if (!r) return;
    if (r->region != (int)n_regions) { r->region = (int)n_regions; r->wtid = r->rtid = -1; }
    int e = my->epoch[me];
    void *lk = lockheld[me];
    if (r->wtid >= 0 && r->wtid != me && r->wepoch == e && !(lk && r->wlock == lk))
        race(write ? "write after write" : "read after write", a, r->wtid, me, pc);
    if (write) {
        if (r->rtid != -1 && r->rtid != me && r->repoch == e && !(lk && r->rlock == lk))
            race("write after read", a, r->rtid, me, pc);
        r->wtid = me; r->wepoch = e; r->wlock = lk;
    } else {
        if (r->rtid == -1 || r->repoch != e) { r->rtid = me; r->rlock = lk; }
        else if (r->rtid != me) { r->rtid = -2; if (r->rlock != lk) r->rlock = NULL; }
        r->repoch = e;
    }
}
static void hook(void *p, int n, int write, void *pc) {
    if (!my || me < 0) return;
    uintptr_t a = (uintptr_t)p;
    n_access++;
    for (uintptr_t w = a >> 3; w <= (a + n - 1) >> 3; w++) access1(w, write, pc);
    if (rnd(&tseed) % switch_mean == 0) { pthread_mutex_lock(&bm); yieldto(); pthread_mutex_unlock(&bm); }
}
/* thread that wrote each of n doubles from p in the last region: -1 nobody */
void shim_writers(uintptr_t p, int n, int *out) {
    for (int i = 0; i < n; i++) {
        rec *r = tab ? look((p + 8*(uintptr_t)i) >> 3, 0) : NULL;
        out[i] = r && r->region >= 0 ? r->wtid : -1;
    }
}
#define RW(N) \
  void __tsan_read##N(void *p) { hook(p, N, 0, __builtin_return_address(0)); } \
  void __tsan_write##N(void *p) { hook(p, N, 1, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##N(void *p) { hook(p, N, 0, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##N(void *p) { hook(p, N, 1, __builtin_return_address(0)); } \
  void __tsan_volatile_read##N(void *p) {} \
  void __tsan_volatile_write##N(void *p) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { if (n > 0) hook(p, n, 0, __builtin_return_address(0)); }
void __tsan_write_range(void *p, long n) { if (n > 0) hook(p, n, 1, __builtin_return_address(0)); }
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_read(void **p) {}
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_atomic_thread_fence(int o) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int o) {}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int o) { return __atomic_load_n(a, 5); } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int o) { __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int o) { return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int o) { return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int o) { return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int o) { return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int o) { return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int o) { return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

/* memory freed in a region is not reused before the region ends */
extern void __libc_free(void *);
static void *deferred[1 << 16];
static int ndef;
void free(void *p) {
    if (p && my && me >= 0 && ndef < (1 << 16)) { int k = __sync_fetch_and_add(&ndef, 1); if (k < (1 << 16)) { deferred[k] = p; return; } }
    __libc_free(p);
}
#endif

static void dally(void) {
    if (delays) { struct timespec ts = {0, (long)(rnd(&tseed) % 50000)}; nanosleep(&ts, NULL); }
}

static void *runner(void *arg) {
    void **v = arg;
    my = v[0];
    me = (int)(intptr_t)v[1];
    loopno = 0;
    tseed = (uint64_t)(uintptr_t)v[2] | 1;
    rnd(&tseed); rnd(&tseed);
#ifdef LOGRT
    pthread_mutex_lock(&bm); waitturn(); pthread_mutex_unlock(&bm);
#else
    dally();
#endif
    my->fn(my->data);
#ifdef LOGRT
    int idx = me;
    team *t = my;
    pthread_mutex_lock(&bm);
    t->done[idx] = 1;
    pick(t);
    pthread_mutex_unlock(&bm);
#endif
    me = -1;
    my = NULL;
    return NULL;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    if (n == 0) n = 4;
    if (n > MAXT) n = MAXT;
    __atomic_add_fetch(&n_regions, 1, __ATOMIC_RELAXED);
    if (my) {                          /* nested: a team of one */
        team *o = my; int om = me;
        team one; memset(&one, 0, sizeof one); one.n = 1; pthread_mutex_init(&one.lk, NULL);
        pthread_barrier_init(&one.bar, NULL, 1);
        my = &one; me = 0; fn(data); my = o; me = om;
        return;
    }
    __atomic_add_fetch(&n_threads, n, __ATOMIC_RELAXED);
    team t;
    memset(&t, 0, sizeof t);
    t.n = (int)n; t.fn = fn; t.data = data;
    pthread_mutex_init(&t.lk, NULL);
    pthread_barrier_init(&t.bar, NULL, n);
    pthread_t th[MAXT];
    void *args[MAXT][3];
    uint64_t s;
#ifdef LOGRT
    pthread_mutex_lock(&bm);
    active = &t;
    t.current = -1;
    memset(lockheld, 0, sizeof lockheld);
    s = rnd(&seed);
    switch_mean = 3 << (rnd(&seed) % 12);
    pthread_mutex_unlock(&bm);
#else
    static pthread_mutex_t sm = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_lock(&sm); s = rnd(&seed); pthread_mutex_unlock(&sm);
#endif
    for (unsigned i = 0; i < n; i++) {
        args[i][0] = &t; args[i][1] = (void *)(intptr_t)i; args[i][2] = (void *)(uintptr_t)(s + i*0x9E3779B97F4A7C15ULL);
        if (pthread_create(&th[i], NULL, runner, args[i])) { fprintf(stderr, "shim: no thread\n"); _exit(70); }
    }
#ifdef LOGRT
    pthread_mutex_lock(&bm); pick(&t); pthread_mutex_unlock(&bm);
#endif
    for (unsigned i = 0; i < n; i++) pthread_join(th[i], NULL);
#ifdef LOGRT
    int nd = ndef < (1 << 16) ? ndef : (1 << 16);
    ndef = 0;
    for (int i = 0; i < nd; i++) __libc_free(deferred[i]);
#endif
    pthread_barrier_destroy(&t.bar);
    pthread_mutex_destroy(&t.lk);
}

void GOMP_barrier(void) {
    if (!my) return;
#ifdef LOGRT
    pthread_mutex_lock(&bm);
    my->atbar[me] = 1;
    pick(my);
    waitturn();
    pthread_mutex_unlock(&bm);
#else
    __atomic_add_fetch(&n_bar, 1, __ATOMIC_RELAXED);
    pthread_barrier_wait(&my->bar);
#endif
}

static void lock(void *which) {
    __atomic_add_fetch(&n_crit, 1, __ATOMIC_RELAXED);
#ifdef LOGRT
    if (!my) return;
    pthread_mutex_lock(&bm);
    for (;;) {
        int held = 0;
        for (int i = 0; i < my->n; i++) if (i != me && lockheld[i]) held = 1;
        if (!held) break;
        yieldto();
    }
    lockheld[me] = which;
    pthread_mutex_unlock(&bm);
#else
    pthread_mutex_lock(&crit);
#endif
}
static void unlock(void) {
#ifdef LOGRT
    if (!my) return;
    lockheld[me] = NULL;
#else
    pthread_mutex_unlock(&crit);
#endif
}
void GOMP_critical_start(void) { lock(&crit); }
void GOMP_critical_end(void) { unlock(); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(); }
void GOMP_atomic_start(void) { lock(&n_crit); }
void GOMP_atomic_end(void) { unlock(); }
_Bool GOMP_single_start(void) { return me <= 0; }
int omp_get_thread_num(void) { return me < 0 ? 0 : me; }
int omp_get_num_threads(void) { return my ? my->n : 1; }
int omp_get_max_threads(void) { return 4; }
int omp_get_num_procs(void) { return 4; }
int omp_in_parallel(void) { return my != NULL && my->n > 1; }
void omp_set_num_threads(int n) {}
void omp_set_dynamic(int n) {}
void omp_set_nested(int n) {}
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_level(void) { return my != NULL; }
double omp_get_wtime(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9*ts.tv_nsec; }

/* loops shared out at run time; every thread meets them in the same order */
static __thread long s_pos;
static __thread int s_first;
static _Bool nextchunk(long *a, long *b) {
    if (!my) return 0;
    int L = loopno % 64;
    pthread_mutex_lock(&my->lk);
    long x = my->next[L], e = my->end[L], inc = my->incr[L], c = my->chunk[L];
    long left = inc > 0 ? (e - x + inc - 1)/inc : (x - e - inc - 1)/(-inc);
    _Bool r = left > 0;
    if (r) {
        if (my->kind[L] == 1) { long g = left/(2*my->n); if (g > c) c = g; }
        if (c < 1) c = 1;
        if (c > left) c = left;
        *a = x; *b = x + c*inc;
        my->next[L] = *b;
    }
    pthread_mutex_unlock(&my->lk);
    return r;
}
static _Bool startloop(long s, long e, long inc, long c, int kind, long *a, long *b) {
    __atomic_add_fetch(&n_loops, 1, __ATOMIC_RELAXED);
    if (!my) { *a = s; *b = e; return inc > 0 ? s < e : s > e; }
    loopno++;
    int L = loopno % 64;
    pthread_mutex_lock(&my->lk);
    if (my->inited[L] != loopno) {
        my->inited[L] = loopno; my->next[L] = s; my->end[L] = e; my->incr[L] = inc; my->chunk[L] = c; my->kind[L] = kind;
    }
    pthread_mutex_unlock(&my->lk);
    return nextchunk(a, b);
}
#define LOOP(NAME, KIND) \
  _Bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return startloop(s, e, i, c, KIND, a, b); } \
  _Bool GOMP_loop_##NAME##_next(long *a, long *b) { return nextchunk(a, b); } \
  static void pl_##NAME(void *v) {} \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned f) { preloop(fn, data, n, s, e, i, c, KIND, f); }
struct pre { void (*fn)(void *); void *data; long s, e, i, c; int kind; };
static void prerun(void *v) {
    struct pre *p = v;
    loopno = 1;
    pthread_mutex_lock(&my->lk);
    if (my->inited[1] != 1) { my->inited[1] = 1; my->next[1] = p->s; my->end[1] = p->e; my->incr[1] = p->i; my->chunk[1] = p->c; my->kind[1] = p->kind; }
    pthread_mutex_unlock(&my->lk);
    p->fn(p->data);
}
static void preloop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, int kind, unsigned f) {
    struct pre p = {fn, data, s, e, i, c, kind};
    __atomic_add_fetch(&n_loops, 1, __ATOMIC_RELAXED);
    GOMP_parallel(prerun, &p, n, f);
}
LOOP(dynamic, 0) LOOP(guided, 1) LOOP(static, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
_Bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return startloop(s, e, i, 1, 0, a, b); }
_Bool GOMP_loop_runtime_next(long *a, long *b) { return nextchunk(a, b); }
_Bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return startloop(s, e, i, 1, 0, a, b); }
_Bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return nextchunk(a, b); }
_Bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return startloop(s, e, i, 1, 0, a, b); }
_Bool GOMP_loop_nonmonotonic_runtime_next(long *a, long *b) { return nextchunk(a, b); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { preloop(fn, d, n, s, e, i, 1, 0, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { preloop(fn, d, n, s, e, i, 1, 0, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { preloop(fn, d, n, s, e, i, 1, 0, f); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
void GOMP_parallel_end(void) {}
