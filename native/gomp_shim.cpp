// TSan-visible stand-in for the libgomp entry points that gcc emits for the
// static prange loops of glum's Cython kernels.  libgomp itself is not
// instrumented, so ThreadSanitizer cannot see its fork/join or its atomics and
// would drown the kernels in false races.  This shim implements the same
// contract with pthreads (create/join/barrier/mutex are intercepted by TSan),
// so the only races reported are accesses inside the kernels themselves.
//
//   VERIF_OMP_THREADS  team size (default 4)
//   VERIF_OMP_ORDER    "fwd" | "rev" | "par": run team members one after the
//                      other in (reverse) order, or really in parallel.
//                      Serial orders are only legal without barriers inside a
//                      region that wait on the others, so a barrier in such a
//                      region falls back to a no-op (static for at region end).
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <atomic>
#include <map>

namespace {
struct Loop { long next, end, incr, chunk; };
struct Team {
    pthread_barrier_t bar;
    int n;
    bool par;
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    std::map<long, Loop> loops;      // dynamic / guided work shares
    std::map<long, int> singles;
};
thread_local long t_ws = 0, t_single = 0;
thread_local int t_id = 0, t_n = 1;
thread_local Team *t_team = nullptr;
struct Job {
    void (*fn)(void *);
    void *data;
    int id, n;
    Team *team;
    unsigned delay;
};
std::atomic<long> regions{0}, members{0};
void *run(void *p) {
    Job *j = static_cast<Job *>(p);
    t_id = j->id;
    t_n = j->n;
    t_team = j->team;
    t_ws = t_single = 0;
    if (j->delay) usleep(j->delay);
    j->fn(j->data);
    return nullptr;
}
unsigned lcg(unsigned &s) {
    s = s * 1664525u + 1013904223u;
    return s >> 16;
}
pthread_mutex_t m_atomic = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t m_crit = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t m_named = PTHREAD_MUTEX_INITIALIZER;
}  // namespace

extern "C" {
#define EXPORT __attribute__((visibility("default")))
EXPORT long verif_omp_regions() { return regions.load(); }
EXPORT long verif_omp_members() { return members.load(); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
    const char *e = getenv("VERIF_OMP_THREADS");
    const char *o = getenv("VERIF_OMP_ORDER");
    int n = e ? atoi(e) : 4;
    if (nt) n = static_cast<int>(nt);
    if (n < 1) n = 1;
    if (n > 64) n = 64;
    if (t_team) n = 1;  // no nesting
    long r = regions.fetch_add(1);
    members.fetch_add(n);
    bool par = !o || !strcmp(o, "par");
    Team team;
    team.n = n;
    team.par = par;
    pthread_barrier_init(&team.bar, nullptr, n);
    pthread_t th[64];
    Job j[64];
    unsigned s = static_cast<unsigned>(r) * 2654435761u + 12345u;
    for (int i = 0; i < n; i++) j[i] = Job{fn, data, i, n, &team, 0};
    Job mine = Job{fn, data, 0, n, &team, 0};
    int oi = t_id, on = t_n;
    long ow = t_ws, os = t_single;
    Team *ot = t_team;
    if (par) {
        for (int i = 1; i < n; i++) {
            if (r % 7 == 3) j[i].delay = lcg(s) % 40;
            pthread_create(&th[i], nullptr, run, &j[i]);
        }
        run(&mine);
        for (int i = 1; i < n; i++) pthread_join(th[i], nullptr);
    } else if (!strcmp(o, "fwd")) {
        for (int i = 0; i < n; i++) run(&j[i]);
    } else {
        for (int i = n - 1; i >= 0; i--) run(&j[i]);
    }
    t_id = oi;
    t_n = on;
    t_ws = ow;
    t_single = os;
    t_team = ot;
    pthread_barrier_destroy(&team.bar);
}
int omp_get_num_threads() { return t_n; }
int omp_get_thread_num() { return t_id; }
int omp_get_max_threads() { const char *e = getenv("VERIF_OMP_THREADS"); return e ? atoi(e) : 4; }
void GOMP_barrier() {
    if (t_team && t_team->par && t_team->n > 1) pthread_barrier_wait(&t_team->bar);
}
void GOMP_atomic_start() { pthread_mutex_lock(&m_atomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&m_atomic); }
void GOMP_critical_start() { pthread_mutex_lock(&m_crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&m_crit); }
void GOMP_critical_name_start(void **) { pthread_mutex_lock(&m_named); }
void GOMP_critical_name_end(void **) { pthread_mutex_unlock(&m_named); }

// schedule(dynamic / guided / runtime): one shared counter per work share
static bool loop_take(long *a, long *b) {
    Team *t = t_team;
    if (!t) return false;
    pthread_mutex_lock(&t->m);
    Loop &l = t->loops[t_ws];
    bool more = l.incr > 0 ? l.next < l.end : l.next > l.end;
    if (more) {
        *a = l.next;
        long e = l.next + l.chunk * l.incr;
        if (l.incr > 0 ? e > l.end : e < l.end) e = l.end;
        *b = e;
        l.next = e;
    }
    pthread_mutex_unlock(&t->m);
    return more;
}
static void loop_open(long s, long e, long inc, long ch) {
    Team *t = t_team;
    ++t_ws;
    if (!t) return;
    pthread_mutex_lock(&t->m);
    if (!t->loops.count(t_ws)) t->loops[t_ws] = Loop{s, e, inc, ch < 1 ? 1 : ch};
    pthread_mutex_unlock(&t->m);
}
static bool loop_start(long s, long e, long inc, long ch, long *a, long *b) {
    loop_open(s, e, inc, ch);
    if (!t_team) { *a = s; *b = e; return inc > 0 ? s < e : s > e; }
    return loop_take(a, b);
}
#define LOOPS(K) \
    bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
    bool GOMP_loop_##K##_next(long *a, long *b) { return loop_take(a, b); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return loop_take(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return loop_take(a, b); }
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { GOMP_barrier(); }
bool GOMP_single_start() {
    Team *t = t_team;
    ++t_single;
    if (!t) return true;
    pthread_mutex_lock(&t->m);
    bool first = t->singles[t_single]++ == 0;
    pthread_mutex_unlock(&t->m);
    return first;
}
struct PL { void (*fn)(void *); void *data; long s, e, i, c; };
static void pl_run(void *p) {
    PL *q = static_cast<PL *>(p);
    loop_open(q->s, q->e, q->i, q->c);
    q->fn(q->data);
}
#define PLOOPS(K) \
    void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned f) { \
        PL p{fn, d, s, e, i, c}; GOMP_parallel(pl_run, &p, nt, f); }
PLOOPS(dynamic) PLOOPS(guided) PLOOPS(nonmonotonic_dynamic) PLOOPS(nonmonotonic_guided)
int omp_in_parallel() { return t_team != nullptr && t_n > 1; }
void omp_set_num_threads(int) {}
int omp_get_num_procs() { return 4; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
}
