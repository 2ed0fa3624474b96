// A small OpenMP runtime made of plain pthreads, so that ThreadSanitizer sees every
// thread creation and join, and so that the order of the threads can be perturbed.
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <mutex>
#include <set>
#include <vector>

namespace
{
std::atomic<int> g_threads{1};
std::atomic<unsigned> g_jitter{0};
std::atomic<long> g_regions{0}, g_workers{0};
std::mutex g_orders_m;
std::set<uint64_t> g_orders;

struct Team
{
    int n;
    pthread_barrier_t bar;
    std::mutex m, order_m;
    uint64_t order = 1469598103934665603ull;
    // work sharing (dynamic / guided loops, sections, single)
    std::mutex ws_m;
    std::vector<long> next, end, incr, chunk;
    std::vector<int> joined;
    std::vector<char> single;
};
struct Ctx { Team *team; int id; int loop; int single; long cur; };
thread_local Ctx *t_ctx = nullptr;
thread_local int t_limit = 0;

void jitter(unsigned j, int id, int phase)
{
    if (!j) return;
    unsigned h = (j ^ (unsigned)(id * 2654435761u) ^ (unsigned)(phase * 40503u)) * 2246822519u;
    switch ((h >> 13) & 7)
    {
    case 0: case 1: case 2: sched_yield(); break;
    case 3: { timespec t{0, (long)((h >> 20) & 0xffff)}; nanosleep(&t, nullptr); break; }
    case 4: for (volatile int k = 0; k < 3000; k = k + 1) {} break;
    default: break;
    }
}
struct Start { void (*fn)(void *); void *data; Team *team; int id; unsigned j; };
void body(Start *s)
{
    Ctx c{s->team, s->id, 0, 0, 0};
    Ctx *old = t_ctx;
    t_ctx = &c;
    jitter(s->j, s->id, 1);
    s->fn(s->data);
    {
        std::lock_guard<std::mutex> g(s->team->order_m);
        s->team->order = (s->team->order ^ (uint64_t)(s->id + 1)) * 1099511628211ull;
    }
    t_ctx = old;
}
void *entry(void *p) { body((Start *)p); return nullptr; }
} // namespace

extern "C"
{
void shim_config(int threads, unsigned jit) { g_threads = threads; g_jitter = jit; }
void shim_stats(long *a, long *b, long *c) { *a = g_regions; *b = g_workers; std::lock_guard<std::mutex> g(g_orders_m); *c = (long)g_orders.size(); }

int omp_get_thread_num() { return t_ctx ? t_ctx->id : 0; }
int omp_get_num_threads() { return t_ctx ? t_ctx->team->n : 1; }
int omp_get_max_threads() { return g_threads; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return 1024; }
int omp_in_parallel() { return t_ctx && t_ctx->team->n > 1; }
int omp_get_level() { return t_ctx ? 1 : 0; }
int omp_get_active_level() { return t_ctx ? 1 : 0; }
int omp_get_nested() { return 0; }
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
void omp_set_dynamic(int) {}
void omp_set_num_threads(int n) { g_threads = n > 0 ? n : 1; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned)
{
    int n = num_threads ? (int)num_threads : (int)g_threads;
    if (t_ctx) n = 1; // no nesting
    unsigned j = g_jitter;
    Team team;
    team.n = n;
    pthread_barrier_init(&team.bar, nullptr, (unsigned)n);
    g_regions++;
    g_workers += n;
    std::vector<Start> st((size_t)n);
    std::vector<pthread_t> th((size_t)n);
    for (int k = 0; k < n; k++) st[(size_t)k] = {fn, data, &team, k, j ? (unsigned)(j * 2654435761u + (unsigned)g_regions.load()) : 0};
    for (int k = 1; k < n; k++) pthread_create(&th[(size_t)k], nullptr, entry, &st[(size_t)k]);
    body(&st[0]);
    for (int k = 1; k < n; k++) pthread_join(th[(size_t)k], nullptr);
    pthread_barrier_destroy(&team.bar);
    if (n > 1) { std::lock_guard<std::mutex> g(g_orders_m); g_orders.insert(team.order * 31 + (uint64_t)n); }
}
void GOMP_barrier() { if (t_ctx && t_ctx->team->n > 1) { jitter(g_jitter, t_ctx->id, 2); pthread_barrier_wait(&t_ctx->team->bar); } }

static std::mutex crit;
void GOMP_critical_start() { crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
static std::mutex crit_named;
void GOMP_critical_name_start(void **) { crit_named.lock(); }
void GOMP_critical_name_end(void **) { crit_named.unlock(); }
static std::mutex atom;
void GOMP_atomic_start() { atom.lock(); }
void GOMP_atomic_end() { atom.unlock(); }

bool GOMP_single_start()
{
    if (!t_ctx) return true;
    Team *t = t_ctx->team;
    std::lock_guard<std::mutex> g(t->ws_m);
    size_t k = (size_t)t_ctx->single++;
    if (t->single.size() <= k) t->single.resize(k + 1, 0);
    if (t->single[k]) return false;
    t->single[k] = 1;
    return true;
}

static bool loop_next(long *is, long *ie)
{
    Team *t = t_ctx->team;
    std::lock_guard<std::mutex> g(t->ws_m);
    size_t k = (size_t)t_ctx->loop;
    long a = t->next[k], e = t->end[k], inc = t->incr[k];
    if (inc > 0 ? a >= e : a <= e) return false;
    long b = a + t->chunk[k] * inc;
    if (inc > 0 ? b > e : b < e) b = e;
    t->next[k] = b;
    *is = a;
    *ie = b;
    return true;
}
static bool loop_start(long s, long e, long inc, long chunk, long *is, long *ie)
{
    static Team solo_team; // (a work-sharing construct outside a parallel region)
    if (!t_ctx) { *is = s; *ie = e; return inc > 0 ? s < e : s > e; }
    Team *t = t_ctx->team;
    {
        std::lock_guard<std::mutex> g(t->ws_m);
        size_t k = (size_t)t_ctx->loop;
        if (t->next.size() <= k) { t->next.resize(k + 1); t->end.resize(k + 1); t->incr.resize(k + 1); t->chunk.resize(k + 1); t->joined.resize(k + 1, 0); }
        if (!t->joined[k]++) { t->next[k] = s; t->end[k] = e; t->incr[k] = inc; t->chunk[k] = chunk > 0 ? chunk : 1; }
    }
    return loop_next(is, ie);
}
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_dynamic_next(long *a, long *b) { return t_ctx ? loop_next(a, b) : false; }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return t_ctx ? loop_next(a, b) : false; }
bool GOMP_loop_guided_next(long *a, long *b) { return t_ctx ? loop_next(a, b) : false; }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return t_ctx ? loop_next(a, b) : false; }
bool GOMP_loop_runtime_next(long *a, long *b) { return t_ctx ? loop_next(a, b) : false; }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return t_ctx ? loop_next(a, b) : false; }
void GOMP_loop_end_nowait() { if (t_ctx) t_ctx->loop++; }
void GOMP_loop_end() { if (t_ctx) { t_ctx->loop++; GOMP_barrier(); } }
#define PLOOP(kind)                                                                                                     \
    struct P_##kind { void (*fn)(void *); void *data; long s, e, i, c; };                                               \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned f) \
    {                                                                                                                   \
        P_##kind p{fn, data, s, e, i, c};                                                                               \
        GOMP_parallel([](void *q) {                                                                                     \
            auto *z = (P_##kind *)q;                                                                                    \
            Team *t = t_ctx->team;                                                                                      \
            {                                                                                                           \
                std::lock_guard<std::mutex> g(t->ws_m);                                                                 \
                if (t->next.empty()) { t->next = {z->s}; t->end = {z->e}; t->incr = {z->i}; t->chunk = {z->c > 0 ? z->c : 1}; t->joined = {1}; } \
            }                                                                                                           \
            z->fn(z->data);                                                                                             \
        }, &p, n, f);                                                                                                   \
    }
PLOOP(dynamic)
PLOOP(guided)
PLOOP(nonmonotonic_dynamic)
PLOOP(nonmonotonic_guided)
}
