// Hostile back end for the standard parallel algorithms (forced into every unit of the "tsan"
// variant with -include). It takes the place of libstdc++'s TBB back end, which ThreadSanitizer
// cannot follow because libtbb is not instrumented. Every parallel algorithm of the code under test
// is cut at random, the chunks are dealt at random to threads that start together, with random
// delays. The only happens-before edges it creates are those the standard promises: start of the
// algorithm -> each chunk -> end of the algorithm.
// FG_PAR_SEED, FG_PAR_THREADS, FG_PAR_DELAY (0..3) control it; FG_PAR_LOG receives what was seen.
#ifndef VP_PAR_H
#define VP_PAR_H
#ifdef __cplusplus
#define _PSTL_PARALLEL_BACKEND_TBB_H
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <iterator>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <thread>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

namespace vp_par
    {
typedef unsigned long long u64;
inline u64 mix(u64 z)
    {
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
    }
struct Rng
    {
    u64 s;
    u64 operator()() { return s = mix(s); }
    int below(u64 n) { return n ? (int) ((*this)() % n) : 0; }
    };

struct Pool
    {
    enum { MAXT = 16 };
    struct Worker
        {
        sem_t go, done;
        pthread_t th;
        std::vector<int> mine;
        Rng rng;
        int id;
        };
    int nt, delay;
    Rng rng;
    Worker w[MAXT];
    std::mutex busy;
    void (*fn)(void *, int);
    void *arg;
    std::atomic<int> ready, ticket;
    int participants;
    std::vector<int> order;  // order[k]: thread that finished the k-th chunk
    // what was seen
    u64 algorithms, multi, chunks, concurrent_max, switches;
    std::set<u64> interleavings;

    static int env(const char *k, int d) { const char *s = getenv(k); return s && *s ? atoi(s) : d; }
    Pool() : fn(nullptr), arg(nullptr), ready(0), ticket(0), participants(0), algorithms(0), multi(0),
             chunks(0), concurrent_max(0), switches(0)
        {
        nt = env("FG_PAR_THREADS", 4);
        if (nt < 1) nt = 1;
        if (nt > MAXT) nt = MAXT;
        delay = env("FG_PAR_DELAY", 1);
        rng.s = mix((u64) env("FG_PAR_SEED", 1));
        for (int i = 0; i < nt; i++)
            {
            w[i].id = i;
            w[i].rng.s = mix(rng() + i);
            sem_init(&w[i].go, 0, 0);
            sem_init(&w[i].done, 0, 0);
            if (i) pthread_create(&w[i].th, nullptr, loop, &w[i]);
            }
        atexit(report);
        }
    static Pool &get()
        {
        static Pool *p = new Pool;  // never destroyed: workers may be waiting at exit
        return *p;
        }
    static void report()
        {
        Pool &p = get();
        const char *f = getenv("FG_PAR_LOG");
        if (!f) return;
        char b[400];
        int n = snprintf(b, sizeof b, "{\"algorithms\":%llu,\"multi\":%llu,\"chunks\":%llu,"
            "\"threads\":%llu,\"switches\":%llu,\"interleavings\":%llu}\n", p.algorithms, p.multi,
            p.chunks, p.concurrent_max, p.switches, (u64) p.interleavings.size());
        int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0)
            {
            if (write(fd, b, n) < 0) {}
            close(fd);
            }
        }
    void perturb(Rng &r)
        {
        if (!delay) return;
        int k = r.below(delay == 1 ? 12 : delay == 2 ? 5 : 3);
        if (k == 0) sched_yield();
        else if (k == 1)
            {
            for (volatile int i = 0, n = r.below(delay == 3 ? 6000 : 800); i < n; i = i + 1) {}
            }
        else if (k == 2 && delay == 3 && r.below(8) == 0)
            {
            struct timespec t = {0, (long) r.below(60000)};
            nanosleep(&t, nullptr);
            }
        }
    void work(Worker &me)
        {
        // start together; relaxed, so that it orders nothing
        ready.fetch_add(1, std::memory_order_relaxed);
        for (int spin = 0; ready.load(std::memory_order_relaxed) < participants && spin < 20000; spin++)
            if (spin > 200) sched_yield();
        for (size_t k = 0; k < me.mine.size(); k++)
            {
            perturb(me.rng);
            fn(arg, me.mine[k]);
            order[ticket.fetch_add(1, std::memory_order_relaxed)] = me.id;
            }
        }
    static void *loop(void *a)
        {
        Worker &me = *(Worker *) a;
        inside() = true;
        for (;;)
            {
            while (sem_wait(&me.go)) {}
            get().work(me);
            sem_post(&me.done);
            }
        return nullptr;
        }
    static bool &inside()
        {
        static thread_local bool b = false;
        return b;
        }
    // run f(arg, i) for each i in [0, n), on several threads
    void run(int n, void (*f)(void *, int), void *a)
        {
        if (n <= 0) return;
        if (inside() || n == 1 || nt == 1 || !busy.try_lock())
            {
            for (int i = 0; i < n; i++) f(a, i);
            return;
            }
        inside() = true;
        algorithms++;
        chunks += n;
        fn = f;
        arg = a;
        ticket.store(0, std::memory_order_relaxed);
        ready.store(0, std::memory_order_relaxed);
        order.assign(n, -1);
        for (int i = 0; i < nt; i++) w[i].mine.clear();
        int used = 2 + rng.below(nt - 1);
        int skew = rng.below(3);  // 0: uniform, 1: round robin, 2: contiguous blocks
        for (int i = 0; i < n; i++)
            {
            int k = skew == 0 ? rng.below(used) : skew == 1 ? i % used : (int) ((long) i * used / n);
            w[k].mine.push_back(i);
            }
        participants = 0;
        for (int i = 0; i < nt; i++)
            {
            std::vector<int> &m = w[i].mine;
            if (rng.below(2))
                for (size_t k = m.size(); k > 1; k--) std::swap(m[k - 1], m[rng.below(k)]);
            if (i == 0 || !m.empty()) participants++;
            }
        for (int i = 1; i < nt; i++)
            if (!w[i].mine.empty()) sem_post(&w[i].go);
        work(w[0]);
        for (int i = 1; i < nt; i++)
            if (!w[i].mine.empty())
                while (sem_wait(&w[i].done)) {}
        u64 h = n;
        unsigned seen = 0;
        int sw = 0;
        for (int i = 0; i < n; i++)
            {
            h = mix(h ^ (u64) (order[i] + 1));
            seen |= 1u << (order[i] & 31);
            if (i && order[i] != order[i - 1]) sw++;
            }
        switches += sw;
        u64 c = __builtin_popcount(seen);
        if (c > 1) multi++;
        if (c > concurrent_max) concurrent_max = c;
        if (c > 1 && interleavings.size() < 200000) interleavings.insert(h);
        inside() = false;
        busy.unlock();
        }
    // random cut points of [0, n)
    std::vector<long> cuts(long n)
        {
        static std::mutex mx;
        std::vector<long> c;
        c.push_back(0);
        if (!inside() && mx.try_lock())
            {
            long want;
            switch (rng.below(4))
                {
                case 0: want = nt; break;
                case 1: want = 2 + rng.below(6 * nt); break;
                case 2: want = 1 + n / (1 + rng.below(8)); break;
                default: want = 3 * nt;
                }
            if (want > n) want = n;
            if (want > 600) want = 600;
            for (long i = 1; i < want; i++) c.push_back(1 + (long) (rng() % (u64) (n > 1 ? n - 1 : 1)));
            mx.unlock();
            }
        c.push_back(n);
        std::sort(c.begin(), c.end());
        c.erase(std::unique(c.begin(), c.end()), c.end());
        return c;
        }
    template <class F> void each(int n, F &f)
        {
        run(n, [](void *a, int i) { (*(F *) a)(i); }, &f);
        }
    };
    }  // namespace vp_par

namespace __pstl
    {
namespace __tbb_backend
    {
template <typename _Tp> class __buffer
    {
    std::allocator<_Tp> alloc;
    _Tp *ptr;
    const std::size_t len;
    __buffer(const __buffer &) = delete;
    void operator=(const __buffer &) = delete;

  public:
    __buffer(std::size_t n) : alloc(), ptr(alloc.allocate(n)), len(n) {}
    operator bool() const { return ptr != nullptr; }
    _Tp *get() const { return ptr; }
    ~__buffer() { alloc.deallocate(ptr, len); }
    };

inline void __cancel_execution() {}

template <class P, class I, class F> void __parallel_for(P &&, I first, I last, F f)
    {
    vp_par::Pool &p = vp_par::Pool::get();
    if (last - first <= 0) return;
    auto c = p.cuts(last - first);
    auto g = [&](int i) { f(first + c[i], first + c[i + 1]); };
    p.each((int) c.size() - 1, g);
    }

template <class P, class V, class I, typename B, typename R>
V __parallel_reduce(P &&, I first, I last, const V &identity, const B &body, const R &red)
    {
    vp_par::Pool &p = vp_par::Pool::get();
    if (last - first <= 0) return identity;
    auto c = p.cuts(last - first);
    std::vector<std::optional<V>> part(c.size() - 1);
    auto g = [&](int i) { part[i].emplace(body(first + c[i], first + c[i + 1], identity)); };
    p.each((int) part.size(), g);
    V v = identity;
    for (auto &x : part) v = red(v, *x);
    return v;
    }

template <class P, class I, class U, class T, class C, class R>
T __parallel_transform_reduce(P &&, I first, I last, U u, T init, C combine, R brick)
    {
    vp_par::Pool &p = vp_par::Pool::get();
    if (last - first <= 0) return init;
    auto c = p.cuts(last - first);
    std::vector<std::optional<T>> part(c.size() - 1);
    auto g = [&](int i)
        {
        I b = first + c[i], e = first + c[i + 1];
        T v = u(b);
        ++b;
        part[i].emplace(brick(b, e, v));
        };
    p.each((int) part.size(), g);
    T v = init;
    for (auto &x : part) v = combine(v, *x);
    return v;
    }

template <class P, typename I, typename T, typename R, typename C, typename S, typename A>
void __parallel_strict_scan(P &&, I n, T initial, R reduce, C combine, S scan, A apex)
    {
    vp_par::Pool &p = vp_par::Pool::get();
    if (!n)
        {
        apex(initial);
        return;
        }
    auto c = p.cuts(n);
    std::vector<std::optional<T>> part(c.size() - 1);
    auto g = [&](int i) { part[i].emplace(reduce(I(c[i]), I(c[i + 1] - c[i]))); };
    p.each((int) part.size(), g);
    std::vector<T> start;
    T sum = initial;
    for (auto &x : part)
        {
        start.push_back(sum);
        sum = combine(sum, *x);
        }
    apex(sum);
    auto h = [&](int i) { scan(I(c[i]), I(c[i + 1] - c[i]), start[i]); };
    p.each((int) part.size(), h);
    }

template <class P, class I, class U, class T, class C, class R, class S>
T __parallel_transform_scan(P &&, I n, U, T init, C, R, S scan)
    {
    return scan(I(0), n, init);
    }

template <class P, typename I, typename C, typename L>
void __parallel_stable_sort(P &&, I first, I last, C comp, L leaf, std::size_t = 0)
    {
    vp_par::Pool &p = vp_par::Pool::get();
    if (last - first <= 1) return;
    auto c = p.cuts(last - first);
    auto g = [&](int i) { leaf(first + c[i], first + c[i + 1], comp); };
    p.each((int) c.size() - 1, g);
    for (size_t i = 1; i + 1 < c.size(); i++)
        std::inplace_merge(first, first + c[i], first + c[i + 1], comp);
    }

template <class P, typename I1, typename I2, typename I3, typename C, typename L>
void __parallel_merge(P &&, I1 f1, I1 l1, I2 f2, I2 l2, I3 out, C comp, L leaf)
    {
    leaf(f1, l1, f2, l2, out, comp);
    }

template <class P, typename F1, typename F2> void __parallel_invoke(P &&, F1 &&f1, F2 &&f2)
    {
    auto g = [&](int i) { i ? std::forward<F2>(f2)() : std::forward<F1>(f1)(); };
    vp_par::Pool::get().each(2, g);
    }
    }  // namespace __tbb_backend
    }  // namespace __pstl
#endif
#endif
