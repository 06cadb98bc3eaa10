// Schedule perturbation and fault injection at link-time wrapped synchronisation calls
// (-Wl,--wrap=...): no change to the code under test is needed.
#include "vp.h"

#include <pthread.h>
#include <zmq.h>
#include <sched.h>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VP_TSAN 1
#endif
#endif

#ifdef VP_TSAN
extern "C" void __tsan_acquire(void* addr);
extern "C" void __tsan_release(void* addr);
#define NOSAN __attribute__((no_sanitize("thread")))
#else
static inline void __tsan_acquire(void*) {}
static inline void __tsan_release(void*) {}
#define NOSAN
#endif

namespace
{
std::atomic<unsigned> gLevel{0};
std::atomic<uint64_t> gSeed{1};
std::atomic<uint64_t> gSched{0};
std::atomic<unsigned> gThreads{0};
std::atomic<unsigned> gEintr{0};
std::atomic<uint64_t> gEintrN{0};
thread_local uint64_t tRng = 0;
thread_local unsigned tId = 0;
thread_local unsigned tPoints = 0;
struct Bomb { unsigned thread, point; long us; };
Bomb gBomb[8];
std::atomic<unsigned> gBombs{0};

inline uint64_t rnd()
{
    if (!tRng) {
        tId = gThreads.fetch_add(1, std::memory_order_relaxed) + 1;
        tRng = (gSeed.load(std::memory_order_relaxed) * 0x9E3779B97F4A7C15ull) ^ (tId * 0xD1B54A32D192ED03ull) ^ 0x1234567;
        if (!tRng) { tRng = 88172645463325252ull; }
    }
    tRng ^= tRng << 13;
    tRng ^= tRng >> 7;
    tRng ^= tRng << 17;
    return tRng;
}
char gP = 0;
char gZ = 0;   // happens-before proxy for hand-over through (uninstrumented) libzmq
}

namespace vp
{
void perturb(unsigned level, uint64_t seed)
{
    gSeed.store(seed, std::memory_order_relaxed);
    gLevel.store(level, std::memory_order_relaxed);
}
// long delays at a few chosen points of chosen threads (numbered by their first synchronisation point)
void lateThreads() { unsigned e = gThreads.load(); if (e < 100) { gThreads.store(100); } }
void bombs(unsigned n, uint64_t seed, unsigned maxThread, unsigned maxPoint, long maxUs, unsigned late)
{
    Rng r(seed, 0xB0B);
    if (n > 8) { n = 8; }
    gBombs.store(0);
    for (unsigned i = 0; i < n; ++i) {
        unsigned cap = 1;
        while (cap < maxPoint && r.chance(3, 4)) { cap *= 2; }
        gBomb[i] = {static_cast<unsigned>(1 + r.below(maxThread)), static_cast<unsigned>(1 + r.below(cap)), static_cast<long>(maxUs / 8 + r.below(maxUs))};
        if (i < late) { gBomb[i].thread = 101; gBomb[i].point = static_cast<unsigned>(1 + r.below(14)); }
    }
    gBombs.store(n, std::memory_order_release);
}
static void bombPoint()
{
    unsigned n = gBombs.load(std::memory_order_acquire);
    if (!n) { return; }
    if (!tId) { rnd(); }
    ++tPoints;
    for (unsigned i = 0; i < n; ++i) {
        if (gBomb[i].thread == tId && gBomb[i].point == tPoints) { int e = errno; vp::sleepUs(gBomb[i].us); errno = e; }
    }
}
void perturbPoint()
{
    bombPoint();
    unsigned l = gLevel.load(std::memory_order_relaxed);
    if (!l) { return; }
    uint64_t r = rnd();
    uint64_t h = gSched.load(std::memory_order_relaxed);
    gSched.store((h ^ tId) * 0x100000001b3ull + 0x9E37, std::memory_order_relaxed);
    int e = errno;
    unsigned m = r & 0x3ff;
    if (m < 64 * l) { sched_yield(); }
    else if (m < 64 * l + 16 * l) { vp::sleepUs(static_cast<long>((r >> 20) % 120)); }
    else if (m >= 1024 - l) { vp::sleepUs(static_cast<long>((r >> 20) % 3000)); }
    errno = e;
}
void (*lockHook)(bool lock, bool shared) = nullptr;   // called after every lock and unlock
uint64_t scheduleHash() { return gSched.load(std::memory_order_relaxed); }
void resetScheduleHash() { gSched.store(0, std::memory_order_relaxed); }
void eintr(unsigned n) { gEintr.store(n, std::memory_order_relaxed); }
uint64_t eintrCount() { return gEintrN.load(std::memory_order_relaxed); }
}

extern "C" {

int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    vp::perturbPoint();
    int r = __real_pthread_mutex_lock(m);
    // one process-shared mutex mapped at two addresses is one mutex
    if (m->__data.__kind & 128) { __tsan_acquire(&gP); }
    if (vp::lockHook) { vp::lockHook(true, m->__data.__kind & 128); }
    return r;
}
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (m->__data.__kind & 128) { __tsan_release(&gP); }
    bool shared = m->__data.__kind & 128;   // afterwards it may be gone
    int r = __real_pthread_mutex_unlock(m);
    if (vp::lockHook) { vp::lockHook(false, shared); }
    vp::perturbPoint();
    return r;
}

#ifdef VP_WITH_ZMQ
static bool injectEintr()
{
    unsigned n = gEintr.load(std::memory_order_relaxed);
    if (n && rnd() % n == 0) {
        gEintrN.fetch_add(1, std::memory_order_relaxed);
        errno = EINTR;
        return true;
    }
    return false;
}

int __real_zmq_msg_send(zmq_msg_t*, void*, int);
int __wrap_zmq_msg_send(zmq_msg_t* m, void* s, int f)
{
    vp::perturbPoint();
    if (injectEintr()) { return -1; }
    __tsan_release(&gZ);
    return __real_zmq_msg_send(m, s, f);
}
int __real_zmq_msg_recv(zmq_msg_t*, void*, int);
int __wrap_zmq_msg_recv(zmq_msg_t* m, void* s, int f)
{
    vp::perturbPoint();
    if (injectEintr()) { return -1; }
    int r = __real_zmq_msg_recv(m, s, f);
    int e = errno;
    __tsan_acquire(&gZ);
    errno = e;
    return r;
}
int __real_zmq_recv(void*, void*, size_t, int);
int __wrap_zmq_recv(void* s, void* b, size_t n, int f)
{
    vp::perturbPoint();
    if (injectEintr()) { return -1; }
    int r = __real_zmq_recv(s, b, n, f);
    int e = errno;
    __tsan_acquire(&gZ);
    errno = e;
    return r;
}
int __real_zmq_msg_close(zmq_msg_t*);
int __wrap_zmq_msg_close(zmq_msg_t* m)
{
    __tsan_release(&gZ);
    return __real_zmq_msg_close(m);
}

#ifdef VP_TSAN
struct FfnBox { zmq_free_fn* f; void* hint; };
static void trampoline(void* data, void* hint)
{
    __tsan_acquire(&gZ);
    auto b = static_cast<FfnBox*>(hint);
    b->f(data, b->hint);
    delete b;
    __tsan_release(&gZ);
}
int __real_zmq_msg_init_data(zmq_msg_t*, void*, size_t, zmq_free_fn*, void*);
int __wrap_zmq_msg_init_data(zmq_msg_t* m, void* d, size_t n, zmq_free_fn* f, void* h)
{
    __tsan_release(&gZ);
    if (!f) { return __real_zmq_msg_init_data(m, d, n, f, h); }
    return __real_zmq_msg_init_data(m, d, n, trampoline, new FfnBox{f, h});
}
#else
int __real_zmq_msg_init_data(zmq_msg_t*, void*, size_t, zmq_free_fn*, void*);
int __wrap_zmq_msg_init_data(zmq_msg_t* m, void* d, size_t n, zmq_free_fn* f, void* h)
{
    return __real_zmq_msg_init_data(m, d, n, f, h);
}
#endif
#endif

}
