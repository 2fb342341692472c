// Schedule perturbation: the check's executable interposes the pthread primitives that std::mutex and
// std::condition_variable use, and inserts seeded delays around them (and spurious wake-ups, which POSIX allows).
// Include in exactly one translation unit of a harness executable (linked with -rdynamic).
#pragma once
#include "vp.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
namespace sched {
inline std::atomic<uint64_t>& state() { static std::atomic<uint64_t> s(0); return s; } // 0 = off
inline std::atomic<uint32_t>& intensity() { static std::atomic<uint32_t> s(0); return s; }
inline std::atomic<uint32_t>& limit() { static std::atomic<uint32_t> s(0); return s; } // longest timed wait, in microseconds (0: as asked)
inline std::atomic<uint32_t>& spurious() { static std::atomic<uint32_t> s(0); return s; }
inline uint64_t rnd() { return vp::mix64(state().fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed)); }
inline void jitter(unsigned boost = 1) {
    const uint32_t p = intensity().load(std::memory_order_relaxed); if(!p) return;
    uint64_t r = rnd();
    if(r % 1000 < (uint64_t)p * boost) {
        uint64_t k = (r >> 20) % 8;
        if(k < 4) sched_yield();
        else { struct timespec ts = {0, (long)(1000 * (1 + (r >> 32) % (k < 7 ? 40 : 400)))}; nanosleep(&ts, nullptr); }
    }
}
/// enables perturbation for the lifetime of the object
struct Perturb {
    Perturb(vp::Gen& g) { state() = vp::mix64(g.seed() + 77) | 1; spurious() = g.flag() ? (uint32_t)g.n(0, 200) : 0u; intensity() = (uint32_t)g.n(0, 3) * 120u; }
    ~Perturb() { intensity() = 0; spurious() = 0; limit() = 0; }
};
template<typename F> inline F real(const char* name, const char* ver = nullptr) { void* p = ver ? dlvsym(RTLD_NEXT, name, ver) : dlsym(RTLD_NEXT, name); if(!p) p = dlsym(RTLD_NEXT, name); return (F)p; }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    typedef int (*F)(pthread_mutex_t*); static F f = nullptr; if(!f) f = sched::real<F>("pthread_mutex_lock");
    sched::jitter(); return f(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    typedef int (*F)(pthread_mutex_t*); static F f = nullptr; if(!f) f = sched::real<F>("pthread_mutex_unlock");
    int r = f(m); sched::jitter(); return r;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    typedef int (*F)(pthread_cond_t*, pthread_mutex_t*); static F f = nullptr; if(!f) f = sched::real<F>("pthread_cond_wait", "GLIBC_2.3.2");
    if(sched::spurious() && sched::rnd() % 1000 < sched::spurious()) { pthread_mutex_unlock(m); sched::jitter(3); pthread_mutex_lock(m); return 0; }
    sched::jitter(2); // widens the window between testing a predicate and sleeping
    return f(c, m);
}
// long timed waits may end early (a spurious wake-up): polling loops with half-second timeouts are explored faster
namespace sched {
inline bool shorten(clockid_t clk, const struct timespec* abs, struct timespec* out) {
    if(!state().load() || !limit().load()) return false;
    struct timespec now; clock_gettime(clk, &now); const int64_t lim = (int64_t)limit().load() * 1000;
    const int64_t left = (int64_t)(abs->tv_sec - now.tv_sec) * 1000000000ll + (abs->tv_nsec - now.tv_nsec);
    if(left <= lim) return false;
    int64_t t = now.tv_nsec + 1 + (int64_t)(rnd() % (uint64_t)lim); out->tv_sec = now.tv_sec + t / 1000000000ll; out->tv_nsec = t % 1000000000ll; return true;
}
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* abs) {
    typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); static F f = nullptr; if(!f) f = sched::real<F>("pthread_cond_clockwait");
    struct timespec ts; sched::jitter(2);
    if(sched::shorten(clk, abs, &ts)) { f(c, m, clk, &ts); return 0; }
    return f(c, m, clk, abs);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs) {
    typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); static F f = nullptr; if(!f) f = sched::real<F>("pthread_cond_timedwait", "GLIBC_2.3.2");
    struct timespec ts; sched::jitter(2);
    if(sched::shorten(CLOCK_REALTIME, abs, &ts)) { f(c, m, &ts); return 0; }
    return f(c, m, abs);
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) {
    typedef int (*F)(pthread_cond_t*); static F f = nullptr; if(!f) f = sched::real<F>("pthread_cond_signal", "GLIBC_2.3.2");
    sched::jitter(); return f(c);
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) {
    typedef int (*F)(pthread_cond_t*); static F f = nullptr; if(!f) f = sched::real<F>("pthread_cond_broadcast", "GLIBC_2.3.2");
    sched::jitter(); return f(c);
}
