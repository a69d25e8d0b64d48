// Delays around every synchronisation of the code under test: JITTER=<per mille> in the environment. Threads are held at the
// points where an unlucky schedule would hold them: before and after locking, before waiting, before and after waking.
#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if !__has_feature(thread_sanitizer)
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <cstdlib>

static std::atomic<int> per_mille{-1};
static std::atomic<uint64_t> seed{0};
static thread_local uint64_t state = 0;
static thread_local bool inside = false;

static int rate() {
    int r = per_mille.load(std::memory_order_relaxed);
    if (r < 0) {
        auto const *e = getenv("JITTER");
        r = e ? atoi(e) : 0;
        per_mille = r;
    }
    return r;
}

static void jitter() {
    int r = rate();
    if (!r || inside) return;
    if (!state) {
        auto const *e = getenv("JITTER_SEED");
        state = 88172645463325252ull + 7919 * (++seed) + (e ? 1000003ull * strtoull(e, nullptr, 10) : 0);
    }
    state ^= state << 13;
    state ^= state >> 7;
    state ^= state << 17;
    if ((int)(state % 1000) < r) {
        inside = true;
        usleep((useconds_t)((state >> 20) % 10 == 0 ? 2000 : (state >> 24) % 200));
        inside = false;
    }
}

template <typename F>
static F next(const char *name) {
    // the current version of the condition variables is 2.3.2 on x86-64; elsewhere there is only one
    void *f = dlvsym(RTLD_NEXT, name, "GLIBC_2.3.2");
    return reinterpret_cast<F>(f ? f : dlsym(RTLD_NEXT, name));
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    static auto f = next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    jitter();
    int r = f(m);
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    static auto f = next<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    int r = f(m);
    jitter();
    return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static auto f = next<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
    jitter();
    return f(c, m);
}
int pthread_cond_signal(pthread_cond_t *c) {
    static auto f = next<int (*)(pthread_cond_t *)>("pthread_cond_signal");
    jitter();
    return f(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    static auto f = next<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
    jitter();
    return f(c);
}
}
#endif
