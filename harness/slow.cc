// The simulator and the server thread meet at locks and condition variables.  With SLOW=<seed> in the environment, some of
// these calls take longer, at points chosen by the seed, and waiting for a condition variable returns spuriously now and
// then, as POSIX allows.  Time is spent spinning: a sleeping thread counts as one that waits for something.
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>

#include <atomic>
#include <cstdint>
#include <cstdlib>

static std::atomic<uint64_t> seed{0};
static std::atomic<bool> on{false};
void slow_start(uint64_t s) {
    seed = s * 0x9E3779B97F4A7C15ull + 1;
    on = s != 0;
}
static uint64_t rnd() {
    auto x = seed.fetch_add(0x9E3779B97F4A7C15ull);
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static void spin(unsigned us) {
    timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    do clock_gettime(CLOCK_MONOTONIC, &b);
    while ((b.tv_sec - a.tv_sec) * 1000000ll + (b.tv_nsec - a.tv_nsec) / 1000 < us);
}
static void maybe(unsigned percent, unsigned us) {
    if (!on.load(std::memory_order_relaxed)) return;
    auto r = rnd();
    if (r % 100 < percent) spin((r >> 32) % us);
}
template <typename F>
static F next(const char *name, F) {
    void *p = dlvsym(RTLD_NEXT, name, "GLIBC_2.3.2");
    if (!p) p = dlsym(RTLD_NEXT, name);
    return reinterpret_cast<F>(p);
}
extern "C" {
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static auto real = next("pthread_cond_wait", &pthread_cond_wait);
    if (on.load(std::memory_order_relaxed)) {
        auto r = rnd();
        if (r % 8 == 0) {
            pthread_mutex_unlock(m);
            if (r & 256) spin((r >> 32) % 200);
            pthread_mutex_lock(m);
            return 0;
        }
        if (r % 2) spin((r >> 32) % 3000);
    }
    return real(c, m);
}
int pthread_cond_signal(pthread_cond_t *c) {
    static auto real = next("pthread_cond_signal", &pthread_cond_signal);
    maybe(30, 300);
    return real(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    static auto real = next("pthread_cond_broadcast", &pthread_cond_broadcast);
    maybe(30, 300);
    return real(c);
}
}
