// awl::sleep_for: a stop request that arrives between the test of the stop state and the wait is lost
#include "Awl/Sleep.h"
#include <atomic>
#include <cstdio>
#include <dlfcn.h>
#include <pthread.h>
static std::stop_source* source; static std::atomic<bool> requested{false}; static bool first = true;
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    static std::thread requester;
    if (first) { first = false; requester = std::thread([] { source->request_stop(); requested = true; }); requester.detach(); for (int i = 0; i < 200 && !requested; i++) { timespec d{0, 1000000}; nanosleep(&d, nullptr); } }
    return real(c, m, k, t);
}
int main()
{
    static std::stop_source s; source = &s; auto begin = std::chrono::steady_clock::now(); awl::sleep_for(std::chrono::seconds(4), s.get_token());
    auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - begin).count(); std::printf("slept %ld ms\n", (long)ms); while (!requested); return ms > 3000;
}
