// watch_dog: its thread uses the log function before it is constructed (first part) and after it is destroyed (second part)
#include "Awl/WatchDog.h"
#include <cstdio>
#include <cstring>
#include <new>
static std::atomic<int> logged{0}, dead{0}; static bool slow_copy = false, slow_destroy = false;
static void nap() { std::this_thread::sleep_for(std::chrono::milliseconds(100)); }
struct Log
{
    long pad[6]; int magic = 77; Log() {} Log(const Log& o) { if (slow_copy) nap(); } Log(Log&&) noexcept {} ~Log() { magic = 0; if (slow_destroy) nap(); }
    void operator()() const { if (magic == 77) logged++; else dead++; }
};
alignas(awl::watch_dog) static char buf[sizeof(awl::watch_dog)];
int main(int argc, char**)
{
    {
        std::memset(buf, 0, sizeof buf); slow_copy = true; auto* w = new (buf) awl::watch_dog(std::stop_token(), std::chrono::nanoseconds(0), Log()); slow_copy = false; nap(); w->~watch_dog();
    }
    {
        auto* w = new (buf) awl::watch_dog(std::stop_token(), std::chrono::milliseconds(150), Log()); nap(); slow_destroy = true; w->~watch_dog(); slow_destroy = false;
    }
    std::printf("logged %d, with a dead function %d\n", (int)logged, (int)dead); return dead || logged < 1;
}
