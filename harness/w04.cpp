// W04: a successful read leaves nothing of what the object held before.
#include "rwtypes.h"
template <class T> static void rt()
{
    const T w = gen<T>(); Rec out; Write(out, w);
    Play in; T r = Old<T>::make();
    try { Read(in, r); } catch (...) { return; }
    vf_assert(eq(r, w), "W04.replaced", "after the read the object does not hold exactly what the stream described");
    vf_cover("read over previous content");
}
#define X(n, ...) extern "C" void vfh_##n() { rt<__VA_ARGS__>(); }
RW_TYPES(X)
// control: a reader that appends
extern "C" void vfh_ctl_append() { std::deque<int> w = gen<std::deque<int>>(); Rec out; Write(out, w); Play in; std::deque<int> r = Old<std::deque<int>>::make(), t; Read(in, t); for (int x : t) r.push_back(x); vf_assert(eq(r, w), "W04.replaced", "control"); }
