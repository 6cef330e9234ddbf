// W01: what the writer of a type emits is exactly what its reader consumes. Scalars are unknown, shapes are enumerated.
#include "rwtypes.h"
template <class T> static void rt()
{
    const T w = gen<T>(); Rec out; Write(out, w);
    Play in; T r = Blank<T>::make();
    try { Read(in, r); } catch (...) { vf_assert(false, "W01.accepted", "the reader rejects what the writer emitted"); return; }
    vf_assert(vfg_pos == vfg_n, "W01.consumes-all", "the reader does not consume exactly what the writer emitted");
    vf_assert(eq(r, w), "W01.same-value", "the value read differs from the value written");
    vf_cover("round trip");
}
#define X(n, ...) extern "C" void vfh_##n() { rt<__VA_ARGS__>(); }
RW_TYPES(X)
