// W06: a stream that ends before the value does is always reported.
#include "rwtypes.h"
template <class T> static void cut()
{
    const T w = gen<T>(); Rec out; Write(out, w);
    if (vfg_n == 0) return;
    vfg_lim = vf_choice(vfg_n, "bytes delivered before the end"); Play in; T r = Blank<T>::make();
    try { Read(in, r); vf_assert(!vfg_shortread && vfg_pos == vfg_n, "W06.reported", "the value is read successfully from a stream that ends too early"); }
    catch (const EndOfFileException&) { vf_cover("truncation reported"); }
    catch (...) { vf_assert(false, "W06.end-of-file", "a truncated stream is reported with something other than the end-of-file error"); }
    vf_assert(vfg_pos <= vfg_lim, "W06.bounded", "more bytes are consumed than the stream has");
}
#define X(n, ...) extern "C" void vfh_##n() { cut<__VA_ARGS__>(); }
RW_TYPES(X)
