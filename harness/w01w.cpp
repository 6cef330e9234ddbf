// W01: the wrappers read what they write.
#include "wrappers.h"
template <class W, class R = W> static void trip()
{
    Val o = value("ab"), v = value("previous"); { Sink s; const W w(o); w.Write(s); } Play in; R r(v);
    try { r.Read(in); } catch (...) { vf_assert(false, "W01.accepted", "a wrapper refuses what it has written"); return; }
    vf_assert(vfg_pos == vfg_n, "W01.consumes-all", "the wrapper does not consume exactly what it has written"); vf_assert(same(v, o), "W01.same-value", "the read value differs from the written one"); vf_cover("wrapper round trip");
}
#define W(n, ...) extern "C" void vfh_##n() { trip<__VA_ARGS__>(); }
W(plain, Pl) W(versions, Vt) W(hashing, Hs) W(euphoric, Eu) W(snapshot, Sn, Eu) W(headered, He)
struct HeSn : He { using He::He; void Write(Sink& s) const { WriteSnapshot(s, MakeShanshot()); } };
W(headered_snapshot, HeSn, He)
