// S06: the underlying stream fails at any read or write of any wrapper.
#include "wrappers.h"
static Val src;
template <class W> static int count() { Val v = value("ab"); Sink s; W(v).Write(s); int n = vfg_writes; vfg_writes = 0; vfg_n = 0; return n; }
static int from(int n, int last) { return n < last ? 0 : n - last; }
template <class W> static void writing()
{
    int n = count<W>(); Val v = value("ab"); Val was = v; vfg_throwkind = vf_choice(3, "failure"); vfg_wsticky = vf_choice(2, "later writes fail too"); vfg_wthrowat = from(n, 20) + vf_choice(std::min(n, 20), "failing write"); Sink s; bool failed = false; const W w(v);
    try { w.Write(s); } catch (const IoError&) { failed = vfg_throwkind == 0; } catch (const std::bad_alloc&) { failed = vfg_throwkind == 1; } catch (int) { failed = vfg_throwkind == 2; } catch (...) { }
    vf_assert(vfg_thrown, "S06.parts", "no write has failed"); vf_assert(failed, "S06.reported", "a failed write of the underlying stream does not reach the caller"); vf_assert(same(v, was), "S06.unchanged", "writing an object changes it"); vf_cover("write failed");
}
template <class W> static void reading()
{
    Val o = value("ab"); { Sink s; W(o).Write(s); } { Val t; Play in; W(t).Read(in); } int n = vfg_reads; vfg_reads = 0; vfg_pos = 0; Val v = value("previous"); Val was = v;
    vfg_throwkind = vf_choice(3, "failure"); vfg_throwat = from(n, 20) + vf_choice(std::min(n, 20), "failing read"); Play in; bool failed = false; W w(v);
    try { w.Read(in); } catch (const IoError&) { failed = vfg_throwkind == 0; } catch (const std::bad_alloc&) { failed = vfg_throwkind == 1; } catch (int) { failed = vfg_throwkind == 2; } catch (...) { }
    vf_assert(vfg_thrown, "S06.parts", "no read has failed"); vf_assert(failed, "S06.reported", "a failed read of the underlying stream does not reach the caller"); vf_assert(same(v, was), "S06.unchanged", "a failed read changes the object"); vf_cover("read failed");
}
#define W(n, t) extern "C" void vfh_write_##n() { writing<t>(); }
#define R(n, t) extern "C" void vfh_read_##n() { reading<t>(); }
W(plain, Pl) W(versions, Vt) W(hashing, Hs) W(euphoric, Eu) W(snapshot, Sn) W(headered, He)
R(plain, Pl) R(versions, Vt) R(hashing, Hs) R(euphoric, Eu) R(headered, He)
// the hashing stream itself: a block fails inside a write, in an explicit flush, or only in the destructor
extern "C" void vfh_stream()
{
    vfg_wthrowat = vf_choice(4, "failing block"); vfg_wsticky = vf_choice(2, "later blocks fail too"); vfg_throwkind = vf_choice(3, "failure"); Sink s; uint8_t b[25]; for (int i = 0; i < 25; i++) b[i] = sym<uint8_t>();
    { HashOutputStream<Hash2, Sink> o(s, 10); int flush = vf_choice(2, "flushed");
    for (int k = 0; k < 2; k++) { int was = vfg_thrown; bool failed = false; try { o.Write(b, k ? 25 : 3); } catch (...) { failed = true; } vf_assert(failed == (vfg_thrown > was), "S06.reported", "a failed block is not reported by the write that emits it"); }
    if (flush) { int was = vfg_thrown; bool failed = false; try { o.Flush(); } catch (...) { failed = true; } vf_assert(failed == (vfg_thrown > was), "S06.reported", "a failed last block is not reported by the flush"); } }
    vf_cover("stream finished");
}
// the stream is destroyed while another exception is on its way
extern "C" void vfh_unwinding()
{
    vfg_wthrowat = 0; vfg_wsticky = 1; vfg_throwkind = vf_choice(3, "failure"); Sink s; uint8_t b[3] = {1, 2, 3}; bool own = false;
    try { HashOutputStream<Hash2, Sink> o(s, 10); o.Write(b, 3); throw 'x'; } catch (char) { own = true; } catch (...) { } vf_assert(own, "S06.reported", "another exception reaches the caller");
    vf_cover("stream finished");
}
struct Thrower { ~Thrower() noexcept { throw 1; } };
extern "C" void vfh_ctl_terminate() { Thrower t; }
extern "C" void vfh_ctl_swallowed() { Val v = value("ab"); Sink s; vfg_wthrowat = 0; bool failed = false; { HashOutputStream<Hash2, Sink> o(s, 64); Write(o, v); } vf_assert(failed == (vfg_thrown > 0), "S06.reported", "control"); }
