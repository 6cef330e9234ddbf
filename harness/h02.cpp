// H02: hashed writer. Unknown bytes, any sequence of up to three write sizes (and the wrapper's own flush),
// the underlying stream may fail at any block.
#include "vf.h"
#include <array>
#include <vector>
#include "Awl/Io/HashStream.h"
#include "Awl/Io/HashingSerializable.h"
#include <cstring>
using namespace awl::io;
enum { H = 2, P = 4, B = P + H };
VFG(int, nin, 0) VFG(int, nout, 0) VFG(int, failed, 0) VFG(int, hlen, -1) VFG(int, mayfail, 0) VFG(int, shortblk, 0)
extern "C" { uint8_t vfg_in[64], vfg_hin[8], vfg_hval[H]; }
struct Hash
{
    using value_type = std::array<uint8_t, H>;
    static constexpr size_t size() { return H; }
    int seed = 0;
    template <class It> value_type operator()(It b, It e) const
    {
        vfg_hlen = -1; int n = 0; value_type v;
        vf_assert(seed == 7, "H02.own-hash", "a block is hashed with an object other than the configured hash");
        vf_assert(e - b <= P && e - b > 0, "H02.framing", "the hash is computed over something other than one block's payload");
        for (; b != e && n < 8; ++b) vfg_hin[n++] = *b;
        vfg_hlen = n; for (int i = 0; i < H; i++) { uint8_t h; vf_symbolic(&h, 1, "hash"); v[i] = h; vfg_hval[i] = h; }
        return v;
    }
};
struct Out
{
    void Write(const uint8_t* p, size_t n)
    {
        vf_assert(n > H && n <= B, "H02.block-size", "a block is empty or larger than the block size the reader uses");
        if (!(n > H && n <= B)) return;
        int pay = (int)n - H;
        vf_assert(vfg_hlen == pay, "H02.hash-of-payload", "the hash stored with the block is not computed over exactly its payload");
        if (vfg_hlen != pay) return;
        for (int i = 0; i < pay; i++) vf_assert(p[i] == vfg_hin[i], "H02.hash-of-payload", "the hash stored with the block is not computed over exactly its payload");
        for (int i = 0; i < H; i++) vf_assert(p[pay + i] == vfg_hval[i], "H02.hash-of-payload", "the hash stored with the block is not the computed one");
        if (!vfg_failed)
        {
            vf_assert(!vfg_shortblk, "H02.full-blocks", "a block follows an incomplete one: the reader cannot find the boundary");
            vf_assert(vfg_nout + pay <= vfg_nin, "H02.once", "more bytes are emitted than were written");
            for (int i = 0; i < pay && vfg_nout + i < vfg_nin; i++) vf_assert(p[i] == vfg_in[vfg_nout + i], "H02.in-order", "the emitted byte is not the next written one");
        }
        if (vfg_mayfail && vf_choice(2, "underlying write: 0 ok 1 throws")) { vfg_failed = 1; throw IoError("underlying"); }
        vfg_nout += pay; if (pay < P) vfg_shortblk = 1;
    }
};
template <class S> static void put(S& s, int n)
{
    uint8_t buf[12];
    for (int i = 0; i < n; i++) { uint8_t b; vf_symbolic(&b, 1, "byte"); buf[i] = b; vfg_in[vfg_nin++] = b; }
    s.Write(buf, n);
}
template <class S> static void put_any(S& s) { static const int ns[] = {0, 1, 3, 4, 6, 9}; put(s, ns[vf_choice(6, "write size: 0 1 3 4 6 9")]); }
static void all_out()
{
    vf_assert(vfg_failed || vfg_nout == vfg_nin, "H02.all-emitted", "bytes given to the stream were not emitted before it finished");
    vf_cover("all emitted");
}
extern "C" void vfh_stream()
{
    Out o; { HashOutputStream<Hash, Out> s(o, B, Hash{7}); put_any(s); put_any(s); put_any(s); } all_out();
}
// a failing block must be reported by the write that emits it, the stream stays well framed
extern "C" void vfh_fail()
{
    Out o; vfg_mayfail = 1; int thrown = 0;
    { HashOutputStream<Hash, Out> s(o, B, Hash{7});
    for (int i = 0; i < 2; i++) try { put_any(s); vf_assert(!vfg_failed || thrown, "H02.failure-reported", "a write that failed underneath returns normally"); } catch (const IoError&) { vf_cover("failure reported"); thrown = 1; } }
}
struct Val : Serializable<HashInputStream<Hash, SequentialInputStream>, HashOutputStream<Hash, Out>>
{
    void Read(HashInputStream<Hash, SequentialInputStream>&) override {}
    void Write(HashOutputStream<Hash, Out>& s) const override { put_any(s); put_any(s); }
};
struct W : HashingSerializable<SequentialInputStream, Out, Hash>
{
    using Base = HashingSerializable<SequentialInputStream, Out, Hash>; using Base::Base;
    void WriteHeader(Base::HashOStream& s) const override { put(s, 3); }
    void snap(Out& o, const std::vector<uint8_t>& v) { WriteSnapshotImpl(o, v); }
};
extern "C" void vfh_wrapper() { Out o; Val v; W w(v, B, Hash{7}); vfg_mayfail = 1; try { w.Write(o); vf_assert(!vfg_failed, "H02.failure-reported", "a write that failed underneath returns normally"); all_out(); } catch (const IoError&) { } }
extern "C" void vfh_snapshot()
{
    Out o; Val v; W w(v, B, Hash{7}); static const int ns[] = {0, 1, 5, 10}; int n = ns[vf_choice(4, "snapshot size: 0 1 5 10")];
    std::vector<uint8_t> d; d.resize(n);
    vfg_mayfail = 1; uint8_t bytes[10]; for (int i = 0; i < n; i++) { uint8_t b; vf_symbolic(&b, 1, "byte"); d[i] = b; bytes[i] = b; }
    // the header comes first: reserve its place in the expected order
    vfg_nin = 3; for (int i = 0; i < n; i++) vfg_in[vfg_nin++] = bytes[i];
    struct W2 : W { using W::W; void WriteHeader(HashOStream& s) const override { uint8_t h[3]; for (int i = 0; i < 3; i++) { uint8_t b; vf_symbolic(&b, 1, "byte"); h[i] = b; vfg_in[i] = b; } s.Write(h, 3); } } w2(v, B, Hash{7});
    try { w2.snap(o, d); vf_assert(!vfg_failed, "H02.failure-reported", "a write that failed underneath returns normally"); all_out(); } catch (const IoError&) { }
}
extern "C" void vfh_ctl_lost() { Out o; { HashOutputStream<Hash, Out> s(o, B, Hash{7}); put_any(s); all_out(); } }
