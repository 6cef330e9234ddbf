// H01: hashed reader. The underlying stream delivers arbitrary bytes in arbitrary pieces, or fails.
// The hash of every payload is an unknown value; a byte may be delivered only on paths
// on which the comparison of the stored hash with the computed one is known to have succeeded.
#include "vf.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/HashingSerializable.h"
#include <cstring>
#include <array>
using namespace awl::io;
enum { B = 8, H = 2 };
// bytes of the blocks delivered so far by the underlying stream (payload only) in order, and the block they belong to
VFG(int, nblk, 0) VFG(int, npay, 0) VFG(int, got, 0) VFG(int, end, 0) VFG(int, failed, 0) VFG(int, hashed, 0)
extern "C" { uint8_t vfg_pay[64]; int vfg_blkof[64]; int vfg_bad[8];      // vfg_bad: 1 = raised an error, bytes may never be delivered
uint8_t vfg_stored[8][H], vfg_calc[8][H]; int vfg_len[8], vfg_hashok[8]; }

struct In
{
    bool End() { return false; }
    size_t Read(uint8_t* p, size_t n)
    {
        vf_assert(n <= B, "H01.block-size", "more than one block is read at a time");
        static const int ks[] = {0, 1, 2, 3, 8}; int c = vf_choice(6, "underlying read: 0 end 1,2,3,8 bytes 5 throws");
        if (vfg_nblk == 3) c = 0;
        if (c == 5) { vfg_failed = 1; throw IoError("underlying"); }
        size_t k = ks[c]; if (k > n) k = n;
        if (k == 0) { vfg_end = 1; return 0; }
        int b = vfg_nblk++; vfg_len[b] = (int)k;
        for (size_t i = 0; i < k; i++) { uint8_t v; vf_symbolic(&v, 1, "byte"); p[i] = v; if (i + H < k) { vfg_blkof[vfg_npay] = b; vfg_pay[vfg_npay++] = v; } else if (k >= H) vfg_stored[b][i - (k - H)] = v; }
        return k;
    }
};
struct Hash
{
    using value_type = std::array<uint8_t, H>;
    static constexpr size_t size() { return H; }
    int seed = 0;
    template <class It> value_type operator()(It b, It e) const
    {
        vf_assert(seed == 7, "H01.own-hash", "a block is verified with an object other than the configured hash");
        // which block is hashed: it must be exactly the payload of the last one read
        int k = vfg_nblk - 1; int first = vfg_npay - (vfg_len[k] - H);
        bool same = (e - b) == vfg_len[k] - H;
        if (same) for (int i = 0; i < vfg_len[k] - H; i++) vf_assert(*(b + i) == vfg_pay[first + i], "H01.hash-of-payload", "the hash is computed over something other than the block's payload");
        vf_assert(same, "H01.hash-of-payload", "the hash is computed over something other than the block's payload");
        vfg_hashok[k] = same; value_type v; for (int i = 0; i < H; i++) { uint8_t h; vf_symbolic(&h, 1, "hash"); v[i] = h; vfg_calc[k][i] = v[i]; }
        return v;
    }
};
static void client(HashInputStream<Hash, In>& s, int n, bool& again)
{
    uint8_t buf[16]; size_t r = 0; int nb = vfg_nblk; vfg_failed = 0; vfg_end = 0;
    try { r = s.Read(buf, n); }
    catch (const IoException&) { if (!vfg_failed) vfg_bad[vfg_nblk - 1] = 1; vfg_got = vfg_npay; /* what was buffered went into the failed request */ vf_cover("corruption or failure raised"); return; }
    catch (...) { vf_assert(false, "H01.io-exception", "reading ends with an exception that is not an I/O exception"); return; }
    vf_assert(r <= (size_t)n, "H01.bounds", "more bytes are reported than requested");
    for (size_t i = 0; i < r; i++)
    {
        // skip payload of blocks that raised an error, the reader must skip them as well
        while (vfg_got < vfg_npay && vfg_bad[vfg_blkof[vfg_got]]) vfg_got++;
        vf_assert(vfg_got < vfg_npay, "H01.only-verified", "a byte is delivered that belongs to no verified block");
        if (vfg_got >= vfg_npay) return;
        int b = vfg_blkof[vfg_got];
        vf_assert(vfg_hashok[b] && vfg_stored[b][0] == vfg_calc[b][0] && vfg_stored[b][1] == vfg_calc[b][1], "H01.only-verified", "a byte is delivered although the stored hash of its block is not known to equal the computed one");
        vf_assert(buf[i] == vfg_pay[vfg_got], "H01.delivered-in-order", "the delivered byte is not the next verified one");
        vfg_got++; vf_cover("byte delivered");
    }
    if (r < (size_t)n) { vf_assert(vfg_end || vfg_len[vfg_nblk - 1] == H, "H01.end-at-boundary", "fewer bytes than requested are delivered although the underlying stream is not at its end"); int b = vfg_nblk - 1;
        if (b >= 0) vf_assert(vfg_bad[b] || vfg_len[b] >= H, "H01.end-at-boundary", "end of stream is reported after a trailing fragment that cannot hold a hash"); vf_cover("end of stream"); again = false; }
}
extern "C" void vfh_read()
{
    In in; HashInputStream<Hash, In> s(in, B, Hash{7}); bool again = true;
    static const int ns[] = {1, 4, 9};
    client(s, ns[vf_choice(3, "first request: 1 4 9")], again);
    if (again) client(s, ns[vf_choice(3, "second request: 1 4 9")], again);
}
extern "C" void vfh_end()
{
    In in; HashInputStream<Hash, In> s(in, B, Hash{7}); bool again = true, e = false;
    try { e = s.End(); } catch (const IoException&) { if (!vfg_failed) vfg_bad[vfg_nblk - 1] = 1; }
    if (e) vf_assert(vfg_end || vfg_len[0] == H, "H01.end-at-boundary", "end of stream is reported although the underlying stream is not at its end");
    client(s, 4, again);
}
// the wrapper must read its value through a verifying stream with the configured block size and hash
struct Out { void Write(const uint8_t*, size_t) {} };
using HIn = HashInputStream<Hash, In>; using HOut = HashOutputStream<Hash, Out>;
struct Val : Serializable<HIn, HOut> { void Read(HIn& s) override { bool again = true; client(s, 4, again); } void Write(HOut&) const override {} };
extern "C" void vfh_wrapper() { In in; Val v; HashingSerializable<In, Out, Hash> w(v, B, Hash{7}); try { w.Read(in); } catch (const IoException&) {} }
// control: a reader that does not compare
struct NoCheck : HashInputStream<Hash, In> { using HashInputStream::HashInputStream; };
extern "C" void vfh_ctl_unchecked() { In in; uint8_t buf[8]; in.Read(buf, B); if (vfg_npay) vf_assert(vfg_stored[0][0] == vfg_calc[0][0], "H01.only-verified", "control"); }
