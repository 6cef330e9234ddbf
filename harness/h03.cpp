// H03: buffered streams (no checksum) pass everything through, in order and exactly once.
#include "vf.h"
#include <array>
#include <cstring>
#include "Awl/Io/BufferedStream.h"
using namespace awl::io;
enum { MAX = 8 + 4 * DEEP };
extern "C" { uint8_t vfg_data[MAX] = {}, vfg_out[16] = {}; } VFG(int, len, 0) VFG(int, pos, 0) VFG(int, total, 0) VFG(int, failed, 0) VFG(int, mayfail, 0) VFG(int, block, 1) VFG(int, ended, 0)
struct In : SequentialInputStream
{
    bool End() override { return vfg_pos == vfg_len; }
    size_t Read(uint8_t* p, size_t n) override
    {
        vf_assert(n >= 1 && n <= static_cast<size_t>(vfg_block), "H03.block", "more than a block, or nothing, is read at a time"); if (vfg_mayfail && vf_choice(2, "reading fails")) { vfg_failed = 1; throw IoError("in"); }
        size_t rest = static_cast<size_t>(vfg_len - vfg_pos), k = rest < n ? rest : n; if (k > 1 && vf_choice(2, "a short read")) k = 1;
        for (size_t i = 0; i < k; i++) p[i] = vfg_data[vfg_pos++]; return k;
    }
};
extern "C" void vfh_read()
{
    vfg_len = vf_choice(5, "length"); vfg_block = vf_choice(3, "block") + 1; vfg_mayfail = vf_choice(2, "reading may fail"); for (int i = 0; i < vfg_len; i++) { uint8_t v; vf_symbolic(&v, 1, "byte"); vfg_data[i] = v; }
    In in; BufferedInputStream b(in, static_cast<size_t>(vfg_block)); int at = 0;
    try
    {
        for (int step = 0; step < 3 + DEEP; step++)
        {
            if (vf_choice(2, "asks for the end")) { bool e = b.End(); vf_assert(e == (at == vfg_len), "H03.end", "the end is reported although something is left, or not reported"); }
            uint8_t t[5] = {0xee, 0xee, 0xee, 0xee, 0xee}; int n = vf_choice(5, "read"); size_t k = b.Read(t, static_cast<size_t>(n)); int want = vfg_len - at < n ? vfg_len - at : n;
            vf_assert(k == static_cast<size_t>(want), "H03.count", "a read delivers less than is there, or more than was asked for"); for (int i = 0; i < want; i++) vf_assert(t[i] == vfg_data[at + i], "H03.bytes", "other bytes are delivered than those of the stream"); for (int i = want; i < 5; i++) vf_assert(t[i] == 0xee, "H03.bytes", "bytes are written behind the end of the request"); at += want;
        }
        vf_assert(!vfg_failed, "H03.failure", "a failure of the underlying stream is lost"); vf_cover("read");
    }
    catch (const IoError&) { vf_assert(vfg_failed, "H03.failure", "a failure is invented"); vf_cover("failure seen"); }
}
struct Out : SequentialOutputStream
{
    void Write(const uint8_t* p, size_t n) override
    {
        vf_assert(n <= static_cast<size_t>(vfg_block), "H03.block", "more than a block is written at a time"); vf_assert(!vfg_failed || n == 0, "H03.failure", "something is written after a failure"); if (vfg_mayfail && vf_choice(2, "writing fails")) { vfg_failed = 1; throw IoError("out"); }
        for (size_t i = 0; i < n; i++) { vf_assert(vfg_total < MAX, "H03.bytes", "more is written than was asked for"); vfg_out[vfg_total++] = p[i]; }
    }
};
static void same(const char* m) { vf_assert(vfg_total == vfg_len, "H03.all", m); for (int i = 0; i < vfg_len; i++) vf_assert(vfg_out[i] == vfg_data[i], "H03.bytes", "other bytes are written than those that were given"); }
extern "C" void vfh_write()
{
    vfg_block = vf_choice(3, "block") + 1; vfg_mayfail = vf_choice(2, "writing may fail"); Out o; bool seen = false;
    {
        BufferedOutputStream b(o, static_cast<size_t>(vfg_block));
        try
        {
            for (int step = 0; step < 3 + DEEP; step++)
            {
                int n = vf_choice(step == 1 ? 5 : 3, "write"); uint8_t t[4]; for (int i = 0; i < n; i++) { uint8_t v; vf_symbolic(&v, 1, "byte"); t[i] = v; if (vfg_len < MAX) vfg_data[vfg_len++] = v; } b.Write(t, static_cast<size_t>(n));
                for (int i = 0; i < n; i++) t[i] = 0; vf_assert(vfg_total <= vfg_len, "H03.bytes", "more is written than was asked for");
                if (vf_choice(2, "flushed")) { b.Flush(); same("a flush leaves something in the buffer"); }
            }
            vf_assert(!vfg_failed, "H03.failure", "a failure of the underlying stream is lost");
        }
        catch (const IoError&) { seen = true; vf_assert(vfg_failed, "H03.failure", "a failure is invented"); vf_cover("failure seen"); }
    }
    if (!vfg_failed) { same("the destructor leaves something in the buffer"); vf_cover("written"); } (void)seen;
}
extern "C" void vfh_ctl_lost() { vfg_len = 1; same("control"); }
