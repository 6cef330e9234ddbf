// S04: results and arguments of every file-stream operation.
#include "fdmodel.h"
#include "Awl/Io/NativeStream.h"
using namespace awl::io;
static Fd& setup(UniqueStream& s)
{
    vfg_exists = 1; vfg_nofail = 1; s = CreateUniqueFile("f"); vfg_nofail = 0; vfg_failed = 0; vfg_want = vfg_nextfd - 1;
    Fd& f = fdof(vfg_want); f.pos = (long)(vf_nondet("pos") & 0xffffffffffffLL); f.size = (long)(vf_nondet("size") & 0xffffffffffffLL); f.flushed = 0; vfg_ncalls = 0; vfg_shorts = 0; return f;
}
#define RUN(...) bool ok = false; try { __VA_ARGS__; ok = true; } catch (const IoException&) {} catch (...) { vf_assert(false, "S04.io-exception", "a failed file operation ends with an exception that is not an I/O exception"); } \
    vf_assert(ok ? !vfg_failed : true, "S04.error-reported", "a file operation returns normally although a system call it made failed"); vfg_want = -2; vfg_nofail = 1;
#define EFFECT(c, m) if (ok) { vf_assert(c, "S04.effect", m); vf_cover(m); } else vf_cover("failure " m);
static uint8_t buf[8];
static size_t amount() { switch (vf_choice(6, "count: 0 one 1 ten 2 64K 3 2G+1 4 none 5 64K-1")) { case 0: return 1; case 1: return 10; case 2: return 65536; case 3: return 0x80000001ull; case 4: return 0; default: return 65535; } }
extern "C" void vfh_write()
{
    UniqueStream s; setup(s); size_t n = amount(); vfg_src = buf; vfg_done = 0; vfg_total = n;
    RUN(s.Write(buf, n)) EFFECT(vfg_done == n, "write stores all bytes")
}
extern "C" void vfh_read()
{
    UniqueStream s; setup(s); size_t n = amount(), r = 0; vfg_src = buf; vfg_done = 0; vfg_total = n;
    RUN(r = s.Read(buf, n)) EFFECT(r == vfg_done, "read reports the delivered bytes")
    vf_assert(!ok || vfg_ncalls > 0 || n == 0, "S04.effect", "read returns without asking the system");
}
extern "C" void vfh_seek()
{
    UniqueStream s; Fd& f = setup(s); size_t p = vf_nondet("to") & 0xffffffffffffLL; bool begin = vf_choice(2, "from begin");
    long sz = f.size; RUN(s.Seek(p, begin)) EFFECT(f.pos == (begin ? (long)p : sz + (long)p) && f.size == sz, "seek sets the position")
}
extern "C" void vfh_seek_default()
{
    UniqueStream s; Fd& f = setup(s); size_t p = vf_nondet("to") & 0xffffffffffffLL; RUN(s.Seek(p)) EFFECT(f.pos == (long)p, "seek is from the beginning by default")
}
extern "C" void vfh_move()
{
    UniqueStream s; Fd& f = setup(s); ptrdiff_t o = (ptrdiff_t)vf_nondet("by"); long old = f.pos; vf_assume(old + o != -1);
    RUN(s.Move(o)) EFFECT(f.pos == old + o, "move shifts the position")
}
extern "C" void vfh_flush() { UniqueStream s; Fd& f = setup(s); RUN(s.Flush()) EFFECT(f.flushed, "flush syncs the file") }
extern "C" void vfh_truncate() { UniqueStream s; Fd& f = setup(s); long p = f.pos; RUN(s.Truncate()) EFFECT(f.size == p && f.pos == p, "truncate cuts at the position") }
extern "C" void vfh_length() { UniqueStream s; Fd& f = setup(s); size_t r = 0; long p = f.pos, z = f.size; RUN(r = s.GetLength()) EFFECT((long)r == z && f.pos == p, "length is the file size") }
extern "C" void vfh_position() { UniqueStream s; Fd& f = setup(s); size_t r = 0; long p = f.pos; RUN(r = s.GetPosition()) EFFECT((long)r == p && f.pos == p, "position is the file position") }
extern "C" void vfh_end() { UniqueStream s; Fd& f = setup(s); bool r = false; long p = f.pos, z = f.size; RUN(r = s.End()) EFFECT(r == (p == z) && f.pos == p, "end means position equals length") }
extern "C" void vfh_create()
{
    awl::String name = "f"; vfg_exists = vf_choice(2, "file exists"); int ex = vfg_exists; vfg_wantname = name.c_str(); UniqueFileHandle h;
    RUN(h = CreateUniqueFile(name)) EFFECT((int)(HANDLE)h == vfg_nextfd - 1 && live((HANDLE)h), "create opens the file")
    if (ok)
    {
        vf_assert((vfg_flags & O_ACCMODE) == O_RDWR && (vfg_flags & O_CREAT) && !(vfg_flags & (O_TRUNC | O_APPEND)), "S04.open-flags", "the file is not opened for reading and writing with its content kept");
        vf_assert(OpenedExisting() == (ex != 0), "S04.existed", "it is misreported whether the file existed before it was opened");
    }
}
extern "C" void vfh_openro()
{
    awl::String name = "f"; vfg_exists = vf_choice(2, "file exists"); vfg_wantname = name.c_str(); UniqueFileHandle h;
    RUN(h = OpenUniqueFile(name)) EFFECT((int)(HANDLE)h == vfg_nextfd - 1 && live((HANDLE)h), "open opens the file")
    if (ok) vf_assert(!(vfg_flags & (O_TRUNC | O_APPEND | O_CREAT)) && (vfg_flags & O_ACCMODE) != O_WRONLY, "S04.open-flags", "opening for reading may change the file");
}
// control: an operation that swallows the failure
extern "C" void vfh_ctl_swallow() { UniqueStream s; Fd& f = setup(s); RUN(try { s.Flush(); } catch (...) {}) EFFECT(f.flushed, "flush syncs the file") }
