// S08: the two files behind a storage and behind a persistent object.
#include "wrappers.h"
#include "posixfs.h"
#include <cstring>
#include <filesystem>
#include "Awl/Io/NativeStream.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/OptionalStorage.h"
#include "Awl/Io/PersistentObject.h"
// ---- two files, known by their names ----
enum { CAP = 512 };
struct Fl { int exists; long size; int open; };
VFG(Fl, m, {}) VFG(Fl, b, {}) VFG(long, posm, 0) VFG(long, posb, 0) VFG(int, opens, 0) VFG(int, removed, 0) VFG(int, calls, 0) VFG(int, err, 0) VFG(int, nofile, 0)
static uint8_t vfd_m[CAP], vfd_b[CAP];
static const char *mname = "set.dat", *bname = "set.bak";
static bool is(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static Fl* byname(const char* p) { if (is(p, mname)) return &vfg_m; if (is(p, bname)) return &vfg_b; vf_assert(false, "S08.names", "a file is used that is neither of the two the caller named"); return nullptr; }
static Fl& fl(int fd) { vfg_calls++; vf_assert(fd == 3 || fd == 4, "S08.names", "a descriptor is used that belongs to neither file"); return fd == 3 ? vfg_m : vfg_b; }
static long& at(int fd) { return fd == 3 ? vfg_posm : vfg_posb; }
static uint8_t* bytes(int fd) { return fd == 3 ? vfd_m : vfd_b; }
extern "C" {
int* __errno_location() { return &vfg_err; }
int access(const char* p, int) { Fl* f = byname(p); if (f && f->exists) return 0; vfg_err = ENOENT; return -1; }
int open(const char* p, int fl, ...)
{
    Fl* f = byname(p); if (!f) return -1;
    if ((!f->exists && !(fl & O_CREAT)) || (f->exists && (fl & O_CREAT) && (fl & O_EXCL))) { vfg_err = f->exists ? EEXIST : ENOENT; return -1; }
    if (vfg_nofile == (f == &vfg_m ? 1 : 2)) { vfg_err = EACCES; return -1; }
    if (fl & O_TRUNC) f->size = 0;
    int fd = f == &vfg_m ? 3 : 4; f->exists = 1; f->open = 1; at(fd) = 0; vfg_opens++; return fd;
}
int close(int fd) { Fl& f = fl(fd); vf_assert(f.open == 1, "S08.released", "a file is closed that is not open"); f.open = 0; return 0; }
int fstat(int fd, struct stat* st) { Fl& f = fl(fd); st->st_size = f.size; return 0; }
off_t lseek(int fd, off_t o, int wh) { Fl& f = fl(fd); long& p = at(fd); if (wh == SEEK_SET) p = o; else if (wh == SEEK_CUR) p = p + o; else p = f.size + o; return p; }
ssize_t read(int fd, void* d, size_t n) { Fl& f = fl(fd); long& p = at(fd); if (p >= f.size) return 0; if ((long)n > f.size - p) n = (size_t)(f.size - p); memcpy(d, bytes(fd) + p, n); p += (long)n; return (ssize_t)n; }
ssize_t write(int fd, const void* s, size_t n) { Fl& f = fl(fd); long& p = at(fd); if (p + (long)n > CAP) { vf_assert(false, "S08.model", "the model of the file is too small"); return -1; } memcpy(bytes(fd) + p, s, n); p += (long)n; if (f.size < p) f.size = p; return (ssize_t)n; }
int ftruncate(int fd, off_t len) { fl(fd).size = len; return 0; }
int fsync(int fd) { fl(fd); return 0; }
int fdatasync(int fd) { fl(fd); return 0; }
int unlink(const char* p) { Fl* f = byname(p); if (!f || !f->exists) { vfg_err = ENOENT; return -1; } vf_assert(!f->open, "S08.released", "a file is deleted while it is open"); f->exists = 0; f->size = 0; vfg_removed++; return 0; }
int remove(const char* p) { return unlink(p); }
}
namespace std::filesystem
{
    inline namespace __cxx11 { void path::_M_split_cmpts() {} path::_List::_List() {} void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {} }
    bool remove(const path& p) { return ::unlink(p.native().c_str()) == 0; }
    bool remove(const path& p, error_code&) noexcept { return ::unlink(p.native().c_str()) == 0; }
}
struct Lg : awl::Logger { void log(awl::LogLevel, awl::LogString) override {} };
static int files() { return vfg_m.open + vfg_b.open; }

// ---- a storage ----
struct Raw : Serializable<>
{
    int v = 0, n = 1;
    void Read(SequentialInputStream& s) override { uint8_t c; if (s.Read(&c, 1) != 1) throw EndOfFileException(1, 0); int k = c; int got[3]; if (k > 3) throw CorruptionException(); for (int i = 0; i < k; i++) if (s.Read((uint8_t*)&got[i], 4) != 4) throw EndOfFileException(4, 0); n = k; v = got[0]; }
    void Write(SequentialOutputStream& s) const override { uint8_t c = (uint8_t)n; s.Write(&c, 1); for (int i = 0; i < n; i++) s.Write((const uint8_t*)&v, 4); }
};
template <class St> static void names()
{
    Lg log; vfg_m = {vf_choice(2, "main existed"), 0, 0}; vfg_b = {vf_choice(2, "backup existed"), 0, 0}; if (vfg_m.exists) vfg_m.size = vf_choice(2, "main not empty") * 9; if (vfg_b.exists) vfg_b.size = vf_choice(2, "backup not empty") * 9; bool ex = vfg_m.exists || vfg_b.exists;
    { St st(log); vf_assert(!st.IsOpened() && vfg_calls == 0, "S08.opened", "a storage that was never opened says it is open"); bool r = st.Open("set.dat", "set.bak");
    vf_assert(st.IsOpened() && files() == 2, "S08.opened", "an opened storage does not hold its two files"); vf_assert(r == ex, "S08.existed", "open does not report whether one of the files existed");
    vf_assert(st.IsEmpty() == (vfg_m.size == 0 && vfg_b.size == 0), "S08.empty", "a storage is empty exactly when both files are");
    if (vf_choice(2, "closed")) { st.Close(); vf_assert(!st.IsOpened() && files() == 0, "S08.released", "closing a storage does not release its files"); } }
    vf_assert(files() == 0, "S08.released", "a file stays open after its storage is gone"); vf_cover("opened");
}
extern "C" void vfh_constructed()
{
    Lg log; vfg_m.exists = vf_choice(2, "main existed"); vfg_nofile = vf_choice(3, "0 both can be opened 1 main cannot 2 backup cannot");
    { OptionalStorage st(log, "set.dat", "set.bak"); vf_assert(st.IsOpened() == !vfg_nofile && files() == (vfg_nofile ? 0 : 2), "S08.opened", "a storage constructed with two names does not hold its two files");
    OptionalStorage to(log); to = std::move(st); vf_assert(to.IsOpened() == !vfg_nofile && !st.IsOpened() && files() == (vfg_nofile ? 0 : 2), "S08.opened", "a moved storage does not hold the two files"); }
    vf_assert(files() == 0, "S08.released", "a file stays open after its storage is gone"); vf_cover("opened");
}
extern "C" void vfh_names() { names<AtomicStorage>(); }
extern "C" void vfh_names_optional() { names<OptionalStorage>(); }
// saved and loaded again and again: the value last saved is the value loaded
template <class St> static void again()
{
    Lg log; vfg_m = {}; vfg_b = {}; Raw a; bool any = false; int last = 0, len = 1;
    { St st(log); st.Open("set.dat", "set.bak");
    for (int k = 0; k < 3; k++) switch (vf_choice(3, "0 save 1 load 2 reopen"))
    {
    case 0: a.v = last = sym<int>(); a.n = len = 1 + vf_choice(2, "length"); st.Save(a); any = true; vf_assert(vfg_b.size == 0 && vfg_m.size == 1 + 4 * len, "S08.last-saved", "after a save the main file is not exactly the value, or the backup is not empty"); break;
    case 1: { Raw r; r.v = -7; bool ok = st.Load(r); vf_assert(ok == any, "S08.last-saved", "loading reports success exactly when something was saved"); vf_assert(!any || (::eq(r.v, last) && r.n == len), "S08.last-saved", "the loaded value is not the one saved last"); vf_assert(any || r.v == -7, "S08.last-saved", "a load that finds nothing changes the value"); break; }
    case 2: st.Close(); st.Open("set.dat", "set.bak"); break;
    } }
    vf_assert(files() == 0, "S08.released", "a file stays open after its storage is gone"); vf_cover("saved and loaded");
}
extern "C" void vfh_again() { again<AtomicStorage>(); }
extern "C" void vfh_again_optional() { again<OptionalStorage>(); }

// ---- a persistent object ----
struct Set { int a = 5; bool b = true; AWL_REFLECT(a, b) };
struct Hash8 { using value_type = std::array<uint8_t, 2>; static constexpr size_t size() { return 2; } template <class It> value_type operator()(It b, It e) const { return {0x5a, (uint8_t)(e - b)}; } };
// what it does with its storage
VFG(int, sopen, 0) VFG(int, sloads, 0) VFG(int, ssaves, 0) VFG(int, sclosed, 0) VFG(int, what, 0) VFG(const void*, val, nullptr)
struct Spy
{
    Spy(awl::Logger& l) { vf_assert((const void*)&l == vfg_val, "S08.names", "the storage does not get the caller's logger"); }
    bool Open(const awl::String& m, const awl::String& b) { vf_assert(m == "dir/set.dat" && b == "dir/set.bak", "S08.names", "a persistent object opens other files than <name>.dat as the main and <name>.bak as the backup file"); vfg_sopen = 1; if (vfg_what == 2) throw IoError("open"); return vfg_what == 1; }
    bool Load(Serializable<>&) { vfg_sloads++; if (vfg_what == 2) throw IoError("load"); return vfg_what == 1; }
    void Save(const Serializable<>&, awl::IMutex*) { vfg_ssaves++; if (vfg_what == 2) throw IoError("save"); }
    void Close() { vfg_sclosed++; vfg_sopen = 0; }
    bool IsOpened() const { return vfg_sopen; }
};
extern "C" void vfh_forwards()
{
    Lg log; vfg_val = &log; mname = "dir/set.dat"; bname = "dir/set.bak"; int m = vf_choice(2, "the main file exists"), b = vf_choice(2, "the backup file exists"); vfg_m.exists = m; vfg_b.exists = b;
    PersistentObject<Set, Spy, Hash8> o(log, Header{"form", 3}, 64); const auto& c = o; vfg_what = vf_choice(3, "the storage answers 0 no 1 yes 2 throws"); bool thrown = false, r = false; int op = vf_choice(5, "operation"); awl::String name = "dir/set";
    vf_assert(!o.is_open(), "S08.opened", "a persistent object that was never opened says it is open"); vfg_sopen = op != 0;
    try { switch (op) { case 0: r = o.open(name); break; case 1: r = o.load(); break; case 2: o.save(); break; case 3: o.close(); break; case 4: o.remove(name); break; } } catch (const IoError&) { thrown = true; }
    if (op < 2) vf_assert(r == (vfg_what == 1), "S08.result", "a persistent object does not report what its storage reported");
    vf_assert(thrown == (op < 3 && vfg_what == 2), "S08.result", "a failure of the storage does not reach the caller");
    vf_assert(vfg_sloads == (op == 1) && vfg_ssaves == (op == 2) && vfg_sclosed == (op >= 3), "S08.result", "a persistent object uses its storage for something else than what was asked");
    vf_assert(vfg_removed == (op == 4 ? m + b : 0) && vfg_m.exists == (op == 4 ? 0 : m) && vfg_b.exists == (op == 4 ? 0 : b), "S08.removed", "removing deletes other files than the two, or something else deletes a file"); vf_assert(o.is_open() == (op < 3), "S08.opened", "a persistent object does not tell whether it is open"); vf_cover(op == 4 ? "removed" : "forwarded");
    vf_assert(&o.value() == &*o && &c.value() == &*c && &*o == &*c && &o->a == &(*o).a && &c->a == &(*c).a, "S08.one-value", "the ways to reach the value of a persistent object lead to different values");
}
using Obj = PersistentObject<Set, AtomicStorage, Hash8>; using Opt = OptionalObject<Set, Hash8>;
template <class O> static void object()
{
    Lg log; vfg_m = {}; vfg_b = {}; int a = sym<int>(); bool b = symbool(), saved = false;
    { O o(log, Header{"form", 3}, 64); vf_assert(!o.open("set"), "S08.existed", "open reports files that did not exist"); vf_assert(!o.load() && o->a == 5 && o->b, "S08.last-saved", "loading from new files reports success or changes the value");
      o.value().a = 1; if (vf_choice(2, "saved before")) o.save(); o.value().a = a; (*o).b = b; if (vf_choice(2, "saved")) { o.save(); saved = true; } else return; if (vf_choice(2, "closed")) { o.close(); vf_assert(!o.is_open() && files() == 0, "S08.released", "closing a persistent object does not release its files"); } }
    vf_assert(files() == 0, "S08.released", "a file stays open after its persistent object is gone");
    { O o(log, Header{"form", 3}, 64); vf_assert(o.open("set"), "S08.existed", "open does not report that files existed"); bool ok = o.load(); vf_assert(ok && ::eq(o->a, a) && ::eq(o->b, b), "S08.last-saved", "the loaded object is not the one saved last");
      if (vf_choice(2, "removed")) { o.remove("set"); vf_assert(!vfg_m.exists && !vfg_b.exists && !o.is_open(), "S08.removed", "a removed object still has a file"); } }
    vf_assert(files() == 0, "S08.released", "a file stays open after its persistent object is gone"); vf_cover("object");
}
extern "C" void vfh_object() { object<Obj>(); }
extern "C" void vfh_object_optional() { object<Opt>(); }
extern "C" void vfh_ctl_name() { Lg log; AtomicStorage st(log); st.Open("set.dat", "other"); }
