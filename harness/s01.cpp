// S01/S02/S03: the two-file save protocol.
#include "posixfs.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/Snapshotable.h"
#include "Awl/OptionalMutex.h"

// ---- typestate of the two files ----
enum Content { C_OLD, C_PART, C_FULL, C_CUT, C_EMPTY, C_BAD, C_TRAIL };
enum { POS0 = 0, LA = 100, LB = 200 };
struct File { int content, flushed, complete0; long pos; long size; int seekEnd; };
VFG(File, f0, {}) VFG(File, f1, {})
VFG(int, failed, 0) VFG(int, active, 0) VFG(int, chunk, 0) VFG(int, lock, 0) VFG(int, snap, 0) VFG(int, locked_mode, 0) VFG(int, wrote, 0) VFG(int, opened, 0)
// load: what the value holds (0 nothing, 3 main, 4 backup), whether a read error happened, whether a complete copy existed
VFG(int, loading, 0) VFG(int, val, 0) VFG(int, lastread, 0) VFG(int, hadcopy, 0) VFG(int, bfail, 0) VFG(int, good, 0)
static uint8_t A[LA], B[LB];

static inline File& file(int fd) { return fd == 3 ? vfg_f0 : vfg_f1; }
static inline File& other(int fd) { return fd == 3 ? vfg_f1 : vfg_f0; }
static inline bool safe(const File& f) { return f.flushed && (f.content == C_OLD || f.content == C_CUT); }

static void modify(int fd)
{
    if (vfg_loading)
    {
        vf_assert(!vfg_failed, "S02.stop-after-error", "a file is modified after an I/O step of the load has failed");
        if (fd == 3) vf_assert(vfg_good == 4 && safe(vfg_f1), "S02.main-from-backup-only", "the main file is written although the backup has not been read as a complete value");
        else vf_assert(safe(vfg_f0) || vfg_good != 4, "S02.backup-dropped-late", "a good backup is dropped before the main file holds its value, complete and flushed");
        file(fd).flushed = 0; return;
    }
    vf_assert(!vfg_failed, "S01.stop-after-error", "a file is modified after an I/O step of the save has failed");
    if (fd == 3) vf_assert(safe(vfg_f1), "S01.backup-complete-before-main", "the main file is modified while the backup is not complete, cut to length and flushed");
    else vf_assert(safe(vfg_f0), "S01.main-complete-before-backup", "the backup is modified (or emptied) while the main file is not complete, cut to length and flushed");
    vf_assert(!vfg_lock, "S03.no-io-under-lock", "a file is modified while the caller's lock is held");
    file(fd).flushed = 0;
}
static void io() { if (vfg_active) vf_assert(!vfg_lock, "S03.no-io-under-lock", "file I/O while the caller's lock is held"); }

// a failed step while reading only makes that file unusable; a failed step while writing ends the operation
static void fail() { if (!vfg_loading || vfg_wrote) vfg_failed = 1; else vfg_bfail = 1; }
extern "C" {
int access(const char*, int) { return vf_choice(2, "access") ? -1 : 0; }
int open(const char* p, int, ...) { vfg_opened++; return p[0] == 'm' ? 3 : 4; }
int close(int) { return 0; }
int fstat(int fd, struct stat* st) { io(); if (vf_choice(2, "fstat fails")) { fail(); return -1; } st->st_size = file(fd).size; return 0; }
off_t lseek(int fd, off_t o, int wh)
{
    io(); if (vf_choice(2, "lseek fails")) { fail(); return -1; }
    File& f = file(fd);
    if (wh == SEEK_SET) f.pos = o; else if (wh == SEEK_CUR) f.pos = f.pos + o; else f.pos = f.size + o;
    return f.pos;
}
ssize_t read(int fd, void*, size_t n) { io(); vfg_lastread = fd; File& f = file(fd); if (vf_choice(2, "read fails")) { fail(); return -1; } if ((long)n > f.size - f.pos) n = (size_t)(f.size - f.pos); f.pos += (long)n; return (ssize_t)n; }
ssize_t write(int fd, const void* p, size_t n)
{
    modify(fd); vfg_wrote = 1; File& f = file(fd);
    int k = vf_choice(3, fd == 3 ? "write main: 0 full 1 short 2 error" : "write backup: 0 full 1 short 2 error");
    if (k) { vfg_failed = 1; f.content = C_BAD; if (k == 1) { f.pos += 1; return (ssize_t)1; } return -1; }
    if (p == A && n == LA && f.pos == 0) { f.content = C_PART; f.pos = LA; vf_event(fd == 3 ? "main: first part" : "backup: first part"); }
    else if (p == B && n == LB && f.pos == LA && f.content == C_PART) { f.content = C_FULL; f.pos = LA + LB; vf_event(fd == 3 ? "main: whole value" : "backup: whole value"); }
    else f.content = C_BAD;
    if (f.size < f.pos) f.size = f.pos;
    return (ssize_t)n;
}
int ftruncate(int fd, off_t len)
{
    modify(fd); File& f = file(fd);
    if (vf_choice(2, fd == 3 ? "truncate main fails" : "truncate backup fails")) { vfg_failed = 1; return -1; }
    if (len == 0) f.content = C_EMPTY; else if (f.content == C_FULL && len == LA + LB) f.content = C_CUT; else if (f.content != C_CUT || len != LA + LB) f.content = C_BAD;
    f.size = len; vf_event(fd == 3 ? "main: truncated" : "backup: truncated"); return 0;
}
int fsync(int fd)
{
    io(); File& f = file(fd); if (vf_choice(2, fd == 3 ? "fsync main fails" : "fsync backup fails")) { vfg_failed = 1; return -1; }
    f.flushed = 1; vf_event(fd == 3 ? "main: flushed" : "backup: flushed"); return 0;
}
int fdatasync(int fd) { return fsync(fd); }
}

struct Boom {};
static void emit(awl::io::SequentialOutputStream& s)
{
    if (vf_choice(2, "value writer throws")) { vfg_failed = 1; throw Boom(); }
    s.Write(A, LA); s.Write(B, LB);
}
struct Val : awl::io::Serializable<>, awl::io::Snapshotable<awl::io::SequentialOutputStream>
{
    void Read(awl::io::SequentialInputStream& s) override
    {
        uint8_t buf[LA + LB];
        size_t n = s.Read(buf, LA + LB);
        File& f = file(vfg_lastread);
        if (n != LA + LB || (f.content != C_OLD && f.content != C_TRAIL && f.content != C_CUT))
        {
            switch (vf_choice(5, "unusable file: 0 corrupt 1 end 2 type 3 field 4 other io"))
            {
            case 0: throw awl::io::CorruptionException(1);
            case 1: throw awl::io::EndOfFileException(2, 1);
            case 2: throw awl::io::TypeMismatchException("f", 1, 2);
            case 3: throw awl::io::FieldNotFoundException("f");
            default: throw awl::io::ReadFailException();
            }
        }
        vfg_val = vfg_lastread; vfg_good = f.content == C_TRAIL ? 0 : vfg_lastread; vf_event(vfg_lastread == 3 ? "value read from main" : "value read from backup");
    }
    void Write(awl::io::SequentialOutputStream& s) const override
    {
        vf_assert(!vfg_locked_mode, "S03.snapshot-only", "a save with a lock reads the value outside the snapshot");
        emit(s);
    }
    std::vector<uint8_t> MakeShanshot() const override
    {
        vf_assert(vfg_lock == 1, "S03.snapshot-under-lock", "the value is captured while the caller's lock is not held");
        if (vf_choice(2, "snapshot throws")) { vfg_failed = 1; throw Boom(); }
        vfg_snap++; std::vector<uint8_t> v(LA + LB); vfg_snapdata = v.data(); return v;
    }
    void WriteSnapshot(awl::io::SequentialOutputStream& s, const std::vector<uint8_t>& v) const override
    {
        vf_assert(v.data() == vfg_snapdata && v.size() == LA + LB, "S03.captured-snapshot", "something other than the captured snapshot is written");
        emit(s);
    }
    static uint8_t* vfg_snapdata;
};
uint8_t* Val::vfg_snapdata = nullptr;

struct Mx : awl::IMutex
{
    void lock() override { vf_assert(!vfg_lock, "S03.balanced", "the lock is acquired twice"); vf_assert(!vfg_wrote, "S03.order", "the lock is acquired after I/O began"); vfg_lock = 1; vf_event("lock"); }
    void unlock() override { vf_assert(vfg_lock, "S03.balanced", "the lock is released without being held"); vfg_lock = 0; vf_event("unlock"); }
};
struct Log : awl::Logger
{
    void log(awl::LogLevel, awl::LogString) override {}
};

static void saved(bool ok)
{
    vf_assert(!vfg_lock, "S03.released-on-exit", "the save ends with the lock held");
    vf_assert(ok || vfg_failed, "S01.no-spurious-failure", "the save fails although every step succeeded");
    if (ok)
    {
        vf_assert(!vfg_failed, "S01.error-reported", "the save returns normally although a step failed");
        vf_assert(safe(vfg_f0) && vfg_f0.content == C_CUT, "S01.main-written", "the save returns but the main file is not completely written, cut and flushed");
        vf_assert(vfg_f1.content == C_EMPTY && vfg_f1.flushed, "S01.backup-emptied", "the save returns but the backup is not durably emptied");
        vf_cover("saved");
    }
    else { vf_assert(safe(vfg_f0) || safe(vfg_f1), "S01.one-copy", "after a failed save neither file holds a complete durable value"); vf_cover("failed"); }
}
// the files were used before: they stand anywhere
static void begin() { bool used = vf_choice(2, "used before"); vfg_f0 = {C_OLD, 1, 1, used ? 500 : 0, 500, 0}; vfg_f1 = {C_EMPTY, 1, 0, used ? 300 : 0, 0, 0}; vfg_failed = 0; vfg_active = 1; }

extern "C" void vfh_save()
{
    Log log; Val v; awl::io::AtomicStorage st(log, "m", "b"); begin();
    bool ok = false; try { st.Save(v); ok = true; } catch (...) {}
    saved(ok); vfg_active = 0;
}
extern "C" void vfh_save_locked()
{
    Log log; Val v; Mx mx; awl::io::AtomicStorage st(log, "m", "b"); begin(); vfg_locked_mode = 1;
    bool ok = false; try { st.Save(v, &mx); ok = true; } catch (...) {}
    saved(ok); vf_assert(!ok || vfg_snap >= 1, "S03.snapshot-taken", "the save returns without having captured the value"); vfg_active = 0;
}
// the adapters through which a lock reaches the save
struct Plain { void lock() { Mx().lock(); } void unlock() { Mx().unlock(); } };
extern "C" void vfh_save_wrapped()
{
    Log log; Val v; Plain mx; awl::MutexWrapper<Plain> w(mx); awl::IMutex& i = w; awl::io::AtomicStorage st(log, "m", "b"); begin(); vfg_locked_mode = 1;
    i.lock(); vf_assert(vfg_lock == 1, "S03.adapters", "locking an adapter does not lock what it wraps"); i.unlock(); vf_assert(vfg_lock == 0, "S03.adapters", "unlocking an adapter does not unlock what it wraps");
    bool ok = false; try { st.Save(v, &w); ok = true; } catch (...) {}
    saved(ok); vfg_active = 0;
}
extern "C" void vfh_optional_mutex()
{
    Plain mx; bool none = vf_choice(2, "no mutex"); awl::OptionalMutex<Plain> o(none ? nullptr : &mx);
    o.lock(); vf_assert(vfg_lock == !none, "S03.adapters", "locking an optional mutex does not lock what it has, or locks what it has not"); o.unlock(); vf_assert(vfg_lock == 0, "S03.adapters", "unlocking an optional mutex does not unlock what it has"); vf_cover("optional mutex");
}

static void load(int m, int b)
{
    static const int kind[] = {C_OLD, C_TRAIL, C_BAD, C_EMPTY};
    static const long len[] = {LA + LB, LA + LB + 5, LA + LB, 0};
    Log log; Val v; awl::io::AtomicStorage st(log, "m", "b");
    bool used = vf_choice(2, "used before"); vfg_f0 = {kind[m], 1, 1, used ? len[m] : 0, len[m], 0}; vfg_f1 = {kind[b], 1, 1, used ? len[b] : 0, len[b], 0}; vfg_loading = 1; vfg_active = 0; vfg_failed = 0; vfg_bfail = 0; vfg_good = 0; vfg_val = 0; vfg_wrote = 0;
    bool ok = false, thrown = false;
    try { ok = st.Load(v); } catch (...) { thrown = true; }
    if (ok)
    {
        vf_assert(vfg_good != 0 && vfg_val == vfg_good, "S02.success-is-complete", "load reports success but the value was not read completely from a file (bytes left over or a failed read)");
        vf_assert(!vfg_failed, "S02.error-reported", "load reports success although writing or emptying a file failed");
        if (vfg_good == 4) { vf_assert(vfg_f0.content == C_CUT && vfg_f0.flushed, "S02.main-restored", "load succeeds from the backup but the main file was not completely rewritten, cut and flushed"); vf_cover("recovered"); }
        else vf_cover("loaded from main");
        vf_assert(vfg_f1.content == C_EMPTY && vfg_f1.flushed, "S02.backup-emptied", "load succeeds but the backup is left behind or emptied without flushing, so a later load could prefer it");
    }
    else
    {
        // the value is deliverable and nothing failed: it must have been delivered
        if (!thrown) { vf_assert(vfg_failed == 0, "S02.error-reported", "a failed write or truncate during load is swallowed"); vf_cover("nothing to load"); }
        vf_assert(vfg_failed || vfg_bfail || (kind[b] != C_OLD && kind[m] != C_OLD), "S02.good-file-is-loaded", "load fails although a file holds a complete value and no operation failed");
    }
    if (kind[m] == C_OLD || kind[b] == C_OLD)
        vf_assert(safe(vfg_f0) || safe(vfg_f1), "S02.only-copy", "after load no file holds a complete durable value although one did before (the backup was emptied while it was the only complete copy)");
    vfg_loading = 0;
}
extern "C" void vfh_load() { load(vf_choice(4, "main: 0 good 1 trailing 2 bad 3 empty"), vf_choice(4, "backup: 0 good 1 trailing 2 bad 3 empty")); }
