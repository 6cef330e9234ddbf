// File-descriptor model: up to 6 descriptors, every system call may fail (errno EIO).
#pragma once
#include "posixfs.h"
struct Fd { int state; long pos, size; int flushed; };   // state: 0 never, 1 open, 2 closed
VFG(Fd, fd3, {}) VFG(Fd, fd4, {}) VFG(Fd, fd5, {}) VFG(Fd, fd6, {})
VFG(int, nextfd, 3) VFG(int, exists, 0) VFG(int, failed, 0) VFG(int, want, -2) VFG(int, ncalls, 0) VFG(int, shorts, 0) VFG(int, errno_, 0)
VFG(const uint8_t*, src, nullptr) VFG(size_t, done, 0) VFG(size_t, total, 0) VFG(int, nofail, 0) VFG(const char*, wantname, nullptr) VFG(int, flags, 0) VFG(int, isopen, 0)
static inline Fd& fdof(int fd) { return fd == 3 ? vfg_fd3 : fd == 4 ? vfg_fd4 : fd == 5 ? vfg_fd5 : vfg_fd6; }
static inline bool live(int fd) { return fd >= 3 && fd <= 6 && fdof(fd).state == 1; }
static inline bool enter(int fd, const char* what)
{
    vfg_ncalls++;
    if (vfg_want != -2) vf_assert(fd == vfg_want, "S04.own-descriptor", "a system call is made on a descriptor that is not the stream's own");
    if (!live(fd)) { vfg_failed = 1; vfg_errno_ = EBADF; return false; }
    if (!vfg_nofail && vf_choice(2, what)) { vfg_failed = 1; vfg_errno_ = EIO; return false; }
    return true;
}
extern "C" {
int* __errno_location() { return &vfg_errno_; }
int access(const char*, int) { if (vfg_exists) return 0; vfg_errno_ = ENOENT; return -1; }
int vf_model_open(const char* p, int fl, unsigned mode) asm("open");
int vf_model_open(const char* p, int fl, unsigned mode)
{
    if (fl & O_CREAT) vf_assert((mode & (S_IRUSR | S_IWUSR)) == (S_IRUSR | S_IWUSR), "S04.usable-file", "a file is created that its owner cannot read and write when it is opened again");
    if (vfg_wantname) vf_assert(p == vfg_wantname, "S04.own-arguments", "a file is opened under a name other than the caller's");
    vfg_flags = fl;
    if ((!vfg_exists && !(fl & O_CREAT)) || (vfg_exists && (fl & O_EXCL))) { vfg_failed = 1; return -1; }
    if (!vfg_nofail && vf_choice(2, "open fails")) { vfg_failed = 1; vfg_errno_ = EACCES; return -1; }
    int fd = vfg_nextfd++; Fd& f = fdof(fd); f = {1, 0, 0, 1}; vfg_isopen++; return fd;
}
int close(int fd)
{
    vf_assert(fd >= 0, "S05.no-empty-close", "close is called for an empty handle");
    vf_assert(live(fd), "S05.closed-once", "a descriptor is closed that is not open (closed before, or never owned)");
    fdof(fd).state = 2; vfg_isopen--;
    if (!vfg_nofail && vf_choice(2, "close fails")) { vfg_errno_ = EIO; return -1; }
    return 0;
}
int fstat(int fd, struct stat* st) { if (!enter(fd, "fstat fails")) return -1; st->st_size = fdof(fd).size; return 0; }
off_t lseek(int fd, off_t o, int wh)
{
    if (!enter(fd, "lseek fails")) return -1;
    Fd& f = fdof(fd); long p = wh == SEEK_SET ? o : wh == SEEK_CUR ? f.pos + o : f.size + o; f.pos = p; return p;
}
ssize_t read(int fd, void* b, size_t n)
{
    if (!enter(fd, "read fails")) return -1;
    if (vfg_src) vf_assert(b == vfg_src + vfg_done && n <= vfg_total - vfg_done, "S04.own-arguments", "bytes are read to a place outside the caller's buffer, or not where the previous ones ended");
    size_t k = n;
    if (vfg_shorts < 2) switch (vf_choice(4, "read: 0 all 1 none 2 one byte 3 all but one")) { case 1: k = 0; vfg_shorts++; break; case 2: if (n > 1) { k = 1; vfg_shorts++; } break; case 3: if (n > 1) { k = n - 1; vfg_shorts++; } break; }
    vfg_done += k; fdof(fd).pos += (long)k; return (ssize_t)k;
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (!enter(fd, "write fails")) return -1;
    if (vfg_src) vf_assert(b == vfg_src + vfg_done && n <= vfg_total - vfg_done, "S04.own-arguments", "bytes other than the caller's next ones are written");
    size_t k = n;
    if (vfg_shorts < 2) switch (vf_choice(4, "write: 0 all 1 none 2 one byte 3 all but one")) { case 1: k = 0; vfg_shorts++; break; case 2: if (n > 1) { k = 1; vfg_shorts++; } break; case 3: if (n > 1) { k = n - 1; vfg_shorts++; } break; }
    vfg_done += k; Fd& f = fdof(fd); f.pos += (long)k; f.flushed = 0; return (ssize_t)k;
}
int ftruncate(int fd, off_t len) { if (!enter(fd, "ftruncate fails")) return -1; fdof(fd).size = len; return 0; }
int fsync(int fd) { if (!enter(fd, "fsync fails")) return -1; fdof(fd).flushed = 1; return 0; }
int fdatasync(int fd) { return fsync(fd); }
}
