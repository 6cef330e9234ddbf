// S05: ownership of descriptors.
#include "fdmodel.h"
#include "Awl/Io/NativeStream.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/OptionalStorage.h"
using namespace awl::io;
struct Log : awl::Logger { void log(awl::LogLevel, awl::LogString) override {} };
static void done() { vf_assert(vfg_isopen == 0, "S05.no-leak", "a descriptor is still open after every owner of it is gone"); vf_cover("all owners gone"); }
static bool open_now(int fd) { return live(fd); }
static UniqueStream mk() { vfg_exists = 1; vfg_nofail = 1; UniqueStream s(CreateUniqueFile("f")); vfg_nofail = 0; return s; }
static UniqueFileHandle mh() { vfg_exists = 1; vfg_nofail = 1; UniqueFileHandle h = OpenUniqueFile("f"); vfg_nofail = 0; return h; }
static bool EMPTY(const UniqueFileHandle& h) { bool e = (HANDLE)h == NullHandleValue; vf_assert(static_cast<bool>(h) == !e && UniqueFileHandle::IsNull(h) == e, "S05.knows-itself", "a handle does not tell whether it is empty"); return e; }
extern "C" void vfh_handle()
{
    {
        UniqueFileHandle a = mh(); HANDLE fd = a; vf_assert(open_now(fd), "S05.owner-keeps-open", "a descriptor is closed while it is owned");
        switch (vf_choice(7, "operation"))
        {
        case 0: break;
        case 1: a.Close(); vf_assert(!open_now(fd) && EMPTY(a), "S05.close-closes", "closing a handle does not close and empty it"); break;
        case 2: a.Close(); a.Close(); break;
        case 3: { UniqueFileHandle b(std::move(a)); vf_assert(EMPTY(a) && (HANDLE)b == fd && open_now(fd), "S05.move-transfers", "moving a handle does not transfer its descriptor"); } vf_assert(!open_now(fd), "S05.close-closes", "destroying the owner does not close the descriptor"); break;
        case 4: { UniqueFileHandle b = mh(); HANDLE fb = b; b = std::move(a); vf_assert(EMPTY(a) && (HANDLE)b == fd && open_now(fd), "S05.move-transfers", "move assignment does not transfer the descriptor"); vf_assert(!open_now(fb), "S05.assign-closes", "assigning over an owner does not close what it owned"); } break;
        case 5: { UniqueFileHandle b; b = std::move(a); UniqueFileHandle c(std::move(b)); vf_assert((HANDLE)c == fd && EMPTY(b) && open_now(fd), "S05.move-transfers", "move assignment does not transfer the descriptor"); } break;
        case 6: { UniqueFileHandle b; a = std::move(b); vf_assert(EMPTY(a) && !open_now(fd), "S05.assign-closes", "assigning an empty handle does not close what was owned"); } break;
        }
    }
    done();
}
static void stream()
{
    {
        UniqueStream a = mk(); int fd = vfg_nextfd - 1; vf_assert(open_now(fd), "S05.owner-keeps-open", "a descriptor is closed while it is owned");
        switch (vf_choice(6, "operation"))
        {
        case 0: break;
        case 1: { UniqueStream b(std::move(a)); vf_assert(open_now(fd) && a == UniqueStream{}, "S05.move-transfers", "moving a stream does not transfer its descriptor"); } vf_assert(!open_now(fd), "S05.close-closes", "destroying the owner does not close the descriptor"); break;
        case 2: { UniqueStream b = mk(); int fb = vfg_nextfd - 1; b = std::move(a); vf_assert(open_now(fd) && !open_now(fb) && a == UniqueStream{}, "S05.move-transfers", "move assignment of a stream does not transfer the descriptor"); } break;
        case 3: a = {}; vf_assert(!open_now(fd), "S05.assign-closes", "assigning an empty stream does not close what was owned"); break;
        case 4: a = UniqueStream(CreateUniqueFile("g")); break;
        case 5: try { uint8_t b[4]; a.Read(b, 4); a.Write(b, 4); a.Seek(0); a.Truncate(); a.Flush(); a.End(); a.Move(1); } catch (const IoException&) {} vf_assert(open_now(fd), "S05.owner-keeps-open", "a stream operation closes the descriptor"); break;
        }
    }
    vfg_nofail = 1; done();
}
extern "C" void vfh_stream() { try { stream(); } catch (const awl::io::IoException&) { } }
static void storage_ops(int n)
{
    Log log;
    {
        AtomicStorage st(log);
        try { st.Open("m", "b"); } catch (const IoException&) {}
        bool both = st.IsOpened();
        vf_assert(vfg_isopen == (both ? 2 : 0), "S05.open-all-or-nothing", "a storage that failed to open keeps a descriptor, or an open one does not hold both files");
        switch (n)
        {
        case 0: break;
        case 1: st.Close(); vf_assert(vfg_isopen == 0 && !st.IsOpened(), "S05.close-closes", "closing a storage leaves a descriptor open"); break;
        case 2: { AtomicStorage t(std::move(st)); vf_assert(t.IsOpened() == both && !st.IsOpened(), "S05.move-transfers", "moving a storage does not transfer its files"); vf_assert(vfg_isopen == (both ? 2 : 0), "S05.owner-keeps-open", "moving a storage closes or duplicates a descriptor"); } vf_assert(vfg_isopen == 0, "S05.close-closes", "destroying the owner does not close the files"); break;
        case 3: { AtomicStorage t(log); t = std::move(st); vf_assert(t.IsOpened() == both && !st.IsOpened() && vfg_isopen == (both ? 2 : 0), "S05.move-transfers", "move assignment of a storage does not transfer its files"); } break;
        case 4: try { st.Open("m2", "b2"); } catch (const IoException&) { vf_assert(vfg_isopen == 0 && !st.IsOpened(), "S05.open-all-or-nothing", "a storage that failed to reopen keeps a descriptor"); } break;
        }
    }
    vfg_nofail = 1; done();
}
// the source dies first: the target must own both files
extern "C" void vfh_storage_target_outlives()
{
    Log log; vfg_exists = 1;
    {
        AtomicStorage t(log);
        bool both;
        { AtomicStorage st(log); try { st.Open("m", "b"); } catch (const IoException&) {} both = st.IsOpened(); t = std::move(st); }
        vf_assert(vfg_isopen == (both ? 2 : 0), "S05.move-transfers", "a file is closed (or kept) by the moved-from storage");
        AtomicStorage u(std::move(t)); t.Close();
        vf_assert(vfg_isopen == (both ? 2 : 0) && u.IsOpened() == both, "S05.move-transfers", "a file is closed (or kept) by the moved-from storage");
    }
    vfg_nofail = 1; done();
}
extern "C" void vfh_optional_target_outlives()
{
    Log log; vfg_exists = 1;
    {
        OptionalStorage t(log);
        bool both;
        { OptionalStorage st(log, "m", "b"); both = st.IsOpened(); t = std::move(st); }
        vf_assert(vfg_isopen == (both ? 2 : 0), "S05.move-transfers", "a file is closed (or kept) by the moved-from storage");
        OptionalStorage u(std::move(t)); t.Close();
        vf_assert(vfg_isopen == (both ? 2 : 0) && u.IsOpened() == both, "S05.move-transfers", "a file is closed (or kept) by the moved-from storage");
    }
    vfg_nofail = 1; done();
}
extern "C" void vfh_storage() { vfg_exists = vf_choice(2, "files exist"); storage_ops(vf_choice(5, "operation")); }
extern "C" void vfh_storage_ctor() { Log log; vfg_exists = 1; try { AtomicStorage st(log, "m", "b"); vf_assert(vfg_isopen == 2, "S05.open-all-or-nothing", "an open storage does not hold both files"); } catch (const IoException&) {} done(); }
extern "C" void vfh_optional()
{
    Log log; vfg_exists = 1;
    {
        OptionalStorage st(log); st.Open("m", "b"); bool both = st.IsOpened();
        vf_assert(vfg_isopen == (both ? 2 : 0), "S05.open-all-or-nothing", "an optional storage that failed to open keeps a descriptor");
        switch (vf_choice(3, "operation")) { case 0: break; case 1: st.Close(); vf_assert(vfg_isopen == 0, "S05.close-closes", "closing a storage leaves a descriptor open"); break; case 2: { OptionalStorage t(log); t = std::move(st); vf_assert(vfg_isopen == (both ? 2 : 0) && t.IsOpened() == both, "S05.move-transfers", "move assignment of a storage does not transfer its files"); } break; }
    }
    vfg_nofail = 1; done();
}
// control: a leaked descriptor
extern "C" void vfh_ctl_leak() { vfg_exists = 1; vfg_nofail = 1; alignas(UniqueFileHandle) char raw[sizeof(UniqueFileHandle)]; new (raw) UniqueFileHandle(OpenUniqueFile("f")); done(); }
