// S07: the optional storage.
#include "fdmodel.h"
#include "Awl/Io/NativeStream.h"
#include "Awl/Io/OptionalStorage.h"
using namespace awl::io;
VFG(int, logged, 0) VFG(int, reads, 0) VFG(int, writes, 0) VFG(int, locks, 0) VFG(const void*, self, nullptr) VFG(int, snap, 0)
struct Log : awl::Logger { void log(awl::LogLevel l, awl::LogString) override { if (l != awl::LogLevel::Trace && l != awl::LogLevel::Debug && l != awl::LogLevel::Info) vfg_logged++; } };
struct Boom {};
struct Val : Serializable<>, Snapshotable<SequentialOutputStream>
{
    void Read(SequentialInputStream& s) override { vf_assert(this == vfg_self, "S07.same-value", "another value than the caller's is loaded"); vfg_reads++; uint8_t b[4]; if (s.Read(b, 4) != 4) throw EndOfFileException(4, 0); if (vf_choice(2, "value reader throws")) throw CorruptionException(1); }
    void Write(SequentialOutputStream& s) const override { vf_assert(this == vfg_self, "S07.same-value", "another value than the caller's is saved"); vfg_writes++; static const uint8_t b[4] = {}; s.Write(b, 4); }
    std::vector<uint8_t> MakeShanshot() const override { vf_assert(this == vfg_self && vfg_locks == 1, "S07.same-lock", "the value is captured without the caller's lock"); vfg_snap++; return std::vector<uint8_t>(4); }
    void WriteSnapshot(SequentialOutputStream& s, const std::vector<uint8_t>& v) const override { vfg_writes++; s.Write(v.data(), 4); }
};
struct Mx : awl::IMutex { void lock() override { vfg_locks++; } void unlock() override { vfg_locks--; } };

extern "C" void vfh_closed()
{
    Log log; Val v; vfg_self = &v; Mx mx; OptionalStorage st(log); vfg_exists = vf_choice(2, "files exist"); int ex = vfg_exists;
    bool r = false;
    switch (vf_choice(3, "0 never opened 1 open 2 opened and closed"))
    {
    case 1: try { r = st.Open("m", "b"); } catch (const IoException&) { vf_assert(false, "S07.open-does-not-throw", "failing to open the files is thrown instead of logged"); } break;
    case 2: try { st.Open("m", "b"); st.Close(); } catch (const IoException&) { vf_assert(false, "S07.open-does-not-throw", "failing to open the files is thrown instead of logged"); } vf_assert(!st.IsOpened(), "S07.close-closes", "the storage is still open after it was closed"); break;
    }
    if (vfg_failed && !st.IsOpened()) { vf_assert(vfg_logged > 0, "S07.failure-logged", "failing to open the files is not reported to the log"); vf_assert(!r, "S07.open-result", "open reports existing files although it failed"); }
    if (st.IsOpened()) { vf_assert(r == (ex != 0), "S07.open-result", "open does not report whether the files existed"); return; }
    vfg_ncalls = 0; vfg_logged = 0;
    switch (vf_choice(4, "operation on the closed storage"))
    {
    case 0: { bool loaded = true; try { loaded = st.Load(v); } catch (...) { vf_assert(false, "S07.closed-usable", "loading from a closed storage throws"); loaded = false; } vf_assert(!loaded, "S07.closed-usable", "loading from a closed storage reports success"); vf_assert(vfg_reads == 0, "S07.closed-no-io", "a closed storage reads the value"); break; }
    case 1: try { st.Save(v); } catch (...) { vf_assert(false, "S07.closed-usable", "saving to a closed storage throws"); } break;
    case 2: try { st.Save(v, &mx); } catch (...) { vf_assert(false, "S07.closed-usable", "saving to a closed storage throws"); } break;
    case 3: st.Close(); break;
    }
    vf_assert(vfg_ncalls == 0 && vfg_writes == 0, "S07.closed-no-io", "a closed storage performs file I/O"); vf_assert(vfg_locks == 0, "S07.same-lock", "the caller's lock is left held");
    vf_cover("closed");
}
static void opened(OptionalStorage& st) { vfg_exists = 1; vfg_nofail = 1; st.Open("m", "b"); vfg_nofail = 0; fdof(3).size = 4; fdof(4).size = 4; vfg_failed = 0; vfg_logged = 0; vfg_shorts = 0; }
extern "C" void vfh_save()
{
    Log log; Val v; vfg_self = &v; Mx mx; OptionalStorage st(log); opened(st); int mode = vf_choice(2, "with lock");
    try { st.Save(v, mode ? &mx : nullptr); } catch (const IoException&) { vf_assert(false, "S07.save-does-not-throw", "a failed save is thrown instead of logged"); }
    vf_assert(vfg_failed || vfg_shorts || vfg_logged == 0, "S07.no-false-alarm", "a save in which nothing failed is reported as failed");
    vf_assert(!vfg_failed || vfg_logged > 0, "S07.failure-logged", "a failed save is not reported to the log");
    vf_assert(vfg_logged > 0 || vfg_writes >= 1, "S07.forwarded", "an open storage does not save the value");
    vf_assert(!mode || vfg_logged > 0 || vfg_snap >= 1, "S07.same-lock", "the caller's lock is not used for the save"); vf_assert(vfg_locks == 0, "S07.same-lock", "the caller's lock is left held");
    vf_assert(st.IsOpened(), "S07.stays-open", "a failed save closes the storage"); vf_cover(vfg_logged ? "save failed" : "saved"); vfg_nofail = 1;
}
extern "C" void vfh_load()
{
    Log log; Val v; vfg_self = &v; OptionalStorage st(log); opened(st); bool r = false;
    try { r = st.Load(v); } catch (const IoException&) {}
    vf_assert(!r || vfg_reads >= 1, "S07.forwarded", "an open storage reports a load it has not done"); vf_assert(vfg_reads >= 1 || vfg_failed, "S07.forwarded", "an open storage does not load the value"); vf_assert(st.IsOpened(), "S07.stays-open", "a load closes the storage"); vf_cover("load"); vfg_nofail = 1;
}
