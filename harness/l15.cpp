// L15: the test chain and the test map: every registered test can be found, is run when it is selected, and once.
#include "vf.h"
#include "stdmodel.h"
#include <string>
#include <functional>
#include "Awl/Testing/TestMap.h"
#include "Awl/Testing/TestException.h"
using namespace awl::testing;
extern "C" { int vfg_ran[4] = {}; } VFG(int, fails, -1) VFG(int, contexts, 0) VFG(const void*, prov, nullptr) VFG(const void*, out, nullptr) VFG(int, loop, -1) VFG(int, output, -1) VFG(int, direct, 0) VFG(int, failat, 0)
extern "C" unsigned long strtoul(const char* s, char** e, int) { unsigned long v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (unsigned long)(*s++ - '0'); *e = (char*)s; return v; }
static int index(const awl::String& s) { return s[0] - 'a'; }
template <int I> static void body(const TestContext& c) { vfg_ran[I]++; if (&c.ap == vfg_prov) vfg_contexts++; if (&c.out == vfg_out) vfg_direct++; if (vfg_fails == I && (vfg_failat == 0 || vfg_ran[I] == vfg_failat)) throw TestException(awl::String("f")); }
static bool is(const awl::String& s, const char* t) { size_t i = 0; for (; t[i]; i++) if (i >= s.size() || s[i] != t[i]) return false; return i == s.size(); }
struct Provider : AttributeProvider
{
    bool TryFind(const awl::String& n, awl::String& v) const override
    {
        if (is(n, "loop") && vfg_loop >= 0) { static const char* t[] = {"0", "1", "2", "3"}; v = t[vfg_loop]; return true; }
        if (is(n, "output") && vfg_output >= 0) { static const char* t[] = {"all", "failed", "null", "other"}; v = t[vfg_output]; return true; }
        return false;
    }
};
alignas(16) static char place[64];
extern "C" void vfh_chain()
{
    { TestLink a("aa", &body<0>), b("bb", &body<1>), c("cc", &body<2>); int n = 0, seen = 0; for (TestLink* p : GetTestChain()) { n++; for (int i = 0; i < 3; i++) if (p->GetName()[0] == 'a' + i) seen |= 1 << i; if (n > 3) break; }
    vf_assert(n == 3 && seen == 7, "L15.registered", "a test that was registered is not in the chain, or is twice"); Shutdown(); vf_assert(GetTestChain().empty(), "L15.shutdown", "a test is still registered after the shutdown"); }
    vf_cover("chain");
}
static void context(void (*f)(TestMap&, const TestContext&))
{
    TestLink a("aa", &body<0>), b("bb", &body<1>), c("cc", &body<2>); Provider p; vfg_prov = &p; awl::ostream& out = *(awl::ostream*)place; vfg_out = &out; TestContext t{out, {}, p}; TestMap m; vf_assert(m.GetTestCount() == 3, "L15.registered", "the map has not every registered test"); f(m, t); Shutdown();
}
extern "C" void vfh_all()
{
    context([](TestMap& m, const TestContext& t) { int mask = vf_choice(8, "selected"); auto f = [mask](const awl::String& s) { return (mask >> (s[0] - 'a') & 1) != 0; }; m.RunAll(t, f); for (int i = 0; i < 3; i++) vf_assert(vfg_ran[i] == (mask >> i & 1), "L15.run", "a selected test is not run once, or another one is run"); vf_assert(m.GetCount(f) == (size_t)((mask & 1) + (mask >> 1 & 1) + (mask >> 2 & 1)), "L15.count", "the number of the selected tests is another one"); vf_assert(vfg_contexts == vfg_ran[0] + vfg_ran[1] + vfg_ran[2], "L15.context", "a test is run in another context"); });
    vf_cover("all run");
}
extern "C" void vfh_one()
{
    context([](TestMap& m, const TestContext& t) { int k = vf_choice(9, "name"); static const char* names[] = {"aa", "bb", "cc", "dd", "a", "ab", "bbb", "b", ""}; vfg_fails = vf_choice(2, "fails") ? k : -1; bool failed = false; char name[4] = {}; for (int i = 0; names[k][i]; i++) name[i] = names[k][i]; try { m.Run(t, name); } catch (const TestException&) { failed = true; } vf_assert(failed == (k >= 3 || vfg_fails == k), "L15.outcome", "the failure of a test, or that it does not exist, is lost, or invented"); for (int i = 0; i < 3; i++) vf_assert(vfg_ran[i] == (i == k), "L15.run", "a selected test is not run once, or another one is run"); });
    vf_cover("one run");
}
// repeated runs, the output that was chosen
extern "C" void vfh_options()
{
    context([](TestMap& m, const TestContext& t)
    {
        vfg_loop = vf_choice(5, "loop") - 1; vfg_output = vf_choice(5, "output") - 1; vfg_fails = vf_choice(2, "fails") ? 1 : -1; vfg_failat = vfg_fails == 1 && vfg_loop > 1 ? 1 + vf_choice(vfg_loop, "fails in which run") : 0; bool failed = false; try { m.Run(t, "bb"); } catch (const TestException&) { failed = true; }
        int want = vfg_output == 3 ? 0 : vfg_loop < 1 ? 1 : vfg_loop; if (vfg_fails == 1 && want) want = vfg_failat ? vfg_failat : 1;
        vf_assert(failed == (vfg_fails == 1 || vfg_output == 3), "L15.outcome", "the failure of a test, or an unknown option, is lost, or invented"); vf_assert(vfg_ran[1] == want && vfg_ran[0] + vfg_ran[2] == 0, "L15.loop", "a test is not run as often as it was asked for, or goes on after its failure"); vf_assert(vfg_direct == (vfg_output == 0 ? want : 0), "L15.output", "a test writes to another output than the one that was chosen");
    });
    vf_cover("options");
}
// two tests of one name are refused
extern "C" void vfh_duplicate() { bool refused = false; static const char bb[] = "bb"; TestLink a("aa", &body<0>), b(bb, &body<1>); char n[3] = {'b', 'b', 0}; int k = vf_choice(5, "other name"); if (k == 1) n[0] = 'c'; if (k == 2) n[1] = 0; if (k == 3) n[1] = 'B'; TestLink c(k == 4 ? bb : n, &body<2>); try { TestMap m; } catch (const TestException&) { refused = true; } Shutdown(); vf_assert(refused == (k == 0 || k == 4), "L15.duplicate", "a test whose name another one has is not refused, or another one is"); vf_cover("duplicates"); }
extern "C" void vfh_ctl_unrun() { vf_assert(vfg_ran[0] == 1, "L15.run", "a selected test is not run once, or another one is run"); }
#include "Awl/Testing/TestMap.cpp"
