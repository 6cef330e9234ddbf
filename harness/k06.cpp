// K06: registration by static links in any order, before and after the chain is first used.
#include "vf.h"
#include "stdmodel.h"
#include "Awl/StaticChain.h"
#include "Awl/StaticFactory.h"
#include "Awl/Testing/TestMap.h"
#include "Awl/Testing/TestAssert.h"
#include <cstring>
using awl::StaticLink;
// objects of other translation units: constructed before and after everything else of this one
__attribute__((init_priority(101))) static StaticLink<short> early("early", (short)1);
static StaticLink<short> middle("middle", (short)2);
__attribute__((init_priority(65535))) static StaticLink<short> late("late", (short)3);
static void noop(const awl::testing::TestContext&) {}
__attribute__((init_priority(101))) static awl::testing::TestLink earlyTest("early", &noop);
static awl::testing::TestLink middleTest("middle", &noop);
struct Made { int by; };
AWL_FACTORY(Made, first) { return {1}; }
AWL_FACTORY(Made, second) { return {2}; }
static Made makeThird() { return {3}; }
AWL_REGISTER_FACTORY(makeThird, third)
static Made makeFrom(int v) { return {v}; }
namespace other { AWL_REGISTER_FACTORY(makeFrom, first) }
extern "C" void vfh_order()
{
    auto& chain = awl::static_chain<short>(); const char* const n[] = {"early", "middle", "late"}; int seen[3] = {};
    for (auto* l : chain) for (int k = 0; k < 3; k++) if (std::strcmp(l->name(), n[k]) == 0) seen[k]++;
    for (int k = 0; k < 3; k++)
    {
        vf_assert(seen[k] == 1, "K06.once", "an object registered before main is not exactly once in its chain");
        auto i = chain.find(n[k]); vf_assert(i != chain.end(), "K06.found", "an object registered before main is not found by its name");
        if (i != chain.end()) vf_assert(i->value() == k + 1, "K06.own-value", "another object is found by a name");
    }
    int tests = 0; for (auto* t : awl::testing::GetTestChain()) { tests++; vf_assert(t == &earlyTest || t == &middleTest, "K06.once", "an unregistered object is in the chain"); }
    vf_assert(tests == 2, "K06.once", "a test registered before main is not exactly once in its chain"); vf_cover("any order");
}
extern "C" void vfh_factory()
{
    const char* const n[] = {"first", "second", "third", "fourth", "firs", ""}; int k = vf_choice(6, "name"), got = 0; bool arg = vf_choice(2, "with an argument"), refused = false;
    try { got = (arg ? awl::create<Made>(n[k], 42) : vf_choice(2, "as a string") ? awl::create<Made>(std::string(n[k]).c_str()) : awl::create<Made>(n[k])).by; }
    catch (const awl::FactoryException&) { refused = true; }
    bool exists = arg ? k == 0 : k < 3;
    vf_assert(refused == !exists, "K06.factory", "a registered factory function is not found, or an unknown name does not raise the factory exception");
    if (exists) vf_assert(got == (arg ? 42 : k + 1), "K06.factory", "a name creates the object of another factory function"); vf_cover(exists ? "created" : "unknown name");
}
// any number of links, any names (also equal ones), the chain used in between or not
static const char* const pool[] = {"a", "b", "ab"};
extern "C" void vfh_any()
{
    int count = vf_choice(4, "links"), name[3] = {}; StaticLink<int>* link[3] = {}; auto check = [&](int n)
    {
        auto& chain = awl::static_chain<int>(); int seen[3] = {}, all = 0;
        for (auto* l : chain) { all++; for (int i = 0; i < n; i++) if (l == link[i]) seen[i]++; }
        vf_assert(all == n, "K06.once", "the number of objects in a chain is not the number of registered ones");
        for (int i = 0; i < n; i++) vf_assert(seen[i] == 1, "K06.once", "a registered object is not exactly once in its chain");
        for (int k = 0; k < 3; k++)
        {
            bool any = false; for (int i = 0; i < n; i++) any |= name[i] == k;
            auto i = chain.find(pool[k]), s = chain.find(std::string(pool[k]));
            vf_assert((i != chain.end()) == any && i == s, "K06.found", "a registered object is not found by its name, or an unknown name is");
            if (i != chain.end()) vf_assert(std::strcmp(i->name(), pool[k]) == 0 && name[i->value() - 100] == k, "K06.own-value", "another object is found by a name");
        }
        vf_assert(chain.find("c") == chain.end() && chain.find("") == chain.end(), "K06.absent", "an unknown name is found");
    };
    bool early = vf_choice(2, "chain used between the registrations");
    for (int i = 0; i < count; i++) { name[i] = vf_choice(3, "name"); link[i] = new StaticLink<int>(pool[name[i]], 100 + i); vf_assert(link[i]->included(), "K06.once", "a registered object is not in a list"); if (early) check(i + 1); }
    check(count); vf_cover("any chain");
}
using awl::testing::TestLink; using awl::testing::TestMap;
extern "C" void vfh_map()
{
    while (!awl::testing::GetTestChain().empty()) awl::testing::GetTestChain().pop_front();
    int count = vf_choice(4, "tests"), name[3] = {}; bool dup = false, reported = false;
    for (int i = 0; i < count; i++) { name[i] = vf_choice(3, "name"); for (int j = 0; j < i; j++) dup |= name[j] == name[i]; new TestLink(pool[name[i]], &noop); }
    try
    {
        TestMap map; vf_assert(map.GetTestCount() == (size_t)count, "K06.map", "the test map does not contain every registered test");
        for (int k = 0; k < 3; k++) { int n = 0; for (int i = 0; i < count; i++) n += name[i] == k; vf_assert(map.GetCount([k](const awl::String& s) { return s == pool[k]; }) == (size_t)n, "K06.map", "a registered test is not in the map under its name"); }
    }
    catch (const awl::testing::TestException&) { reported = true; }
    vf_assert(reported == dup, "K06.duplicate", "a duplicate test name is not reported, or different names are"); vf_cover(dup ? "duplicate reported" : "test map");
    awl::testing::Shutdown(); vf_assert(awl::testing::GetTestChain().empty(), "K06.shutdown", "the shutdown leaves tests in the chain");
}
// control: a link whose registration is lost
extern "C" void vfh_ctl_lost() { StaticLink<long>* l = new StaticLink<long>("lost", 5L); const_cast<awl::single_list<StaticLink<long>>&>(reinterpret_cast<const awl::single_list<StaticLink<long>>&>(awl::static_chain<long>())).clear(); vf_assert(awl::static_chain<long>().find("lost") != awl::static_chain<long>().end(), "K06.found", ""); }
