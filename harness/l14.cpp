// L14: a test assertion fails exactly when its condition is violated; a test attribute has the value given, or its default.
#include "vf.h"
#include <string>
#include <stdexcept>
#include "Awl/Testing/TestAssert.h"
#include "Awl/Testing/LocalAttribute.h"
using namespace awl::testing;
VFG(int, called, 0)
struct Base : std::exception {}; struct Derived : Base {}; struct Other {};
template <class F> static int outcome(F f) { try { f(); } catch (const TestException&) { return 1; } catch (const Base&) { return 2; } catch (const Other&) { return 3; } catch (const std::exception&) { return 4; } return 0; }
extern "C" void vfh_conditions()
{
    bool v = vf_choice(2, "value"); int a = (int)vf_nondet("expected"), b = (int)vf_nondet("actual");
    vf_assert(outcome([&] { Assert::IsTrue(v, "m"); }) == !v && outcome([&] { Assert::IsFalse(v, "m"); }) == v, "L14.condition", "an assertion of a condition does not fail exactly when the condition is violated");
    vf_assert(outcome([&] { AWT_ASSERT(v); }) == !v && outcome([&] { AWT_ASSERT_FALSE(v); }) == v && outcome([&] { AWT_ASSERTM_TRUE(v, "m"); }) == !v && outcome([&] { AWT_ASSERTM_FALSE(v, "m"); }) == v, "L14.condition", "an assertion of a condition does not fail exactly when the condition is violated");
    int r = outcome([&] { Assert::AreEqual(a, b); }); vf_assert(r == (a != b), "L14.equal", "an assertion of equality does not fail exactly when the values differ");
    r = outcome([&] { AWT_ASSERT_EQUAL(a, b); }); vf_assert(r == (a != b), "L14.equal", "an assertion of equality does not fail exactly when the values differ");
    long w = (long)vf_nondet("wider"); char c = (char)vf_choice(3, "narrower"); int n = vf_choice(2, "value") ? 258 : 2;
    r = outcome([&] { Assert::AreEqual(a, w); }); vf_assert(r == (a != w), "L14.equal", "an assertion of equality of values of two types does not fail exactly when the values differ"); r = outcome([&] { Assert::AreEqual(c, n); }); vf_assert(r == (c != n), "L14.equal", "an assertion of equality of values of two types does not fail exactly when the values differ"); r = outcome([&] { Assert::AreEqual(n, c); }); vf_assert(r == (c != n), "L14.equal", "an assertion of equality of values of two types does not fail exactly when the values differ");
    vf_assert(outcome([&] { Assert::Fail("m"); }) == 1 && outcome([&] { AWT_FAIL; }) == 1 && outcome([&] { AWT_FAILM(m); }) == 1, "L14.fail", "a failure does not fail");
    vf_cover("conditions");
}
// nothing, the expected exception, a derived one, another one, a failed assertion
static void acts(int k) { vfg_called++; switch (k) { case 1: throw Base(); case 2: throw Derived(); case 3: throw Other(); case 4: Assert::Fail("inner"); case 5: throw std::runtime_error("r"); default: break; } }
extern "C" void vfh_throws()
{
    int k = vf_choice(6, "what happens"), r = 0, want = 0; auto f = [k] { acts(k); };
    switch (vf_choice(5, "expected"))
    {
    case 0: r = outcome([&] { Assert::Throws<Base>(f); }); want = k == 0 ? 1 : k == 1 || k == 2 ? 0 : k == 3 ? 3 : k == 4 ? 1 : 4; break;
    case 1: r = outcome([&] { Assert::Throws<Derived>(f); }); want = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 0 : k == 3 ? 3 : k == 4 ? 1 : 4; break;
    case 2: r = outcome([&] { Assert::Throws<Other>(f); }); want = k == 0 ? 1 : k == 3 ? 0 : k == 4 ? 1 : k == 5 ? 4 : 2; break;
    case 3: r = outcome([&] { Assert::Throws<std::exception>(f); }); want = k == 0 ? 1 : k == 3 ? 3 : 0; break;
    default: r = outcome([&] { Assert::Throws<TestException>(f); }); want = k == 0 ? 1 : k == 4 ? 0 : k == 3 ? 3 : k == 5 ? 4 : 2; break;
    }
    vf_assert(vfg_called == 1, "L14.throws", "the function is not called once");
    vf_assert(r == want, "L14.throws", "an expected exception is not required, or another one is accepted or hidden"); vf_cover("exceptions");
}
// attributes
struct Value { int v; };
VFG(int, found, 0) VFG(int, bad, 0) VFG(int, parsed, 0)
namespace awl::testing { template <> class BasicFormatter<Char, Value> { public: static String ToString(const Value&) { return {}; } static Value FromString(const String& s) { vfg_parsed++; vf_assert(s.size() == 2 && s[0] == 'x' && s[1] == 'y', "L14.attribute", "an attribute is parsed from another text"); if (vfg_bad) throw Base(); return Value{7}; } }; }
struct Provider : AttributeProvider { bool TryFind(const awl::String& name, awl::String& val) const override { vf_assert(name.size() == 4 && name[0] == 's' && name[3] == 'e', "L14.attribute", "an attribute is looked up under another name"); if (!vfg_found) return false; val = "xy"; return true; } };
struct Ctx { Provider& ap; };
extern "C" void vfh_attribute()
{
    vfg_found = vf_choice(2, "given"); vfg_bad = vf_choice(2, "cannot be parsed"); Provider p; Ctx context{p}; AWT_ATTRIBUTE(Value, size, Value{3});
    vf_assert(size.v == (vfg_found && !vfg_bad ? 7 : 3) && vfg_parsed == vfg_found, "L14.attribute", "an attribute has neither the value that was given nor, without one, its default");
    AttributeProvider none; LocalAttribute<Value> d(none, "Value", "size", Value{4}); vf_assert(d.GetValue().v == 4, "L14.attribute", "an attribute that is not given does not have its default"); vf_cover("attributes");
}
extern "C" void vfh_ctl_silent() { vf_assert(outcome([] {}) == 1, "L14.condition", "an assertion of a condition does not fail exactly when the condition is violated"); }
