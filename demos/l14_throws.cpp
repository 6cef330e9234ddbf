// Assert::Throws<std::exception> passed when nothing was thrown: the failure of the assertion is such an exception itself.
#include "Awl/Testing/TestAssert.h"
#include <cstdio>
using awl::testing::Assert;
int main()
{
    bool failed = false; try { Assert::Throws<std::exception>([] {}); } catch (const awl::testing::TestException&) { failed = true; }
    if (!failed) { std::puts("nothing is thrown, and the assertion passes"); return 1; }
    return 0;
}
