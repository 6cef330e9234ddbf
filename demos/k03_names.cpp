// enumerators separated without a space, or followed by a comment: the table of names does not match the enumeration
#include <iostream>
#include <cstring>
#include "Awl/EnumTraits.h"
namespace ns { AWL_SEQUENTIAL_ENUM(E, Up,Down /* not up */ , Left) }
AWL_ENUM_TRAITS(ns, E)
int main()
{
    auto& n = awl::EnumTraits<ns::E>::names(); std::cout << n.size() << " names of " << (int)awl::EnumTraits<ns::E>::count() << " enumerators\n";
    return n.size() == 3 && n[1] == "Down" && awl::enum_from_string<ns::E>("Left") == ns::E::Left ? 0 : 1;
}
