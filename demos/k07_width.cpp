// A 128-bit number that is longer than the width is printed without superfluous characters.
#include "Awl/String.h"
#include <iomanip>
#include <iostream>
int main() { using awl::operator<<; std::ostringstream o; o << std::setfill('0') << std::setw(3) << static_cast<__uint128_t>(12345); std::cout << o.str() << "\n"; return o.str() == "12345" ? 0 : 1; }
