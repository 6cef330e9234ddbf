// stop_token.hpp: the state is deleted with the first of two tokens that have outlived their source. Build: CXXEXTRA="-std=gnu++17 -I/repo/Extras/JThread/JThreadExtras -fsanitize=address"
#include "stop_token.hpp"
#include <cstdio>
int main() { std::stop_token a, b; { std::stop_source s; s.request_stop(); a = s.get_token(); b = a; } a = std::stop_token(); bool r = b.stop_requested(); std::printf("requested %d\n", r); return r ? 0 : 1; }
