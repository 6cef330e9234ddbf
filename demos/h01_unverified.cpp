// After a corruption error no byte of the corrupted block may be delivered.
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/VectorStream.h"
#include <iostream>
using namespace awl::io;
int main() {
    std::vector<uint8_t> v; { VectorOutputStream o(v); HashOutputStream<awl::crypto::Crc64> h(o, 32); uint8_t b[60]; memset(b, 7, 60); h.Write(b, 60); }
    v[30] ^= 1;   // hash of the first block
    VectorInputStream in(v); HashInputStream<awl::crypto::Crc64> h(in, 32); uint8_t b[4]; bool thrown = false; size_t n = 0;
    try { h.Read(b, 4); } catch (const CorruptionException&) { thrown = true; }
    try { n = h.Read(b, 4); } catch (const CorruptionException&) { n = 0; }
    // the next delivered byte, if any, must not come from block 1: its remaining data are 24 bytes
    size_t total = n; try { uint8_t c; while (h.Read(&c, 1) == 1) ++total; } catch (const CorruptionException&) {}
    bool ok = thrown && total <= 36; std::cout << (ok ? "OK\n" : "FAIL: bytes of an unverified block delivered\n"); return !ok;
}
