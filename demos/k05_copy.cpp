// A copied EuphoricallySerializable read through the serializer of the (destroyed) original; a copied hashing stream read the block of the original.
// After the fix these classes cannot be copied.
#include <array>
#include <cstdio>
#include <string>
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/PersistentObject.h"
struct S { int a; AWL_REFLECT(a) };
template <class T> bool can() { return std::is_copy_constructible_v<T> || std::is_move_constructible_v<T>; }
int main()
{
    int bad = can<awl::io::EuphoricallySerializable<S>>() + can<awl::io::HeaderedSerializable<S>>() + can<awl::io::OptionalObject<S>>() + can<awl::io::HashInputStream<awl::crypto::Crc64>>();
    printf("%d self-referential classes can be copied or moved\n", bad); return bad != 0;
}
