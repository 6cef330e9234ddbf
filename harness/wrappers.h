// The serializable wrappers over model streams.
#pragma once
#include <array>
#include <vector>
#include "vtstypes.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/HeaderedSerializable.h"
using namespace awl::io;
VFG(int, writes, 0) VFG(int, wthrowat, -1) VFG(int, wsticky, 0)
struct Hash2
{
    using value_type = std::array<uint8_t, 2>; static constexpr size_t size() { return 2; }
    template <class It> value_type operator()(It b, It e) const { return {0x5a, (uint8_t)(e - b)}; }
};
// every write may fail
struct Sink : Rec
{
    void Write(const uint8_t* p, size_t n)
    {
        if (vfg_writes++ == vfg_wthrowat) { vfg_thrown++; if (vfg_wsticky) vfg_wthrowat++; if (vfg_throwkind == 1) throw std::bad_alloc(); if (vfg_throwkind == 2) throw 42; throw IoError("underlying"); }
        Rec::Write(p, n);
    }
};
struct Val { int a = 0; std::string s; std::vector<int> v; v1::Leaf l{}; AWL_REFLECT(a, s, v, l) };
static Val value(const char* s) { Val r; r.a = sym<int>(); r.s = s; r.v.push_back(sym<int>()); r.v.push_back(sym<int>()); r.l = leaf(); return r; }
static bool same(const Val& x, const Val& y) { return x.a == y.a && x.s == y.s && ::eq(x.v, y.v) && x.l.x == y.l.x && x.l.gone == y.l.gone; }
using Pl = PlainSerializable<Val, Play, Sink>; using Vt = VersionTolerantSerializable<Val, Play, Sink>;
enum { BLOCK = 64 };
struct Hs { PlainSerializable<Val, HashInputStream<Hash2, Play>, HashOutputStream<Hash2, Sink>> in; HashingSerializable<Play, Sink, Hash2> h; Hs(Val& v) : in(v), h(in, BLOCK) {} void Write(Sink& s) const { h.Write(s); } void Read(Play& s) { h.Read(s); } };
struct Eu : EuphoricallySerializable<Val, Play, Sink, Hash2> { Eu(Val& v) : EuphoricallySerializable(v, BLOCK) {} };
struct Sn : EuphoricallySerializable<Val, Play, Sink, Hash2> { Sn(Val& v) : EuphoricallySerializable(v, BLOCK) {} void Write(Sink& s) const { WriteSnapshot(s, MakeShanshot()); } };
struct He : HeaderedSerializable<Val, Play, Sink, Hash2> { He(Val& v) : HeaderedSerializable(Header{"form", 3}, v, BLOCK) {} };
