// Model streams for the serialization checks: what the writer emits is recorded (unknown bytes stay symbolic)
// and played back to the reader.
#pragma once
#include "vf.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/IoException.h"
#include <cstring>
#include <new>
VFG(int, n, 0) VFG(int, pos, 0) VFG(int, lim, -1) VFG(int, throwat, -1) VFG(int, thrown, 0) VFG(int, reads, 0) VFG(int, shortread, 0) VFG(int, throwkind, 0)
extern "C" { uint8_t vfg_s[8192]; }
struct Rec
{
    void Write(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; i++) vfg_s[vfg_n + i] = p[i]; vfg_n += (int)n; }
};
struct Play
{
    bool End() { return vfg_pos == (vfg_lim < 0 ? vfg_n : vfg_lim); }
    size_t Read(uint8_t* p, size_t n)
    {
        if (vfg_throwat == vfg_reads++) { vfg_thrown = 1; if (vfg_throwkind == 1) throw std::bad_alloc(); if (vfg_throwkind == 2) throw 42; throw awl::io::IoError("underlying"); }
        size_t left = (size_t)((vfg_lim < 0 ? vfg_n : vfg_lim) - vfg_pos), k = n < left ? n : left;
        if (k < n) vfg_shortread = 1;
        for (size_t i = 0; i < k; i++) p[i] = vfg_s[vfg_pos + i];
        vfg_pos += (int)k; return k;
    }
};
template <class T> T sym() { T v{}; vf_symbolic(&v, sizeof(T), "value"); return v; }
inline bool symbool() { return vf_choice(2, "bool") != 0; }
