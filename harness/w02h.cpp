// W02: the header of a stream is checked before anything behind it is used.
#include "wrappers.h"
struct Hd : HeaderedSerializable<Val, Play, Sink, Hash2>
{
    size_t old = 0; Hd(Val& v, const char* f, size_t n, size_t limit) : HeaderedSerializable(Header{f, n}, v, BLOCK, {}, limit) {}
    void ReadOldVersion(size_t n) override { old = n; if (n == 2) return; HeaderedSerializable::ReadOldVersion(n); }
};
extern "C" void vfh_header()
{
    static const char* const names[] = {"form", "forn", "for", "formula", "f\0rm", ""}; static const size_t versions[] = {0, 2, 3, 4, ~(size_t)0};
    int f = vf_choice(6, "format"), n = vf_choice(5, "version"); Val o = value("ab"), v = value("previous"), was = v;
    { Sink s; const Hd w(o, names[f], versions[n], 64); w.Write(s); } Play in; Hd r(v, "form", 3, 4); bool failed = false;
    try { r.Read(in); } catch (const IoException&) { failed = true; } catch (...) { vf_assert(false, "W02.io-error", "a wrong header is reported with something other than an I/O exception"); failed = true; }
    if (f == 0 && n == 2) { vf_assert(!failed && same(v, o), "W02.header", "an object with the expected header is refused"); vf_cover("header accepted"); return; }
    vf_assert(same(v, was), "W02.header", "an object of another format or version is read"); bool old = f == 0 && versions[n] < 3;
    vf_assert(old ? r.old == versions[n] : r.old == 0, "W02.header", "the reader of old versions is not called exactly for an older version of the format"); vf_assert(failed == !(f == 0 && n == 1), "W02.header", "a wrong header is not reported"); vf_cover("header refused");
}
// the limit of the format name is applied before the name is read
extern "C" void vfh_name_limit()
{
    static const uint64_t lengths[] = {0, 1, 4, 5, 40, 1ull << 20, 1ull << 61, ~0ull}; uint64_t len = lengths[vf_choice(8, "length of the format name")]; Val v = value("previous"), was = v;
    { Sink s; HashOutputStream<Hash2, Sink> o(s, BLOCK); Write(o, len); for (int i = 0; i < 60; i++) Write(o, (uint8_t)'a'); } Play in; Hd r(v, "form", 3, 4); bool failed = false;
    try { r.Read(in); } catch (const IoException&) { failed = true; } catch (...) { vf_assert(false, "W02.limit", "a format name above the limit is not reported as an I/O error"); failed = true; }
    vf_assert(failed && same(v, was), "W02.header", "an object of another format is read"); vf_assert(len <= 4 || vfg_reads == 1, "W02.limit", "a format name above the limit is read before it is refused"); vf_cover("header refused");
}
extern "C" void vfh_ctl_header() { Val o = value("ab"), v = value("previous"); { Sink s; const Hd w(o, "form", 2, 64); w.Write(s); } Play in; Hd r(v, "form", 3, 4); r.Read(in); vf_assert(same(v, o), "W02.header", "control"); }
