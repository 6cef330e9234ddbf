// Primitives understood by the abstract interpreter (engine/interp.inc).
// Model code is never executed; it is part of the analysed program.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int vf_choice(int n, const char* label);          // any of 0..n-1
uint64_t vf_nondet(const char* label);            // any value
void* vf_nondet_ptr(const char* label);           // any pointer, to an unknown object
void vf_assume(bool c);
void vf_assert(bool c, const char* rule, const char* msg);
void vf_cover(const char* name);                  // must be reachable, otherwise the check is broken
// lockset rule: bytes of the object that two different threads use (one writes) must be used with *lock != 0; *thread == 0: not watched; atomics are exempt
void vf_lockset(void* p, size_t n, int* thread, int* lock, const char* rule, const char* msg);
// the other thread: vf_spawn runs fn until it returns (0) or suspends itself with vf_park (1); vf_resume continues it likewise
int vf_spawn(void (*fn)()) noexcept; void vf_park() noexcept; int vf_resume() noexcept; int vf_parked() noexcept;
void vf_event(const char* name);                  // trace only
void vf_symbolic(void* p, size_t n, const char* name); // unknown contents
int vf_is_freed(const void* p);
int vf_is_const(uint64_t v);
int vf_known_ult(uint64_t a, uint64_t b);
void vf_debug(const char* s, uint64_t v);
}
// the thorough tier explores one step more
#ifdef VF_DEEP
enum { DEEP = 1 };
#else
enum { DEEP = 0 };
#endif
// names starting with vfg_ are typestate: never joined, never widened, never havocked
#define VFG(type, name, init) extern "C" { type vfg_##name = init; }
