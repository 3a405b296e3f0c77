// Harness API.  The same harness translation unit is (a) compiled to LLVM bitcode and executed symbolically by
// engine/abisym and (b) compiled natively (with sanitizers) and linked with rt/replay.cpp to replay concrete inputs
// found by the solver against the real code.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
void     vs_bytes(void* p, size_t n, const char* name);   // n fresh symbolic bytes
uint8_t  vs_u8(const char* name);
uint16_t vs_u16(const char* name);
uint32_t vs_u32(const char* name);
uint64_t vs_u64(const char* name);
uint64_t vs_range(uint64_t lo, uint64_t hi, const char* name);  // symbolic, lo..hi inclusive; the bound is used when simplifying
uint64_t vs_choice(uint64_t n, const char* name);         // enumerated: forks into n paths, concrete on each
void     vs_assume(bool c);
void     vs_assert(bool c, const char* msg);
void     vs_reach(const char* label);
void     vs_observe(const void* p, size_t n, const char* name);
void     vs_observe_u64(uint64_t v, const char* name);
void     vs_alloc_cap(size_t n);                            // violation if one allocation exceeds n bytes
size_t   vs_alloc_total();                                  // sum of all allocation requests so far
bool     vs_eq(const void* p, const void* q, size_t n);    // branch-free comparison
uint64_t vs_fork(uint64_t v);                               // make v concrete by forking over its values
void     vs_finding(bool c, const char* id);                // if c: path reaches a listed finding (reported, path ends)
bool     vs_symbolic();
size_t   vs_live_bytes();
void     vs_end();
void     vs_debug(const char* name, uint64_t v);
}
