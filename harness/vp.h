// Contract-harness API.  Under the verifier these are intrinsics of the VC
// generator; natively (replay) they are implemented by replay_rt.cc.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
extern "C" {
void vp_entry(const char* name, void (*fn)());
void vp_sym(void* p, size_t bytes, size_t es, const char* name);  // arbitrary contents
size_t vp_size(const char* name, size_t max);                     // arbitrary size in [0, max]
void vp_assume(int c);                                             // precondition
void vp_check(int c, const char* label);                           // postcondition
void vp_eq(const void* a, const void* b, size_t n, size_t es, const char* label);   // bit equality
void vp_feq(const void* a, const void* b, size_t n, size_t es, const char* label);  // bit equality, any NaN == any NaN
void* vp_region(size_t es, size_t count, const char* name);       // memory of symbolic length
void* vp_snapshot(const void* region);                              // ghost copy of a region's current contents
void vp_replace(const char* fn, void (*stub)());                  // use a contract instead of the body
void vp_cut(const char* fn);                                       // prove loops of fn by invariant
void vp_inv0(int (*p)(), const char* label);
void vp_inv1(int (*p)(size_t), const char* label);
void vp_inv2(int (*p)(size_t, size_t), const char* label);
void vp_invE(int (*p)(size_t, size_t), const char* label);
void vp_def1(int (*p)(size_t), const char* label);                 // definition of a ghost function, instantiated at every loop index (trusted)
void vp_nsw(int on);
// proof hint (checked for completeness by the verifier): 0 = enumerate values below k, 1 = position of the leading one, 2 = of the trailing one
void vp_split(const void* p, size_t n, size_t es, int kind, size_t k);
void vp_havoc(void* p, size_t n, size_t es);
void vp_havoc_region(void* p);
uint64_t vp_pure(const char* name, uint64_t x);
uint64_t vp_pure2(const char* name, uint64_t x, uint64_t y);
int vp_native();
void vp_dead();
void vp_main();
}
template <class T> static inline T vp_any(const char* name) { T t; vp_sym(&t, sizeof(T), sizeof(T), name); return t; }
