// Contract language: the same harness text is verified symbolically (every
// dv_* call is interpreted by the VC generator) and executed natively (replay).
#pragma once
typedef unsigned long long dv_u64; typedef unsigned int dv_u32; typedef unsigned short dv_u16; typedef unsigned char dv_u8;
extern "C" {
dv_u64 dv_scalar(const char* name, dv_u64 lo, dv_u64 hi);
void*  dv_region(const char* name, dv_u64 count, dv_u64 esize);   // exactly count elements, arbitrary content
void*  dv_heap_region(const char* name, dv_u64 count, dv_u64 esize, bool owned); // malloc'd; may be freed only if owned
void   dv_watchk(dv_u64 k);         // element k of every array a loop writes is of interest
void   dv_term(dv_u64 v);           // a value loop invariants may compare with
void   dv_assume(bool c);
__attribute__((nomerge)) void dv_assert(bool c, const char* what);
void   dv_reach(const char* what);
void   dv_invariant(void* f, ...);  // bool f(args): may hold at every loop head (proved there, like any candidate)
void   dv_mark(const void* p);      // a zero element sits here (witness for strlen bounds)
void   dv_track(const void* p);     // element of interest for strlen's "nothing before is zero"
void   dv_watch(const void* p, dv_u64 nbytes);
void   dv_alphabet(const char* name, const char* chars);  // search hint only; no meaning in proofs
}
template<class T> static inline T* dv_array(const char* name, dv_u64 n) { return (T*)dv_region(name, n, sizeof(T)); }
