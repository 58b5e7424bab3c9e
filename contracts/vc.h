// Contract vocabulary. Two readings of the same text:
//  - symbolic (default): the vc_* functions are interpreted by /verif/engine (deductive verifier)
//  - native (-DVC_RUNTIME): the same contracts executed on concrete inputs (replay of counterexamples)
#ifndef VC_H
#define VC_H
#include <stdint.h>
#include <stddef.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef int64_t i64; typedef int32_t i32; typedef int16_t i16; typedef int8_t i8;
extern "C" {
u64 vc_any(u32 bits);
u64 vc_size(u64 max);
void vc_assume(bool c);
void vc_assert_(bool c, const char* label);
void vc_cover(const char* label);
void* vc_alloc(u64 n, u64 esz, bool heap);
void vc_fill(void* p, u64 n, u64 esz);
void* vc_snap(const void* p, u64 n, u64 esz);
void* vc_ghost(u64 n, u64 esz);
u64 vc_live();
void vc_unroll(u64 n);
void vc_terminates();
void vc_shared(const void* cell); // before each atomic access of the cell vc_env() runs, after each update vc_step(old, new)
void vc_inv_(const char* label, u32 np, void* fn, void* env);
void vc_invp_(const char* label, u32 np, void* fn, void* env, u64 esz);
void vc_clear_inv();
bool vc_forall1_(u64 lo, u64 hi, bool (*fn)(void*, u64), void* env);
bool vc_forall2_(u64 lo, u64 hi, u64 lo2, u64 hi2, bool (*fn)(void*, u64, u64), void* env);
}
#define vc_assert(c, label) vc_assert_((c), label)
template<class T> static inline T any() { return (T)vc_any(sizeof(T) * 8); }
template<> inline bool any<bool>() { return (vc_any(8) & 1) != 0; }
template<class T> static inline T* vc_array(u64 n) { return (T*)vc_alloc(n, sizeof(T), true); }      // heap block, arbitrary contents
template<class T> static inline void vc_contents(T* p, u64 n) { vc_fill((void*)p, n, sizeof(T)); }  // arbitrary contents for existing storage
template<class T> static inline T* vc_old(const T* p, u64 n) { return (T*)vc_snap((const void*)p, n, sizeof(T)); } // ghost copy
template<class F> static bool vc_tramp1(void* f, u64 a) { return (*(F*)f)(a); }
template<class F> static bool vc_tramp2(void* f, u64 a, u64 b) { return (*(F*)f)(a, b); }
template<class F> static bool vc_tramp0(void* f) { return (*(F*)f)(); }
template<class F> static bool vc_tramp3(void* f, u64 a, u64 b, u64 c) { return (*(F*)f)(a, b, c); }
template<class F> static inline bool vc_forall(u64 lo, u64 hi, F f) { return vc_forall1_(lo, hi, &vc_tramp1<F>, (void*)&f); }
template<class F> static inline bool vc_forall2(u64 lo, u64 hi, u64 lo2, u64 hi2, F f) { return vc_forall2_(lo, hi, lo2, hi2, &vc_tramp2<F>, (void*)&f); }
template<class F> static inline void vc_inv0(const char* l, F& f) { vc_inv_(l, 0, (void*)&vc_tramp0<F>, (void*)&f); }
template<class F> static inline void vc_inv1(const char* l, F& f) { vc_inv_(l, 1, (void*)&vc_tramp1<F>, (void*)&f); }
template<class F> static inline void vc_inv2(const char* l, F& f) { vc_inv_(l, 2, (void*)&vc_tramp2<F>, (void*)&f); }
template<class T, class F> static bool vc_trampp0(void* f, T* p) { return (*(F*)f)(p); }
template<class T, class F> static bool vc_trampp1(void* f, T* p, u64 a) { return (*(F*)f)(p, a); }
template<class T, class F> static inline void vc_invp0(const char* l, F& f) { vc_invp_(l, 0, (void*)&vc_trampp0<T, F>, (void*)&f, sizeof(T)); }
template<class T, class F> static inline void vc_invp1(const char* l, F& f) { vc_invp_(l, 1, (void*)&vc_trampp1<T, F>, (void*)&f, sizeof(T)); }
#define VC_CAT2(a, b) a##b
#define VC_CAT(a, b) VC_CAT2(a, b)
// loop invariant templates: bound by the verifier to every loop variable they fit, kept where inductive
#define INV0_(vc_id, label, ...) auto VC_CAT(vc_l, vc_id) = [&]() -> bool { return __VA_ARGS__; }; vc_inv0(label, VC_CAT(vc_l, vc_id))
#define INV0(label, ...) INV0_(__COUNTER__, label, __VA_ARGS__)
#define INV1_(vc_id, label, x, ...) auto VC_CAT(vc_l, vc_id) = [&](u64 x) -> bool { return __VA_ARGS__; }; vc_inv1(label, VC_CAT(vc_l, vc_id))
#define INV1(label, x, ...) INV1_(__COUNTER__, label, x, __VA_ARGS__)
#define INV2_(vc_id, label, x, y, ...) auto VC_CAT(vc_l, vc_id) = [&](u64 x, u64 y) -> bool { return __VA_ARGS__; }; vc_inv2(label, VC_CAT(vc_l, vc_id))
#define INV2(label, x, y, ...) INV2_(__COUNTER__, label, x, y, __VA_ARGS__)
// templates with a pointer: bound to the start of every array the loop writes or walks over
#define INVP0_(vc_id, label, T, p, ...) auto VC_CAT(vc_l, vc_id) = [&](T* p) -> bool { return __VA_ARGS__; }; vc_invp0<T>(label, VC_CAT(vc_l, vc_id))
#define INVP0(label, T, p, ...) INVP0_(__COUNTER__, label, T, p, __VA_ARGS__)
#define INVP1_(vc_id, label, T, p, x, ...) auto VC_CAT(vc_l, vc_id) = [&](T* p, u64 x) -> bool { return __VA_ARGS__; }; vc_invp1<T>(label, VC_CAT(vc_l, vc_id))
#define INVP1(label, T, p, x, ...) INVP1_(__COUNTER__, label, T, p, x, __VA_ARGS__)
#define FORALL(k, lo, hi, ...) vc_forall((lo), (hi), [&](u64 k) -> bool { return __VA_ARGS__; })
#define FORALL2(k, lo, hi, j, lo2, hi2, ...) vc_forall2((lo), (hi), (lo2), (hi2), [&](u64 k, u64 j) -> bool { return __VA_ARGS__; })
#define IMPLIES(a, b) (!(a) || (b))
#ifdef VC_RUNTIME
extern "C" void vc_register(const char* name, void (*fn)());
#define PROOF(name) extern "C" void PROOF_##name(); static struct VcReg_##name { VcReg_##name() { vc_register(#name, &PROOF_##name); } } vcreg_##name; extern "C" void PROOF_##name()
#else
#define PROOF(name) extern "C" void PROOF_##name()
#endif
// a contract standing in for a callee at its call sites: //@contract <proofs> <regex on demangled callee> <stub name>
#define CONTRACT(name) extern "C" __attribute__((used, noinline))
// ghost sequence defined by recurrence: P[0] = init, P[k+1] = step(k, P[k]) for k < n (always exists, so assuming it loses nothing)
template<class F> static inline u64* vc_recurrence(u64 n, u64 init, F step) {
  u64* p = (u64*)vc_ghost(n + 1, 8);
#ifdef VC_RUNTIME
  p[0] = init; for(u64 k = 0; k < n; ++k) p[k + 1] = step(k, p[k]);
#else
  vc_assume(p[0] == init); vc_assume(vc_forall(0, n, [&](u64 k) -> bool { return p[k + 1] == step(k, p[k]); }));
#endif
  return p;
}
#define SIZE_MAX_VC (1ull << 32)
static inline u64 any_size() { return vc_size(SIZE_MAX_VC); }
#endif
