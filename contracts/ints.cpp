// Integer and bit helpers.
#include "vc.h"
#include "bss-util/bss_util.h"
using namespace bss;
PROOF(A08_log2) {
  u64 v = any<u64>(); u32 r = bssLog2(v);
  vc_assert(v == 0 ? r == 0 : r < 64 && (v >> r) == 1, "64-bit log2 is the position of the highest set bit");
  u32 w = any<u32>(); r = bssLog2(w);
  vc_assert(w == 0 ? r == 0 : r < 32 && (w >> r) == 1, "32-bit log2 is the position of the highest set bit");
  u32 p = any<u32>(); vc_assume(p < 32);
  vc_assert(bssLog2_p2(1u << p) == p, "log2 of a power of two");
}
template<class T> static void nextpow2() {
  T v = any<T>(); vc_assume(v > 0 && v <= (T)((T)1 << (sizeof(T) * 8 - 1)));
  T r = NextPow2(v);
  vc_assert(r >= v && (r & (T)(r - 1)) == 0 && (T)(r >> 1) < v, "NextPow2 is the smallest power of two not below its argument");
}
PROOF(A08_nextpow2) { nextpow2<u64>(); nextpow2<u32>(); nextpow2<u16>(); nextpow2<u8>(); }
template<class T> static u32 popc(T v) { u32 c = 0;
#pragma clang loop unroll(full)
  for(u32 i = 0; i < sizeof(T) * 8; ++i) c += (u32)((v >> i) & 1);
  return c; }
PROOF(A08_bitcount8) { vc_unroll(80); u8 v = any<u8>(); vc_assert(BitCount<u8>(v) == popc<u8>(v), "BitCount counts the set bits (8)"); }
PROOF(A08_bitcount16) { vc_unroll(80); u16 v = any<u16>(); vc_assert(BitCount<u16>(v) == popc<u16>(v), "BitCount counts the set bits (16)"); }
PROOF(A08_bitcount32) { vc_unroll(80); u32 v = any<u32>(); vc_assert(BitCount<u32>(v) == popc<u32>(v), "BitCount counts the set bits (32)"); }
PROOF(A08_bitcount64) { vc_unroll(80); u64 v = any<u64>(); vc_assert(BitCount<u64>(v) == popc<u64>(v), "BitCount counts the set bits (64)"); }
template<class T> static void mod() {
  T x = any<T>(), m = any<T>(); vc_assume(m > 0);
  T r = bssMod<T>(x, m), q = IntDiv<T, T>(x, m);
  vc_assert(r >= 0 && r < m, "modulo lies in [0, m)");
  vc_assert((T)(q * m + r) == x, "quotient and modulo recompose the number");
  vc_assert(x >= 0 ? q == x / m : (x % m == 0 ? q == x / m : q == x / m - 1), "division rounds towards negative infinity");
}
PROOF(A08_mod8) { mod<i8>(); }
template<class T> static void modn() { // wide types: against the machine remainder
  T x = any<T>(), m = any<T>(); vc_assume(m > 0);
  T r = bssMod<T>(x, m), q = IntDiv<T, T>(x, m), t = x % m;
  vc_assert(r == (t < 0 ? t + m : t), "modulo is the non-negative remainder");
  vc_assert(q == (t < 0 ? x / m - 1 : x / m), "division rounds towards negative infinity");
}
PROOF(A08_mod32) { modn<i32>(); }
PROOF(A08_mod64) { modn<i64>(); }
template<class T> static void isqrt() {
  vc_unroll(40); T n = any<T>();
  u64 r = IntFastSqrt<T>(n);
  vc_assert(r * r <= (u64)n && (u64)n < (r + 1) * (r + 1), "IntFastSqrt is the integer square root");
}
PROOF(A08_isqrt8) { isqrt<u8>(); }
PROOF(A08_isqrt16) { isqrt<u16>(); }
template<class T> static void signs() {
  typedef typename std::make_unsigned<T>::type U; T x = any<T>();
  vc_assert(bssAbs<T>(x) == (x < 0 ? (U)(0 - (U)x) : (U)x), "bssAbs is the absolute value, also of the minimum");
  vc_assert(tsign<T>(x) == (x < 0 ? -1 : 1) && tsignzero<T>(x) == (x < 0 ? -1 : x > 0), "signs");
  U u = any<U>();
  vc_assert(bssNegate<U>(u, 0) == (T)u && bssNegate<U>(u, 1) == (T)(0 - u), "bssNegate negates when asked");
}
PROOF(A08_signs) { signs<i8>(); signs<i16>(); signs<i32>(); signs<i64>(); }
template<class T> static void flip() {
  vc_unroll(10); T v = any<T>(), o = v; FlipEndian(&v);
  u8* a = (u8*)&v; u8* b = (u8*)&o; u64 i = any<u64>(); vc_assume(i < sizeof(T));
  vc_assert(a[i] == b[sizeof(T) - 1 - i], "FlipEndian reverses the bytes");
}
PROOF(A08_flipendian) { flip<u16>(); flip<u32>(); flip<u64>(); flip<u8>(); }
PROOF(A08_flipendian_n) {
  u8 n = any<u8>(); vc_assume(n > 0); u8* p = vc_array<u8>(n); u8* old = vc_old(p, n);
  INV1("swapped so far", x, FORALL(k, 0, n, (k < x || k >= n - x) ? p[k] == old[n - 1 - k] : p[k] == old[k]));
  FlipEndian(p, n);
  vc_assert(FORALL(k, 0, n, p[k] == old[n - 1 - k]), "FlipEndian reverses the bytes");
}
PROOF(A08_setbit) {
  u32 w = any<u32>(), b = any<u32>(); bool v = any<bool>(); u32 r = bssSetBit<u32>(w, b, v);
  vc_assert(r == (v ? (w | b) : (w & ~b)), "bssSetBit changes exactly the given bits");
  u8 w8 = any<u8>(), b8 = any<u8>(); vc_assert(bssSetBit<u8>(w8, b8, v) == (u8)(v ? (w8 | b8) : (w8 & ~b8)), "bssSetBit changes exactly the given bits (8)");
  u64 w6 = any<u64>(), b6 = any<u64>(); vc_assert(bssSetBit<u64>(w6, b6, v) == (v ? (w6 | b6) : (w6 & ~b6)), "bssSetBit changes exactly the given bits (64)");
}
PROOF(A08_mulextract) {
  i32 x = any<i32>(), y = any<i32>(), s = any<i32>(); vc_assume(s >= 0 && s < 64);
  vc_assert(bssMultiplyExtract<i32>(x, y, s) == (i32)(((i64)x * (i64)y) >> s), "multiply-extract takes bits of the exact product");
}
template<class T, class W> static void mulx() { // the two-limb product used for 64-bit operands, at a narrower operand type
  T x = any<T>(), y = any<T>();
  if(x < 0) vc_cover("negative"); if(y < 0) vc_cover("negative");
  vc_unroll(40);
  for(T s = 1; s < (T)(sizeof(T) * 16); ++s)
    vc_assert(internal::_bssmultiplyextract<T>(x, y, s) == (T)(((W)x * (W)y) >> s), "multiply-extract takes bits of the exact product");
}
PROOF(A08_mulx8) { mulx<i8, i16>(); }
static inline bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
template<int M> static void days(int lo = -1000, int hi = 1000) {
  int era = any<int>(), yoe = any<int>(); u32 d = any<u32>(); vc_assume(era >= lo && era <= hi && yoe >= 0 && yoe < 400);
  int y = era * 400 + yoe; bool lp = yoe % 4 == 0 && (yoe % 100 != 0 || yoe == 0);
  u32 len = M == 2 ? (lp ? 29 : 28) : (M == 4 || M == 6 || M == 9 || M == 11) ? 30 : 31; vc_assume(d >= 1 && d <= len);
  if(d < len) vc_assert(DaysFromCivil<int>(y, M, d + 1) == DaysFromCivil<int>(y, M, d) + 1, "consecutive days of a month have consecutive numbers");
  else vc_assert(DaysFromCivil<int>(M == 12 ? y + 1 : y, M == 12 ? 1 : M + 1, 1) == DaysFromCivil<int>(y, M, d) + 1, "the first of a month follows the last of the one before");
}
PROOF(A08_days1) { days<1>(); days<3>(); days<4>(); days<5>(); }
PROOF(A08_days2) { days<2>(0, 0); }
PROOF(A08_days2n) { days<2>(-1, -1); }
PROOF(A08_days400) {
  int era = any<int>(), yoe = any<int>(); u32 m = any<u32>(), d = any<u32>(); vc_assume(era >= -1000 && era <= 1000 && yoe >= 0 && yoe < 400 && m >= 1 && m <= 12 && d >= 1 && d <= 31);
  int y = era * 400 + yoe + (m <= 2); // years counted from March
  if(era >= 0) { vc_assert((era * 400 + yoe) / 400 == era, "lemma: era"); vc_assert((era * 400 + 400 + yoe) / 400 == era + 1, "lemma: next era"); }
  else { vc_assert((era * 400 + yoe - 399) / 400 == era, "lemma: era"); vc_assert(era == -1 || (era * 400 + 400 + yoe - 399) / 400 == era + 1, "lemma: next era"); }
  vc_assert(DaysFromCivil<int>(y + 400, m, d) == DaysFromCivil<int>(y, m, d) + 146097, "the calendar repeats every 400 years");
}
PROOF(A08_days6) { days<6>(); days<7>(); days<8>(); days<9>(); }
PROOF(A08_days10) { days<10>(); days<11>(); days<12>(); vc_assert(DaysFromCivil<int>(1970, 1, 1) == 0, "day 0 is 1970-01-01"); }
