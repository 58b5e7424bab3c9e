// Fixed-point numbers.  The value of a Fixed<D> with bits b is b / 2^D.
#include "vc.h"
#include "bss-util/FixedPt.h"
using namespace bss;
typedef internal::__FixedBits<int32_t> FB;
typedef Fixed<12> F12; typedef Fixed<16> F16; typedef Fixed<13, int64_t> L13; typedef Fixed<20> F20;
static inline F12 f12(i32 b) { return F12(FB{ b }); }
static inline F16 f16(i32 b) { return F16(FB{ b }); }
PROOF(A09_same) {
  i32 x = any<i32>(), y = any<i32>(); vc_assume(x > -(1 << 30) && x < (1 << 30) && y > -(1 << 30) && y < (1 << 30));
  F12 a = f12(x), b = f12(y);
  vc_assert((a + b).Bits() == x + y && (a - b).Bits() == x - y && (-a).Bits() == -x, "addition, subtraction and negation are exact");
  F12 c(a); c += b; vc_assert(c.Bits() == x + y, "+= is exact"); c = a; c -= b; vc_assert(c.Bits() == x - y, "-= is exact");
  vc_assert((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "comparisons order the values");
}
PROOF(A09_mod) {
  i32 x = any<i32>(), y = any<i32>(); vc_assume(y != 0 && !(y == -1));
  F12 a = f12(x), b = f12(y); vc_assert((a % b).Bits() == x % y, "remainder of the values"); a %= b; vc_assert(a.Bits() == x % y, "%= is the remainder");
}
PROOF(A09_int) {
  i32 v = any<i32>(); vc_assume(v >= -(1 << 19) && v < (1 << 19));
  F12 a(v); vc_assert(a.Bits() == v * 4096 && (i32)a == v, "integers convert exactly both ways");
  i32 x = any<i32>(); i32 t = (i32)f12(x); vc_assert((i64)t * 4096 <= x && (i64)x < ((i64)t + 1) * 4096, "conversion to integer rounds down");
}
PROOF(A09_convert) {
  i32 x = any<i32>(); F16 a = f16(x); F12 b(a);
  vc_assert(b.Bits() == (x >> 4), "conversion to fewer fraction bits keeps the value, rounded down");
  i32 y = any<i32>(); vc_assume(y >= -(1 << 27) && y < (1 << 27)); F16 c(f12(y));
  vc_assert(c.Bits() == y * 16, "conversion to more fraction bits keeps the value exactly");
  F12 d(f12(0)); d = a; vc_assert(d.Bits() == (x >> 4), "assignment from another precision keeps the value");
  F16 g(f16(0)); g = f12(y); vc_assert(g.Bits() == y * 16, "assignment from another precision keeps the value (up)");
  L13 w(f12(x)); vc_assert(w.Bits() == (i64)x * 2, "conversion to a wider type keeps the value exactly");
  i64 z = any<i64>(); vc_assume(z >= -(1ll << 31) && z < (1ll << 31)); F12 n(L13(internal::__FixedBits<i64>{ z })); vc_assert(n.Bits() == (i32)(z >> 1), "conversion from a wider type keeps the value");
}
PROOF(A09_mixed) {
  i32 x = any<i32>(), y = any<i32>(); vc_assume(x > -(1 << 29) && x < (1 << 29) && y > -(1 << 25) && y < (1 << 25));
  F12 a = f12(x), b = f12(y); F16 c = f16(x), d = f16(y);
  vc_assert((c + b).Bits() == x + y * 16 && (c - b).Bits() == x - y * 16, "mixed precision addition aligns the operands");
  vc_assert((a + d).Bits() == x + (y >> 4) && (a - d).Bits() == x + ((-y) >> 4), "mixed precision addition aligns the operands (fewer bits)");
  F16 e(c); e += b; vc_assert(e.Bits() == x + y * 16, "mixed +="); e = c; e -= b; vc_assert(e.Bits() == x - y * 16, "mixed -=");
}
PROOF(A09_mul) {
  i32 x = any<i32>(), y = any<i32>();
  F12 a = f12(x); F16 b = f16(y);
  vc_assert((a * b).Bits() == (i32)(((i64)x * y) >> 16), "product is the exact product rounded down");
  vc_assert((a * f12(y)).Bits() == (i32)(((i64)x * y) >> 12), "product of equal precisions");
  F12 c(a); c *= b; vc_assert(c.Bits() == (i32)(((i64)x * y) >> 16), "*= is the product");
}
PROOF(A09_div) {
  i32 x = any<i32>(), y = any<i32>(); vc_assume(y != 0);
  F12 a = f12(x); F16 b = f16(y);
  vc_assert((a / b).Bits() == (i32)(((i64)x * 65536) / y), "quotient is the exact quotient rounded towards zero");
  F12 c(a); c /= b; vc_assert(c.Bits() == (i32)(((i64)x * 65536) / y), "/= is the quotient");
  vc_assert((a / f12(y)).Bits() == (i32)(((i64)x * 4096) / y), "quotient of equal precisions");
}
PROOF(A09_recip) {
  i32 x = any<i32>(); vc_assume(x > 4 || x < -4);
  vc_assert(f12(x).Reciprocal().Bits() == (i32)(((1 << 30) / x) << 2), "the reciprocal has 32-D fraction bits and is exact to two of them");
}
PROOF(A09_shift) {
  i32 x = any<i32>(), s = any<i32>(); vc_assume(s >= 0 && s < 32);
  vc_assert((f12(x) >> s).Bits() == (x >> s) && (f12(x) << s).Bits() == (i32)((u32)x << s), "shifts scale by powers of two");
  F12 a = f12(x); a >>= s; vc_assert(a.Bits() == (x >> s), ">>="); a = f12(x); a <<= s; vc_assert(a.Bits() == (i32)((u32)x << s), "<<=");
}
