// Rational numbers, for the 8-bit instantiation (the same template code; every pair of 8-bit operands, products kept in range).
#include "vc.h"
#include <stdlib.h>
#include "bss-util/Rational.h"
using namespace bss;
typedef int8_t T; typedef Rational<T> R;
PROOF(A10_gcd) {
  T a = any<T>(), b = any<T>(); vc_assume(a != -128 && b != -128 && (a != 0 || b != 0)); vc_unroll(14);
  T g = R::GCD<T>(a, b);
  vc_assert(g > 0 && a % g == 0 && b % g == 0, "the result divides both numbers");
  T k = any<T>(); vc_assume(k > 0 && a % k == 0 && b % k == 0);
  vc_assert(k <= g, "no common divisor is larger");
}
// a rational in lowest terms: d > 0 and no common divisor
static R arb(T lim) { T n = any<T>(), d = any<T>(); vc_assume(n >= -lim && n <= lim && d > 0 && d <= lim);
  vc_unroll(14);
#ifdef VC_RUNTIME
  T g = R::GCD<T>(n, d); n /= g; d /= g;
#else
  vc_assume(FORALL(k, 2, 12, n % (int)k != 0 || d % (int)k != 0));
#endif
  R r; r._n = n; r._d = d; return r; }
#define CANON(r, what) { vc_assert(r._d > 0, what " has a positive denominator"); T k = any<T>(); vc_assume(k > 1); vc_assert(r._n % k != 0 || r._d % k != 0, what " is in lowest terms"); }
#define VALUE(r, num, den, what) vc_assert((int)r._n * (den) == (num) * (int)r._d, what " has the exact value")
#define N(x) ((int)x._n)
#define D(x) ((int)x._d)
PROOF(A10_construct) { T n = any<T>(), d = any<T>(); vc_assume(n >= -12 && n <= 12 && d >= -12 && d <= 12 && d != 0); vc_unroll(14); R r(n, d); VALUE(r, n, d, "a fraction"); CANON(r, "a fraction");
  R s; s.SetFraction(n, d); vc_assert(s == r && !(s != r), "SetFraction is the same fraction"); }
PROOF(A10_add) { R a = arb(5), b = arb(5); R r = a + b; VALUE(r, N(a) * D(b) + N(b) * D(a), D(a) * D(b), "the sum"); CANON(r, "the sum"); }
PROOF(A10_sub) { R a = arb(5), b = arb(5); R r = a - b; VALUE(r, N(a) * D(b) - N(b) * D(a), D(a) * D(b), "the difference"); CANON(r, "the difference"); }
PROOF(A10_mul) { R a = arb(6), b = arb(6); R r = a * b; VALUE(r, N(a) * N(b), D(a) * D(b), "the product"); CANON(r, "the product"); }
PROOF(A10_div) { R a = arb(6), b = arb(6); vc_assume(b._n != 0); R r = a / b; VALUE(r, N(a) * D(b), D(a) * N(b), "the quotient"); CANON(r, "the quotient"); }
PROOF(A10_int) { R a = arb(7); T i = any<T>(); vc_assume(i >= -7 && i <= 7);
  R r = a + i; VALUE(r, N(a) + i * D(a), D(a), "sum with an integer"); CANON(r, "sum with an integer");
  r = a - i; VALUE(r, N(a) - i * D(a), D(a), "difference with an integer"); CANON(r, "difference with an integer"); }
PROOF(A10_mulint) { R a = arb(7); T i = any<T>(); vc_assume(i >= -7 && i <= 7);
  R r = a * i; VALUE(r, N(a) * i, D(a), "product with an integer"); CANON(r, "product with an integer"); }
PROOF(A10_divint) { R a = arb(7); T i = any<T>(); vc_assume(i >= -7 && i <= 7 && i != 0);
  R r = a / i; VALUE(r, N(a), D(a) * i, "quotient by an integer"); CANON(r, "quotient by an integer"); }
PROOF(A10_compare) { R a = arb(7), b = arb(7); T i = any<T>(); vc_assume(i >= -7 && i <= 7); vc_unroll(20);
  vc_assert((a == b) == (N(a) * D(b) == N(b) * D(a)) && (a != b) != (a == b), "equality is equality of values");
  vc_assert((a == i) == (N(a) == i * D(a)) && (a < i) == (N(a) < i * D(a)) && (a > i) == (N(a) > i * D(a)), "comparison with an integer is exact");
  vc_assert((a <= i) == (N(a) <= i * D(a)) && (a >= i) == (N(a) >= i * D(a)), "comparison with an integer is exact (or equal)");
  vc_assert(a.Truncate() == a._n / a._d && !a == (a._n == 0), "truncation rounds towards zero"); }
