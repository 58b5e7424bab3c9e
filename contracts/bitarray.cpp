// DynArray<bool>: a packed sequence of bits behaves like the sequence of its booleans.
#include "vc.h"
#include "bss-util/DynArray.h"
using namespace bss;
typedef DynArray<bool> DB;
#define BIT(p, k) ((((p)[(k) >> 3] >> ((k) & 7)) & 1) != 0)
// arbitrary well formed bit array: c bytes of storage, n <= 8c bits
#define ARB(a, n, c, old) u64 c = any_size(); vc_assume(c < (1ull << 28)); u64 n = any_size(); vc_assume(n <= 8 * c); DB a(8 * c); vc_contents(a._array, c); a._length = n; u8* old = vc_old(a._array, c)
#define AT(a, k) (((const DB&)(a))[k])
#define WF(a) vc_assert((a).Length() <= (a).Capacity(), "length <= capacity"); vc_assert((a).Empty() == ((a).Length() == 0), "Empty() iff length 0")

PROOF(A02_get) {
  ARB(a, n, c, old); u64 i = any<u64>(); vc_assume(i < n);
  vc_assert(AT(a, i) == BIT(old, i) && (bool)a[i] == BIT(old, i), "operator[] reads bit i");
  vc_assert(a.Length() == n && a.Capacity() >= n, "length");
}
PROOF(A02_set) {
  ARB(a, n, c, old); u64 i = any<u64>(); vc_assume(i < n); bool v = any<bool>();
  a[i] = v;
  vc_assert(AT(a, i) == v, "assignment through operator[] stores the bit");
  vc_assert(FORALL(k, 0, n, k == i || AT(a, k) == BIT(old, k)), "assignment through operator[] changes no other bit");
}
PROOF(A02_add) {
  ARB(a, n, c, old); bool v = any<bool>();
  u64 r = a.Add(v);
  vc_assert(r == n && a.Length() == n + 1, "Add grows by one"); vc_assert(AT(a, n) == v, "Add appends the bit");
  vc_assert(FORALL(k, 0, n, AT(a, k) == BIT(old, k)), "Add keeps the other bits"); WF(a);
}
PROOF(A02_addconstruct) {
  ARB(a, n, c, old);
  u64 r = a.AddConstruct();
  vc_assert(r == n && a.Length() == n + 1, "AddConstruct grows by one"); vc_assert(AT(a, n) == false, "AddConstruct appends false");
  vc_assert(FORALL(k, 0, n, AT(a, k) == BIT(old, k)), "AddConstruct keeps the other bits"); WF(a);
}
PROOF(A02_frontback) {
  ARB(a, n, c, old); vc_assume(n > 0);
  const DB& q = a;
  vc_assert(q.Front() == BIT(old, 0), "const Front"); vc_assert(q.Back() == BIT(old, n - 1), "const Back");
  vc_assert((bool)a.Front() == BIT(old, 0), "Front"); vc_assert((bool)a.Back() == BIT(old, n - 1), "Back");
}
PROOF(A02_insert) {
  ARB(a, n, c, old); u64 i = any<u64>(); vc_assume(i <= n); bool v = any<bool>();
  u64 b = i >> 3; u8 mk = (u8)(0xff << (i & 7));
  u8 fb = b < c ? (u8)(((old[b] & mk) << 1) | (old[b] & (u8)~mk)) : 0;
  INV0("bytes before", FORALL(j, 0, b, a._array[j] == old[j]));
  INV0("first byte", b >= c || a._array[b] == fb);
  INV1("position", x, x > b);
  INV1("shifted bytes", x, FORALL(j, b + 1, x, j >= c || a._array[j] == (u8)((old[j - 1] >> 7) | (old[j] << 1))));
  INV1("rest", x, FORALL(j, x, c, a._array[j] == old[j]));
  INV2("carry", x, s, x > c || (u8)s == old[x - 1]);
  INV1("top byte", x, x <= c || b >= c || ((a._array[c] ^ (old[c - 1] >> 7)) & 1) == 0);
  a.Insert(v, i);
  vc_assert(a.Length() == n + 1, "Insert grows by one"); vc_assert(AT(a, i) == v, "Insert stores the bit");
  vc_assert(FORALL(k, 0, i, AT(a, k) == BIT(old, k)), "Insert keeps the prefix");
  vc_assert(FORALL(k, i + 1, n + 1, AT(a, k) == BIT(old, k - 1)), "Insert shifts the suffix by one"); WF(a);
}
PROOF(A02_remove) {
  ARB(a, n, c, old); u64 i = any<u64>(); vc_assume(i < n);
  u64 b = i >> 3; u64 len = (n + 7) >> 3;
  u8 mk = (u8)(0xff << (i & 7)); u8 fb = (u8)(((old[b] >> 1) & mk) | (old[b] & (u8)~mk));
  INV0("bytes before", FORALL(j, 0, b, a._array[j] == old[j]));
  INV0("first byte low", ((a._array[b] ^ fb) & 0x7f) == 0);
  INV1("first byte high", x, x == b + 1 || (a._array[b] >> 7) == (old[b + 1] & 1));
  INV1("position", x, x > b);
  INV1("shifted bytes", x, FORALL(j, b + 1, x - 1, a._array[j] == (u8)((old[j] >> 1) | (old[j + 1] << 7))));
  INV1("last shifted", x, x == b + 1 || a._array[x - 1] == (u8)(old[x - 1] >> 1));
  INV1("rest", x, FORALL(j, x, c, a._array[j] == old[j]));
  a.Remove(i);
  vc_assert(a.Length() == n - 1, "Remove shrinks by one");
  vc_assert(FORALL(k, 0, i, AT(a, k) == BIT(old, k)), "Remove keeps the prefix");
  vc_assert(FORALL(k, i + 1, n, AT(a, k - 1) == BIT(old, k)), "Remove closes the gap"); WF(a);
}
PROOF(A02_removelast) {
  ARB(a, n, c, old); vc_assume(n > 0);
  a.RemoveLast();
  vc_assert(a.Length() == n - 1, "RemoveLast shrinks by one"); vc_assert(FORALL(k, 0, n - 1, AT(a, k) == BIT(old, k)), "RemoveLast keeps the rest");
}
PROOF(A02_setlength) {
  ARB(a, n, c, old); u64 m = any_size(); vc_assume(m < (1ull << 31));
  INV1("new bits are false", x, FORALL(k, n, x, !BIT(a._array, k)) && FORALL(k, 0, n, BIT(a._array, k) == BIT(old, k)));
  a.SetLength(m);
  vc_assert(a.Length() == m, "SetLength sets the length");
  vc_assert(FORALL(k, 0, m, AT(a, k) == (k < n ? BIT(old, k) : false)), "SetLength keeps the common prefix and appends false"); WF(a);
}
PROOF(A02_setcapacity) {
  ARB(a, n, c, old); u64 m = any_size(); vc_assume(m < (1ull << 31));
  a.SetCapacity(m);
  vc_assert(a.Length() == n && a.Capacity() >= m, "SetCapacity reserves without changing the length");
  vc_assert(FORALL(k, 0, n, AT(a, k) == BIT(old, k)), "SetCapacity keeps the bits"); WF(a);
}
PROOF(A02_flip) {
  ARB(a, n, c, old);
  INV1("flipped bytes", x, FORALL(j, 0, x, a._array[j] == (u8)~old[j]) && FORALL(j, x, c, a._array[j] == old[j]));
  a.Flip();
  vc_assert(a.Length() == n && FORALL(k, 0, n, AT(a, k) == !BIT(old, k)), "Flip negates every bit");
}
static inline u64 pop8(u64 x) { x &= 0xff; x = x - ((x >> 1) & 0x55); x = (x & 0x33) + ((x >> 2) & 0x33); return (x + (x >> 4)) & 0xf; }
PROOF(A02_countbits) {
  ARB(a, n, c, old); u64 i = any<u64>(), len = any<u64>(); vc_assume(i <= n && len <= n - i);
  u64* P = vc_recurrence(c, 0, [&](u64 k, u64 prev) { return prev + pop8(old[k]); }); // P[j] = set bits in the first j bytes
  auto rank = [&](u64 x) { return P[x >> 3] + ((x & 7) ? pop8(old[x >> 3] & ((1 << (x & 7)) - 1)) : 0); };
  if(!len) { vc_assert(a.CountBits(i, len) == 0, "CountBits of an empty range is 0"); return; }
  u64 e = (i + len + 7) >> 3;
  u64 first = pop8(old[i >> 3] & (0xff << (i & 7))), last = pop8(old[e - 1] & (0xff >> ((e << 3) - i - len)));
  vc_assert(rank(i + len) == P[e - 1] + last, "lemma: rank of the end"); vc_assert(rank(i) + first == P[(i >> 3) + 1], "lemma: rank of the start");
  vc_assert((e - 1) != (i >> 3) || first + last == pop8(old[e - 1]) + pop8(old[e - 1] & (0xff << (i & 7)) & (0xff >> ((e << 3) - i - len))), "lemma: one byte");
  INV2("running count", x, cc, cc == first + last + (P[x] - P[(i >> 3) + 1]));
  u64 r = a.CountBits(i, len);
  vc_assert(r == rank(i + len) - rank(i), "CountBits is the number of set bits in the range");
}
PROOF(A02_copy) {
  ARB(a, n, c, old);
  DB b(a);
  vc_assert(b.Length() == n && a.Length() == n && FORALL(k, 0, n, AT(b, k) == BIT(old, k) && AT(a, k) == BIT(old, k)), "copy has the same bits"); WF(b);
  DB d((DB&&)a);
  vc_assert(d.Length() == n && a.Length() == 0 && FORALL(k, 0, n, AT(d, k) == BIT(old, k)), "move takes the bits"); WF(a);
}
PROOF(A02_assign) {
  ARB(a, n, c, old); ARB(b, m, c2, old2);
  a = b;
  vc_assert(a.Length() == m && b.Length() == m, "assignment takes the length");
  vc_assert(FORALL(k, 0, m, AT(a, k) == BIT(old2, k) && AT(b, k) == BIT(old2, k)), "assignment copies the bits"); WF(a);
}
PROOF(A02_moveassign) {
  ARB(a, n, c, old); ARB(b, m, c2, old2); u64 live = vc_live();
  a = (DB&&)b;
  vc_assert(a.Length() == m && b.Length() == 0 && FORALL(k, 0, m, AT(a, k) == BIT(old2, k)), "move assignment takes the bits"); WF(a); WF(b);
}
PROOF(A02_noleak) {
  u64 before = vc_live();
  { ARB(a, n, c, old); a.Add(true); DB b(a); DB d((DB&&)a); b = d; d = (DB&&)b; d.Clear(); }
  vc_assert(vc_live() == before, "no block leaks");
}
