// DynArray / Array with plain elements: every operation is the sequence operation it is named after.
#include "vc.h"
#include "bss-util/DynArray.h"
using namespace bss;
typedef DynArray<int> DA;
typedef Array<int> AR;
// an arbitrary well formed DynArray<int>: any length n <= capacity, any contents
struct DAState { DA a; u64 n; int* old; };
#define ARB_DA(a, n, old) u64 n = any_size(); u64 VC_CAT(cap_, n) = any_size(); vc_assume(n <= VC_CAT(cap_, n)); DA a; a.SetCapacity(VC_CAT(cap_, n)); a.SetLength(n); vc_contents(a.begin(), n); int* old = vc_old(a.begin(), n)
#define WF(a) vc_assert((a).Length() <= (a).Capacity(), "length <= capacity"); vc_assert((a).Empty() == ((a).Length() == 0), "Empty() iff length 0")

PROOF(A01_add) {
  ARB_DA(a, n, old); int v = any<int>();
  u64 r = a.Add(v);
  vc_assert(r == n && a.Length() == n + 1, "Add returns the old length and grows by one");
  vc_assert(FORALL(k, 0, n, a[k] == old[k]), "Add keeps the other elements");
  vc_assert(a[n] == v && a.Back() == v, "Add appends the value"); WF(a);
}
PROOF(A01_add_own_element) { // the argument may refer to an element of the array itself when no growth is needed
  ARB_DA(a, n, old); vc_assume(n > 0 && n < a.Capacity()); u64 j = any<u64>(); vc_assume(j < n);
  a.Add(a[j]);
  vc_assert(a.Length() == n + 1 && a[n] == old[j], "Add(a[j]) appends a[j]");
  vc_assert(FORALL(k, 0, n, a[k] == old[k]), "Add keeps the other elements");
}
PROOF(A01_addconstruct) {
  ARB_DA(a, n, old); int v = any<int>();
  u64 r = a.AddConstruct(v);
  vc_assert(r == n && a.Length() == n + 1 && a[n] == v, "AddConstruct appends the constructed value");
  vc_assert(FORALL(k, 0, n, a[k] == old[k]), "AddConstruct keeps the other elements"); WF(a);
}
PROOF(A01_insert) {
  ARB_DA(a, n, old); u64 i = any<u64>(); vc_assume(i <= n); int v = any<int>();
  a.Insert(v, i);
  vc_assert(a.Length() == n + 1, "Insert grows by one");
  vc_assert(FORALL(k, 0, i, a[k] == old[k]), "Insert keeps the prefix");
  vc_assert(a[i] == v, "Insert stores the value at the index");
  vc_assert(FORALL(k, i, n, a[k + 1] == old[k]), "Insert shifts the suffix by one"); WF(a);
}
PROOF(A01_insert_default) {
  ARB_DA(a, n, old); int v = any<int>();
  a.Insert(v);
  vc_assert(a.Length() == n + 1 && a[0] == v && a.Front() == v, "Insert(v) inserts at the front");
  vc_assert(FORALL(k, 0, n, a[k + 1] == old[k]), "Insert(v) shifts everything by one");
}
PROOF(A01_remove) {
  ARB_DA(a, n, old); u64 i = any<u64>(); vc_assume(i < n);
  a.Remove(i);
  vc_assert(a.Length() == n - 1, "Remove shrinks by one");
  vc_assert(FORALL(k, 0, i, a[k] == old[k]), "Remove keeps the prefix");
  vc_assert(FORALL(k, i + 1, n, a[k - 1] == old[k]), "Remove closes the gap"); WF(a);
}
PROOF(A01_removelast) {
  ARB_DA(a, n, old); vc_assume(n > 0);
  a.RemoveLast();
  vc_assert(a.Length() == n - 1, "RemoveLast shrinks by one");
  vc_assert(FORALL(k, 0, n - 1, a[k] == old[k]), "RemoveLast keeps the rest"); WF(a);
}
PROOF(A01_setlength) {
  ARB_DA(a, n, old); u64 m = any_size();
  a.SetLength(m);
  vc_assert(a.Length() == m && a.Capacity() >= m, "SetLength sets the length");
  vc_assert(FORALL(k, 0, n < m ? n : m, a[k] == old[k]), "SetLength keeps the common prefix"); WF(a);
}
PROOF(A01_setcapacity) {
  ARB_DA(a, n, old); u64 m = any_size();
  a.SetCapacity(m);
  vc_assert(a.Length() == n && a.Capacity() >= m && a.Capacity() >= n, "SetCapacity reserves without changing the length");
  vc_assert(FORALL(k, 0, n, a[k] == old[k]), "SetCapacity keeps the elements"); WF(a);
}
PROOF(A01_clear) {
  ARB_DA(a, n, old);
  a.Clear();
  vc_assert(a.Length() == 0 && a.Empty(), "Clear empties the array"); WF(a);
}
PROOF(A01_set) {
  ARB_DA(a, n, old); u64 m = any_size(); int* src = vc_array<int>(m); vc_assume(m > 0);
  int* s0 = vc_old(src, m);
  a.Set(src, m);
  vc_assert(a.Length() == m, "Set takes the given length");
  vc_assert(FORALL(k, 0, m, a[k] == s0[k]), "Set copies the given elements");
  vc_assert(FORALL(k, 0, m, src[k] == s0[k]), "Set does not touch its source"); WF(a);
}
PROOF(A01_slice) {
  u64 m = any_size(); vc_assume(m > 0); int* src = vc_array<int>(m);
  Slice<const int, size_t> s(src, m);
  INVP1("copied so far", int, p, x, x <= m && FORALL(k, 0, x, p[k] == src[k]));
  DA a(s);
  vc_assert(a.Length() == m, "construction from a slice takes its length");
  vc_assert(FORALL(k, 0, m, a[k] == src[k]), "construction from a slice copies its elements");
  Slice<int, size_t> g = a.GetSlice();
  vc_assert(g.start == a.begin() && g.length == m && a.end() == a.begin() + m, "GetSlice/begin/end describe the elements");
  vc_assert(g.Front() == src[0] && g.Back() == src[m - 1], "slice Front and Back");
}
PROOF(A01_copy) {
  ARB_DA(a, n, old);
  DA b(a);
  vc_assert(b.Length() == n && a.Length() == n, "copy has the same length");
  vc_assert(FORALL(k, 0, n, b[k] == old[k] && a[k] == old[k]), "copy has the same elements and leaves the source alone");
  vc_assert(n == 0 || b.begin() != a.begin(), "copy does not share storage");
  WF(b);
}
PROOF(A01_move) {
  ARB_DA(a, n, old);
  DA b((DA&&)a);
  vc_assert(b.Length() == n && a.Length() == 0, "move takes the elements and empties the source");
  vc_assert(FORALL(k, 0, n, b[k] == old[k]), "move keeps the elements"); WF(a); WF(b);
}
PROOF(A01_assign) {
  ARB_DA(a, n, old); ARB_DA(b, m, old2);
  a = b;
  vc_assert(a.Length() == m && b.Length() == m, "assignment takes the length");
  vc_assert(FORALL(k, 0, m, a[k] == old2[k] && b[k] == old2[k]), "assignment copies the elements and leaves the source alone");
  vc_assert(m == 0 || a.begin() != b.begin(), "assignment does not share storage"); WF(a);
}
PROOF(A01_moveassign) {
  ARB_DA(a, n, old); ARB_DA(b, m, old2);
  a = (DA&&)b;
  vc_assert(a.Length() == m && b.Length() == 0, "move assignment takes the elements and empties the source");
  vc_assert(FORALL(k, 0, m, a[k] == old2[k]), "move assignment keeps the elements"); WF(a); WF(b);
}
PROOF(A01_append) {
  ARB_DA(a, n, old); ARB_DA(b, m, old2);
  a += b;
  vc_assert(a.Length() == n + m, "+= adds the lengths");
  vc_assert(FORALL(k, 0, n, a[k] == old[k]), "+= keeps the elements");
  vc_assert(FORALL(k, 0, m, a[n + k] == old2[k]), "+= appends the other elements");
  vc_assert(b.Length() == m && FORALL(k, 0, m, b[k] == old2[k]), "+= leaves its argument alone"); WF(a);
}
PROOF(A01_concat) {
  ARB_DA(a, n, old); ARB_DA(b, m, old2);
  DA c(a + b);
  vc_assert(c.Length() == n + m, "+ adds the lengths");
  vc_assert(FORALL(k, 0, n, c[k] == old[k]), "+ starts with the left elements");
  vc_assert(FORALL(k, 0, m, c[n + k] == old2[k]), "+ continues with the right elements");
  vc_assert(a.Length() == n && b.Length() == m && FORALL(k, 0, n, a[k] == old[k]) && FORALL(k, 0, m, b[k] == old2[k]), "+ leaves its operands alone"); WF(c);
}
PROOF(A01_noleak) { // every block the array allocates is released exactly once
  u64 before = vc_live();
  { u64 n = any_size(); DA a; a.SetLength(n); vc_contents(a.begin(), n); a.Add(1); a.Insert(2, 0); DA b(a); b = a; DA c((DA&&)b); a = (DA&&)c; a += b; a.SetCapacity(any_size()); a.SetLength(any_size()); }
  vc_assert(vc_live() == before, "no block leaks");
}
// ---- Array: the same operations on the fixed-capacity array
#define ARB_AR(a, n, old) u64 n = any_size(); AR a(n); vc_contents(a.begin(), n); int* old = vc_old(a.begin(), n)
PROOF(A01_ar_add) {
  ARB_AR(a, n, old); int v = any<int>();
  u64 r = a.Add(v);
  vc_assert(r == n && a.Capacity() == n + 1, "Array::Add grows by one");
  vc_assert(FORALL(k, 0, n, a[k] == old[k]) && a[n] == v && a.Back() == v, "Array::Add appends");
}
PROOF(A01_ar_insert) {
  ARB_AR(a, n, old); u64 i = any<u64>(); vc_assume(i <= n); int v = any<int>();
  a.Insert(v, i);
  vc_assert(a.Capacity() == n + 1 && a[i] == v, "Array::Insert stores the value");
  vc_assert(FORALL(k, 0, i, a[k] == old[k]) && FORALL(k, i, n, a[k + 1] == old[k]), "Array::Insert shifts the suffix");
}
PROOF(A01_ar_remove) {
  ARB_AR(a, n, old); u64 i = any<u64>(); vc_assume(i < n);
  a.Remove(i);
  vc_assert(a.Capacity() == n - 1 && a.Empty() == (n == 1), "Array::Remove shrinks by one");
  vc_assert(FORALL(k, 0, i, a[k] == old[k]) && FORALL(k, i + 1, n, a[k - 1] == old[k]), "Array::Remove closes the gap");
}
PROOF(A01_ar_setcapacity) {
  ARB_AR(a, n, old); u64 m = any_size();
  a.SetCapacity(m);
  vc_assert(a.Capacity() == m, "Array::SetCapacity sets the size");
  vc_assert(FORALL(k, 0, n < m ? n : m, a[k] == old[k]), "Array::SetCapacity keeps the common prefix");
  a.SetCapacityDiscard(n);
  vc_assert(a.Capacity() == n, "Array::SetCapacityDiscard sets the size");
}
PROOF(A01_ar_set) {
  ARB_AR(a, n, old); u64 m = any_size(); vc_assume(m > 0); int* src = vc_array<int>(m);
  a.Set(src, m);
  vc_assert(a.Capacity() == m && FORALL(k, 0, m, a[k] == src[k]), "Array::Set copies the given elements");
}
PROOF(A01_ar_copy) {
  ARB_AR(a, n, old);
  AR b(a);
  vc_assert(b.Capacity() == n && FORALL(k, 0, n, b[k] == old[k] && a[k] == old[k]), "Array copy has the same elements");
  vc_assert(n == 0 || b.begin() != a.begin(), "Array copy does not share storage");
  AR c((AR&&)a);
  vc_assert(c.Capacity() == n && a.Capacity() == 0 && FORALL(k, 0, n, c[k] == old[k]), "Array move takes the elements");
}
PROOF(A01_ar_assign) {
  ARB_AR(a, n, old); ARB_AR(b, m, old2);
  a = b;
  vc_assert(a.Capacity() == m && FORALL(k, 0, m, a[k] == old2[k] && b[k] == old2[k]), "Array assignment copies");
  b = (AR&&)a;
  vc_assert(b.Capacity() == m && a.Capacity() == 0 && FORALL(k, 0, m, b[k] == old2[k]), "Array move assignment takes the elements");
}
PROOF(A01_ar_append) {
  ARB_AR(a, n, old); ARB_AR(b, m, old2);
  a += b;
  vc_assert(a.Capacity() == n + m && FORALL(k, 0, n, a[k] == old[k]) && FORALL(k, 0, m, a[n + k] == old2[k]), "Array += appends");
  vc_assert(b.Capacity() == m && FORALL(k, 0, m, b[k] == old2[k]), "Array += leaves its argument alone");
}
PROOF(A01_ar_noleak) {
  u64 before = vc_live();
  { ARB_AR(a, n, old); a.Add(3); a.Remove(0); AR b(a); a = b; AR c((AR&&)b); a += c; a.Set(c.begin(), 0); a.SetCapacity(any_size()); a.SetCapacityDiscard(any_size()); a.Clear(); }
  vc_assert(vc_live() == before, "Array: no block leaks");
}
