// Circular array and FIFO queue.
#include "vc.h"
#include "bss-util/Queue.h"
#include "bss-util/Stack.h"
using namespace bss;
typedef ArrayCircular<int> AC;
typedef Queue<int> QU;
typedef Stack<int> SK;
// arbitrary state: 0 <= length <= capacity, -1 <= cur < capacity, cur == -1 only when empty.  at(k) = k-th most recent item.
template<class A> static inline void arb_circ(A& a, i64 cap, i64 n, i64 cur) {
  vc_assume(n <= cap && cur >= -1 && cur < cap && (cur >= 0 || n == 0));
  a._cur = cur; a._length = n;
}
static inline i64 slot(i64 cur, i64 k, i64 cap) { return cur - k >= 0 ? cur - k : cur - k + cap; }
#define ARB_AC(A, a, n, cap, cur, old) i64 cap = (i64)any_size(), n = (i64)any_size(), cur = any<i64>(); A a(cap); arb_circ(a, cap, n, cur); vc_contents(a._array, cap); int* old = vc_old(a._array, cap)
// postconditions "for every k in [lo, hi)" are stated for one arbitrary k
#define EACH(a, lo, hi, cond, label) do { i64 k = any<i64>(); vc_assume(k >= (i64)(lo) && k < (i64)(hi)); vc_assert(cond, label); } while(0)
#define OLDAT(k) old[slot(cur, (i64)(k), cap)]
#define WF(a) vc_assert(a._length >= 0 && a._length <= a._capacity && a._cur >= -1 && a._cur < a._capacity && (a._cur >= 0 || a._length == 0), "the array stays well formed")
PROOF(A06_push) {
  ARB_AC(AC, a, n, cap, cur, old); int v = any<int>(); vc_assume(cap > 0);
  a.Push(v);
  vc_assert(a.Length() == (n < cap ? n + 1 : cap) && a.Capacity() == cap, "Push adds one item, or replaces the oldest when full");
  vc_assert(a[0] == v && a.Front() == v, "Push makes the item the most recent one");
  EACH(a, 1, a.Length(), a[k] == OLDAT(k - 1), "Push keeps the other items in order"); WF(a);
}
PROOF(A06_pop) {
  ARB_AC(AC, a, n, cap, cur, old); vc_assume(n > 0);
  int r = a.Pop();
  vc_assert(r == OLDAT(0) && a.Length() == n - 1, "Pop returns the most recent item");
  EACH(a, 0, n - 1, a[k] == OLDAT(k + 1), "Pop keeps the other items in order"); WF(a);
}
PROOF(A06_popback) {
  ARB_AC(AC, a, n, cap, cur, old); vc_assume(n > 0);
  vc_assert(a.Back() == OLDAT(n - 1) && a.Front() == OLDAT(0), "Front and Back are the newest and the oldest item");
  int r = a.PopBack();
  vc_assert(r == OLDAT(n - 1) && a.Length() == n - 1, "PopBack returns the oldest item");
  EACH(a, 0, n - 1, a[k] == OLDAT(k), "PopBack keeps the other items in order"); WF(a);
}
PROOF(A06_setcapacity) {
  ARB_AC(AC, a, n, cap, cur, old); i64 m = (i64)any_size();
  a.SetCapacity(m);
  vc_assert(a.Capacity() == m, "SetCapacity sets the capacity");
  vc_assert(a.Length() == (m < cap ? 0 : n), "SetCapacity keeps the items unless it shrinks");
  if(m >= cap) EACH(a, 0, n, a[k] == OLDAT(k), "SetCapacity keeps the items in order"); WF(a);
}
PROOF(A06_copy) {
  ARB_AC(AC, a, n, cap, cur, old);
  AC b(a);
  vc_assert(b.Length() == n && b.Capacity() == cap && a.Length() == n, "copy has the same length");
  EACH(a, 0, n, b[k] == OLDAT(k) && a[k] == OLDAT(k), "copy has the same items and leaves the source alone"); WF(b);
  vc_assert(n == 0 || b._array != a._array, "copy does not share storage");
}
PROOF(A06_assign) {
  ARB_AC(AC, a, n, cap, cur, old); ARB_AC(AC, b, n2, cap2, cur2, old2);
  b = a;
  vc_assert(b.Length() == n && a.Length() == n, "assignment takes the length");
  EACH(a, 0, n, b[k] == OLDAT(k) && a[k] == OLDAT(k), "assignment copies the items"); WF(b);
}
PROOF(A06_move) {
  ARB_AC(AC, a, n, cap, cur, old); ARB_AC(AC, c, n2, cap2, cur2, old2);
  AC b((AC&&)a);
  vc_assert(b.Length() == n && a.Length() == 0, "move construction takes the length"); EACH(b, 0, n, b[k] == OLDAT(k), "move construction takes the items");
  c = (AC&&)b;
  vc_assert(c.Length() == n && b.Length() == 0, "move assignment takes the length"); EACH(b, 0, n, c[k] == OLDAT(k), "move assignment takes the items"); WF(a); WF(b); WF(c);
}
PROOF(A06_clear) {
  ARB_AC(AC, a, n, cap, cur, old);
  a.Clear();
  vc_assert(a.Length() == 0 && a.Capacity() == cap, "Clear empties the array"); WF(a);
}
PROOF(A06_queue_push) {
  ARB_AC(QU, a, n, cap, cur, old); int v = any<int>();
  a.Push(v);
  vc_assert(a.Length() == n + 1 && a.Capacity() >= n + 1, "queue Push adds exactly one item");
  vc_assert(a._array[a._cur] == v, "queue Push appends the item"); WF(a);
  EACH(a, 0, n, a._array[slot(a._cur, k + 1, a._capacity)] == OLDAT(k), "queue Push keeps the others in order");
  vc_assert(a.Peek() == (n ? OLDAT(n - 1) : v), "queue Push does not change the next item");
}
PROOF(A06_queue_pop) {
  ARB_AC(QU, a, n, cap, cur, old); vc_assume(n > 0);
  vc_assert(a.Peek() == OLDAT(n - 1) && !a.Empty(), "Peek shows the oldest item");
  int r = a.Pop();
  vc_assert(r == OLDAT(n - 1) && a.Length() == n - 1 && a.Empty() == (n == 1), "queue Pop returns the oldest item");
  EACH(a, 0, n - 1, a._array[slot(a._cur, k, a._capacity)] == OLDAT(k), "queue Pop keeps the others in order"); WF(a);
}
PROOF(A06_queue_discard) {
  ARB_AC(QU, a, n, cap, cur, old); vc_assume(n > 0);
  a.Discard();
  vc_assert(a.Length() == n - 1, "queue Discard drops one item"); EACH(a, 0, n - 1, a._array[slot(a._cur, k, a._capacity)] == OLDAT(k), "queue Discard drops the oldest item"); WF(a);
}
#define ARB_SK(a, n, old) u64 n = any_size(), VC_CAT(c, __LINE__) = any_size(); vc_assume(n <= VC_CAT(c, __LINE__)); SK a(VC_CAT(c, __LINE__)); a._array._length = n; vc_contents(a._array._array, n); int* old = vc_old(a._array._array, n)
PROOF(A06_stack) {
  ARB_SK(a, n, old); int v = any<int>(), w = any<int>();
  a.Push(v);
  vc_assert(a.Length() == n + 1 && a.Peek() == v && FORALL(k, 0, n, a[k] == old[k]), "stack Push puts the item on top");
  int r = a.Pop();
  vc_assert(r == v && a.Length() == n && FORALL(k, 0, n, a[k] == old[k]), "stack Pop takes the item pushed last");
  a.Push((int&&)w); a.Discard();
  vc_assert(a.Length() == n && FORALL(k, 0, n, a[k] == old[k]), "stack Discard drops the top item");
}
