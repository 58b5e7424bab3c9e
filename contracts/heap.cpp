// Binary heap and priority queue.
#include "vc.h"
#include "bss-util/BinaryHeap.h"
#include "bss-util/PriorityQueue.h"
using namespace bss;
typedef std::pair<int, u32> PR; // key, identity
typedef BinaryHeap<PR, size_t, CompTFirst<int, u32>> BH;
#define K(x) ((x).first)
#define ID(x) ((x).second)
#define PAR(i) (((i) - 1) >> 1)
#define HEAP(a, n) FORALL(ii, 1, (n), K((a)[PAR(ii)]) >= K((a)[ii]))
// arbitrary heap of n elements; the i-th carries identity i, so the postconditions can speak about permutations
static inline void arb_heap(PR* p, u64 n) {
  vc_contents(p, n);
#ifdef VC_RUNTIME
  for(u64 k = 0; k < n; ++k) { ID(p[k]) = (u32)k; K(p[k]) %= 16; }
  for(u64 k = 1; k < n; ++k) if(K(p[PAR(k)]) < K(p[k])) K(p[k]) = K(p[PAR(k)]);
#else
  vc_assume(FORALL(k, 0, n, ID(p[k]) == (u32)k));
  vc_assume(HEAP(p, n));
#endif
}
#define ARB_HEAP(a, n, old) u64 n = any_size(), VC_CAT(c, __LINE__) = any_size(); vc_assume(n <= VC_CAT(c, __LINE__) && n < 0xfffffff0ull); BH a; ((BH::BASE&)a).SetCapacity(VC_CAT(c, __LINE__)); \
  a._length = n; arb_heap(a._array, n); PR* old = vc_old(a._array, n)
// q is an injective image of the elements: position i holds the element ID(q[i]) of old, or the new one (identity n)
#define FROM(q, hi, skip, n, nk) FORALL(ii, 0, (hi), ii == (skip) || (ID((q)[ii]) <= (n) && K((q)[ii]) == (ID((q)[ii]) == (n) ? (nk) : K(old[ID((q)[ii])]))))
#define DISTINCT(q, hi, skip) FORALL2(ii, 0, (hi), jj, 0, (hi), ii >= jj || ii == (skip) || jj == (skip) || ID((q)[ii]) != ID((q)[jj]))
#define NOTIN(q, hi, skip, id) FORALL(ii, 0, (hi), ii == (skip) || ID((q)[ii]) != (id))
#define NONE ((u64)-1)
// Loop invariants of the percolations.  m: heap length, v/vid: the key and identity being placed, rid: an identity that has left
// the heap, b: the root of the (sub)heap that percolates down.
#define UP_BOUND(m) INV1("up: hole inside", x, x < m)
#define UP_ORDER(m, v) \
  INVP1("up: heap but for the hole", PR, p, x, FORALL(ii, 1, m, ii == x || K(p[PAR(ii)]) >= K(p[ii]))); \
  INVP1("up: children of the hole", PR, p, x, FORALL(ii, 1, m, PAR(ii) != x || (v >= K(p[ii]) && (x == 0 || K(p[PAR(x)]) >= K(p[ii]))))); \
  UP_BOUND(m)
#define UP_ELEMS(m, v, vid, rid, nn) UP_BOUND(m); \
  INVP1("up: same elements", PR, p, x, FROM(p, m, x, (u32)(nn), v)); \
  INVP1("up: each once", PR, p, x, DISTINCT(p, m, x)); \
  INVP1("up: value not stored yet", PR, p, x, NOTIN(p, m, x, (u32)(vid))); \
  INVP1("up: removed one is gone", PR, p, x, NOTIN(p, m, x, (u32)(rid)))
#define DOWN_BOUND(m, b) INV1("down: hole inside", x, x < m && x >= (b)); INV2("down: next child", x, y, y == 2 * x + 2)
// (a hole keeps a copy of its former value, so that the whole array stays a heap while a value percolates down)
#define DOWN_ORDER(m, v, b) \
  INVP1("down: still a heap", PR, p, x, HEAP(p, m)); \
  INVP1("down: value below the parent of the hole", PR, p, x, x == 0 || K(p[PAR(x)]) >= v); \
  DOWN_BOUND(m, b)
#define DOWN_ELEMS(m, v, vid, rid, nn, b) DOWN_BOUND(m, b); \
  INVP1("down: same elements", PR, p, x, FROM(p, m, x, (u32)(nn), v)); \
  INVP1("down: each once", PR, p, x, DISTINCT(p, m, x)); \
  INVP1("down: value not stored yet", PR, p, x, NOTIN(p, m, x, (u32)(vid))); \
  INVP1("down: removed one is gone", PR, p, x, NOTIN(p, m, x, (u32)(rid)))
PROOF(A07_insert) {
  ARB_HEAP(a, n, old); int v = any<int>();
  UP_ORDER(n + 1, v); UP_ELEMS(n + 1, v, n, n, n);
  a.Insert(PR(v, (u32)n));
  vc_assert(a.Length() == n + 1, "Insert adds one element");
  vc_assert(HEAP(a._array, n + 1), "Insert keeps heap order");
  vc_assert(FROM(a._array, n + 1, NONE, (u32)n, v), "Insert keeps the elements");
  vc_assert(DISTINCT(a._array, n + 1, NONE), "Insert keeps each element once");
}
PROOF(A07_peek) {
  ARB_HEAP(a, n, old); vc_assume(n > 0);
  INV1("root dominates", x, FORALL(j, 0, x, K(a._array[0]) >= K(a._array[j])));
  for(u64 j = 0; j < n; ++j) vc_assert(K(a.Peek()) >= K(a.Get(j)), "Peek is the largest element");
}
#define LAST_INV INVP0("last item in place", PR, p, K(p[n - 1]) == v && ID(p[n - 1]) == (u32)(n - 1))
#define T_POP(INVS) ARB_HEAP(a, n, old); vc_assume(n > 0); int v = K(old[n - 1]); LAST_INV; INVS; PR r = a.Pop(); \
  vc_assert(K(r) == K(old[0]) && ID(r) == 0, "Pop returns the root"); vc_assert(a.Length() == n - 1, "Pop removes one element")
PROOF(A07_pop_order) {
  T_POP(DOWN_ORDER(n - 1, v, 0));
  vc_assert(HEAP(a._array, n - 1), "Pop keeps heap order");
}
PROOF(A07_pop_elements) {
  T_POP(DOWN_ELEMS(n - 1, v, n - 1, 0, n - 1, 0));
  vc_assert(FROM(a._array, n - 1, NONE, (u32)(n - 1), v), "Pop keeps the other elements");
  vc_assert(DISTINCT(a._array, n - 1, NONE), "Pop keeps each other element once");
  vc_assert(NOTIN(a._array, n - 1, NONE, (u32)0), "Pop removes the root");
}
#define T_REMOVE(INVS) ARB_HEAP(a, n, old); vc_assume(n > 0); int v = K(old[n - 1]); u64 i = any<u64>(); LAST_INV; INVS; bool r = a.Remove(i); \
  vc_assert(r == (i < n) && a.Length() == (r ? n - 1 : n), "Remove removes one element when the index is valid")
PROOF(A07_remove_order) {
  T_REMOVE(DOWN_ORDER(n - 1, v, i); UP_ORDER(n - 1, v));
  vc_assert(HEAP(a._array, a.Length()), "Remove keeps heap order");
}
#define REMOVE_POST \
  vc_assert(FROM(a._array, a.Length(), NONE, (u32)(n - 1), v), "Remove keeps the other elements"); \
  vc_assert(DISTINCT(a._array, a.Length(), NONE), "Remove keeps each other element once"); \
  vc_assert(!r || NOTIN(a._array, n - 1, NONE, (u32)i), "Remove removes the given element")
PROOF(A07_remove_elements_up) {
  T_REMOVE(vc_assume(i > 0 && i < n && v > K(old[PAR(i)])); DOWN_ELEMS(n - 1, v, n - 1, i, n - 1, i); UP_ELEMS(n - 1, v, n - 1, i, n - 1));
  REMOVE_POST;
}
PROOF(A07_remove_elements_down) {
  T_REMOVE(vc_assume(i == 0 || i >= n || v <= K(old[PAR(i)])); DOWN_ELEMS(n - 1, v, n - 1, i, n - 1, i); UP_ELEMS(n - 1, v, n - 1, i, n - 1));
  REMOVE_POST;
}
#define T_SET(INVS) ARB_HEAP(a, n, old); int v = any<int>(); u64 i = any<u64>(); INVS; bool r = a.Set(i, PR(v, (u32)n)); \
  vc_assert(r == (i < n) && a.Length() == n, "Set replaces one element when the index is valid")
PROOF(A07_set_order) {
  T_SET(DOWN_ORDER(n, v, i); UP_ORDER(n, v));
  vc_assert(HEAP(a._array, n), "Set keeps heap order");
}
PROOF(A07_set_elements) {
  T_SET(DOWN_ELEMS(n, v, n, i, n, i); UP_ELEMS(n, v, n, i, n));
  vc_assert(FROM(a._array, n, NONE, (u32)n, v), "Set keeps the other elements");
  vc_assert(DISTINCT(a._array, n, NONE) && (!r || NOTIN(a._array, n, NONE, (u32)i)), "Set replaces the given element");
}
// the priority queue passes key/value pairs to the heap
typedef PriorityQueue<int, u32> PQ;
PROOF(A07_priorityqueue) {
  u64 n = any_size(), c = any_size(); vc_assume(n <= c && n > 0 && n < 0xfffffff0ull); PQ a; ((BH::BASE&)a).SetCapacity(c); a._length = n; arb_heap(a._array, n); PR* old = vc_old(a._array, n);
  int v = K(old[n - 1]); LAST_INV; DOWN_ORDER(n - 1, v, 0);
  vc_assert(a.Length() == n && !a.Empty() && K(a.Peek()) == K(old[0]) && ID(a.Peek()) == ID(old[0]), "Peek shows the root");
  u64 j = any<u64>(); vc_assume(j < n);
  vc_assert(K(a.Get(j)) == K(old[j]) && ID(a.Get(j)) == ID(old[j]), "Get reads an entry");
  PR r = a.Pop();
  vc_assert(K(r) == K(old[0]) && ID(r) == ID(old[0]) && a.Length() == n - 1, "Pop returns the root");
  vc_assert(HEAP(a._array, n - 1), "Pop keeps priority order");
}
PROOF(A07_priorityqueue_push) {
  u64 n = any_size(), c = any_size(); vc_assume(n <= c && n < 0xfffffff0ull); PQ a; ((BH::BASE&)a).SetCapacity(c); a._length = n; arb_heap(a._array, n); PR* old = vc_old(a._array, n);
  int v = any<int>(); UP_ORDER(n + 1, v); UP_ELEMS(n + 1, v, n, n, n);
  a.Push(v, (u32)n);
  vc_assert(a.Length() == n + 1 && HEAP(a._array, n + 1), "Push keeps priority order");
  vc_assert(FROM(a._array, n + 1, NONE, (u32)n, v), "Push keeps the entries");
  vc_assert(DISTINCT(a._array, n + 1, NONE), "Push keeps each entry once");
}
