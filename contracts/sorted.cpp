// Sorted arrays, ordered maps and binary searches.
#include "vc.h"
#include "bss-util/ArraySort.h"
#include "bss-util/Map.h"
using namespace bss;
typedef ArraySort<int> AS;
// arbitrary sorted array of n elements
#define ARB_AS(a, n, old) u64 n = any_size(), VC_CAT(c, __LINE__) = any_size(); vc_assume(n <= VC_CAT(c, __LINE__)); AS a(VC_CAT(c, __LINE__)); \
  a._array._length = n; arb_sorted(a._array._array, n); int* old = vc_old(a._array._array, n)
static inline void arb_sorted(int* p, u64 n) {
  vc_contents(p, n);
#ifdef VC_RUNTIME
  for(u64 k = 1; k < n; ++k) for(u64 j = k; j > 0 && p[j - 1] > p[j]; --j) { int t = p[j]; p[j] = p[j - 1]; p[j - 1] = t; }
#else
  vc_assume(FORALL2(i, 0, n, j, 0, n, i > j || p[i] <= p[j]));
#endif
}
// sortedness is assumed pairwise and shown for neighbours; A04_neighbours proves that this is the same
#define SORTED(a, n) FORALL(k, 0, (n), k + 1 >= (n) || (a)[k] <= (a)[k + 1])
PROOF(A04_neighbours) {
  u64 n = any_size(); int* p = vc_array<int>(n); vc_contents(p, n);
  vc_assume(SORTED(p, n)); u64 i = any<u64>(); vc_assume(i < n);
  INV1("transitivity", x, FORALL(k, i, x, p[i] <= p[k]));
  for(u64 j = i; j < n; ++j) vc_assert(p[i] <= p[j], "neighbour order implies pairwise order");
}

static inline void near_inv() {}
#define SEARCH_INV(p, n, v) \
  INV1("search: left part below", x, FORALL(k, 0, x, x <= n && (p)[k] <= (v))); \
  INV1("search: left part strictly below", x, FORALL(k, 0, x, x <= n && (p)[k] < (v))); \
  INV2("search: right part above", x, y, FORALL(k, x + y, n, (p)[k] > (v))); \
  INV2("search: right part at or above", x, y, FORALL(k, x + y, n, (p)[k] >= (v))); \
  INV2("search: window inside", x, y, x <= n && y <= n && x + y <= n)

PROOF(A04_search_before) {
  u64 n = any_size(); int* p = vc_array<int>(n); arb_sorted(p, n); int v = any<int>();
  SEARCH_INV(p, n, v);
  u64 r = BinarySearchBefore<int, size_t, CompT<int>>(p, n, v);
  vc_assert(r == (u64)-1 || (r < n && p[r] <= v), "BinarySearchBefore: the found element is not above the key");
  vc_assert(FORALL(k, r + 1, n, p[k] > v), "BinarySearchBefore: every later element is above the key");
}
PROOF(A04_search_after) {
  u64 n = any_size(); int* p = vc_array<int>(n); arb_sorted(p, n); int v = any<int>();
  SEARCH_INV(p, n, v);
  u64 r = BinarySearchAfter<int, size_t, CompT<int>>(p, n, v);
  vc_assert(r <= n && (r == n || p[r] >= v), "BinarySearchAfter: the found element is not below the key");
  vc_assert(FORALL(k, 0, r, p[k] < v), "BinarySearchAfter: every earlier element is below the key");
}
PROOF(A04_search_range) {
  u64 n = any_size(); int* p = vc_array<int>(n); arb_sorted(p, n); int v = any<int>();
  u64 f = any<u64>(), l = any<u64>(); vc_assume(f <= l && l <= n);
  INV1("search: left part below", x, FORALL(k, f, x, x <= l && p[k] <= v));
  INV1("search: left part strictly below", x, FORALL(k, f, x, x <= l && p[k] < v));
  INV2("search: right part above", x, y, FORALL(k, x + y, l, p[k] > v));
  INV2("search: right part at or above", x, y, FORALL(k, x + y, l, p[k] >= v));
  INV2("search: window inside", x, y, f <= x && x <= l && y <= l && x + y <= l);
  u64 r = BinarySearchBefore<int, size_t, CompT<int>>(p, v, f, l);
  vc_assert(r == f - 1 || (f <= r && r < l && p[r] <= v), "BinarySearchBefore on a range stays inside it");
  vc_assert(FORALL(k, r + 1, l, p[k] > v), "BinarySearchBefore on a range: later elements are above the key");
  u64 q = BinarySearchAfter<int, size_t, CompT<int>>(p, v, f, l);
  vc_assert(f <= q && q <= l && (q == l || p[q] >= v), "BinarySearchAfter on a range stays inside it");
  vc_assert(FORALL(k, f, q, p[k] < v), "BinarySearchAfter on a range: earlier elements are below the key");
}
PROOF(A04_search_exact) {
  u64 n = any_size(); int* p = vc_array<int>(n); arb_sorted(p, n); int v = any<int>();
  INV1("exact: left part below", x, FORALL(k, 0, x, x <= n && p[k] < v));
  INV1("exact: right part above", x, FORALL(k, x + 1, n, p[k] > v));
  INV2("exact: window inside", x, y, x <= n && (i64)y >= -1 && (i64)y < (i64)n && x <= y + 1);
  u64 r = BinarySearchExact<int, int, size_t, CompT<int>>(p, v, 0, n);
  vc_assert(r == (u64)-1 || (r < n && p[r] == v), "BinarySearchExact: the found element equals the key");
  vc_assert(r != (u64)-1 || FORALL(k, 0, n, p[k] != v), "BinarySearchExact: reports failure only when the key is absent");
}
PROOF(A04_insert) {
  ARB_AS(a, n, old); int v = any<int>();
  SEARCH_INV(old, n, v);
  u64 r = a.Insert(v);
  vc_assert(r <= n && a.Length() == n + 1, "Insert adds one element");
  vc_assert(a[r] == v, "Insert returns the position of the new element");
  vc_assert(FORALL(k, 0, r, a[k] == old[k]) && FORALL(k, r, n, a[k + 1] == old[k]), "Insert keeps the other elements in order");
  vc_assert(SORTED(a, n + 1), "Insert keeps the array sorted");
}
PROOF(A04_insert_move) {
  ARB_AS(a, n, old); int v = any<int>(), w = v;
  SEARCH_INV(old, n, v);
  u64 r = a.Insert((int&&)w);
  vc_assert(r <= n && a.Length() == n + 1 && a[r] == v, "moving Insert adds the element");
  vc_assert(FORALL(k, 0, r, a[k] == old[k]) && FORALL(k, r, n, a[k + 1] == old[k]), "moving Insert keeps the other elements in order");
  vc_assert(SORTED(a, n + 1), "moving Insert keeps the array sorted");
}
PROOF(A04_remove) {
  ARB_AS(a, n, old); u64 i = any<u64>();
  bool r = a.Remove(i);
  vc_assert(r == (i < n) && a.Length() == (r ? n - 1 : n), "Remove removes exactly one element when the index is valid");
  vc_assert(FORALL(k, 0, (r ? i : n), a[k] == old[k]) && (!r || FORALL(k, i, n - 1, a[k] == old[k + 1])), "Remove keeps the others in order");
  vc_assert(SORTED(a, a.Length()), "Remove keeps the array sorted");
}
PROOF(A04_find) {
  ARB_AS(a, n, old); int v = any<int>();
  INV1("exact: left part below", x, FORALL(k, 0, x, x <= n && old[k] < v));
  INV1("exact: right part above", x, FORALL(k, x + 1, n, old[k] > v));
  INV2("exact: window inside", x, y, x <= n && (i64)y >= -1 && (i64)y < (i64)n && x <= y + 1);
  u64 r = a.Find(v);
  vc_assert(r == (u64)-1 || (r < n && a[r] == v), "Find: the found element equals the key");
  vc_assert(r != (u64)-1 || FORALL(k, 0, n, a[k] != v), "Find fails only when the key is absent");
}
PROOF(A04_findnear) {
  ARB_AS(a, n, old); int v = any<int>();
  SEARCH_INV(old, n, v);
  u64 r = a.FindNear(v, true);
  vc_assert(r == (u64)-1 || (r < n && a[r] <= v), "FindNear(before): result is not above the key");
  vc_assert(FORALL(k, r + 1, n, a[k] > v), "FindNear(before): nothing after the result is at or below the key");
  u64 q = a.FindNear(v, false);
  vc_assert(q == (u64)-1 || (q < n && a[q] >= v), "FindNear(after): result is not below the key");
  vc_assert(FORALL(k, 0, (q == (u64)-1 ? n : q), a[k] < v), "FindNear(after): everything before the result is below the key");
}
PROOF(A04_replace) {
  ARB_AS(a, n, old); int v = any<int>(); u64 i = any<u64>(); vc_assume(i < n);
  int* p = a._array._array;
  INV1("replace: the element is at x", x, x < n && p[x] == v);
  INV1("replace: the others are shifted", x, FORALL(k, 0, n, k == x || p[k] == (x <= k && k <= i ? old[k - 1] : i <= k && k <= x ? old[k + 1] : old[k])));
  INV1("replace: passed larger elements", x, FORALL(k, x, i, v < old[k]));
  INV1("replace: passed smaller elements", x, FORALL(k, i, x, v > old[k + 1]));
  INV1("replace: left neighbour in order", x, x > i || x == 0 || old[x - 1] <= v);
  u64 r = a.ReplaceData(i, v);
  vc_assert(r < n && a.Length() == n && a[r] == v, "ReplaceData returns the new position of the element");
  vc_assert(r <= i || (FORALL(k, 0, i, a[k] == old[k]) && FORALL(k, i, r, a[k] == old[k + 1]) && FORALL(k, r + 1, n, a[k] == old[k])), "ReplaceData to the right keeps the others in order");
  vc_assert(r > i || (FORALL(k, 0, r, a[k] == old[k]) && FORALL(k, r, i, a[k + 1] == old[k]) && FORALL(k, i + 1, n, a[k] == old[k])), "ReplaceData to the left keeps the others in order");
  vc_assert(SORTED(a, n), "ReplaceData keeps the array sorted");
}
