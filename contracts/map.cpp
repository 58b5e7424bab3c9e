// Ordered map (sorted array of key/value pairs).
#include "vc.h"
#include "bss-util/Map.h"
using namespace bss;
typedef Map<int, u32> MP;
typedef std::tuple<int, u32> KV;
#define KEY(x) (std::get<0>(x))
#define VAL(x) (std::get<1>(x))
static inline void arb_map(KV* p, u64 n) {
  vc_contents(p, n);
#ifdef VC_RUNTIME
  for(u64 k = 0; k < n; ++k) KEY(p[k]) %= 8;
  for(u64 k = 1; k < n; ++k) for(u64 j = k; j > 0 && KEY(p[j - 1]) > KEY(p[j]); --j) { KV t = p[j]; p[j] = p[j - 1]; p[j - 1] = t; }
#else
  vc_assume(FORALL2(i, 0, n, j, 0, n, i > j || KEY(p[i]) <= KEY(p[j])));
#endif
}
#define ARB_MAP(a, n, old) u64 n = any_size(), VC_CAT(c, __LINE__) = any_size(); vc_assume(n <= VC_CAT(c, __LINE__)); MP a(VC_CAT(c, __LINE__)); \
  a._array._length = n; arb_map(a._array._array, n); KV* old = vc_old(a._array._array, n)
#define SORTED(a, n) FORALL(k, 0, (n), k + 1 >= (n) || KEY((a)[k]) <= KEY((a)[k + 1]))
#define SAME(x, y) (KEY(x) == KEY(y) && VAL(x) == VAL(y))
#define SEARCH_INV(p, n, v) \
  INV1("search: left part below", x, FORALL(k, 0, x, x <= n && KEY((p)[k]) <= (v))); \
  INV1("search: left part strictly below", x, FORALL(k, 0, x, x <= n && KEY((p)[k]) < (v))); \
  INV2("search: right part above", x, y, FORALL(k, x + y, n, KEY((p)[k]) > (v))); \
  INV2("search: right part at or above", x, y, FORALL(k, x + y, n, KEY((p)[k]) >= (v))); \
  INV2("search: window inside", x, y, x <= n && y <= n && x + y <= n)

PROOF(A05_insert) {
  ARB_MAP(a, n, old); int v = any<int>(); u32 d = any<u32>();
  SEARCH_INV(old, n, v);
  u64 r = a.Insert(v, d);
  vc_assert(r <= n && a.Length() == n + 1, "Insert adds one entry");
  vc_assert(KEY(a[r]) == v && VAL(a[r]) == d, "Insert returns the index of the new entry");
  vc_assert(FORALL(k, 0, r, SAME(a[k], old[k])) && FORALL(k, r, n, SAME(a[k + 1], old[k])), "Insert keeps the other entries");
  vc_assert(SORTED(a, n + 1), "Insert keeps the keys sorted");
}
PROOF(A05_get) {
  ARB_MAP(a, n, old); int v = any<int>();
  SEARCH_INV(old, n, v);
  u64 r = a.Get(v);
  vc_assert(r == (u64)-1 || (r < n && KEY(a[r]) == v), "Get returns an entry with the key");
  vc_assert(r != (u64)-1 || FORALL(k, 0, n, KEY(a[k]) != v), "Get fails only when the key is absent");
  vc_assert(r == (u64)-1 || (a.KeyIndex(r) == v && a.DataIndex(r) == VAL(old[r]) && a(r) == VAL(old[r])), "KeyIndex/DataIndex read the entry");
}
PROOF(A05_getdata) {
  ARB_MAP(a, n, old); int v = any<int>(); u64 w = any<u64>(); vc_assume(w < n && KEY(old[w]) == v); // the key is present
  vc_assume(FORALL(k, 0, n, k == w || KEY(old[k]) != v)); // once
  SEARCH_INV(old, n, v);
  vc_assert(a.GetData(v) == VAL(old[w]), "GetData returns the value stored under the key");
}
PROOF(A05_getnear) {
  ARB_MAP(a, n, old); int v = any<int>();
  SEARCH_INV(old, n, v);
  u64 r = a.GetNear(v, true);
  vc_assert(r == (u64)-1 || (r < n && KEY(a[r]) <= v), "GetNear(before) is not above the key");
  vc_assert(FORALL(k, r + 1, n, KEY(a[k]) > v), "GetNear(before) is the last such entry");
  u64 q = a.GetNear(v, false);
  vc_assert(q == (u64)-1 || (q < n && KEY(a[q]) >= v), "GetNear(after) is not below the key");
  vc_assert(FORALL(k, 0, (q == (u64)-1 ? n : q), KEY(a[k]) < v), "GetNear(after) is the first such entry");
}
PROOF(A05_remove) {
  ARB_MAP(a, n, old); int v = any<int>();
  SEARCH_INV(old, n, v);
  u64 r = a.Remove(v);
  vc_assert(r == (u64)-1 || (r < n && KEY(old[r]) == v), "Remove removes an entry with the key");
  vc_assert(r != (u64)-1 || (a.Length() == n && FORALL(k, 0, n, SAME(a[k], old[k]) && KEY(a[k]) != v)), "Remove of an absent key changes nothing");
  vc_assert(r == (u64)-1 || (a.Length() == n - 1 && FORALL(k, 0, r, SAME(a[k], old[k])) && FORALL(k, r, n - 1, SAME(a[k], old[k + 1]))), "Remove keeps the other entries");
  vc_assert(SORTED(a, a.Length()), "Remove keeps the keys sorted");
}
PROOF(A05_removeindex) {
  ARB_MAP(a, n, old); u64 i = any<u64>();
  bool r = a.RemoveIndex(i) != 0;
  vc_assert(r == (i < n) && a.Length() == (r ? n - 1 : n), "RemoveIndex removes one entry when the index is valid");
  vc_assert(FORALL(k, 0, (r ? i : n), SAME(a[k], old[k])) && (!r || FORALL(k, i, n - 1, SAME(a[k], old[k + 1]))), "RemoveIndex keeps the other entries");
}
PROOF(A05_set) {
  ARB_MAP(a, n, old); int v = any<int>(); u32 d = any<u32>();
  SEARCH_INV(old, n, v);
  u64 r = a.Set(v, d);
  vc_assert(a.Length() == n && FORALL(k, 0, n, KEY(a[k]) == KEY(old[k])), "Set changes no key");
  vc_assert(FORALL(k, 0, n, k == r || VAL(a[k]) == VAL(old[k])), "Set touches only the returned entry");
  vc_assert(r == (u64)-1 || (r < n && VAL(a[r]) == (KEY(old[r]) == v ? d : VAL(old[r]))), "Set stores the value under the key if it is present");
  vc_assert((r != (u64)-1 && KEY(old[r]) == v) || FORALL(k, 0, n, KEY(old[k]) != v), "Set finds the key whenever it is present");
}
// moving an entry to its new place is proved for ReplaceData (A04_replace); here: what Replace and ReplaceKey pass to it
PROOF(A05_replacekey) {
  ARB_MAP(a, n, old); int v = any<int>(); u64 i = any<u64>();
  vc_assume(i >= n || ((i == 0 || KEY(old[i - 1]) <= v) && (i + 1 >= n || v <= KEY(old[i + 1]))));
  KV* p = a._array._array;
  INV1("stays in place", x, x == i && KEY(p[i]) == v && VAL(p[i]) == VAL(old[i]) && FORALL(k, 0, n, k == i || SAME(p[k], old[k])));
  u64 r = a.ReplaceKey(i, v);
  vc_assert(r == (i < n ? i : (u64)-1) && a.Length() == n, "ReplaceKey of a missing index fails, otherwise returns the place");
  vc_assert(FORALL(k, 0, n, VAL(a[k]) == VAL(old[k]) && KEY(a[k]) == (k == i ? v : KEY(old[k]))), "ReplaceKey changes the key and keeps the value");
}
PROOF(A05_replace) {
  ARB_MAP(a, n, old); int v = any<int>(); u64 i = any<u64>(); u32 d = any<u32>();
  vc_assume(i < n && ((i == 0 || KEY(old[i - 1]) <= v) && (i + 1 >= n || v <= KEY(old[i + 1]))));
  KV* p = a._array._array;
  INV1("stays in place", x, x == i && KEY(p[i]) == v && VAL(p[i]) == d && FORALL(k, 0, n, k == i || SAME(p[k], old[k])));
  u64 r = a.Replace(i, v, d);
  vc_assert(r == i && a.Length() == n, "Replace returns the place");
  vc_assert(FORALL(k, 0, n, VAL(a[k]) == (k == i ? d : VAL(old[k])) && KEY(a[k]) == (k == i ? v : KEY(old[k]))), "Replace changes the entry");
}
