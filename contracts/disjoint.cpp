// Disjoint sets.
#include "vc.h"
#include "bss-util/bss_util.h"
#include "bss-util/DisjointSet.h"
using namespace bss;
typedef DisjointSet<u64> DS;
// Ghost partition: root[i] is the name of i's set; rk[i] decreases along parent links and is 0 exactly at names.
#define WF1(a, i) ((a)[i] < 0 ? root[i] == (i) && rk[i] == 0 : (u64)(a)[i] < N && root[(a)[i]] == root[i] && rk[(a)[i]] < rk[i])
#define WF(a) FORALL(ii, 0, N, root[ii] < N && WF1(a, ii))
static void arb_ds(i64* a, u64 N, u64*& root, u64*& rk) {
  root = (u64*)vc_ghost(N, 8); rk = (u64*)vc_ghost(N, 8); vc_contents(a, N);
#ifdef VC_RUNTIME
  for(u64 i = 0; i < N; ++i) { if(i == 0 || (a[i] & 3) == 0) { a[i] = -1; root[i] = i; rk[i] = 0; } else { a[i] = (i64)((u64)a[i] % i); root[i] = root[a[i]]; rk[i] = rk[a[i]] + 1; } }
  for(u64 i = 0; i < N; ++i) if(root[i] != i) --a[root[i]];
#else
  vc_assume(WF(a)); vc_assume(FORALL(ii, 0, N, root[ii] < N && root[root[ii]] == root[ii] && a[root[ii]] < 0 && a[root[ii]] >= -(i64)N && rk[ii] < (1ull << 62)));
#endif
}
#define ARB_DS(s, N, root, rk, old) u64 N = any_size(); DS s(0); ((DS::ARRAY&)s)._setCapacity(N); u64 *root, *rk; arb_ds(s._array, N, root, rk); i64* old = vc_old(s._array, N); u64 ns = any_size(); s._numsets = ns
#define SAMEROOTS(a) FORALL(ii, 0, N, old[ii] >= 0 || (a)[ii] == old[ii])
// invariants of the walk to the name R of a set and of the path compression
#define FINDINV(s) INV0("forest", WF(s._array)); INV0("names and weights", SAMEROOTS(s._array)); INV0("set count", s._numsets == ns); INV2("parent", at, up, at < N && (i64)up == s._array[at])
PROOF(A14_find) {
  ARB_DS(s, N, root, rk, old); u64 x = any<u64>(); vc_assume(x < N); u64 R = root[x]; FINDINV(s);
  INV1("in the set", t, t < N && root[t] == R);
  i64 r = s.Find(x);
  vc_assert(r >= 0 && (u64)r == R, "Find returns the name of the element's set");
  vc_assert(WF(s._array), "Find keeps the partition"); vc_assert(SAMEROOTS(s._array) && s.NumSets() == ns && s.Length() == N, "Find keeps names and weights");
}
PROOF(A14_numelements) {
  ARB_DS(s, N, root, rk, old); u64 x = any<u64>(); u64 R = x < N ? root[x] : 0; FINDINV(s); INV1("in the set", t, t < N && root[t] == R);
  i64 n = s.NumElements(x); if(x >= N) vc_assert(n == -1, "an unknown element has no set"); else vc_assert(n == -old[R], "the number of elements is the weight of the set");
  vc_assert(WF(s._array) && SAMEROOTS(s._array), "counting keeps the partition");
  vc_assert(s.IsSetName(x) == (x < N && root[x] == x), "set names are the roots");
}
PROOF(A14_union) {
  ARB_DS(s, N, root, rk, old); u64 p = any<u64>(), q = any<u64>(); bool ok = p < N && q < N && p != q && old[p] < 0 && old[q] < 0;
  vc_assume(p == q || !ok || old[p] + old[q] >= -(i64)N); vc_assume(ns >= 2 || !ok);
  bool r = s.Union(p, q); i64* a = s._array; vc_assert(r == ok, "Union merges exactly two different sets given by name");
  if(!ok) { vc_assert(FORALL(ii, 0, N, a[ii] == old[ii]) && s.NumSets() == ns, "a refused union changes nothing"); return; }
  vc_assert(s.NumSets() == ns - 1, "a union takes one set");
  u64 w = a[p] < 0 ? p : q, l = a[p] < 0 ? q : p; // the new name and the merged one
  vc_assert(a[w] == old[p] + old[q] && a[l] == (i64)w, "the weights add up"); vc_assert(FORALL(ii, 0, N, ii == w || ii == l || a[ii] == old[ii]), "other elements are untouched");
  // the new partition: everything in the merged set now belongs to w, the rest is as before
  u64 i = any<u64>(); vc_assume(i < N); u64 ni = root[i] == l ? w : root[i], ki = root[i] == l ? rk[i] + 1 : rk[i];
  if(a[i] < 0) vc_assert(ni == i && ki == 0, "names are the roots of the merged partition");
  else { u64 j = (u64)a[i]; vc_assert(j < N, "parents are elements"); u64 nj = root[j] == l ? w : root[j], kj = root[j] == l ? rk[j] + 1 : rk[j]; vc_assert(nj == ni && kj < ki, "parents lie in the same set of the merged partition, closer to its name"); }
}
PROOF(A14_union_keep_balance) {
  ARB_DS(s, N, root, rk, old); u64 p = any<u64>(), q = any<u64>(); vc_assume(p < N && q < N && p != q && old[p] < 0 && old[q] < 0 && old[p] + old[q] >= -(i64)N);
  s.Union(p, q); vc_assert(old[p] < old[q] ? s._array[p] < 0 : old[q] < old[p] ? s._array[q] < 0 : true, "the smaller set is merged into the larger");
}
PROOF(A14_reset) {
  u64 N = any_size(); INV1("reset", k, k <= N); 
  DS s(N); vc_assert(s.Length() == N && s.NumSets() == N, "a new structure has one set per element"); vc_assert(FORALL(ii, 0, N, s._array[ii] == -1), "every element is its own set");
  vc_contents(s._array, N); s._numsets = any<u64>(); s.Reset(); vc_assert(s.NumSets() == N && FORALL(ii, 0, N, s._array[ii] == -1), "a reset separates all elements");
}
// Find's contract (discharged in A14_find), seen through the partition: the name of the set; the partition stays.
// The forest itself is abstract here (GetElements may not touch it other than through Find).
static u64 *g_root; static u64 g_N;
//@contract A14_getelements DisjointSet<.*>::Find\( stub_find
#ifndef VC_RUNTIME
CONTRACT(stub_find) i64 stub_find(DS* s, u64 x) { vc_assert(x < g_N, "Find is given an element"); return (i64)g_root[x]; }
#endif
PROOF(A14_getelements) {
#ifdef VC_RUNTIME
  ARB_DS(s, N, root, rk, old);
#else
  u64 N = any_size(); DS s(0); ((DS::ARRAY&)s)._setCapacity(N); vc_contents(s._array, N); u64* root = (u64*)vc_ghost(N, 8); i64* old = vc_old(s._array, N);
#endif
  u64 x = any<u64>(); vc_assume(x < N); u64 R = root[x]; g_root = root; g_N = N;
#ifndef VC_RUNTIME
  vc_assume(R < N && root[R] == R && FORALL(ii, 0, N, root[ii] < N));
#endif
  u64* P = vc_recurrence(N, 0, [&](u64 k, u64 c) { return c + (root[k] == R ? 1 : 0); });
  vc_assume(FORALL(ii, 0, N + 1, P[ii] <= P[N] && P[ii] <= ii)); // counts of prefixes are monotone (lemma, by induction on the recurrence)
  vc_assume(FORALL2(ii, 0, N, jj, 0, N + 1, ii >= jj || P[ii] + (root[ii] == R ? 1 : 0) <= P[jj]));
  u64 M = P[N]; u64* out = vc_array<u64>(M);
  INV2("collected", i, j, i <= N && j == P[i]); INV1("elements", i, i <= N && FORALL(ii, 0, i, root[ii] != R || out[P[ii]] == ii));
  u64 n = (u64)s.GetElements(x, out);
  vc_assert(n == M, "as many elements as the set has"); vc_assert(FORALL(ii, 0, N, root[ii] != R || out[P[ii]] == ii), "exactly the elements of the set, in order");
#ifndef VC_RUNTIME
  vc_assert(FORALL(ii, 0, N, s._array[ii] == old[ii]), "listing changes the forest only through Find");
#endif
}
