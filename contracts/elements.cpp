// Element lifetime: arrays of class objects construct, move and destroy every element exactly once.
#include "vc.h"
#include "bss-util/DynArray.h"
using namespace bss;
static i64 g_live = 0; // number of constructed, not yet destroyed elements
static const u32 ALIVE = 0xA11CE, DEAD = 0xDEAD, GONE = 0x60E;
// Elem<false>: may be relocated bytewise (ARRAY_CONSTRUCT).  Elem<true>: knows its own address (ARRAY_SAFE / ARRAY_MOVE).
template<bool SELF> struct ElemT {
  u32 v, m; u64 self;
  bool ok() const { return m == ALIVE && (!SELF || self == (u64)this); }
  ElemT() : v(0), m(ALIVE), self((u64)this) { ++g_live; }
  explicit ElemT(u32 x) : v(x), m(ALIVE), self((u64)this) { ++g_live; }
  ElemT(const ElemT& o) : v(o.v), m(ALIVE), self((u64)this) { vc_assert(o.ok(), "copies a live element"); ++g_live; }
  ElemT(ElemT&& o) : v(o.v), m(ALIVE), self((u64)this) { vc_assert(o.ok(), "moves a live element"); o.v = GONE; ++g_live; }
  ElemT& operator=(const ElemT& o) { vc_assert(ok() && o.ok(), "assigns live elements"); v = o.v; return *this; }
  ElemT& operator=(ElemT&& o) { vc_assert(ok() && o.ok(), "move-assigns live elements"); u32 t = o.v; o.v = GONE; v = t; return *this; }
  ~ElemT() { vc_assert(ok(), "destroys a live element"); m = DEAD; --g_live; }
};
typedef ElemT<false> EC; typedef ElemT<true> ES;
#define OK(x) ((x).m == ALIVE)
#define OKS(x) ((x).m == ALIVE && (x).self == (u64)&(x))
// arbitrary array of n live elements
template<class A, class E> static inline void arb(A& a, u64 n, u64 cap, bool self) {
  a.SetCapacity(cap); a._length = n; vc_contents(a._array, n);
#ifdef VC_RUNTIME
  for(u64 k = 0; k < n; ++k) { a._array[k].m = ALIVE; a._array[k].self = (u64)(a._array + k); }
#else
  vc_assume(FORALL(k, 0, n, a._array[k].m == ALIVE && a._array[k].self == (u64)(a._array + k)));
#endif
  g_live = (i64)n;
}
#define ARB(A, E, a, n, old) u64 n = any_size(), VC_CAT(cap, __LINE__) = any_size(); vc_assume(n <= VC_CAT(cap, __LINE__)); A a; arb<A, E>(a, n, VC_CAT(cap, __LINE__), true); E* old = vc_old(a._array, n)

template<class A, class E, bool S> static inline void t_add() {
  ARB(A, E, a, n, old); u32 v = any<u32>();
  INVP1("relocated", E, p, x, FORALL(k, 0, x, OK(p[k]) && (!S || p[k].self == (u64)(p + k)) && p[k].v == old[k].v));
  INVP1("sources still live", E, p, x, FORALL(k, x, n, OK(p[k]) && (!S || p[k].self == (u64)(p + k)) && p[k].v == old[k].v));
  INVP1("sources still live 2", E, p, x, FORALL(k, 0, n, OK(p[k]) && (!S || p[k].self == (u64)(p + k))));
  INVP1("tail live", E, p, x, FORALL(k, x, n, OK(p[k]) && (!S || p[k].self == (u64)(p + k))));
  { E tmp(v); a.Add(tmp); }
  vc_assert(a.Length() == n + 1 && g_live == (i64)(n + 1), "Add constructs exactly one element");
  vc_assert(FORALL(k, 0, n, (S ? OKS(a[k]) : OK(a[k])) && a[k].v == old[k].v), "Add keeps the elements alive and unchanged");
  vc_assert((S ? OKS(a[n]) : OK(a[n])) && a[n].v == v, "Add stores a live copy");
  a._length = 0; // the destructor is proved separately
}
PROOF(A03_add_construct) { t_add<DynArray<EC, size_t, ARRAY_CONSTRUCT>, EC, false>(); }
PROOF(A03_add_safe) { t_add<DynArray<ES, size_t, ARRAY_SAFE>, ES, true>(); }

template<class A, class E, bool S> static inline void t_insert() {
  ARB(A, E, a, n, old); u32 v = any<u32>(); u64 i = any<u64>(); vc_assume(i <= n); vc_assume(n < a.Capacity()); // growth is covered by Add
  INVP1("shift down", E, p, x, FORALL(k, x + 1, n + 1, OK(p[k]) && (!S || p[k].self == (u64)(p + k)) && p[k].v == old[k - 1].v));
  INVP1("not yet shifted", E, p, x, FORALL(k, 0, x, OK(p[k]) && (!S || p[k].self == (u64)(p + k)) && p[k].v == old[k].v));
  INVP1("all live", E, p, x, FORALL(k, 0, n + 1, OK(p[k]) && (!S || p[k].self == (u64)(p + k))));
  { E tmp(v); a.Insert(tmp, i); }
  vc_assert(a.Length() == n + 1 && g_live == (i64)(n + 1), "Insert constructs exactly one element");
  vc_assert(FORALL(k, 0, n + 1, S ? OKS(a[k]) : OK(a[k])), "Insert leaves every element alive");
  vc_assert(FORALL(k, 0, i, a[k].v == old[k].v) && a[i].v == v && FORALL(k, i, n, a[k + 1].v == old[k].v), "Insert is the sequence insert");
  a._length = 0;
}
PROOF(A03_insert_construct) { t_insert<DynArray<EC, size_t, ARRAY_CONSTRUCT>, EC, false>(); }
PROOF(A03_insert_safe) { t_insert<DynArray<ES, size_t, ARRAY_SAFE>, ES, true>(); }

template<class A, class E, bool S> static inline void t_remove() {
  ARB(A, E, a, n, old); u64 i = any<u64>(); vc_assume(i < n);
  INVP1("shifted up", E, p, x, FORALL(k, i, x, OK(p[k]) && (!S || p[k].self == (u64)(p + k)) && p[k].v == old[k + 1].v));
  INVP1("rest", E, p, x, FORALL(k, x, n, OK(p[k]) && (!S || p[k].self == (u64)(p + k))));
  INVP1("rest values", E, p, x, FORALL(k, x + 1, n, p[k].v == old[k].v));
  INVP1("rest values0", E, p, x, FORALL(k, x, n, p[k].v == old[k].v));
  INVP0("prefix", E, p, FORALL(k, 0, i, OK(p[k]) && (!S || p[k].self == (u64)(p + k)) && p[k].v == old[k].v));
  a.Remove(i);
  vc_assert(a.Length() == n - 1 && g_live == (i64)(n - 1), "Remove destroys exactly one element");
  vc_assert(FORALL(k, 0, n - 1, S ? OKS(a[k]) : OK(a[k])), "Remove leaves the others alive");
  vc_assert(FORALL(k, 0, i, a[k].v == old[k].v) && FORALL(k, i + 1, n, a[k - 1].v == old[k].v), "Remove is the sequence remove");
  a._length = 0;
}
PROOF(A03_remove_construct) { t_remove<DynArray<EC, size_t, ARRAY_CONSTRUCT>, EC, false>(); }
PROOF(A03_remove_safe) { t_remove<DynArray<ES, size_t, ARRAY_SAFE>, ES, true>(); }

template<class A, class E, bool S> static inline void t_setlength() {
  ARB(A, E, a, n, old); u64 m = any_size();
  u64 mn = n < m ? n : m;
  INVP1("relocated", E, p, x, FORALL(k, 0, x, OK(p[k]) && (!S || p[k].self == (u64)(p + k))));
  INVP1("values", E, p, x, FORALL(k, 0, x < mn ? x : mn, p[k].v == old[k].v));
  INVP1("values fixed", E, p, x, FORALL(k, 0, mn, p[k].v == old[k].v && OK(p[k]) && (!S || p[k].self == (u64)(p + k))));
  INVP1("sources", E, p, x, FORALL(k, x, n, OK(p[k]) && (!S || p[k].self == (u64)(p + k)) && p[k].v == old[k].v));
  INVP1("sources 2", E, p, x, FORALL(k, 0, n, OK(p[k]) && (!S || p[k].self == (u64)(p + k))));
  INVP1("tail live", E, p, x, FORALL(k, x, n, OK(p[k]) && (!S || p[k].self == (u64)(p + k))));
  INVP1("fresh", E, p, x, FORALL(k, n, x, p[k].v == 0));
  a.SetLength(m);
  vc_assert(a.Length() == m && g_live == (i64)m, "SetLength constructs or destroys exactly the difference");
  vc_assert(FORALL(k, 0, m, S ? OKS(a[k]) : OK(a[k])), "SetLength leaves every element alive");
  vc_assert(FORALL(k, 0, mn, a[k].v == old[k].v) && FORALL(k, n, m, a[k].v == 0), "SetLength keeps the common prefix and default-constructs the rest");
  a._length = 0;
}
PROOF(A03_setlength_construct) { t_setlength<DynArray<EC, size_t, ARRAY_CONSTRUCT>, EC, false>(); }
PROOF(A03_setlength_safe) { t_setlength<DynArray<ES, size_t, ARRAY_SAFE>, ES, true>(); }

template<class A, class E, bool S> static inline void t_destroy() {
  u64 blocks = vc_live();
  {
    ARB(A, E, a, n, old);
    INVP1("tail live", E, p, x, FORALL(k, x, n, OK(p[k]) && (!S || p[k].self == (u64)(p + k))));
  }
  vc_assert(g_live == 0, "the destructor destroys every element exactly once");
  vc_assert(vc_live() == blocks, "the destructor releases the storage");
}
PROOF(A03_destroy_construct) { t_destroy<DynArray<EC, size_t, ARRAY_CONSTRUCT>, EC, false>(); }
PROOF(A03_destroy_safe) { t_destroy<DynArray<ES, size_t, ARRAY_SAFE>, ES, true>(); }
