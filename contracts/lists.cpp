// Linked lists: intrusive nodes, the list class and the array-based list.
#include "vc.h"
#include "bss-util/bss_util.h"
#include "bss-util/LLBase.h"
#include "bss-util/LinkedList.h"
#include "bss-util/LinkedArray.h"
using namespace bss;
// The intrusive operations touch a node and its neighbours only, so a list of any length is given by the neighbourhood:
// P and N are the nodes around the place (absent at the ends), PP and NN stand for the rest of the list.
struct Nd : LLBase<Nd> { u32 v; };
struct Hood {
  Nd PP, P, X, T, N, NN; bool hp, hn; Nd* root; Nd* last;
  // ... PP <-> P <-> T <-> N <-> NN ...; X is not in the list
  Hood() {
    hp = any<bool>(); hn = any<bool>(); P.prev = &PP; P.next = &T; T.prev = hp ? &P : 0; T.next = hn ? &N : 0; N.prev = &T; N.next = &NN;
    PP.prev = PP.next = NN.prev = NN.next = &X; X.prev = X.next = &NN; root = hp ? &PP : &T; last = hn ? &NN : &T;
  }
  void rest(const char* l) { (void)l; vc_assert(PP.prev == &X && PP.next == &X && NN.prev == &X && NN.next == &X && P.prev == &PP && N.next == &NN, "the rest of the list is untouched"); }
};
#define ORD(a, b) vc_assert((a).next == &(b) && (b).prev == &(a), "the neighbours are linked in both directions")
PROOF(A13_ll_insert) {
  Hood h; bool ro = any<bool>(); Nd* r0 = h.root; if(ro) LLInsert(&h.X, &h.T, h.root); else LLInsert(&h.X, &h.T);
  ORD(h.X, h.T); if(h.hp) ORD(h.P, h.X); else vc_assert(h.X.prev == 0, "a first node has no predecessor");
  vc_assert(h.root == (ro && !h.hp ? &h.X : r0), "the root is the first node"); vc_assert(h.T.next == (h.hn ? &h.N : 0) && h.N.prev == &h.T, "the following links stay"); h.rest("");
}
PROOF(A13_ll_insertafter) {
  Hood h; bool ro = any<bool>(); Nd* l0 = h.last; if(ro) LLInsertAfter(&h.X, &h.T, h.last); else LLInsertAfter(&h.X, &h.T);
  ORD(h.T, h.X); if(h.hn) ORD(h.X, h.N); else vc_assert(h.X.next == 0, "a last node has no successor");
  vc_assert(h.last == (ro && !h.hn ? &h.X : l0), "the last pointer is the last node"); vc_assert(h.T.prev == (h.hp ? &h.P : 0) && h.P.next == &h.T, "the preceding links stay"); h.rest("");
}
PROOF(A13_ll_add) {
  Hood h; vc_assume(!h.hp); bool e = any<bool>(), two = any<bool>(); Nd* root = e ? 0 : &h.T; Nd* last = e ? 0 : h.last; Nd* l0 = last;
  if(two) LLAdd(&h.X, root, last); else LLAdd(&h.X, root);
  vc_assert(root == &h.X && h.X.prev == 0, "the added node is the first"); if(e) vc_assert(h.X.next == 0, "a sole node has no successor"); else ORD(h.X, h.T);
  if(two) vc_assert(last == (e ? &h.X : l0), "the last pointer is the last node");
  if(!e) vc_assert(h.T.next == (h.hn ? &h.N : 0) && h.N.prev == &h.T, "the following links stay"); h.rest("");
}
PROOF(A13_ll_addafter) {
  Hood h; vc_assume(!h.hn); bool e = any<bool>(), two = any<bool>(); vc_assume(two || !e); Nd* last = e ? 0 : &h.T; Nd* root = e ? 0 : h.root; Nd* r0 = root;
  if(two) LLAddAfter(&h.X, root, last); else last = LLAddAfter(&h.X, last);
  vc_assert(last == &h.X && h.X.next == 0, "the added node is the last"); if(e) vc_assert(h.X.prev == 0, "a sole node has no predecessor"); else ORD(h.T, h.X);
  vc_assert(root == (e ? &h.X : r0), "the root is the first node");
  if(!e) vc_assert(h.T.prev == (h.hp ? &h.P : 0) && h.P.next == &h.T, "the preceding links stay"); h.rest("");
}
static LLBase<Nd>& nodes(Nd* n) { return *n; }
PROOF(A13_ll_remove) {
  Hood h; u8 kind = any<u8>(); vc_assume(kind < 4); Nd* r0 = h.root; Nd* l0 = h.last;
  if(kind == 0) LLRemove(&h.T, h.root, h.last); if(kind == 1) LLRemove(&h.T, h.root); if(kind == 2) LLRemove(&h.T); if(kind == 3) AltLLRemove<Nd, nodes>(&h.T, h.root);
  if(h.hp && h.hn) ORD(h.P, h.N);
  if(h.hp && !h.hn) vc_assert(h.P.next == 0, "a last node has no successor"); if(!h.hp && h.hn) vc_assert(h.N.prev == 0, "a first node has no predecessor");
  vc_assert(h.root == (kind != 2 && !h.hp ? (h.hn ? &h.N : 0) : r0), "the root is the first node");
  vc_assert(h.last == (kind == 0 && !h.hn ? (h.hp ? &h.P : 0) : l0), "the last pointer is the last node"); h.rest("");
}
PROOF(A13_ll_altadd) {
  Hood h; vc_assume(!h.hp); bool e = any<bool>(); Nd* root = e ? 0 : &h.T; AltLLAdd<Nd, nodes>(&h.X, root);
  vc_assert(root == &h.X && h.X.prev == 0, "the added node is the first"); if(e) vc_assert(h.X.next == 0, "a sole node has no successor"); else ORD(h.X, h.T); h.rest("");
}
// the list class, with and without a last pointer
typedef LinkedList<u32, StandardAllocator<LLNode<u32>>, true, true> LL;
typedef LinkedList<u32, StandardAllocator<LLNode<u32>>, false, true> LF;
typedef LLNode<u32> N;
template<class L> struct Around {
  N PP, P, T_, Nx, NN; N* T; bool hp, hn; L l; u64 len; u32 v[5];
  Around() {
    hp = any<bool>(); hn = any<bool>(); T = StandardAllocator<N>().allocate(1); P.prev = &PP; P.next = T; T->prev = hp ? &P : 0; T->next = hn ? &Nx : 0; Nx.prev = T; Nx.next = &NN;
    PP.prev = PP.next = NN.prev = NN.next = 0; for(int i = 0; i < 5; ++i) v[i] = any<u32>(); PP.item = v[0]; P.item = v[1]; T->item = v[2]; Nx.item = v[3]; NN.item = v[4];
    len = any_size(); vc_assume(len >= 1u + hp * 2 + hn * 2); l._length = len; l._root = hp ? &PP : T; setlast(l, hn ? &NN : T);
  }
  static void setlast(LL& l, N* n) { l._last = n; } static void setlast(LF& l, N* n) {}
  void rest() { vc_assert(!PP.prev && !PP.next && !NN.prev && !NN.next && P.prev == &PP && Nx.next == &NN, "the rest of the list is untouched");
    vc_assert(PP.item == v[0] && P.item == v[1] && Nx.item == v[3] && NN.item == v[4], "the other items are unchanged"); }
  void drop() { l._root = 0; setlast(l, 0); }
};
static N* lastof(LL& l) { return l._last; } static N* lastof(LF& l) { return 0; }
#define ORDP(a, b) vc_assert((a)->next == (b) && (b)->prev == (a), "the neighbours are linked in both directions")
template<class L> static void lins(bool haslast) {
  Around<L> h; u32 x = any<u32>(); N* l0 = lastof(h.l); N* r0 = h.l._root; N* n = h.l.Insert(x, h.T);
  vc_assert(n->item == x && h.T->item == h.v[2] && h.l.Length() == h.len + 1, "an insertion adds one item");
  ORDP(n, h.T); if(h.hp) ORDP(&h.P, n); else vc_assert(n->prev == 0, "a first node has no predecessor");
  vc_assert(h.l.Front() == (h.hp ? r0 : n), "the front is the first node"); vc_assert(lastof(h.l) == l0, "the back is unchanged"); vc_assert(h.T->next == (h.hn ? &h.Nx : 0), "the following links stay"); h.rest();
  StandardAllocator<N>().deallocate(n, 1); StandardAllocator<N>().deallocate(h.T, 1); h.drop();
}
template<class L> static void lrem(int kind) {
  Around<L> h; N* l0 = lastof(h.l); N* r0 = h.l._root; bool b = any<bool>(); u64 lv = vc_live();
  if(kind == 0) h.l.Remove(h.T);
  if(kind == 1) { LLIter<u32> it(h.T); h.l.Remove(it); }
  if(kind == 2) { N* r = h.l.Remove(h.T, b); vc_assert(r == (b ? (h.hp ? &h.P : 0) : (h.hn ? &h.Nx : 0)), "removal returns the neighbour"); }
  vc_assert(vc_live() == lv - 1, "the removed node is released");
  vc_assert(h.l.Length() == h.len - 1, "a removal takes one item");
  if(h.hp && h.hn) ORDP(&h.P, &h.Nx);
  if(h.hp && !h.hn) vc_assert(h.P.next == 0, "a last node has no successor"); if(!h.hp && h.hn) vc_assert(h.Nx.prev == 0, "a first node has no predecessor");
  vc_assert(h.l.Front() == (h.hp ? r0 : h.hn ? &h.Nx : 0), "the front is the first node");
  if(l0) vc_assert(lastof(h.l) == (h.hn ? l0 : h.hp ? &h.P : 0), "the back is the last node"); h.rest(); h.drop();
}
PROOF(A13_list_insert_last) { lins<LL>(true); }
PROOF(A13_list_insert) { lins<LF>(false); }
PROOF(A13_list_remove_last) { lrem<LL>(0); }
PROOF(A13_list_remove) { lrem<LF>(0); }
PROOF(A13_list_remove_iter) { lrem<LL>(1); }
PROOF(A13_list_remove_dir) { lrem<LL>(2); }
PROOF(A13_list_add_last) {
  Around<LL> h; vc_assume(!h.hn); u32 x = any<u32>(); bool e = any<bool>(), ins = any<bool>(); if(e) { h.l._root = 0; h.l._last = 0; h.l._length = 0; } N* r0 = h.l._root;
  N* n = ins ? h.l.Insert(x, (N*)0) : h.l.Add(x); vc_assert(n->item == x && n->next == 0 && h.l.Back() == n && h.l.Length() == (e ? 1 : h.len + 1), "the added item is the last");
  if(e) vc_assert(h.l.Front() == n && n->prev == 0, "a sole node is the front"); else { ORDP(h.T, n); vc_assert(h.l.Front() == r0 && h.T->prev == (h.hp ? &h.P : 0) && h.T->item == h.v[2], "the preceding links stay"); } h.rest();
  StandardAllocator<N>().deallocate(n, 1); StandardAllocator<N>().deallocate(h.T, 1); h.drop();
}
PROOF(A13_list_add) {
  Around<LF> h; vc_assume(!h.hp); u32 x = any<u32>(); bool e = any<bool>(); if(e) { h.l._root = 0; h.l._length = 0; }
  N* n = h.l.Add(x); vc_assert(n->item == x && n->prev == 0 && h.l.Front() == n && h.l.Length() == (e ? 1 : h.len + 1), "without a last pointer the added item is the first");
  if(e) vc_assert(n->next == 0, "a sole node has no successor"); else { ORDP(n, h.T); vc_assert(h.T->next == (h.hn ? &h.Nx : 0) && h.T->item == h.v[2], "the following links stay"); } h.rest();
  StandardAllocator<N>().deallocate(n, 1); StandardAllocator<N>().deallocate(h.T, 1); h.drop();
}
// walking, searching and clearing a list of up to three nodes
PROOF(A13_list_walk) {
  vc_unroll(6); u32 n = any<u32>(), x[3], y = any<u32>(); vc_assume(n <= 3); u64 lv = vc_live();
  {
    LL l; N* p[3] = { 0, 0, 0 }; for(u32 i = 0; i < 3; ++i) { x[i] = any<u32>(); if(i < n) p[i] = l.Add(x[i]); }
    vc_assert(vc_live() == lv + n, "one node per item"); u32 k = 0; for(auto i = l.begin(); i.IsValid(); ++i) { vc_assert(k < n && *i == x[k], "iteration yields the items in order"); ++k; } vc_assert(k == n, "iteration yields every item");
    if(n) { N* f = l.Item(y); bool in = x[0] == y || (n > 1 && x[1] == y) || (n > 2 && x[2] == y); vc_assert((f != 0) == in && (!f || f->item == y), "a search finds an item exactly when it is present");
      vc_assert(l.Back() == p[n - 1] && l.Front() == p[0], "front and back are the first and last node"); }
    bool c = any<bool>(); if(c) { l.Clear(); vc_assert(l.Front() == 0 && l.Back() == 0 && l.Length() == 0, "a cleared list is empty"); }
    else { LL m; m = (LL&&)l; vc_assert(l.Front() == 0 && l.Length() == 0 && m.Length() == n && m.Front() == p[0] && m.Back() == (n ? p[n - 1] : 0), "moving transfers the nodes"); }
  }
  vc_assert(vc_live() == lv, "every node is released");
}
// ---- the array-based list.  Ghost at[]: the list's slots in order, then the free slots in order; pos[] its inverse.
typedef LinkedArray<u32, u64> LA; typedef LA::TLNODE LN;
#define NIL ((u64)-1)
// links of the k-th slot of an order AT with L listed slots among C
#define LINKS(a, AT, L, C, k) ((a)[AT(k)].next == ((k) + 1 < (L) || ((k) >= (L) && (k) + 1 < (C)) ? AT((k) + 1) : NIL) && ((k) >= (L) || (a)[AT(k)].prev == ((k) > 0 ? AT((k) - 1) : NIL)))
static void arb_la(LA& a, u64 cap, u64 L, u64*& at, u64*& pos) {
  vc_assume(L <= cap); LN* p = a._ref._array; at = (u64*)vc_ghost(cap, 8); pos = (u64*)vc_ghost(cap, 8);
#ifdef VC_RUNTIME
  for(u64 i = 0; i < cap; ++i) { at[i] = i; } for(u64 i = cap; i > 1; --i) { u64 j = any<u64>() % i, t = at[i - 1]; at[i - 1] = at[j]; at[j] = t; }
  for(u64 i = 0; i < cap; ++i) pos[at[i]] = i;
  vc_contents(p, cap);
  for(u64 k = 0; k < cap; ++k) { p[at[k]].next = (k + 1 < L || (k >= L && k + 1 < cap)) ? at[k + 1] : NIL; if(k < L) p[at[k]].prev = k > 0 ? at[k - 1] : NIL; }
#else
  vc_contents(p, cap);
  vc_assume(FORALL(k, 0, cap, at[k] < cap && pos[at[k]] == k)); vc_assume(FORALL(i, 0, cap, pos[i] < cap && at[pos[i]] == i));
#define A_(k) at[k]
  vc_assume(FORALL(k, 0, cap, LINKS(p, A_, L, cap, k)));
#endif
  a._length = L; a._start = L ? at[0] : NIL; a._end = L ? at[L - 1] : NIL; a._freelist = L < cap ? at[L] : NIL;
}
#define ARB_LA(a, cap, L, at, pos, old) u64 cap = any_size(), L = any_size(); vc_assume(cap < 0x7fffffffull); LA a(0); a._ref.SetCapacity(cap); u64 *at, *pos; arb_la(a, cap, L, at, pos); LN* old = vc_old(a._ref._array, cap)
// the order afterwards is AT2 with L2 listed slots
#define WFLA(a, AT2, L2, C2) do { u64 k = any<u64>(); vc_assume(k < (C2)); LN* q = a._ref._array; vc_assert(AT2(k) < (C2), "slots stay in range"); vc_assert(LINKS(q, AT2, L2, C2, k), "the list and the free list are linked as expected"); } while(0); \
  vc_assert(a._length == (L2) && a._ref._capacity == (C2) && a._start == ((L2) ? AT2(0) : NIL) && a._end == ((L2) ? AT2((L2) - 1) : NIL) && a._freelist == ((L2) < (C2) ? AT2(L2) : NIL), "the ends, the free list and the length are right")
#define CHUNKINV(a, fl) INVP1("free chunk", LN, q, i, i <= a._ref._capacity && FORALL(jj, i, a._ref._capacity, q[jj].next == (jj + 1 < a._ref._capacity ? jj + 1 : (fl)))); \
  INV1("free list", i, i <= a._ref._capacity && a._freelist == (i < a._ref._capacity ? i : (fl)))
#define OLDNODE(q, k) ((q)[k].val == old[k].val && (q)[k].next == old[k].next && (q)[k].prev == old[k].prev)
#define ID_(k) (k)
union Store { LA l; Store() {} ~Store() {} };
PROOF(A13_la_construct) {
  u64 cap = any_size(); Store s; CHUNKINV(s.l, NIL);
  new(&s.l) LA(cap); WFLA(s.l, ID_, 0, cap); s.l.~LA();
}
PROOF(A13_la_clear) {
  ARB_LA(a, cap, L, at, pos, old); CHUNKINV(a, NIL);
  a.Clear(); WFLA(a, ID_, 0, cap);
}
// pick evaluates both sides (no case split)
static inline u64 pick(bool c, u64 a, u64 b) { u64 m = 0 - (u64)c; return (a & m) | (b & ~m); }
static void la_insert(int kind, bool full) {
  ARB_LA(a, cap, L, at, pos, old); u64 idx = any<u64>(); u32 v = any<u32>(); vc_assume(idx < cap || idx == NIL); vc_assume((L == cap) == full);
  u64 p = 0; // the place of the new item
  if(kind == 0) { vc_assume(idx == NIL || pos[idx] < L); p = idx == NIL ? L : pos[idx] + 1; }
  if(kind == 1) { vc_assume(idx == NIL || pos[idx] < L); p = idx == NIL ? L : pos[idx]; }
  if(kind == 2) p = L;
  CHUNKINV(a, NIL);
  INVP0("frame", LN, q, FORALL(jj, 0, cap, OLDNODE(q, jj)));
  u64 cur = kind == 0 ? a.InsertAfter(v, idx) : kind == 1 ? a.InsertBefore(v, idx) : a.Add(v);
  u64 C2 = a._ref._capacity; vc_assert(full ? C2 > cap : C2 == cap, "the list grows only when full");
  LN* q = a._ref._array; u64 free0 = full ? cap : at[L];
  vc_assert(cur == free0 && q[cur].val == v && a.Length() == L + 1, "an insertion stores the item in a free slot");
  vc_assert(a._freelist == (full ? (cap + 1 < C2 ? cap + 1 : NIL) : L + 1 < cap ? at[L + 1] : NIL), "the slot leaves the free list");
  u64 i = any<u64>(); vc_assume(i < C2 && i != cur);
  if(i >= cap) vc_assert(q[i].next == (i + 1 < C2 ? i + 1 : NIL), "the free list is complete");
  else {
    vc_assert(q[i].val == old[i].val, "the other items keep their slots and values"); u64 k = pos[i];
    u64 nx = k + 1 == p && k < L ? cur : old[i].next; vc_assert(q[i].next == nx, "the other items are followed by what follows them in the new order");
    if(k < L) { u64 pv = k == p ? cur : old[i].prev; vc_assert(q[i].prev == pv, "the other items are preceded by what precedes them in the new order"); }
  }
  vc_assert(q[cur].next == (p < L ? at[p] : NIL) && q[cur].prev == (p > 0 ? at[p - 1] : NIL), "the new item is linked at its place");
  vc_assert(a._start == (p == 0 ? cur : at[0]) && a._end == (p == L ? cur : at[L - 1]), "the ends are right");
}
PROOF(A13_la_insertafter) { la_insert(0, false); }
PROOF(A13_la_insertbefore) { la_insert(1, false); }
PROOF(A13_la_add) { la_insert(2, false); }
PROOF(A13_la_insertafter_full) { la_insert(0, true); }
PROOF(A13_la_insertbefore_full) { la_insert(1, true); }
PROOF(A13_la_add_full) { la_insert(2, true); }
PROOF(A13_la_remove) {
  ARB_LA(a, cap, L, at, pos, old); u64 idx = any<u64>(); vc_assume(idx < cap && pos[idx] < L); u64 p = pos[idx]; u64 f0 = a._freelist;
  u32 r = a.Remove(idx); vc_assert(r == old[idx].val && a.Length() == L - 1, "a removal returns the item");
  LN* q = a._ref._array; vc_assert(a._freelist == idx && q[idx].next == f0, "the slot joins the free list");
  u64 i = any<u64>(); vc_assume(i < cap && i != idx); u64 k = pos[i];
  vc_assert(q[i].val == old[i].val, "the other items keep their slots and values");
  vc_assert(q[i].next == (k + 1 == p && k < L ? old[idx].next : old[i].next), "the other items are followed by what follows them in the new order");
  if(k < L) vc_assert(q[i].prev == (k == p + 1 ? old[idx].prev : old[i].prev), "the other items are preceded by what precedes them in the new order");
  vc_assert(a._start == (p == 0 ? (L > 1 ? at[1] : NIL) : at[0]) && a._end == (p + 1 == L ? (L > 1 ? at[L - 2] : NIL) : at[L - 1]), "the ends are right");
}
PROOF(A13_la_setcapacity) {
  ARB_LA(a, cap, L, at, pos, old); u64 n = any_size(); vc_assume(n < 0x7fffffffull); u64 f0 = a._freelist; CHUNKINV(a, f0);
  INVP0("frame", LN, q, FORALL(jj, 0, cap, OLDNODE(q, jj)));
  a.SetCapacity(n); u64 C2 = a._ref._capacity; vc_assert(C2 == (n < cap ? cap : n), "capacity never shrinks"); u64 d = C2 - cap;
#define AS(k) ((k) < L ? at[k] : (k) < L + d ? cap + ((k) - L) : at[(k) - d])
  WFLA(a, AS, L, C2);
  u64 i = any<u64>(); vc_assume(i < cap); vc_assert(a._ref._array[i].val == old[i].val, "the items keep their slots and values");
}
PROOF(A13_la_walk) {
  ARB_LA(a, cap, L, at, pos, old); u64 k = any<u64>(); vc_assume(k < L); u64 c = at[k], d = c;
  a.Next(c); vc_assert(c == (k + 1 < L ? at[k + 1] : NIL), "next is the following slot"); a.Prev(d); vc_assert(d == (k > 0 ? at[k - 1] : NIL), "previous is the preceding slot");
  vc_assert(a.Front() == at[0] && a.Back() == at[L - 1] && a.begin().cur == at[0] && a.GetItem(at[k]) == old[at[k]].val, "the ends and items are shown");
}
PROOF(A13_la_copy) {
  ARB_LA(a, cap, L, at, pos, old); LA b(a);
#define AC_(k) at[k]
  WFLA(b, AC_, L, cap); u64 i = any<u64>(); vc_assume(i < cap); vc_assert(b._ref._array[i].val == old[i].val, "a copy has the same items"); vc_assert(b._ref._array != a._ref._array || cap == 0, "a copy has its own storage");
}
PROOF(A13_la_assign) {
  ARB_LA(a, cap, L, at, pos, old); u64 c2 = any_size(); LA b(c2); bool mv = any<bool>(); if(mv) b = (LA&&)a; else b = a;
  WFLA(b, AC_, L, cap); u64 i = any<u64>(); vc_assume(i < cap); vc_assert(b._ref._array[i].val == old[i].val, "an assigned list has the same items");
}
