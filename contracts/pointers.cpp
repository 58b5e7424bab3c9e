// Reference-counted pointers, owning pointers.
#include "vc.h"
#include <memory>
#include "bss-util/RefCounter.h"
#include "bss-util/SmartPtr.h"
using namespace bss;
// a counted object; its destructor records the destruction
struct Obj : RefCounter {
  u32* dead; u32 v;
  Obj(u32* d, u32 x) : dead(d), v(x) {}
  ~Obj() { ++*dead; }
  int refs() const { return _refs; }
  void setrefs(int r) { _refs = r; }
};
// a ref_ptr in an arbitrary state: null, or holding one of o->refs references
static i32 refcount() { i32 r = any<i32>(); vc_assume(r >= 1 && r < 0x7ffffff0); return r; }
static Obj* obj(u32* d, i32 r) { Obj* o = new Obj(d, any<u32>()); o->setrefs(r); return o; }
// a ref_ptr that takes over one existing reference
struct RP : ref_ptr<Obj> { RP(Obj* o) : ref_ptr<Obj>() { _p = o; } Obj* p() const { return _p; } void drop() { _p = 0; } ref_ptr<Obj>& base() { return *this; } };
PROOF(A12_counter) {
  u32 d = 0; i32 r = refcount(), n = any<i32>(); Obj* o = obj(&d, r); vc_assume(n >= 0 && n < 0x7ffffff0 - r);
  vc_assert(o->Grab() == r + 1 && o->refs() == r + 1 && d == 0, "grab adds one reference");
  vc_assert(o->Grab(n) == r + 1 + n && o->refs() == r + 1 + n, "grab(n) adds n references");
  o->setrefs(r); i32 q = o->Drop();
  vc_assert(q == r - 1, "drop returns the remaining references");
  vc_assert((d == 1) == (r == 1) && d <= 1, "drop destroys the object exactly when the last reference goes");
  if(r > 1) { vc_assert(o->refs() == r - 1, "drop removes one reference"); Obj c(*o); vc_assert(c.refs() == 0, "a copy starts without references"); c.setrefs(7); c = *o; vc_assert(c.refs() == 7 && o->refs() == r - 1, "assignment does not copy references"); }
}
PROOF(A12_ref_construct) {
  u32 d = 0; i32 r = refcount(); Obj* o = obj(&d, r); bool null = any<bool>();
  {
    ref_ptr<Obj> a(null ? (Obj*)0 : o);
    vc_assert((Obj*)a == (null ? (Obj*)0 : o) && !a == null && o->refs() == r + (null ? 0 : 1), "a pointer holds one reference");
    ref_ptr<Obj> b(a); vc_assert((Obj*)b == (Obj*)a && o->refs() == r + (null ? 0 : 2), "a copy holds another reference");
    ref_ptr<Obj> c(std::move(a)); vc_assert((Obj*)c == (null ? (Obj*)0 : o) && (Obj*)a == 0 && o->refs() == r + (null ? 0 : 2), "moving transfers the reference");
    if(!null) vc_assert(c->v == (*c).v && (Obj*)c == o, "the pointer shows its object");
  }
  vc_assert(o->refs() == r && d == 0, "destroyed pointers return their references");
}
PROOF(A12_ref_destroy) {
  u32 d = 0; i32 r = refcount(); Obj* o = obj(&d, r); bool null = any<bool>();
  { RP a(null ? (Obj*)0 : o); }
  vc_assert((d == 1) == (!null && r == 1) && d <= 1, "the object dies with its last pointer");
  if(d == 0) vc_assert(o->refs() == r - (null ? 0 : 1), "a destroyed pointer returns its reference");
}
// assignment: left and right null, the same object, or different objects
static void assign(int kind) {
  u32 d1 = 0, d2 = 0; i32 r1 = refcount(), r2 = refcount(); Obj* o1 = obj(&d1, r1); Obj* o2 = obj(&d2, r2);
  bool ln = any<bool>(), rn = any<bool>(), same = any<bool>(); vc_assume(!same || r1 >= 2 || kind == 1);
  Obj* lp = ln ? 0 : o1; Obj* rp = rn ? 0 : (same ? o1 : o2);
  RP a(lp), b(rp);
  if(kind == 0) a.base() = (const ref_ptr<Obj>&)b;
  if(kind == 1) a.base() = rp;
  if(kind == 2) a.base() = (ref_ptr<Obj>&&)b;
  vc_assert(a.p() == rp, "after an assignment the pointer shows the right side");
  vc_assert(b.p() == (kind == 2 ? (Obj*)0 : rp), "the source keeps its object unless it was moved from");
  i32 c1 = r1 - (lp == o1 ? 1 : 0) + (rp == o1 && kind != 2 ? 1 : 0), c2 = r2 + (rp == o2 && kind != 2 ? 1 : 0);
  vc_assert((d1 == 1) == (c1 == 0) && d1 <= 1 && d2 == 0, "an object dies exactly when its last reference goes");
  if(!d1) vc_assert(o1->refs() == c1, "the left object's references are right");
  vc_assert(o2->refs() == c2, "the right object's references are right");
  a.drop(); b.drop();
}
PROOF(A12_ref_assign) { assign(0); }
PROOF(A12_ref_assign_raw) { assign(1); }
PROOF(A12_ref_assign_move) { assign(2); }
PROOF(A12_ref_self) {
  u32 d = 0; i32 r = refcount(); Obj* o = obj(&d, r); bool null = any<bool>(), mv = any<bool>();
  RP a(null ? (Obj*)0 : o); ref_ptr<Obj>& x = a; ref_ptr<Obj>& y = a;
  if(mv) x = (ref_ptr<Obj>&&)y; else x = (const ref_ptr<Obj>&)y;
  vc_assert(a.p() == (null ? (Obj*)0 : o) && d == 0 && o->refs() == r, "assigning a pointer to itself changes nothing");
  a.drop();
}
// owning pointers: the deleter records what it deletes
static u32* g_del[3]; static u32 g_target[3];
struct Del { void operator()(u32* p) const { if(p) { vc_assert(*p == 1, "the deleter is given a live object"); *p = 0; } } };
struct OP : OwnerPtr<u32, Del> { using B = OwnerPtr<u32, Del>; OP(u32* p, bool o) : B() { _p = p; _owner = o; } bool own() const { return _owner; } u32* p() const { return _p; } void drop() { _owner = false; } B& base() { return *this; } };
typedef OwnerPtr<u32, Del> O;
// *p == 1: the object is alive
PROOF(A12_owner_construct) {
  u32 x = 1, y = 1, z = 1; bool own = any<bool>();
  {
    OP a(&x, own); vc_assert((u32*)a == &x && !!a && &*a == &x && a == (const u32*)&x, "the pointer shows its object");
    O c(a); vc_assert((u32*)c == &x && x == 1, "a copy shows the same object");
    { O e((const O&)a); } vc_assert(x == 1, "a copy never deletes");
    O m((O&&)a.base()); vc_assert((u32*)m == &x && !a.own() && x == 1, "moving transfers the ownership");
    O r(y); vc_assert((u32*)r == &y, "a pointer to a reference shows it");
    O p(internal::OwnerPtrRef<u32>((u32*)&z)); vc_assert((u32*)p == &z && z == 1, "a pointer to a raw pointer shows it");
  }
  vc_assert((x == 0) == own, "an owned object is deleted exactly once, a borrowed one never");
  vc_assert(y == 1, "a referenced object is never deleted"); vc_assert(z == 0, "an adopted object is deleted");
  { O n; vc_assert(!n && (u32*)n == 0, "an empty pointer is null"); }
}
static void oassign(int kind) {
  u32 x = 1, y = 1; bool lo = any<bool>(), ro = any<bool>(), ln = any<bool>(), rn = any<bool>(); vc_assume((!ln || !lo) && (!rn || !ro));
  OP a(ln ? 0 : &x, lo), b(rn ? 0 : &y, ro);
  if(kind == 0) a.base() = (const O&)b;
  if(kind == 1) a.base() = (O&&)b.base();
  if(kind == 2) { a.base() = internal::OwnerPtrRef<u32>(rn ? 0 : &y); }
  if(kind == 3) { vc_assume(!rn); a.base() = y; }
  vc_assert(a.p() == (rn ? 0 : &y) && b.p() == (rn ? 0 : &y), "after an assignment the pointer shows the right side");
  vc_assert((x == 0) == lo && y == 1, "the object owned before is deleted, the new one is not");
  if(kind == 2) vc_assert(rn || a.own(), "an adopted object is owned");
  else vc_assert(a.own() == (kind == 1 && ro), "ownership passes only by moving from the owner");
  vc_assert(b.own() == (kind == 1 ? false : ro), "the source gives up ownership only when moved from");
  a.drop(); b.drop();
}
PROOF(A12_owner_assign) { oassign(0); }
PROOF(A12_owner_assign_move) { oassign(1); }
PROOF(A12_owner_assign_raw) { oassign(2); }
PROOF(A12_owner_assign_ref) { oassign(3); }
PROOF(A12_owner_self) {
  u32 x = 1; bool own = any<bool>(), mv = any<bool>(); OP a(&x, own);
  if(mv) a.base() = (O&&)a.base(); else a.base() = (const O&)a;
  vc_assert(a.p() == &x && x == 1 && a.own() == own, "assigning a pointer to itself changes nothing");
  a.drop();
}
