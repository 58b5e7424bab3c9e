// Readers-writer lock, for every interleaving (rely/guarantee).
//@cflags -fheinous-gnu-extensions
#include "vc.h"
#include "bss-util/RWLock.h"
using namespace bss;
#define W (1ull << 63)
// Ghost state of one lock word l, seen from one thread ("me"):
//  mf: I have set the writer bit   mi: my reader increments in l   mh: read locks I hold (increments made at an instant with the writer bit clear)
//  of, oi, oh: the same, for all other threads together             oe: another thread has exclusive access (set the bit and saw no reader but itself)
struct G { u64 mf, mi, mh, of, oi, oh, oe; } g; RWLock* L; u64* C;
static inline bool J(u64 l) { // the global invariant
  return (g.mf <= 1) & (g.of <= 1) & (g.oe <= g.of) & ((g.mf & g.of) == 0) & (g.mh <= g.mi) & (g.oh <= g.oi) & (g.mi <= 4) & (g.oi < (1ull << 60)) & (l == (g.mf << 63) + (g.of << 63) + g.mi + g.oi)
    & (!g.oe | ((g.mh == 0) & (g.oh == 0)));
}
extern "C" {
#ifndef VC_RUNTIME
// any number of steps of the other threads: they keep the invariant and what is mine; nobody takes a read lock while my writer bit is set,
// nobody gains exclusive access while I hold a read lock or the writer bit (what vc_step proves of my steps, read from the other side)
__attribute__((used)) void vc_env() {
  G o = g; g.of = vc_any(64); g.oi = vc_any(64); g.oh = vc_any(64); g.oe = vc_any(64); u64 l = vc_any(64); *C = l;
  vc_assume(J(l) & ((o.mf == 0) | (g.oh <= o.oh)) & (((o.mf == 0) & (o.mh == 0)) | (g.oe == 0)));
}
// my atomic update old -> nw of the lock word: it must be a step of the protocol
__attribute__((used)) void vc_step(u64 old, u64 nw) {
  bool same = nw == old, set = (nw == (old | W)) & !(old >> 63), clr = (nw == (old & ~W)) & (old >> 63), inc = nw == old + 1, dec = nw == old - 1;
  vc_assert(same | set | clr | inc | dec, "every update sets or clears the writer bit or counts one reader");
  vc_assert(!clr | (g.mf == 1), "only the owner clears the writer bit");
  vc_assert(!dec | (g.mi > 0), "only an own reader is uncounted");
  u64 s = set & !same, c = clr & !same & !set, i = inc & !set & !clr, d = dec & !inc;
  g.mf = g.mf + s - c; g.mi = g.mi + i - d;
  g.mh = g.mh + (i & (u64)!(old >> 63)) - (d & (u64)(g.mh > g.mi)); // a reader counted while no writer was there holds the lock
  vc_assert(J(nw), "the invariant is kept");
}
#endif
}
static void mine(u64 mf, u64 mi, u64 mh) { // an arbitrary moment at which I have mf, mi, mh
  L = new RWLock(); C = (u64*)L; g.mf = mf; g.mi = mi; g.mh = mh;
#ifdef VC_RUNTIME
  g.of = g.oi = g.oh = g.oe = 0; *C = (mf << 63) | mi;
#else
  g.of = vc_any(64); g.oi = vc_any(64); g.oh = vc_any(64); g.oe = vc_any(64); *C = vc_any(64); vc_assume(J(*C)); vc_shared(C);
#endif
}
static void now() { // afterwards, the other threads go on
#ifdef VC_RUNTIME
  g.mf = *C >> 63; g.mi = *C & ~W; g.mh = g.mi;
#else
  vc_env();
#endif
}
#define HAVE(a, b, c, label) vc_assert(g.mf == (a) && g.mi == (b) && g.mh == (c), label)
#define EXCLUSIVE() vc_assert(g.oh == 0 && g.oe == 0 && g.of == 0, "no other thread holds a read or write lock")
#define NOWRITER() vc_assert(g.oe == 0, "no other thread has exclusive access")
#define INVS() INV0("lock invariant", J(*C)); INV0("nothing mine", g.mf == 0 && g.mi == 0 && g.mh == 0); INV0("bit mine", g.mf == 1 && g.mi == 0 && g.mh == 0); INV0("bit and reader mine", g.mf == 1 && g.mi == 1 && g.mh <= 1); \
  INV0("reader mine", g.mf == 0 && g.mi == 1 && g.mh <= 1); INV0("reader held", g.mf == 0 && g.mi == 1 && g.mh == 1)
PROOF(A16_lock) { mine(0, 0, 0); INVS(); L->Lock(); now(); HAVE(1, 0, 0, "Lock owns the writer bit"); EXCLUSIVE(); }
PROOF(A16_attemptlock) { mine(0, 0, 0); INVS(); bool r = L->AttemptLock(); now(); if(r) { HAVE(1, 0, 0, "a successful attempt owns the writer bit"); EXCLUSIVE(); } else HAVE(0, 0, 0, "a failed attempt leaves nothing behind"); }
PROOF(A16_attemptstrict) { mine(0, 0, 0); bool r = L->AttemptStrictLock(); now(); if(r) { HAVE(1, 0, 0, "a successful attempt owns the writer bit"); EXCLUSIVE(); } else HAVE(0, 0, 0, "a failed attempt leaves nothing behind"); }
PROOF(A16_unlock) { mine(1, 0, 0); vc_assume(g.oh == 0 && g.oe == 0); L->Unlock(); now(); HAVE(0, 0, 0, "Unlock releases the writer bit"); }
PROOF(A16_rlock) { mine(0, 0, 0); INVS(); L->RLock(); now(); HAVE(0, 1, 1, "RLock holds one read lock"); NOWRITER(); }
PROOF(A16_attemptrlock) { mine(0, 0, 0); bool r = L->AttemptRLock(); now(); if(r) { HAVE(0, 1, 1, "a successful attempt holds one read lock"); NOWRITER(); } else HAVE(0, 0, 0, "a failed attempt leaves nothing behind"); }
PROOF(A16_runlock) { mine(0, 1, 1); L->RUnlock(); now(); HAVE(0, 0, 0, "RUnlock releases the read lock"); }
PROOF(A16_upgrade) { mine(0, 1, 1); INVS(); L->Upgrade(); now(); vc_assert(g.mf == 1 && g.mi == 1, "Upgrade owns the writer bit and keeps one reader"); EXCLUSIVE(); }
PROOF(A16_attemptupgrade) { mine(0, 1, 1); INVS(); bool r = L->AttemptUpgrade(); now(); if(r) { vc_assert(g.mf == 1 && g.mi == 1, "a successful upgrade owns the writer bit and keeps the reader"); EXCLUSIVE(); } else { HAVE(0, 1, 1, "a failed upgrade keeps the read lock"); NOWRITER(); } }
PROOF(A16_downgrade) { mine(1, 1, 1); vc_assume(g.oh == 0 && g.oe == 0); L->Downgrade(); now(); HAVE(0, 1, 1, "Downgrade keeps the read lock"); NOWRITER(); }
PROOF(A16_sequence) {
  RWLock l; bool r = any<bool>(); vc_assert(l.IsFree() && l.ReaderCount() == 0, "a new lock is free");
  vc_unroll(4);
  if(r) { l.RLock(); vc_assert(l.ReaderCount() == 1 && !l.IsFree() && !l.AttemptStrictLock() && l.AttemptRLock() && l.ReaderCount() == 2, "readers share the lock and keep strict writers out"); l.RUnlock(); vc_assert(l.AttemptUpgrade() && !l.AttemptRLock() && !l.AttemptLock(), "an upgraded lock admits nobody"); l.Downgrade(); vc_assert(l.AttemptRLock(), "a downgraded lock admits readers"); l.RUnlock(); l.RUnlock(); }
  else { l.Lock(); vc_assert(!l.AttemptRLock() && !l.AttemptLock() && !l.AttemptStrictLock() && l.ReaderCount() == 0 && !l.IsFree(), "a locked lock admits nobody"); l.Unlock(); }
  vc_assert(l.IsFree() && l.AttemptStrictLock() && !l.IsFree(), "a released lock is free"); l.Unlock();
}
