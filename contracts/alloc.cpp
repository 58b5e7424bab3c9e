// Allocators: every block lies inside memory of the allocator, apart from every other live block
//@cflags -fheinous-gnu-extensions
#include "vc.h"
#define _prepDEBUG(...) true   // exist in debug builds only, used in assert()
#define _validPointer(...) true
#ifdef VC_RUNTIME // AddressSanitizer's aligned_alloc refuses sizes that are no multiple of the alignment; glibc's does not
#include "bss-util/defines.h"
#undef ALIGNEDALLOC
#define ALIGNEDALLOC(size, align) aligned_alloc((align) < 8 ? 8 : (align), ((size) + 63) / 64 * 64)
#endif
#include "bss-util/GreedyAlloc.h"
#include "bss-util/GreedyBlockAlloc.h"
#include "bss-util/BlockAlloc.h"
using namespace bss;
#ifdef VC_RUNTIME
static u64 cells() { return any_size() % 4096; }
#else
static u64 cells() { u64 m = any_size(); vc_assume(m < (1ull << 28)); return m; }
#endif
static void rd(u8* p, u64 n) { u64 x = *(volatile u64*)p + *(volatile u64*)(p + n - 8); } // the whole block is there: first and last word
#define OFF(r, p) ((u64)((u8*)(p) - (u8*)(r)))
// ---- GreedyAlloc (8-byte alignment): everything handed out from the newest chunk lies below curpos
template<class G> static void greedy_state(G& a, u64& size, u64& cur) { size = a._root.load()->size; cur = cells() * 8; a._curpos.store(cur); }
PROOF(A15_greedy_alloc) {
  u64 lv = vc_live(); u64 n = cells();
  {
    GreedyAlloc a(n * 8, 8); auto root = a._root.load(); vc_assert(root && root->size == n * 8 && !root->next && a._curpos.load() == 0, "a new allocator owns one empty chunk of the requested size");
    u64 size, cur; greedy_state(a, size, cur); u64 sz = cells(); u64 need = (sz + 7) / 8 * 8; vc_unroll(4);
    u8* p = (u8*)a.Alloc(sz); auto r2 = a._root.load(); u64 off = OFF(r2, p);
    vc_assert(off >= 16 && off + need <= 16 + r2->size && off % 8 == 0, "the block lies inside the newest chunk, aligned");
    vc_assert(a._curpos.load() == off - 16 + need, "later blocks start behind it");
    vc_assert(r2 != root || off - 16 >= cur, "earlier blocks lie before it");
    vc_assert(r2 == root || (r2->next == root && root->size == size && !root->next), "a full chunk is kept behind the new one");
    vc_assert(a._lock.IsFree(), "the lock is released");
    if(sz) rd(p, need);
    vc_assert(vc_live() == lv + 1 + (r2 != root), "nothing else was allocated");
  }
  vc_assert(vc_live() == lv, "destruction releases every chunk");
}
PROOF(A15_greedy_clear) {
  u64 lv = vc_live(); u64 n = cells(), m = cells(), k = any<u8>(); vc_assume(k < 3); vc_unroll(6);
  {
    GreedyAlloc a(n * 8, 8); if(k > 0) a._allocChunk(m * 8); if(k > 1) a._allocChunk(n * 8); a._curpos.store(m * 8);
    a.Clear(); auto r = a._root.load(); u64 sum = (k == 0) ? n * 8 : (k == 1) ? n * 8 + m * 8 : n * 16 + m * 8;
    vc_assert(r && !r->next && r->size == sum && a._curpos.load() == 0 && a._lock.IsFree(), "Clear keeps one empty chunk of all the memory");
    if(sum) rd((u8*)r + 16, sum);
    vc_assert(vc_live() == lv + 1, "Clear releases the other chunks");
  }
  vc_assert(vc_live() == lv, "destruction releases the chunk");
}
PROOF(A15_greedy_move) {
  u64 lv = vc_live(); u64 n = cells(), m = cells(); bool asg = any<bool>(); vc_unroll(6);
  {
    GreedyAlloc a(n * 8, 8); a._allocChunk(m * 8); a._curpos.store(m * 8); auto r = a._root.load();
    if(asg) { GreedyAlloc b(m * 8, 8); b = std::move(a); vc_assert(b._root.load() == r && b._curpos.load() == m * 8 && r->size == m * 8 && r->next->size == n * 8 && !a._root.load(), "move assignment takes over the chunks"); }
    else { GreedyAlloc b(std::move(a)); vc_assert(b._root.load() == r && b._curpos.load() == m * 8 && r->size == m * 8 && r->next->size == n * 8 && !a._root.load(), "the move constructor takes over the chunks"); }
    { GreedyAlloc c(n * 8, 8); auto q = c._root.load(); GreedyAlloc& d = c; c = std::move(d); vc_assert(c._root.load() == q, "moving onto itself changes nothing"); }
    vc_assert(vc_live() == lv, "the chunks go with their owner");
  }
  vc_assert(vc_live() == lv, "every chunk is released once");
}
// ---- GreedyBlockPolicy
struct E16 { u64 a, b; };
PROOF(A15_greedyblock_alloc) {
  u64 lv = vc_live(); u64 n = cells(), c = cells(), k = cells(); vc_unroll(4);
  {
    GreedyBlockPolicy<E16> a(n); auto root = a._root; u64 size = root->size; vc_assert(size >= n && size % 16 == 0 && !root->next && a._curpos == 0, "a new allocator owns one empty chunk of at least the requested size");
    vc_assume(c * 16 <= size); a._curpos = c * 16;
    E16* p = a.allocate(k); u64 off = OFF(a._root, p);
    vc_assert(off >= 16 && off + k * 16 <= 16 + a._root->size && off % 8 == 0, "the block lies inside the newest chunk, aligned");
    vc_assert(a._curpos == off - 16 + k * 16, "later blocks start behind it");
    vc_assert(a._root != root || off - 16 >= c * 16, "earlier blocks lie before it");
    vc_assert(a._root == root || (a._root->next == root && root->size == size && !root->next), "a full chunk is kept behind the new one");
    if(k) rd((u8*)p, k * 16);
    vc_assert(vc_live() == lv + 1 + (a._root != root), "nothing else was allocated");
  }
  vc_assert(vc_live() == lv, "destruction releases every chunk");
}
PROOF(A15_greedyblock_clear) {
  u64 lv = vc_live(); u64 n = cells(), m = cells(), k = any<u8>(); vc_assume(k < 3); vc_unroll(6);
  {
    GreedyBlockPolicy<E16> a(n * 16); if(k > 0) a._allocChunk(m * 16); if(k > 1) a._allocChunk(n * 16); a._curpos = n * 16;
    a.Clear(); auto r = a._root; u64 sum = (k == 0) ? n * 16 : (k == 1) ? n * 16 + m * 16 : n * 32 + m * 16;
    vc_assert(r && !r->next && r->size == sum && a._curpos == 0, "Clear keeps one empty chunk of all the memory");
    vc_assert(vc_live() == lv + 1, "Clear releases the other chunks");
    GreedyBlockPolicy<E16> b(std::move(a)); vc_assert(b._root == r && b._curpos == 0 && !a._root, "moving takes over the chunks");
  }
  vc_assert(vc_live() == lv, "every chunk is released once");
}
// ---- BlockAlloc (32-byte blocks)
typedef void* vp;
#define NEXT(p) (*(vp*)(p))
PROOF(A15_block_pop) { // Alloc and Dealloc on any free list: head h of the list with rest t
  BlockAlloc a(32, 0, 8); u64 x[4], y[4]; bool some = any<bool>(); vp t = some ? (vp)y : nullptr; NEXT(x) = t; NEXT(y) = nullptr; a._freelist = x;
  vp p = a.Alloc(); vc_assert(p == (vp)x && a._freelist == t, "Alloc hands out the first free block and keeps the rest free");
  u64 z[4]; z[1] = any<u64>(); u64 z1 = z[1]; a.Dealloc(z); vc_assert(a._freelist == (vp)z && NEXT(z) == t && z[1] == z1 && NEXT(y) == nullptr, "Dealloc puts the block in front of the free list");
  vc_assert(a.Alloc() == (vp)z && a._freelist == t, "the freed block is the next one handed out");
  a._freelist = nullptr;
}
template<u64 N> static void blocks() { // a fresh allocator for N blocks: N allocations without growth, then growth; all blocks apart and usable; everything released
  u64 lv = vc_live(); vc_unroll(40);
  {
    BlockAlloc a(30, N, 8); vc_assert(a.GetSize() == 32 && a.GetRoot()->size == 32 * N, "blocks are rounded up to their alignment");
    u64* p[N + 2]; u64 v = any<u64>(), i = any<u8>(); vc_assume(i < N + 2);
    for(u64 k = 0; k < N + 2; ++k) { p[k] = (u64*)a.Alloc(30, 8); for(u64 w = 0; w < 4; ++w) p[k][w] = v + k * 4 + w; if(k < N) vc_assert(vc_live() == lv + 1, "the first blocks come from the first chunk"); }
    for(u64 k = 0; k < N + 2; ++k) for(u64 w = 0; w < 4; ++w) vc_assert(p[k][w] == v + k * 4 + w, "writing one block changes no other block");
    u64* q = nullptr; for(u64 k = 0; k < N + 2; ++k) if(k == i) q = p[k];
    u64 chunks = vc_live(); a.Dealloc(q); u64* r = (u64*)a.Alloc(); vc_assert(r == q && vc_live() == chunks, "a freed block is reused");
    for(u64 w = 0; w < 4; ++w) r[w] = w;
    for(u64 k = 0; k < N + 2; ++k) if(k != i) for(u64 w = 0; w < 4; ++w) vc_assert(p[k][w] == v + k * 4 + w, "reusing a block changes no other block");
    u64 total = 0; for(const BlockAlloc::Node* c = a.GetRoot(); c; c = c->next) total += c->size;
    a.Clear(); vc_assert(vc_live() == lv + 1 && a.GetRoot()->size == total && !a.GetRoot()->next, "Clear keeps one chunk of all the memory");
    for(u64 k = 0; k < N + 2; ++k) { p[k] = (u64*)a.Alloc(); for(u64 w = 0; w < 4; ++w) p[k][w] = v + k * 4 + w; }
    for(u64 k = 0; k < N + 2; ++k) for(u64 w = 0; w < 4; ++w) vc_assert(p[k][w] == v + k * 4 + w, "after Clear blocks are apart again");
    vc_assert(vc_live() == lv + 1, "after Clear the blocks come from the one chunk");
    BlockAlloc b(std::move(a)), c(32, 1, 8); vc_assert(!a.GetRoot() && !a._freelist && b.GetRoot()->size == total, "moving takes over the chunks");
    c = std::move(b); vc_assert(!b.GetRoot() && c.GetRoot()->size == total && vc_live() == lv + 1, "move assignment releases the old chunks and takes over the others");
    p[0] = (u64*)c.Alloc(); p[0][3] = 1;
  }
  vc_assert(vc_live() == lv, "every chunk is released once");
}
PROOF(A15_block_0) { blocks<0>(); }
PROOF(A15_block_1) { blocks<1>(); }
PROOF(A15_block_3) { blocks<3>(); }
PROOF(A15_block_9) { blocks<9>(); }
struct E3 { u64 a, b, c; };
template<u64 N> static void policy() { // the typed policy: blocks of the size of the type
  u64 lv = vc_live(); vc_unroll(12);
  {
    BlockPolicy<E3> a(N); E3* p[N + 3]; u64 v = any<u64>();
    for(u64 k = 0; k < N + 3; ++k) { p[k] = a.allocate(1); p[k]->a = v + k; p[k]->b = v - k; p[k]->c = k; }
    for(u64 k = 0; k < N + 3; ++k) vc_assert(p[k]->a == v + k && p[k]->b == v - k && p[k]->c == k, "objects are apart");
    for(u64 k = 0; k < N + 3; ++k) a.deallocate(p[k], 1);
    u64 chunks = vc_live(); for(u64 k = 0; k < N + 3; ++k) { p[k] = a.allocate(1); p[k]->a = v + k; p[k]->b = v; p[k]->c = k; }
    for(u64 k = 0; k < N + 3; ++k) vc_assert(p[k]->a == v + k && p[k]->b == v && p[k]->c == k, "reused objects are apart");
    vc_assert(vc_live() == chunks, "freed objects are reused before the allocator grows");
    a.Clear(); E3* q = a.allocate(1); q->c = 1; BlockPolicy<E3> b(std::move(a)), c(1); c = std::move(b); q = c.allocate(1); q->a = 1; q->c = 3;
  }
  vc_assert(vc_live() == lv, "every chunk is released once");
}
PROOF(A15_policy_1) { policy<1>(); }
PROOF(A15_policy_4) { policy<4>(); }
