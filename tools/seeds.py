# planted bugs; confirmed and written to seeded/ by seed.py
H = "#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <tuple>\n#include <array>\n#include <algorithm>\n#include <bss-util/%s>\n#define CHECK(x) do { if(!(x)) { printf(\"failed: %%s\\n\", #x); exit(1); } } while(0)\nusing namespace bss;\n"
I = "include/bss-util/"
S("b01_assign_capacity", "A01", I + "DynArray.h",
  ("""      if(copy._length > _capacity)
        BASE::_setCapacityDiscard(copy._capacity);
      BASE::_copy(_array, copy._array, copy._length);
      _length = copy._length;
      return *this;
    }
    inline DynArray& operator=(DynArray&& mov) { BASE::_setLength""",
   """      if(copy._length > _capacity + 1)
        BASE::_setCapacityDiscard(copy._capacity);
      BASE::_copy(_array, copy._array, copy._length);
      _length = copy._length;
      return *this;
    }
    inline DynArray& operator=(DynArray&& mov) { BASE::_setLength"""),
  "assigning an array whose length is exactly one more than the destination's capacity", "copy assignment writes one element past the destination's storage",
  H % "DynArray.h" + """int main() { DynArray<int> a(2), b(3); for(int i = 0; i < 3; ++i) b.Add(i); a = b; CHECK(a.Length() == 3 && a[2] == 2 && a.Capacity() >= 3); return 0; }
""")
S("b02_bit_count_mask", "A02", I + "DynArray.h",
  ("for(CT i = start + 1; i < end; ++i)\n        c += BitCount", "for(CT i = start + 2; i < end; ++i)\n        c += BitCount"),
  "a bit range that covers at least one whole storage byte between its first and last byte", "the bit count skips the second storage byte of the range",
  H % "DynArray.h" + """int main() { DynArray<bool> a; for(int i = 0; i < 40; ++i) a.Add(i >= 8 && i < 16); CHECK(a.CountBits(3, 30) == 8); return 0; }
""")
S("b03_circ_grow_two_chunks", "A06", I + "ArrayCircular.h",
  ("_array + i, _capacity - i);\n          BASE::_copyMove(n, _array, _cur + 1);", "_array + i, _capacity - _cur - 1);\n          BASE::_copyMove(n, _array, _cur + 1);"),
  "growing a wrapped-around ring that is not full", "enlarging a wrapped, partly filled ring copies past the old storage",
  H % "ArrayCircular.h" + """int main() { ArrayCircular<int> a(4); for(int i = 1; i <= 6; ++i) a.Push(i); a.PopBack(); a.SetCapacity(9); CHECK(a.Length() == 3 && a[0] == 6 && a[1] == 5 && a[2] == 4); return 0; }
""")
S("b04_circ_clear", "A06", I + "ArrayCircular.h",
  ("""        BASE::_copy(_array + i, right._array + i, _capacity - i);
        BASE::_copy(_array, right._array, _cur + 1);""", """        BASE::_copy(_array + i, right._array + i, _length - _cur);
        BASE::_copy(_array, right._array, _cur + 1);"""),
  "copying a ring that wraps around and is not full", "copying a wrapped ring copies one element too many, past the end of the storage",
  H % "ArrayCircular.h" + """int main() { ArrayCircular<int> a(4); for(int i = 1; i <= 6; ++i) a.Push(i); a.PopBack(); ArrayCircular<int> b(a); CHECK(b.Length() == 3 && b[0] == 6 && b[1] == 5 && b[2] == 4); return 0; }
""")
S("b05_heap_set_onechild", "A07", I + "BinaryHeap.h",
  ("if(CFunc(_array[index], val) <= 0) //in", "if(CBH_RIGHT(index) >= _length || CFunc(_array[index], val) <= 0) //in"),
  "lowering the value of an element that has exactly one child", "the lowered element stays above its only child",
  H % "BinaryHeap.h" + """int main() { BinaryHeap<int> h; int v[] = { 9, 8, 3, 7, 6, 2, 1, 5, 4 }; for(int x : v) h.Insert(x); h.Insert(3); h.Set(4, 0); CHECK(h.Get(9) <= h.Get(4)); int last = 100; while(!h.Empty()) { int r = h.Pop(); CHECK(r <= last); last = r; } return 0; }
""")
S("b06_map_get_equal", "A05", I + "Map.h",
  ("if(!CFunc(key, k))\n          v = data;", "if(!CFunc(key, k) || !CFunc(k, std::get<0>(_array[0])))\n          v = data;"),
  "setting a key that is absent and lies just above the smallest key", "Set overwrites the value of a different key",
  H % "Map.h" + """int main() { Map<int, int> m; m.Insert(1, 10); m.Insert(5, 50); m.Set(3, 77); CHECK(m.GetData(1) == 10); CHECK(m.GetData(5) == 50); return 0; }
""")
S("b07_sort_replace", "A04", I + "ArraySort.h",
  ("while(index < (_array.Length() - 1) && CFunc(_array[index + 1], _array[index]) < 0)", "while(index + 2 < _array.Length() && CFunc(_array[index + 1], _array[index]) < 0)"),
  "replacing an element by one larger than the last element", "the replaced element never moves to the last place, leaving the array unsorted",
  H % "ArraySort.h" + """int main() { ArraySort<int> a; for(int i = 0; i < 5; ++i) a.Insert(i * 10); size_t k = a.ReplaceData(1, 99); CHECK(k == 4); for(int i = 1; i < 5; ++i) CHECK(a[i - 1] <= a[i]); return 0; }
""")
S("b08_fixed_mixed_sub", "A09", I + "FixedPt.h",
  ("inline Fixed& operator-=(const Fixed<B, T, S>& r) { _bits = fixedpt_add<T, D, B>(_bits, -r.Bits()); return *this; }", "inline Fixed& operator-=(const Fixed<B, T, S>& r) { _bits = fixedpt_add<T, B, D>(_bits, -r.Bits()); return *this; }"),
  "subtracting in place a fixed-point number of another precision", "the right operand is rescaled in the wrong direction",
  H % "FixedPt.h" + """int main() { Fixed<16> a(5); Fixed<12> b(3); a -= b; CHECK((int)a == 2); CHECK(a.Bits() == (2 << 16)); return 0; }
""")
S("b09_bitstream_carry_mask", "A11", I + "BitStream.h",
  ("      _woffset = ((_woffset + i) & 7);\n      _buf = (_buf&((1 << _woffset) - 1));", "      else\n        _buf = (_buf&((1 << (_woffset + i)) - 1));\n\n      _woffset = ((_woffset + i) & 7);"),
  "a partial write that overruns the pending byte, from a source byte with bits set above those written", "stray source bits leak into the bits written next",
  "#include <sstream>\\n#include <iostream>\\n".replace("\\\\n", "\\n") + H % "BitStream.h" + """int main() { std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); BitStream<std::stringstream> s(ss); unsigned char a = 5, b = 19, c = 0x5a, z = 0, r = 0;
  a = 0xff; s.Write(&a, 3); b = 0xf3; s.Write(&b, 6); c = 0; s.Write(&c, 7); c = 0x5a; s.Write(&c, 8); s.Write(&z, 8);
  s.Read(&r, 3); CHECK(r == 7); s.Read(&r, 6); CHECK(r == 0x33); s.Read(&r, 7); CHECK(r == 0); s.Read(&r, 8); CHECK(r == 0x5a); return 0; }
""")
S("b10_rational_div_sign", "A10", I + "Rational.h",
  ("_d *= (i / g); if(_d < 0) { _n = -_n; _d = -_d; } return *this; }  // See", "_d *= (i / g); if(i < -1) { _n = -_n; _d = -_d; } return *this; }  // See"),
  "dividing by the integer -1", "the quotient has a negative denominator and compares unequal to its value",
  H % "Rational.h" + """int main() { Rational<int> a(1, 2); a /= -1; CHECK(a == Rational<int>(-1, 2)); CHECK(a.D() > 0); return 0; }
""")
S("b11_intdiv", "A08", I + "bss_util.h",
  ("return (i / div) - ((i < 0)&((i%div) != 0));", "return (i / div) - ((i < 0)&((i%div) < -1));"),
  "a negative dividend whose remainder is exactly -1", "floor division rounds towards zero",
  H % "bss_util.h" + """int main() { CHECK((IntDiv<int, int>(-7, 3)) == -3); CHECK((IntDiv<int, int>(-8, 3)) == -3); CHECK((IntDiv<int, int>(-9, 3)) == -3); return 0; }
""")
S("b12_ref_assign_raw", "A12", I + "SmartPtr.h",
  ("inline explicit OwnerPtr(OwnerPtr<T, D>& copy) : _p(static_cast<_Ty*>(copy)), _owner(false) {}\n    inline OwnerPtr(OwnerPtr&& mov) : _p(mov._p), _owner(mov._owner) { mov._owner = false; }",
   "inline explicit OwnerPtr(OwnerPtr<T, D>& copy) : _p(static_cast<_Ty*>(copy)), _owner(false) {}\n    inline OwnerPtr(OwnerPtr&& mov) : _p(mov._p), _owner(mov._p != 0) { mov._owner = false; }"),
  "move-constructing an owning pointer from one that only borrows its object", "the moved-to pointer takes ownership of an object it does not own, so it is deleted twice",
  H % "SmartPtr.h" + """static int n = 0; struct X { ~X() { ++n; } };
int main() { X x; { OwnerPtr<X> a(x); n = 0; struct D { void operator()(X*) const { ++n; } }; OwnerPtr<X, D> b(x); OwnerPtr<X, D> c(std::move(b)); } CHECK(n == 0); return 0; }
""")
S("b13_la_clear_end", "A13", I + "LinkedArray.h",
  ("_freelist = _start = _end = -1;", "_freelist = _start = -1; if(!_length) _end = -1;"),
  "clearing a non-empty array-based list and then using it again", "a cleared list keeps its old last slot, so the next added item is linked behind it and never becomes the first",
  H % "LinkedArray.h" + """int main() { LinkedArray<int> a(3); a.Add(1); a.Add(2); a.Clear(); CHECK(a.Length() == 0 && a.Back() == (size_t)-1); size_t i = a.Add(7); CHECK(a.Front() == i && a.Back() == i && a[i] == 7); return 0; }
""")
S("b15_ds_list_deep", "A14", I + "DisjointSet.h",
  ("      set = Find(set); // Get the root element of our set", "      set = (_array[set] < 0) ? set : T(_array[set]); // Get the root element of our set"),
  "listing the set of an element that is at least two links below the set's name", "the listing looks for a set named by the element's parent and finds nothing",
  H % "DisjointSet.h" + """int main() { DisjointSet<size_t> s(4); s.Union(0, 1); s.Union(2, 3); s.Union(0, 2); size_t out[4]; for(size_t i = 4; i-- > 0;) { DisjointSet<size_t> t(4); t.Union(0, 1); t.Union(2, 3); t.Union(0, 2); CHECK(t.GetElements(i, out) == 4 && out[0] == 0 && out[3] == 3); } return 0; }
""")
S("b16_attemptrlock_race", "A16", I + "RWLock.h",
  ("""      if(l.fetch_add(ONE_READER, std::memory_order_acquire)&WFLAG) // Oppurtunistically acquire a read lock and check to see if the writer flag is set
      {
        l.fetch_sub(ONE_READER, std::memory_order_release);
        return false;
      }
""", """      if(l.load(std::memory_order_acquire)&WFLAG) // check to see if the writer flag is set
        return false;
      l.fetch_add(ONE_READER, std::memory_order_acquire);
"""),
  "a writer taking the lock between the reader's check of the flag and its increment", "a read attempt succeeds while a writer holds the lock",
  H.replace("#include <tuple>", "#include <tuple>\n#include <thread>\n#include <atomic>\n#include <chrono>") % "RWLock.h" + """int main() { RWLock l; std::atomic<int> w(0), stop(0), bad(0);
  auto wr = [&] { while(!stop) { l.Lock(); w = 1; for(volatile int i = 0; i < 20; ++i); w = 0; l.Unlock(); for(volatile int i = 0; i < 5; ++i); } };
  auto rd = [&] { while(!stop) if(l.AttemptRLock()) { for(int i = 0; i < 30; ++i) if(w) { bad = 1; stop = 1; } l.RUnlock(); } };
  std::thread a(wr), b(rd), c(rd); for(int i = 0; i < 100 && !stop; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(100));
  stop = 1; a.join(); b.join(); c.join(); CHECK(!bad); return 0; }
""")
S("b17_upgrade_two_readers", "A16", I + "RWLock.h",
  ("""      //assert(debugCount() == 1);
      while((l.load(std::memory_order_relaxed)&WMASK) > ONE_READER); // Only flush to a single read lock, which will be our own
      return true;""", """      //assert(debugCount() == 1);
      while((l.load(std::memory_order_relaxed)&WMASK) >= (ONE_READER << 1) + ONE_READER); // Only flush to a single read lock, which will be our own
      return true;"""),
  "upgrading while exactly one other reader holds the lock", "the upgrade returns while the other reader still holds its read lock",
  H.replace("#include <tuple>", "#include <tuple>\n#include <thread>\n#include <atomic>\n#include <chrono>") % "RWLock.h" + """int main() { RWLock l; std::atomic<int> up(0); l.RLock();
  std::thread t([&] { l.RLock(); if(l.AttemptUpgrade()) up = 1; l.Downgrade(); l.RUnlock(); });
  std::this_thread::sleep_for(std::chrono::milliseconds(300)); int early = up; l.RUnlock(); t.join(); CHECK(!early); CHECK(up == 1); return 0; }
""")
S("b18_greedy_clear_single", "A15", I + "GreedyAlloc.h",
  ("""      _curpos.store(0, std::memory_order_release);

      if(!root->next)
        return _lock.Unlock();

      size_t nsize = 0;
""", """
      if(!root->next)
        return _lock.Unlock();

      _curpos.store(0, std::memory_order_release);
      size_t nsize = 0;
"""),
  "clearing a greedy allocator that never had to grow", "Clear does not make the memory of a single chunk available again",
  H % "GreedyAlloc.h" + """int main() { GreedyAlloc a(1024, 8); void* p = a.Alloc(200); a.Clear(); CHECK(a.Alloc(200) == p); return 0; }
""")
S("b19_block_moved_freelist", "A15", I + "BlockAlloc.h",
  ("      mov._root = 0;\n      mov._freelist = 0;\n", "      mov._root = 0;\n"),
  "moving a block allocator and then using the moved-from object", "the moved-from allocator still hands out blocks that belong to the new owner",
  H % "BlockAlloc.h" + """int main() { BlockAlloc a(32, 4, 8); BlockAlloc b(std::move(a)); void* p = b.Alloc(); struct D : BlockAlloc { bool has() { return _freelist != nullptr; } };
  CHECK(p); CHECK(!static_cast<D&>(a).has()); return 0; }
""")
S("b20_utf_buffer_end", "A17", "bss-util/ConvertUTF.c",
  ("    target += bytesToWrite;\n    if(target > targetEnd)\n", "    target += bytesToWrite;\n    if(target - (bytesToWrite > 3) > targetEnd)\n"),
  "a buffer that ends one byte before the end of a four-byte character", "the encoder writes one byte past the buffer",
  "namespace bss {}\n" + H % "utf_conv.h" + """int main() { char32_t in[3] = { 65, 0x1F600, 0 }; char out[8]; memset(out, 0x55, 8); size_t r = UTF32toUTF8(in, 2, out, 4); CHECK(r == 1 && out[4] == 0x55 && out[1] == 0x55); CHECK(UTF32toUTF8(in, 2, out, 5) == 5); return 0; }
""", extra='"$T/u.o"', flags='$(gcc-10 -std=gnu11 -w -I/repo/include -c /repo/bss-util/ConvertUTF.c -o "$T/u.o")')
S("b21_utf8_truncated", "A17", "bss-util/ConvertUTF.c",
  ("    if(extraBytesToRead >= sourceEnd - source)", "    if(extraBytesToRead > sourceEnd - source)"),
  "a text with an explicit length that cuts a multi-byte character one byte short", "the decoder reads past the given length and decodes a character that is not all there",
  "namespace bss {}\n" + H % "utf_conv.h" + """int main() { const char in[] = "a\\xE2\\x82\\xAC"; char32_t out[4] = { 0, 0, 0, 0 }; size_t r = UTF8toUTF32(in, 3, out, 4); CHECK(r == 1 && out[0] == 'a'); CHECK(UTF8toUTF32(in, 4, out, 4) == 2 && out[1] == 0x20AC); return 0; }
""", extra='"$T/u.o"', flags='$(gcc-10 -std=gnu11 -w -I/repo/include -c /repo/bss-util/ConvertUTF.c -o "$T/u.o")')
