// Bit streams and bit fields.
#include "vc.h"
#include <iostream>
#include "bss-util/BitField.h"
#include "bss-util/BitStream.h"
using namespace bss;
// a byte stream over an array: the STREAM parameter of BitStream
struct Bytes {
  u8* p; u64 cap; u64 w; u64 r;
  void put(char c) { vc_assert(w < cap, "the stream writes no more bytes than the bits need"); p[w++] = (u8)c; }
  int peek() { return r < cap ? p[r] : -1; }
  void get(char& c) { c = (char)p[r]; ++r; }
};
typedef BitStream<Bytes> BS;
#define BIT(p, j) (((p)[(j) >> 3] >> ((j) & 7)) & 1)
PROOF(A11_write) {
  u64 cap = any_size(), P = any_size(); i32 n = any<i32>(); u8 off = any<u8>(), buf = any<u8>();
  vc_assume(off < 8 && (buf >> off) == 0 && n >= 0 && P <= cap && P + (((u64)n + off) >> 3) <= cap);
  u8* mem = vc_array<u8>(cap); u8* old = vc_old(mem, cap); u64 sn = ((u64)n + 7) >> 3; u8* src = vc_array<u8>(sn);
  Bytes b = { mem, cap, P, 0 }; BS s(b); s._woffset = off; s._buf = buf;
  INV1("bytes written", k, b.w == P + k && k * 8 <= (u64)n);
  INV2("remaining bits", k, i, k * 8 + i == (u64)n);
  INV1("buffer", k, off == 0 ? s._buf == 0 : k == 0 ? s._buf == buf : s._buf == (u8)(src[k - 1] >> (8 - off)));
  INV1("written bytes", k, FORALL(ii, 0, k, mem[P + ii] == (u8)((u8)(src[ii] << off) | (ii == 0 ? buf : off == 0 ? (u8)0 : (u8)(src[ii - 1] >> (8 - off))))));
  INV0("frame", FORALL(ii, 0, P, mem[ii] == old[ii]));
  s.Write(src, n);
  u64 tot = off + (u64)n;
  vc_assert(s._woffset == (tot & 7) && b.w == P + (tot >> 3), "the write position advances by the number of bits");
  vc_assert((s._buf >> s._woffset) == 0, "pending bits above the write position are zero");
  u64 j = any<u64>(); vc_assume(j < (u64)n); u64 q = off + j;
  u8 cell = (P + (q >> 3) < b.w) ? mem[P + (q >> 3)] : s._buf;
  vc_assert(((cell >> (q & 7)) & 1) == BIT(src, j), "every source bit lands at its place in the stream");
  u64 z = any<u64>(); vc_assume(z < off); u8 c0 = P < b.w ? mem[P] : s._buf;
  vc_assert(((c0 >> z) & 1) == ((buf >> z) & 1), "bits written earlier are unchanged");
  vc_assert(FORALL(ii, 0, P, mem[ii] == old[ii]), "bytes written earlier are unchanged");
  s._base = 0;
}
PROOF(A11_read) {
  u64 cap = any_size(), P = any_size(); i32 n = any<i32>(); u8 off = any<u8>();
  vc_assume(off < 8 && n >= 0 && P <= cap && P + (((u64)n + off + 7) >> 3) <= cap);
  u8* mem = vc_array<u8>(cap); u64 dn = ((u64)n + 7) >> 3; u8* d = vc_array<u8>(dn);
  Bytes b = { mem, cap, 0, P }; BS s(b); s._roffset = off;
  INV1("bytes read", k, b.r == P + k && k * 8 <= (u64)n);
  INV2("remaining bits", k, i, k * 8 + i == (u64)n);
  INV1("read bytes", k, FORALL(ii, 0, k, d[ii] == (u8)((mem[P + ii] >> off) | (off == 0 ? (u8)0 : (u8)(mem[P + ii + 1] << (8 - off))))));
  s.Read(d, n);
  u64 tot = off + (u64)n;
  vc_assert(s._roffset == (tot & 7) && b.r == P + (tot >> 3), "the read position advances by the number of bits");
  u64 j = any<u64>(); vc_assume(j < (u64)n);
  vc_assert(BIT(d, j) == BIT(mem, P * 8 + off + j), "every bit read is the bit of the stream at its place");
  vc_assert((n & 7) == 0 || (d[n >> 3] >> (n & 7)) == 0, "bits of the last byte beyond those read are zero");
  s._base = 0;
}
// typed round trip at every bit offset
template<class T> static void trip() {
  u8 off = any<u8>(), buf = any<u8>(); vc_assume(off < 8 && (buf >> off) == 0);
  u8* mem = vc_array<u8>(12); Bytes b = { mem, 12, 0, 0 }; BS s(b); s._woffset = off; s._buf = buf; s._roffset = off;
  T v = any<T>(), r = any<T>(); bool f = any<bool>(), g = any<bool>(); u8 w = any<u8>(), x = 0;
  vc_unroll(12);
  s << v; s << f; s << w; { u8 zero = 0; s << zero; }
  s >> r; s >> g; s >> x;
  vc_assert(r == v && g == f && x == w, "values read back are the values written");
  s._base = 0;
}
PROOF(A11_trip8) { trip<u8>(); }
PROOF(A11_trip32) { trip<u32>(); }
PROOF(A11_trip64) { trip<u64>(); }
template<class T> static void field() {
  T v = any<T>(), b = any<T>(), m = any<T>(), k = any<T>(); bool f = any<bool>();
  BitField<T> x(v); vc_assert((T)x == v && x.Get() == v && x.Get(b) == ((v & b) != 0), "a bit field shows its bits");
  x[b] = f; vc_assert(x.Get() == (T)(f ? (v | b) : (v & ~b)), "setting a flag changes exactly that flag");
  vc_assume((k & ~m) == 0); x = v; x.Set(k, m); vc_assert(x.Get() == (T)((v & ~m) | k), "a masked set changes exactly the masked bits");
  x = v; x.GetGroup(m) = b; vc_assert(x.Get() == (T)((v & ~m) | (b & m)), "a group assignment changes exactly the group");
  x = v; x += b; vc_assert(x.Get() == (T)(v | b), "+= sets bits"); x = v; x -= b; vc_assert(x.Get() == (T)(v & ~b), "-= clears bits");
  x = v; x[b].flip(); vc_assert(x.Get() == (T)(v ^ b), "flip toggles exactly the flag");
}
PROOF(A11_bitfield) { field<u32>(); field<u64>(); field<u8>(); field<u16>(); }
