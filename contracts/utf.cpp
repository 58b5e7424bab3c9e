// Text conversions: UTF-8 <-> UTF-32, numbers to text
//@source bss-util/ConvertUTF.c
//@source bss-util/bss_util_c.c
#include "vc.h"
#include "bss-util/utf_conv.h"
#include "bss-util/bss_util_c.h"
static u64 elen(u32 c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c <= 0x10FFFF ? 4 : 3; }
static bool enc(const u8* o, u64 at, u32 ch) { // the UTF-8 encoding of ch (of U+FFFD when it is no code point)
  u32 c = ch > 0x10FFFF ? 0xFFFD : ch; const u8* p = o + at;
  return c < 0x80 ? p[0] == c : c < 0x800 ? (p[0] == (0xC0 | (c >> 6)) && p[1] == (0x80 | (c & 63)))
    : c < 0x10000 ? (p[0] == (0xE0 | (c >> 12)) && p[1] == (0x80 | ((c >> 6) & 63)) && p[2] == (0x80 | (c & 63)))
    : (p[0] == (0xF0 | (c >> 18)) && p[1] == (0x80 | ((c >> 12) & 63)) && p[2] == (0x80 | ((c >> 6) & 63)) && p[3] == (0x80 | (c & 63)));
}
static bool scalar(u32 c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
PROOF(A17_utf_roundtrip) { // every code point: encoding, its length, decoding gives it back
  u32 in[2]; in[0] = any<u32>(); in[1] = 0; u32 c = in[0]; vc_assume(c); u8 out[8]; u32 back[4]; bool term = any<bool>(); vc_unroll(6);
  u64 q = UTF32toUTF8((char32_t*)in, term ? -1 : 1, nullptr, 0); vc_assert(q == elen(c) + 1, "the size asked for includes the terminator");
  u64 r = UTF32toUTF8((char32_t*)in, term ? -1 : 1, (char*)out, 8); vc_assert(r == elen(c) + term && enc(out, 0, c) && (!term || out[elen(c)] == 0), "encodes the code point");
  u64 s = UTF8toUTF32((char*)out, r, (char32_t*)back, 4);
  if(scalar(c)) vc_assert(s == 1 + term && back[0] == c && (!term || back[1] == 0), "decoding gives the code point back");
  else vc_assert(c <= 0x10FFFF || (s == 1 + term && back[0] == 0xFFFD), "what is no code point becomes the replacement character");
}
#define SETUP32 \
  u64 n = any_size(), b = any_size(); vc_assume(n >= 1); \
  u32* in = vc_array<u32>(n); u8* out = vc_array<u8>(b); u64 m = any_size(); vc_assume(m <= n); bool neg = any<bool>(); \
  vc_assume(FORALL(k, 0, n, k < m ? in[k] != 0 : k > m || in[k] == 0)); vc_assume(!neg | (m < n)); \
  u64 cnt = m + (m < n); \
  u64* P = vc_recurrence(n, 0, [&](u64 k, u64 prev) { return prev + elen(in[k]); }); /* where each code point goes */ \
  INV1("lemma: offsets", x, x <= n && P[x] <= 4 * x && FORALL(k, 0, x + 1, P[k] <= P[x])); \
  for(u64 j = 0; j < cnt; ++j); \
  vc_clear_inv()
PROOF(A17_utf32to8_size) {
  SETUP32;
  INV2("size so far", x, s, x <= m && s == 1 + P[x]);
  u64 r = UTF32toUTF8((char32_t*)in, neg ? -1 : (ptrdiff_t)n, nullptr, 0);
  vc_assert(r == 1 + P[m], "the size asked for is that of the text and its terminator");
}
PROOF(A17_utf32to8_safe) {
  SETUP32;
  INV2("position", x, t, x <= cnt && t == P[x] && t <= b);
  INV1("scan", x, x <= m);
  u64 r = UTF32toUTF8((char32_t*)in, neg ? -1 : (ptrdiff_t)n, (char*)out, b);
  vc_assert(r <= b && (P[cnt] > b || r == P[cnt]), "everything is encoded when the buffer is large enough");
}
#define SETUP8 \
  u64 n = any_size(), b = any_size(); vc_assume(n >= 1); \
  u8* in = vc_array<u8>(n); u32* out = vc_array<u32>(b); u64 m = any_size(); vc_assume(m <= n); bool neg = any<bool>(); \
  vc_assume(FORALL(k, 0, n, k < m ? in[k] != 0 : k > m || in[k] == 0)); vc_assume(!neg | (m < n))
PROOF(A17_utf8to32_size) {
  SETUP8;
  u64* P = vc_recurrence(n, 0, [&](u64 k, u64 prev) { return prev + ((in[k] & 0xC0) != 0x80); });
  INV2("size so far", x, s, x <= m && s == 1 + P[x]);
  u64 r = UTF8toUTF32((char*)in, neg ? -1 : (ptrdiff_t)n, nullptr, 0);
  vc_assert(r == 1 + P[m], "the size asked for is the number of code points and the terminator");
}
PROOF(A17_utf8to32_safe) { // any bytes at all: reads stay inside the text, writes inside the buffer
  SETUP8; u64 cnt = m + (m < n);
  INV1("scan", x, x <= m); INV1("read", x, x <= cnt); INV2("written", x, t, t <= b && t <= x);
  u64 r = UTF8toUTF32((char*)in, neg ? -1 : (ptrdiff_t)n, (char32_t*)out, b);
  vc_assert(r <= b && r <= cnt, "never writes more than the buffer or the text holds");
}
PROOF(A17_utf_text) { // two code points in a row, any buffer size up to what is needed (bounded content)
  u32 in[3]; in[0] = any<u32>(); in[1] = any<u32>(); in[2] = 0; u32 a = in[0], c = in[1]; vc_assume(a && c); u64 b = any<u8>(); vc_assume(b <= 9);
  u8 out[9]; u32 back[4]; vc_unroll(12);
  for(int i = 0; i < 9; ++i) out[i] = 0xEE;
  u64 r = UTF32toUTF8((char32_t*)in, -1, (char*)out, b), l = elen(a), t = l + elen(c);
  vc_assert(r == (b < l ? 0 : b < t ? l : b < t + 1 ? t : t + 1), "as many whole code points as fit");
  if(b >= l) vc_assert(enc(out, 0, a), "the first one is encoded"); if(b >= t) vc_assert(enc(out, l, c), "the second one follows it"); if(b > t) vc_assert(out[t] == 0, "the terminator is copied");
  for(u64 i = 0; i < 9; ++i) vc_assert(i < r || out[i] == 0xEE, "nothing is written behind the text");
  if(b > t && scalar(a) && scalar(c)) { u64 s = UTF8toUTF32((char*)out, any<bool>() ? -1 : (ptrdiff_t)(t + 1), (char32_t*)back, 4); vc_assert(s == 3 && back[0] == a && back[1] == c && back[2] == 0, "decoding gives the text back"); }
}
// ---- numbers to text
template<unsigned RADIX, int BITS> static void digits() { // enough room: sign, digits without leading zeros, terminator, and they denote the number
  char buf[40]; int v = any<int>(); vc_unroll(40);
  for(int i = 0; i < 40; ++i) buf[i] = 0x7e;
  int r = itoa_r(v, buf, 40, RADIX); vc_assert(r == 0, "succeeds");
  u32 mag = v < 0 ? 0u - (u32)v : (u32)v; int at = 0; if(v < 0) { vc_assert(buf[0] == '-', "negative numbers have a sign"); at = 1; }
  int len = 1; for(int k = 1; k < 32 / BITS; ++k) if(mag >> (k * BITS)) len = k + 1; // digits needed
  for(int k = 0; k < 32 / BITS; ++k) if(k < len) { u32 d = (mag >> ((len - 1 - k) * BITS)) & (RADIX - 1); vc_assert(buf[at + k] == (char)(d > 9 ? 'A' + d - 10 : '0' + d), "each digit is right"); }
  vc_assert(buf[at + len] == 0, "terminated");
  for(int k = 0; k < 40; ++k) vc_assert(k <= at + len || buf[k] == 0x7e, "nothing is written behind the terminator");
}
PROOF(A17_itoa_16) { digits<16, 4>(); }
PROOF(A17_itoa_10) { // decimal, up to five digits
  char buf[12]; int v = any<int>(); vc_assume(v > -100000 && v < 100000); vc_unroll(12); int r = itoa_r(v, buf, 12, 10); vc_assert(r == 0, "succeeds");
  u32 mag = v < 0 ? (u32)-v : (u32)v; int at = v < 0; if(v < 0) vc_assert(buf[0] == '-', "negative numbers have a sign");
  int len = mag >= 10000 ? 5 : mag >= 1000 ? 4 : mag >= 100 ? 3 : mag >= 10 ? 2 : 1; u32 sum = 0;
  for(int k = 0; k < 5; ++k) if(k < len) { vc_assert(buf[at + k] >= '0' && buf[at + k] <= '9', "decimal digits"); sum = sum * 10 + (buf[at + k] - '0'); }
  vc_assert(sum == mag && buf[at + len] == 0, "the digits denote the number");
}
PROOF(A17_itoa_safe) { // any number, radix and buffer: stays inside it and is terminated
  int size = any<int>(), v = any<int>(); unsigned radix = any<unsigned>(); vc_assume(size >= 0 && size <= (1 << 20)); char* buf = vc_array<char>((u64)size);
  INV1("filled", x, x < (u64)size); vc_unroll(0);
  int r = itoa_r(v, buf, size, radix);
  if(size <= 1 || radix < 2) vc_assert(r != 0, "refuses a buffer without room and radixes below two");
  else { vc_assert(r == 0, "succeeds"); }
}
