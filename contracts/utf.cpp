#define private public
#define protected public
#include "pch.h"
#include "dv.h"
#include "clink/core/src/str_iter.cpp"
#include "clink/core/src/str_convert.cpp"
#include "spec_utf.h"
extern "C" {
// UTF-16 encoding of the UTF-8 text at s[i..], capped at cap units: length, and unit k
dv_u64 spec_len16(const dv_u8* s, dv_u64 i, dv_u64 len, dv_u64 cap) {
  if (len >= cap) return cap;
  if (s[i] == 0) return len;
  unsigned L, c = utf8_dec(s, i, L);
  return spec_len16(s, i + L, len + utf16_size(c), cap);
}
dv_u16 spec_out16(const dv_u8* s, dv_u64 i, dv_u64 len, dv_u64 k, dv_u16 cur) {
  if (len > k) return cur;
  if (s[i] == 0) return cur;
  unsigned L, c = utf8_dec(s, i, L);
  if (k >= len && k - len < utf16_size(c)) cur = utf16_unit(c, (unsigned)(k - len));
  return spec_out16(s, i + L, len + utf16_size(c), k, cur);
}
// UTF-8 encoding of the UTF-16 text at s[i..]
dv_u64 spec_len8(const dv_u16* s, dv_u64 i, dv_u64 len, dv_u64 cap) {
  if (len >= cap) return cap;
  if (s[i] == 0) return len;
  unsigned L, c = utf16_dec(s, i, L);
  return spec_len8(s, i + L, len + utf8_size(c), cap);
}
dv_u8 spec_out8(const dv_u16* s, dv_u64 i, dv_u64 len, dv_u64 k, dv_u8 cur) {
  if (len > k) return cur;
  if (s[i] == 0) return cur;
  unsigned L, c = utf16_dec(s, i, L);
  if (k >= len && k - len < utf8_size(c)) cur = utf8_byte(c, (unsigned)(k - len));
  return spec_out8(s, i + L, len + utf8_size(c), k, cur);
}
dv_u32 spec_cnt16(const dv_u8* s, dv_u64 i, dv_u32 len) {
  if (s[i] == 0) return len;
  unsigned L, c = utf8_dec(s, i, L);
  return spec_cnt16(s, i + L, len + utf16_size(c));
}
dv_u32 spec_cnt8(const dv_u16* s, dv_u64 i, dv_u32 len) {
  if (s[i] == 0) return len;
  unsigned L, c = utf16_dec(s, i, L);
  return spec_cnt8(s, i + L, len + utf8_size(c));
}
void H_to_utf16() {
  dv_u64 n = dv_scalar("n", 0, 1 << 20);
  dv_alphabet("s", "ab\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xc2\x80\xdf\xbf\xe0\xa0\xef\xbf\xbd\xf4\x8f");
  char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n);
  dv_u64 max = dv_scalar("max", 1, 1 << 20);
  wchar_t* out = dv_array<wchar_t>("out", max);
  dv_u64 k = dv_scalar("k", 0, 1 << 20); dv_assume(k < max - 1 || (max == 1 && k == 0));
  const dv_u8* u = (const dv_u8*)s;
  dv_assume(spec_wf8(u, 0));
  dv_u64 elen = max > 1 ? spec_len16(u, 0, 0, max - 1) : 0;
  dv_u16 exp = spec_out16(u, 0, 0, k, out[k]);
  dv_watch(&out[k], 2);
  int r = to_utf16(out, (int)max, s);
  dv_assert(r >= 0 && (dv_u64)r == elen, "UTF-8 to UTF-16: number of units written");
  dv_assert(out[elen] == 0, "UTF-8 to UTF-16: terminated");
  dv_assert(!(k < elen) || out[k] == exp, "UTF-8 to UTF-16: unit k");
  dv_reach("end"); if (elen == max - 1) dv_reach("full");
}
void H_count_utf16() {
  dv_u64 n = dv_scalar("n", 0, 1 << 20);
  dv_alphabet("s", "ab\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xc2\x80\xdf\xbf\xe0\xa0\xef\xbf\xbd\xf4\x8f");
  char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n);
  const dv_u8* u = (const dv_u8*)s;
  dv_assume(spec_wf8(u, 0));
  dv_u32 elen = spec_cnt16(u, 0, 0);
  int r = to_utf16(nullptr, 0, s);
  dv_assert((dv_u32)r == elen, "UTF-8 to UTF-16: needed size is the written size");
  dv_reach("end");
}
void H_to_utf8() {
  dv_u64 n = dv_scalar("n", 0, 1 << 20);
  wchar_t* s = dv_array<wchar_t>("w", n + 1); s[n] = 0; dv_mark(s + n);
  dv_u64 max = dv_scalar("max", 1, 1 << 20);
  char* out = dv_array<char>("out", max);
  dv_u64 k = dv_scalar("k", 0, 1 << 20); dv_assume(k < max - 1 || (max == 1 && k == 0));
  const dv_u16* u = (const dv_u16*)s;
  dv_u64 elen = max > 1 ? spec_len8(u, 0, 0, max - 1) : 0;
  dv_u8 exp = spec_out8(u, 0, 0, k, (dv_u8)out[k]);
  dv_watch(&out[k], 1);
  int r = to_utf8(out, (int)max, s);
  dv_assert(r >= 0 && (dv_u64)r == elen, "UTF-16 to UTF-8: number of bytes written");
  dv_assert(out[elen] == 0, "UTF-16 to UTF-8: terminated");
  dv_assert(!(k < elen) || (dv_u8)out[k] == exp, "UTF-16 to UTF-8: byte k");
  dv_reach("end"); if (elen == max - 1) dv_reach("full");
}
void H_count_utf8() {
  dv_u64 n = dv_scalar("n", 0, 1 << 20);
  wchar_t* s = dv_array<wchar_t>("w", n + 1); s[n] = 0; dv_mark(s + n);
  dv_u32 elen = spec_cnt8((const dv_u16*)s, 0, 0);
  int r = to_utf8(nullptr, 0, s);
  dv_assert((dv_u32)r == elen, "UTF-16 to UTF-8: needed size is the written size");
  dv_reach("end");
}
// lemma: the two reference encodings are inverse on every scalar value, so the
// two conversions compose to the identity on well-formed text
void H_lemma_inverse() {
  unsigned c = (unsigned)dv_scalar("c", 1, 0x10ffff);
  dv_assume(c < 0xd800 || c > 0xdfff);
  dv_u8* b = dv_array<dv_u8>("b", 5); for (int j = 0; j < 5; ++j) b[j] = 0;
  for (unsigned j = 0; j < 4; ++j) if (j < utf8_size(c)) b[j] = utf8_byte(c, j);
  unsigned L;
  dv_assert(utf8_dec(b, 0, L) == c && L == utf8_size(c), "lemma: decoding the UTF-8 encoding gives the scalar back");
  dv_assert(spec_wf8(b, 0), "lemma: the UTF-8 encoding is well-formed");
  dv_u16* w = dv_array<dv_u16>("w", 3); for (int j = 0; j < 3; ++j) w[j] = 0;
  for (unsigned j = 0; j < 2; ++j) if (j < utf16_size(c)) w[j] = utf16_unit(c, j);
  dv_assert(utf16_dec(w, 0, L) == c && L == utf16_size(c), "lemma: decoding the UTF-16 encoding gives the scalar back");
  dv_reach("end");
}
// any bytes at all: one step stays inside the text, makes progress, and never
// moves past the terminator or the length limit
void H_iter8() {
  dv_u64 n = dv_scalar("n", 0, 1 << 20);
  char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n);
  dv_u64 len = dv_scalar("len", 0, 1 << 20); bool lim = dv_scalar("lim", 0, 1) != 0;
  dv_assume(len <= n);
  dv_u64 at = dv_scalar("at", 0, 1 << 20); dv_assume(at <= len);
  str_iter it(s, lim ? (int)len : -1);
  it.m_ptr = s + at;
  bool more = it.more();
  int pk = it.peek();
  dv_assert(it.get_pointer() == s + at, "peek does not move");
  int c = it.next();
  dv_u64 end = lim ? len : n;
  dv_assert(more == (at < end && s[at] != 0), "more: before the end and not at a terminator");
  dv_assert(it.get_pointer() >= s + at && it.get_pointer() <= s + end, "UTF-8 step stays inside the text");
  dv_assert(more ? it.get_pointer() > s + at : (it.get_pointer() == s + at && c == 0), "UTF-8 step makes progress exactly when there is more");
  dv_reach("end");
}
// well-formed text: one step decodes exactly one scalar value, peek the same one
void H_iter8_exact() {
  dv_u64 n = dv_scalar("n", 0, 1 << 20);
  dv_alphabet("s", "ab\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xc2\x80\xdf\xbf\xe0\xa0\xef\xbf\xbd\xf4\x8f");
  char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n);
  dv_u64 at = dv_scalar("at", 0, 1 << 20); dv_assume(at <= n);
  dv_assume(spec_wf8((const dv_u8*)s, at) && s[at] != 0);
  str_iter it(s);
  it.m_ptr = s + at;
  int pk = it.peek(), c = it.next();
  unsigned L, e = utf8_dec((const dv_u8*)s, at, L);
  dv_assert(it.get_pointer() == s + at + L, "UTF-8 step consumes exactly one encoded scalar");
  dv_assert((unsigned)c == e && pk == c, "UTF-8 step returns the encoded scalar");
  dv_reach("end");
}
void H_iter16() {
  dv_u64 n = dv_scalar("n", 0, 1 << 20);
  wchar_t* s = dv_array<wchar_t>("w", n + 1); s[n] = 0; dv_mark(s + n);
  dv_u64 len = dv_scalar("len", 0, 1 << 20); bool lim = dv_scalar("lim", 0, 1) != 0;
  dv_assume(len <= n);
  dv_u64 at = dv_scalar("at", 0, 1 << 20); dv_assume(at <= len);
  wstr_iter it(s, lim ? (int)len : -1);
  it.m_ptr = s + at;
  bool more = it.more();
  int pk = it.peek();
  dv_assert(it.get_pointer() == s + at, "peek does not move");
  int c = it.next();
  dv_u64 end = lim ? len : n;
  dv_assert(c == pk, "peek agrees with next");
  dv_assert(it.get_pointer() >= s + at && it.get_pointer() <= s + end, "UTF-16 step stays inside the text");
  dv_assert(more ? (it.get_pointer() > s + at && c != 0) : (it.get_pointer() == s + at && c == 0), "UTF-16 step makes progress exactly when there is more");
  unsigned L, e = utf16_dec((const dv_u16*)s, at, L);
  if (more && !(lim && at + 1 == len)) dv_assert((unsigned)c == e && it.get_pointer() == s + at + L, "UTF-16 step decodes one scalar, U+FFFD for an unpaired surrogate");
  if (more && lim && at + 1 == len && (s[at] & 0xf800) == 0xd800) dv_assert(c == 0xfffd, "a surrogate cut off by the length limit is unpaired");
  dv_reach("end");
}
}
#include "iter_contract.h"
extern "C" void H_next_contract() {
  dv_u64 n = dv_scalar("n", 0, 1 << 20);
  dv_alphabet("s", "ab\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xc2\x80\xdf\xbf\xe0\xa0\xef\xbf\xbd\xf4\x8f");
  char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n);
  dv_u64 at = dv_scalar("at", 0, 1 << 20), len = dv_scalar("len", 0, 1 << 20); bool lim = dv_scalar("lim", 0, 1) != 0;
  dv_assume(at <= len && len <= n);
  unsigned L; bool ok = utf8_ok((const dv_u8*)s, at, L);
  dv_assume((lim && at == len) || s[at] == 0 || (ok && (!lim || len - at >= L)));
  str_iter a(s, lim ? (int)len : -1), b(s, lim ? (int)len : -1);
  a.m_ptr = b.m_ptr = s + at;
  int pk = a.peek(), x = a.next(), y = stub_next8(&b);
  dv_assert(pk == x, "peek returns what stepping does");
  dv_assert(x == y && a.get_pointer() == b.get_pointer(), "next meets the contract its callers are checked against");
  dv_reach("end"); if (x >= 0x10000) dv_reach("4 bytes");
}

// the facts callers use about decoding follow from its definition
extern "C" void H_lemma_decode() {
  dv_u8* s = dv_array<dv_u8>("s", 8); dv_u64 at = dv_scalar("at", 0, 4);
  dv_assume(spec_o_ok(s + at));
  dv_assert(dec_facts(s + at, spec_o_len(s + at), spec_o_dec(s + at)), "lemma: facts about decoding");
  dv_reach("end"); if (spec_o_len(s + at) == 4) dv_reach("4 bytes");
}
