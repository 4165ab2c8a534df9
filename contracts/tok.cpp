#define private public
#define protected public
#include "pch.h"
#include "dv.h"
#include "clink/core/src/str_iter.cpp"
#include "clink/core/src/str_convert.cpp"
#include "clink/core/src/str.cpp"
#include "clink/core/include/core/array.h"
#include "clink/core/src/str_tokeniser.cpp"
#include "libc.h"
#include "spec_utf.h"
#include "iter_contract.h"
extern "C" {
// text from i up to the terminator or the limit is well-formed UTF-8
bool spec_wf(const dv_u8* s, dv_u64 i, dv_u64 end) {
  if (i == end || s[i] == 0) return true;
  dv_u64 L = spec_o_len(s + i);
  if (!spec_o_ok(s + i) || end - i < L) return false;
  return spec_wf(s, i + L, end);
}
// c is one of the (ASCII) delimiters
static inline bool delim(const dv_u8* d, unsigned c) { return c < 256 && spec_strchr(d, 0, (dv_u8)c) != ~0ull; }
dv_u64 spec_skip(const dv_u8* s, dv_u64 i, dv_u64 end, const dv_u8* d) {
  if (i == end || s[i] == 0) return i;
  if (!delim(d, spec_o_dec(s + i))) return i;
  return spec_skip(s, i + spec_o_len(s + i), end, d);
}
// the delimiter nearest to the token
dv_u8 spec_last(const dv_u8* s, dv_u64 i, dv_u64 end, const dv_u8* d, dv_u8 cur) {
  if (i == end || s[i] == 0) return cur;
  dv_u32 c = spec_o_dec(s + i);
  if (!delim(d, c)) return cur;
  return spec_last(s, i + spec_o_len(s + i), end, d, (dv_u8)c);
}
// closing quote for c, 0 if c does not open a quote; quotes packed as left|right<<8 per 16 bits
static inline dv_u32 closing(dv_u64 qs, dv_u32 c) {
  for (unsigned j = 0; j < 4; ++j) if (((qs >> (16 * j)) & 0xff) == c) return (qs >> (16 * j + 8)) & 0xff;
  return 0;
}
// end of the token that starts at i: the first delimiter outside quotes
dv_u64 spec_tokend(const dv_u8* s, dv_u64 i, dv_u64 end, const dv_u8* d, dv_u64 qs, dv_u32 q) {
  if (i == end || s[i] == 0) return i;
  dv_u64 L = spec_o_len(s + i); dv_u32 c = spec_o_dec(s + i);
  if (q) return spec_tokend(s, i + L, end, d, qs, q == c ? 0 : q);
  if (delim(d, c)) return i;
  return spec_tokend(s, i + L, end, d, qs, closing(qs, c));
}
}
template<bool QUOTES> static inline void h_next() {
  dv_alphabet("s", "ab \"'(), ;\xc3\xa9\xe2\x82\xac"); dv_alphabet("delims", " ;,ab");
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n);
  dv_u64 dn = dv_scalar("dn", 0, 64); char* d = dv_array<char>("delims", dn + 1); d[dn] = 0; dv_mark(d + dn);
  dv_u64 at = dv_scalar("at", 0, 1 << 20), len = dv_scalar("len", 0, 1 << 20); bool lim = dv_scalar("lim", 0, 1) != 0;
  dv_assume(at <= len && len <= n);
  dv_u64 end = lim ? len : ~0ull; const dv_u8* u = (const dv_u8*)s; const dv_u8* du = (const dv_u8*)d;
  dv_assume(spec_wf(u, at, end));
  dv_u64 qs = 0;
  str_iter it(s, lim ? (int)len : -1); it.m_ptr = s + at;
  str_tokeniser t(it, d);
  if (QUOTES) {
    // four pairs; fewer are the same as repeating the first
    for (unsigned j = 0; j < 4; ++j) {
      auto* q = t.m_quotes.push_back();
      q->left = (char)dv_scalar("left", 1, 127); q->right = (char)dv_scalar("right", 1, 127);
      qs |= (dv_u64)((dv_u8)q->left | (dv_u32)(dv_u8)q->right << 8) << (16 * j);
    }
  }
  dv_u64 b = spec_skip(u, at, end, du);
  dv_u8 ld = spec_last(u, at, end, du, 0);
  dv_u64 e = spec_tokend(u, b, end, du, qs, 0);
  const char* start; int length;
  str_token r = t.next(start, length);
  dv_assert(start == s + b, "a token starts after the delimiters");
  dv_assert(length == (int)(e - b), "a token ends at the first delimiter outside quotes");
  dv_assert(t.get_pointer() == s + e, "the tokeniser stands at the token's end");
  dv_assert(bool(r) == (e != b) || ld == 0xff, "no token is reported only at the end");
  dv_assert(e == b || r.delim == ld, "the token reports the delimiter before it");
  dv_reach("end"); if (e > b) dv_reach("token");
}
template<unsigned k> static inline void h_quotes() {
  char pr[3]; pr[2] = 0;
  dv_u8 left = (dv_u8)dv_scalar("left", 0, 127), right = (dv_u8)dv_scalar("right", 0, 127); pr[0] = (char)left; pr[1] = (char)right;
  str_tokeniser t("", " "); dv_u8 l[4];
  for (unsigned j = 0; j < 4; ++j) if (j < k) { auto* q = t.m_quotes.push_back(); l[j] = (dv_u8)dv_scalar("old", 1, 127); q->left = (char)l[j]; q->right = 'x'; }
  bool r = t.add_quote_pair(pr);
  dv_assert(r == (left != 0 && k < 4), "a quote pair is accepted when there is room");
  dv_assert(t.m_quotes.size() == k + r, "an accepted pair is added, a refused one is not");
  if (r) { auto& q = *(t.m_quotes.back()); dv_assert((dv_u8)q.left == left && (dv_u8)q.right == (right ? right : left), "a pair is its left and right character, or one character for both"); }
  dv_u32 c = (dv_u32)dv_scalar("c", 1, 0x10ffff), e = 0;
  for (unsigned j = 4; j-- > 0;) { if (r && j == k && c == left) e = right ? right : left; if (j < k && c == l[j]) e = 'x'; }
  dv_assert((dv_u32)t.get_right_quote((int)c) == e, "the first pair that matches gives the closing quote");
  dv_reach("end"); if (r) dv_reach("added");
}
extern "C" {
void H_quotes() { h_quotes<0>(); h_quotes<1>(); h_quotes<2>(); h_quotes<3>(); h_quotes<4>(); }
// skipping delimiters without taking a token
void H_peek() {
  dv_alphabet("s", "ab \"'(), ;\xc3\xa9\xe2\x82\xac"); dv_alphabet("delims", " ;,ab");
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n);
  dv_u64 dn = dv_scalar("dn", 0, 64); char* d = dv_array<char>("delims", dn + 1); d[dn] = 0; dv_mark(d + dn);
  dv_u64 at = dv_scalar("at", 0, 1 << 20), len = dv_scalar("len", 0, 1 << 20); bool lim = dv_scalar("lim", 0, 1) != 0;
  dv_assume(at <= len && len <= n);
  dv_u64 end = lim ? len : ~0ull; const dv_u8* u = (const dv_u8*)s;
  dv_assume(spec_wf(u, at, end));
  str_iter it(s, lim ? (int)len : -1); it.m_ptr = s + at;
  str_tokeniser t(it, d);
  dv_u64 b = spec_skip(u, at, end, (const dv_u8*)d);
  dv_assert(t.peek_delims() == (int)(b - at), "the number of delimiter bytes before the next token");
  dv_assert(t.get_pointer() == s + at, "peeking at delimiters does not move");
  dv_reach("end"); if (b > at) dv_reach("some");
}
void H_next() { h_next<false>(); }
void H_next_quotes() { h_next<true>(); }
}
