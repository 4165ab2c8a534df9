#define private public
#define protected public
#include "pch.h"
#include "dv.h"
#include "clink/core/src/str_iter.cpp"
#include "clink/core/src/str_convert.cpp"
#include "clink/core/src/str.cpp"
#include "clink/terminal/src/wcwidth_iter.cpp"
#include "libc.h"
#include "spec_utf.h"
#include "iter_contract.h"
typedef const dv_u8* U8;
extern "C" {
dv_u32 dv_prove_mode();
// what is known of a character, by contract (the proofs hold for any such functions):
// its width (-1 control, 0 none, 1, 2; m: width of combining marks), and the emoji classes
dv_u32 spec_u_width(dv_u32 c, dv_u32 m) { return c < 32 || c == 127 ? ~0u : c >= 0x300 && c < 0x370 ? m : c == 0x200d || c == 0x200b ? 0 : c == 0xfe0f ? m : c >= 0x1f000 || (c >= 0x2e80 && c < 0xa000) ? 2 : 1; }
bool spec_u_var(dv_u32 c) { return c == 0xfe0f || (c >= 0x1f3fb && c <= 0x1f3ff); }
bool spec_u_unq(dv_u32 c) { return c == 0x2640 || c == 0x2708 || c == 0x231a; }
bool spec_u_emo(dv_u32 c) { return c >= 0x1f300 && c < 0x1f600; }
static dv_u32 g_cm;
int stub_wcwidth(char32_t c) { dv_u32 w = spec_u_width(c, g_cm); dv_assume(w + 1 <= 3); return (int)w; }
}
wcwidth_t* wcwidth = stub_wcwidth;
bool g_color_emoji;
bool is_variant_selector(char32_t c) { return c && spec_u_var(c); }
bool is_possible_unqualified_half_width(char32_t c) { return c && spec_u_unq(c); }
bool is_emoji(char32_t c) { return c && spec_u_emo(c); }
combining_mark_width_scope::combining_mark_width_scope(int32 w) : m_old((int)g_cm) { g_cm = w; }
combining_mark_width_scope::~combining_mark_width_scope() { g_cm = m_old; }
static inline bool at_end(U8 s, dv_u64 i, dv_u64 end) { return i == end || s[i] == 0; }
static inline dv_u32 wide(dv_u32 w) { return w > 2 ? w : 2; }
extern "C" {
// text from i up to the terminator or the limit is well-formed UTF-8
bool spec_wf(U8 s, dv_u64 i, dv_u64 end) {
  if (at_end(s, i, end)) return true;
  dv_u64 L = spec_o_len(s + i);
  if (!spec_o_ok(s + i) || end - i < L) return false;
  return spec_wf(s, i + L, end);
}
// a run of characters without width; position behind it << 4 | emoji << 3 | width
dv_u64 spec_tail(U8 s, dv_u64 i, dv_u64 end, dv_u32 w, dv_u8 emo, dv_u8 color) {
  if (at_end(s, i, end)) return i << 4 | (emo & 1) << 3 | (w & 7);
  dv_u32 c = spec_o_dec(s + i); dv_u64 j = i + spec_o_len(s + i);
  if (spec_u_width(c, 1) == 0) return spec_tail(s, j, end, w, emo, color);
  if ((color & 1) && spec_u_var(c)) return spec_tail(s, j, end, wide(w), 1, color);
  return i << 4 | (emo & 1) << 3 | (w & 7);
}
// the rest of an emoji: variant selectors and joined emoji
dv_u64 spec_emoji(U8 s, dv_u64 i, dv_u64 end, dv_u32 w) {
  if (at_end(s, i, end)) return i << 4 | 8 | (w & 7);
  dv_u32 c = spec_o_dec(s + i); dv_u64 j = i + spec_o_len(s + i);
  if (spec_u_var(c)) return spec_emoji(s, j, end, wide(w));
  if (c != 0x200d) return i << 4 | 8 | (w & 7);
  w = wide(w);
  if (at_end(s, j, end)) return j << 4 | 8 | (w & 7);
  dv_u32 d = spec_o_dec(s + j);
  if (!spec_u_emo(d) && !spec_u_unq(d) && d != 0x2640 && d != 0x2642) return j << 4 | 8 | (w & 7);
  return spec_emoji(s, j + spec_o_len(s + j), end, w);
}
}
static inline bool flag(dv_u32 c) { return c >= 0x1f1e6 && c <= 0x1f1ff; }
// the character (with what belongs to it) at i: end << 4 | emoji << 3 | width (7: control)
static inline dv_u64 run(U8 s, dv_u64 i, dv_u64 end, dv_u8 color) {
  if (at_end(s, i, end)) return i << 4;
  dv_u32 c = spec_o_dec(s + i), w = spec_u_width(c, 1); dv_u64 j = i + spec_o_len(s + i);
  if (w == ~0u) return j << 4 | 7;
  if (color && w) {
    bool more = !at_end(s, j, end); dv_u32 d = more ? spec_o_dec(s + j) : 0; dv_u64 k = more ? j + spec_o_len(s + j) : j;
    if (flag(c) && more && flag(d)) return k << 4 | 8 | 2;
    bool unq = spec_u_unq(c), emo = unq || spec_u_emo(c), var = spec_u_var(c), full = unq && more && spec_u_var(d), special = c == 0x3030 || c == 0x303d || c == 0x3297 || c == 0x3299;
    if (emo || var) return spec_emoji(s, emo && full ? k : j, end, !emo || full || special ? wide(w) : w);
  }
  return spec_tail(s, j, end, w, 0, color);
}
extern "C" {
dv_u64 spec_o_run(U8 s, dv_u64 i, dv_u64 end, dv_u8 color) { return run(s, i, end, color); }
// the iterator stands at i
static inline bool stands(wcwidth_iter& it, const char* s, dv_u64 i, dv_u64 end) {
  U8 u = (U8)s; bool e = at_end(u, i, end);
  return it.m_chr_end == s + i && it.m_next == (e ? 0 : spec_o_dec(u + i)) && it.m_iter.m_ptr == s + i + (e ? 0 : spec_o_len(u + i)) && it.m_iter.m_end == s + end;
}
bool spec_inv_stands(const wcwidth_iter* it, const char* s, dv_u64 n, dv_u64 end) {
  U8 u = (U8)s; dv_u64 i = it->m_chr_end - s; bool e = at_end(u, i, end);
  return i <= n && (dv_u32)it->m_chr_wcwidth <= 2 && *(const dv_u8*)&it->m_emoji <= 1 && spec_wf(u, i, end) && (e || dec_facts(u + i, spec_o_len(u + i), spec_o_dec(u + i))) && it->m_next == (e ? 0 : spec_o_dec(u + i)) && it->m_iter.m_ptr == s + i + (e ? 0 : spec_o_len(u + i));
}
void H_run() {
  dv_alphabet("s", "a\x1b\xcc\x80\xf0\x9f\x87\xa6\xf0\x9f\x87\xbf\xf0\x9f\x87\xbf\xa5\xf0\x9f\x8c\x80\xe2\x80\x8d\xef\xb8\x8f\xe2\x99\x80\xe2\x80\x8b\xf0\x9f\x8f\xbb");
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n); U8 u = (U8)s;
  dv_u64 end = dv_scalar("limit", 0, (1 << 20) + 1) - 1; dv_assume(end == ~0ull || end <= n);
  dv_assume(spec_wf(u, 0, end));
  g_color_emoji = dv_scalar("color", 0, 1); g_cm = 0;
  wcwidth_iter it(s, (int32)end); dv_invariant((void*)spec_inv_stands, &it, s, n, end);
  dv_assert(stands(it, s, 0, end), "an iterator stands at the start");
  dv_u64 r = run(u, 0, end, g_color_emoji); dv_u32 c0 = at_end(u, 0, end) ? 0 : spec_o_dec(u);
  bool more = it.more(); dv_u64 len = end == ~0ull ? 0 : it.length();
  dv_assert(more == !at_end(u, 0, end), "more: text is left");
  dv_assert(end == ~0ull || len == end, "length: what is left");
  dv_u32 c = it.next();
  dv_assert(c == c0, "the first character");
  dv_assert(it.character_pointer() == s, "it starts where the last one ended");
  dv_assert(it.get_pointer() == s + (r >> 4) && it.character_length() == r >> 4, "it ends where its last mark ends");
  dv_assert(it.character_wcwidth_signed() == ((r & 7) == 7 ? -1 : (int)(r & 7)), "its width");
  dv_assert(it.character_is_emoji() == ((r & 8) != 0), "whether it is an emoji");
  dv_assert(stands(it, s, r >> 4, end), "the iterator stands behind it");
  dv_assert(c0 == 0 || r >> 4 > 0, "it goes forward"); dv_assert(spec_wf(u, r >> 4, end), "well-formed text is left"); dv_assert(r >> 4 <= n, "it stays within the text");
  dv_assert(g_cm == 0, "the width of marks is as before");
  dv_reach("end"); if (r >> 4 > 4) dv_reach("long"); if (r & 8) dv_reach("emoji");
  if (c0) { it.unnext(); dv_assert(stands(it, s, 0, end), "unnext goes back to it"); }
}
// the width of a text is the sum of the widths of its characters; next by contract (H_run)
static const char* g_s; static dv_u64 g_n;
bool spec_inv_at(const wcwidth_iter* it, const char* s, dv_u64 n, dv_u64 end) {
  U8 u = (U8)s; dv_u64 i = it->m_chr_end - s;
  return i <= n && it->m_next == (at_end(u, i, end) ? 0 : spec_o_dec(u + i));
}
// (the constructor calls it; here the iterator in clink_wcswidth becomes known)
int stub_next8c(str_iter_impl<char>* it) {
  dv_invariant((void*)spec_inv_at, it, g_s, g_n, (dv_u64)(it->m_end - g_s)); return stub_next8(it);
}
char32_t stub_wnext(wcwidth_iter* it) {
  U8 u = (U8)g_s; dv_u64 i = it->m_chr_end - g_s, end = it->m_iter.m_end - g_s; bool e = at_end(u, i, end);
  dv_assert(it->m_next == (e ? 0 : spec_o_dec(u + i)), "contract of next: the iterator stands at a character");
  dv_u64 r = spec_o_run(u, i, end, g_color_emoji), j = r >> 4;
  dv_assume(e ? r == i << 4 : spec_o_dec(u + i) != 0 && j > i && j <= g_n); dv_assume(spec_wf(u, j, end));
  bool f = at_end(u, j, end); it->m_chr_ptr = g_s + i; it->m_chr_end = g_s + j; it->m_chr_wcwidth = (r & 7) == 7 ? -1 : (int)(r & 7); it->m_emoji = (r & 8) != 0;
  it->m_next = f ? 0 : spec_o_dec(u + j); it->m_iter.m_ptr = g_s + j + (f ? 0 : spec_o_len(u + j));
  return e ? 0 : spec_o_dec(u + i);
}
// the sum over the characters from i, added to what was counted so far
dv_u32 spec_count(U8 s, dv_u64 i, dv_u64 end, dv_u8 color, dv_u32 ctl, dv_u32 sum) {
  if (at_end(s, i, end)) return sum;
  dv_u64 r = spec_o_run(s, i, end, color);
  return spec_count(s, r >> 4, end, color, ctl, sum + ((r & 7) == 7 ? ctl : (dv_u32)(r & 7)));
}
static inline void h_cells(bool expand) {
  dv_alphabet("s", "a\x1b\xcc\x80\xf0\x9f\x87\xa6\xf0\x9f\x87\xbf\xf0\x9f\x87\xbf\xa5\xf0\x9f\x8c\x80\xe2\x80\x8d\xef\xb8\x8f\xe2\x99\x80\xe2\x80\x8b\xf0\x9f\x8f\xbb");
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n); U8 u = (U8)s;
  dv_u64 end = dv_scalar("limit", 0, (1 << 20) + 1) - 1; dv_assume(end == ~0ull || end <= n);
  dv_assume(spec_wf(u, 0, end)); g_color_emoji = dv_scalar("color", 0, 1); g_cm = 0; g_s = s; g_n = n;
  dv_u32 c = spec_count(u, 0, end, g_color_emoji, expand ? 2 : 1, 0);
  dv_u32 r = expand ? clink_wcswidth_expandctrl(s, (dv_u32)end) : clink_wcswidth(s, (dv_u32)end);
  dv_assert(r == c, "the width is the sum over the characters"); dv_reach("end"); if (r > 3) dv_reach("text");
}
void H_cells() { h_cells(false); }
void H_cells_expand() { h_cells(true); }
}
