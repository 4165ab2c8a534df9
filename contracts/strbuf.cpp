#define private public
#define protected public
#include "pch.h"
#include "dv.h"
#include "clink/core/src/str_iter.cpp"
#include "clink/core/src/str_convert.cpp"
#include "clink/core/src/str.cpp"
// The class invariant, established here for an arbitrary text buffer and
// re-established (asserted) after every operation:
//   data points to size elements (1..65535); a terminator lies inside; the
//   cached length is 0 or the position of the terminator; owned memory is
//   heap memory that has not been freed.
template<class T> struct buf { T* d; dv_u64 size, L; bool grow, own, cached; };
template<class T> static inline void mk(buf<T>& b, const char* nm, bool maygrow = true) {
  b.size = dv_scalar("size", 1, 65535);
  b.grow = maygrow && dv_scalar("growable", 0, 1);
  b.own = b.grow && dv_scalar("owned", 0, 1);
  b.d = (T*)dv_heap_region(nm, b.size, sizeof(T), b.own);
  dv_u64 at = dv_scalar("nul_at", 0, 65535); dv_assume(at < b.size);
  b.d[at] = 0; dv_mark(b.d + at);
  b.L = str_len(b.d);
  b.cached = dv_scalar("length_cached", 0, 1) != 0;
}
template<class T> static inline void put(str_impl<T>& s, const buf<T>& b) {
  s.m_growable = b.grow; s.m_owns_ptr = b.own; s.m_length = b.cached ? b.L : 0;
}
template<class T> static inline void wf(str_impl<T>& s, dv_u64 newlen) {
  dv_assert(newlen < s.size(), "text fits inside the buffer");
  dv_assert(s.m_data[newlen] == 0, "text is terminated");
  dv_assert(s.m_length == 0 || s.m_length == newlen, "cached length is the length");
  (void)s.m_data[s.m_size - 1];   // memory of the stated size is really there
}
template<class T> static T* text(const char* nm, dv_u64& n) {
  n = dv_scalar("srclen", 0, 1 << 20);
  T* p = dv_array<T>(nm, n + 1); p[n] = 0; dv_mark(p + n);
  return p;
}
extern "C" {
// the element that appending src[i..n) at pos (stopping at a NUL) puts at k, or none
dv_u32 spec_put8(const dv_u8* src, dv_u64 i, dv_u64 n, dv_u64 pos, dv_u64 k) {
  if (i >= n || src[i] == 0 || pos > k) return 0x10000;
  if (pos == k) return src[i];
  return spec_put8(src, i + 1, n, pos + 1, k);
}
dv_u32 spec_put16(const dv_u16* src, dv_u64 i, dv_u64 n, dv_u64 pos, dv_u64 k) {
  if (i >= n || src[i] == 0 || pos > k) return 0x10000;
  if (pos == k) return src[i];
  return spec_put16(src, i + 1, n, pos + 1, k);
}
dv_u8 spec_app8(const dv_u8* src, dv_u64 i, dv_u64 n, dv_u64 pos, dv_u64 k, dv_u8 cur) { dv_u32 x = spec_put8(src, i, n, pos, k); return x < 0x10000 ? (dv_u8)x : cur; }
dv_u16 spec_app16(const dv_u16* src, dv_u64 i, dv_u64 n, dv_u64 pos, dv_u64 k, dv_u16 cur) { dv_u32 x = spec_put16(src, i, n, pos, k); return x < 0x10000 ? (dv_u16)x : cur; }
// where the copy ends
dv_u64 spec_end8(const dv_u8* src, dv_u64 i, dv_u64 n, dv_u64 pos) {
  if (i >= n || src[i] == 0) return pos;
  return spec_end8(src, i + 1, n, pos + 1);
}
dv_u64 spec_end16(const dv_u16* src, dv_u64 i, dv_u64 n, dv_u64 pos) {
  if (i >= n || src[i] == 0) return pos;
  return spec_end16(src, i + 1, n, pos + 1);
}
}
static inline dv_u8 app(const char* s, dv_u64 n, dv_u64 pos, dv_u64 k, char cur) { return spec_app8((const dv_u8*)s, 0, n, pos, k, (dv_u8)cur); }
static inline dv_u16 app(const wchar_t* s, dv_u64 n, dv_u64 pos, dv_u64 k, wchar_t cur) { return spec_app16((const dv_u16*)s, 0, n, pos, k, (dv_u16)cur); }
static inline dv_u64 append(const char* s, dv_u64 n, dv_u64 pos) { return spec_end8((const dv_u8*)s, 0, n, pos); }
static inline dv_u64 append(const wchar_t* s, dv_u64 n, dv_u64 pos) { return spec_end16((const dv_u16*)s, 0, n, pos); }
static inline bool inrange(const char* s, dv_u64 n, dv_u64 pos, dv_u64 k) { return spec_put8((const dv_u8*)s, 0, n, pos, k) < 0x10000; }
static inline bool inrange(const wchar_t* s, dv_u64 n, dv_u64 pos, dv_u64 k) { return spec_put16((const dv_u16*)s, 0, n, pos, k) < 0x10000; }
static inline dv_u8 un(char c) { return (dv_u8)c; }
static inline dv_u16 un(wchar_t c) { return (dv_u16)c; }
// size the buffer may use: growable ones grow to what is needed (up to 65472 elements)
static inline dv_u64 room(dv_u64 size, bool grow, dv_u64 need) {
  if (size > need) return size;
  if (!grow) return size;
  dv_u64 want = (need + 1 + 63) & ~63ull;
  return want > 65535 ? size : want;
}
template<class T> static inline void h_concat(bool grows) {
  buf<T> b; mk(b, "buffer");
  dv_u64 n; T* src = text<T>("src", n);
  bool whole = dv_scalar("whole", 0, 1) != 0;
  dv_u64 m = dv_scalar("count", 0, 1 << 20); dv_assume(m <= n);
  if (whole) m = str_len(src);
  dv_u64 sz = room(b.size, b.grow, b.L + m);
  dv_assume(grows == (sz != b.size));
  dv_u64 fit = sz - 1 - b.L; if (fit > m) fit = m;
  dv_u64 k = dv_scalar("k", 0, 65535); dv_assume(k < sz);
  T oldk = k < b.L ? b.d[k] : 0; dv_u64 end = append(src, fit, b.L);
  dv_assume(k < end); if (k >= b.L) dv_assume(inrange(src, fit, b.L, k));
  auto exp = app(src, fit, b.L, k, oldk);
  dv_watchk(k);
  str_impl<T> s(b.d, (uint32)b.size); put(s, b);
  bool r = s.concat(src, whole ? -1 : (int)m);
  dv_assert(r == (m <= sz - 1 - b.L), "appending succeeds exactly when the text fits");
  dv_assert(s.m_size == sz, "the buffer grows when it may, and only then");
  wf(s, end);
  dv_assert(un(s.m_data[k]) == exp, "appended text: the old text, then the source up to its end");
  dv_reach("end"); if (!r && !grows) dv_reach("truncated");
}
template<class T> static inline void h_concat_nt() {
  buf<T> b; mk(b, "buffer");
  dv_u64 n = dv_scalar("srclen", 0, 1 << 20); T* src = dv_array<T>("src", n);
  dv_u64 k = dv_scalar("k", 0, 65535);
  dv_u64 sz = room(b.size, b.grow, b.L + n);
  T oldk = k < b.L ? b.d[k] : 0;
  str_impl<T> s(b.d, (uint32)b.size); put(s, b);
  bool r = s.concat_no_truncate(src, (int)n);
  dv_assert(r == (b.L + n < sz), "appending without truncation succeeds exactly when the text fits");
  dv_assert(s.m_size == sz || n == 0, "the buffer grows when it may, and only then");
  dv_u64 nl = r ? b.L + n : b.L;
  dv_assert(nl < s.size() && s.m_data[nl] == 0, "text is terminated");
  dv_assert(!(k < b.L) || s.m_data[k] == oldk, "old text is kept");
  if (r) dv_assert(!(k >= b.L && k < nl) || s.m_data[k] == src[k - b.L], "appended text is the source, NULs included");
  dv_assert(n == 0 || !r || s.m_length == nl, "length counts the appended text");
  (void)s.m_data[s.m_size - 1];
  dv_reach("end"); if (!r) dv_reach("refused");
}
template<class T> static inline void h_reserve() {
  buf<T> b; mk(b, "buffer");
  dv_u64 want = dv_scalar("want", 0, 0xfffffffe); bool exact = dv_scalar("exact", 0, 1) != 0;
  dv_u64 k = dv_scalar("k", 0, 65535); dv_assume(k < b.size);
  T old = b.d[k];
  str_impl<T> s(b.d, (uint32)b.size); put(s, b);
  bool r = s.reserve((uint32)want, exact);
  dv_u64 need = exact ? want : want + 1;
  dv_assert(r ? s.size() >= need : s.size() == b.size, "reserve delivers the space, or changes nothing");
  dv_assert(r || !b.grow || need > 65472, "a growable buffer grows up to 65472 elements");
  dv_assert(b.grow || s.m_data == b.d, "a fixed buffer stays where it is");
  dv_assert(s.m_data[k] == old, "reserve keeps the contents");
  wf(s, b.L);
  (void)s.m_data[s.m_size - 1];
  dv_reach("end"); if (!r) dv_reach("refused");
}
template<class T> static inline void h_misc() {
  buf<T> b; mk(b, "buffer");
  dv_u64 p = dv_scalar("p", 0, 0xffffffff), k = dv_scalar("k", 0, 65535); dv_assume(k < b.size);
  dv_track(b.d + k); 
  T old = b.d[k], oldp = p < b.size ? b.d[p] : 0;
  str_impl<T> s(b.d, (uint32)b.size); put(s, b);
  dv_assert(s.length() == b.L, "length is the number of elements before the terminator");
  dv_assert(!(k < s.length()) || s.m_data[k] != 0, "length is the number of elements before the terminator (lower)");
  dv_assert(s.empty() == (b.L == 0), "empty means no elements");
  dv_assert(s[(uint32)p] == (p < b.L ? oldp : 0), "indexing past the end yields NUL");
  s.truncate((uint32)p);
  if (p < b.size) { dv_assert(s.m_data[p] == 0 && s.m_length == p, "truncate cuts the text at the position"); if (p <= b.L) wf(s, p); }
  else wf(s, b.L);
  dv_assert(k == p || s.m_data[k] == old, "truncate keeps the rest");
  s.clear();
  dv_assert(s.length() == 0 && s.empty(), "clear empties the text");
  dv_reach("end");
}
extern "C" {
dv_u64 spec_trimend8(const dv_u8* s, dv_u64 end) {
  if (end == 0) return 0;
  dv_u8 c = s[end - 1];
  if (c != ' ' && c != '\t' && c != '\r' && c != '\n') return end;
  return spec_trimend8(s, end - 1);
}
dv_u64 spec_trimbeg8(const dv_u8* s, dv_u64 i, dv_u64 end) {
  if (i >= end) return end;
  if (s[i] != ' ' && s[i] != '\t') return i;
  return spec_trimbeg8(s, i + 1, end);
}
void H_trim() {
  buf<char> b; mk(b, "buffer");
  dv_u64 e = spec_trimend8((const dv_u8*)b.d, b.L);
  dv_u64 p = spec_trimbeg8((const dv_u8*)b.d, 0, e);
  dv_u64 j = dv_scalar("j", 0, 65535); dv_assume(j < b.size); bool in = j >= p && j < e; dv_u64 k = j - p;
  char oldk = b.d[j];
  str_impl<char> s(b.d, (uint32)b.size); put(s, b);
  s.trim();
  wf(s, e - p);
  if (in) dv_assert(s.m_data[k] == oldk, "trimmed text is the text without surrounding blanks");
  dv_reach("end"); if (p > 0 && e > p) dv_reach("shifted");
}
void H_concat8() { h_concat<char>(false); }
void H_concat16() { h_concat<wchar_t>(false); }
void H_concat_grow8() { h_concat<char>(true); }
void H_concat_grow16() { h_concat<wchar_t>(true); }
void H_concat_nt8() { h_concat_nt<char>(); }
void H_concat_nt16() { h_concat_nt<wchar_t>(); }
void H_reserve8() { h_reserve<char>(); }
void H_reserve16() { h_reserve<wchar_t>(); }
void H_misc8() { h_misc<char>(); }
void H_misc16() { h_misc<wchar_t>(); }
}
