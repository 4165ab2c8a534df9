#define private public
#define protected public
#include "pch.h"
#include "dv.h"
#include "clink/core/src/str_iter.cpp"
#include "clink/core/src/str_compare.cpp"
#include "libc.h"
#include "spec_utf.h"
#include "iter_contract.h"
namespace path { bool is_separator(int32 c) { return c == '/' || c == '\\'; } }
extern "C" {
dv_u32 spec_u_norm(dv_u32 c) { return c == 0xe9 || c == 0xe8 ? 'e' : c == 0xc9 ? 'E' : c; }
int stub_normalize_accent(int c) { dv_u32 r = spec_u_norm((dv_u32)c); dv_assume(c != '/' ? r != '/' && r != 0 : r == '/'); return (int)r; }
bool spec_wf(const dv_u8* s, dv_u64 i) {
  if (s[i] == 0) return true;
  if (!spec_o_ok(s + i)) return false;
  return spec_wf(s, i + spec_o_len(s + i));
}
static inline dv_u32 fold(dv_u32 c, dv_u32 mode, bool exact_slash) {
  if (mode > 0 && c <= 0xffff) c = (dv_u32)(dv_u64)dv_CharLowerW((void*)(dv_u64)c);
  if (mode > 1 && c == '-') c = '_';
  if (!exact_slash && c == '\\') c = '/';
  return c;
}
static inline bool sep(dv_u32 c) { return c == '/' || c == '\\'; }
// st 0: comparing; 1, 2: skipping further separators on the left, right
dv_u64 spec_cmp(const dv_u8* l, dv_u64 i, const dv_u8* r, dv_u64 j, dv_u32 st, dv_u32 mode, bool fuzzy, bool lcd, bool exact) {
  if (st == 1) { if (sep(l[i])) return spec_cmp(l, i + 1, r, j, 1, mode, fuzzy, lcd, exact); return spec_cmp(l, i, r, j, 2, mode, fuzzy, lcd, exact); }
  if (st == 2) { if (sep(r[j])) return spec_cmp(l, i, r, j + 1, 2, mode, fuzzy, lcd, exact); return spec_cmp(l, i, r, j, 0, mode, fuzzy, lcd, exact); }
  if (l[i] == 0 || r[j] == 0) return lcd || l[i] || r[j] ? i : ~0ull;
  dv_u64 L = spec_o_len(l + i), M = spec_o_len(r + j);
  dv_u32 c = fold(spec_o_dec(l + i), mode, exact), d = fold(spec_o_dec(r + j), mode, exact);
  if (c != d) {
    if (!fuzzy) return i;
    c = (dv_u32)stub_normalize_accent((int)c); d = (dv_u32)stub_normalize_accent((int)d);
    if (c != d) return i;
  }
  return spec_cmp(l, i + L, r, j + M, c == '/' ? 1 : 0, mode, fuzzy, lcd, exact);
}
}
template<bool LCD, bool EXACT> static inline void h_cmp(int mode, bool fuzzy) {
  dv_alphabet("l", "abAB/\\-_\xc3\xa9\xc3\x89\xe2\x82\xac"); dv_alphabet("r", "abAB/\\-_\xc3\xa9\xc3\x89\xe2\x82\xac");
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* l = dv_array<char>("l", n + 1); l[n] = 0; dv_mark(l + n);
  dv_u64 m = dv_scalar("m", 0, 1 << 20); char* r = dv_array<char>("r", m + 1); r[m] = 0; dv_mark(r + m);
  dv_assume(spec_wf((const dv_u8*)l, 0)); dv_assume(spec_wf((const dv_u8*)r, 0));
  dv_u64 e = spec_cmp((const dv_u8*)l, 0, (const dv_u8*)r, 0, 0, mode, fuzzy, LCD, EXACT);
  str_compare_scope scope(mode, fuzzy);
  int x = str_compare<char, LCD, EXACT>(l, r);
  dv_assert(x == (int)e, "comparison reports the length of the matching prefix, -1 for equal texts");
  dv_reach("end");
}
extern "C" {
#define U(N, LCD, EX, MODE, FZ) void H_##N() { h_cmp<LCD, EX>(MODE, FZ); }
U(cmp_exact, false, false, 0, false)  U(cmp_exact_lcd, true, false, 0, false)  U(cmp_exact_fz, false, false, 0, true) U(cmp_exact_slash, false, true, 0, false)
U(cmp_caseless, false, false, 1, false) U(cmp_caseless_lcd, true, false, 1, true)
U(cmp_relaxed, false, false, 2, false) U(cmp_relaxed_lcd, true, false, 2, true)
}
