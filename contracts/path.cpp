#define private public
#define protected public
#include "pch.h"
#include "dv.h"
#include "clink/core/src/str_iter.cpp"
#include "clink/core/src/str_convert.cpp"
#include "clink/core/src/str.cpp"
#include "clink/core/include/core/array.h"
#include "clink/core/src/path.cpp"
#include "libc.h"
#include "str_contract.h"
typedef const dv_u8* U8; typedef const dv_u16* U16;
template<class C> static inline bool sep(C c) { return c == '/' || c == '\\'; }
static inline bool alpha8(dv_u8 c) { return dv_iswalpha((unsigned short)(dv_u32)(int)(char)c) != 0; }
extern "C" {
dv_u64 spec_seps8(U8 s, dv_u64 i) { if (!sep(s[i])) return i; return spec_seps8(s, i + 1); }
dv_u64 spec_name8(U8 s, dv_u64 i) { if (s[i] == 0 || sep(s[i])) return i; return spec_name8(s, i + 1); }
dv_u64 spec_seps16(U16 s, dv_u64 i) { if (!sep(s[i])) return i; return spec_seps16(s, i + 1); }
dv_u64 spec_name16(U16 s, dv_u64 i) { if (s[i] == 0 || sep(s[i])) return i; return spec_name16(s, i + 1); }
}
static inline dv_u64 seps(U8 s, dv_u64 i) { return spec_seps8(s, i); }
static inline dv_u64 seps(U16 s, dv_u64 i) { return spec_seps16(s, i); }
static inline dv_u64 name(U8 s, dv_u64 i) { return spec_name8(s, i); }
static inline dv_u64 name(U16 s, dv_u64 i) { return spec_name16(s, i); }
static inline bool letter(U8 s) { return alpha8(s[0]); }
static inline bool letter(U16 s) { return dv_iswalpha(s[0]) != 0; }
// length of a \\?\ prefix
template<class P> static inline dv_u64 ssqs(P s) { return sep(s[0]) && sep(s[1]) && s[2] == '?' && sep(s[3]) ? seps(s, 3) : 0; }
// \\server\share or \\?\UNC\server\share: where it ends, ~0 if it is not UNC
template<class P> static inline dv_u64 unc(P s) {
  if (!sep(s[0]) || !sep(s[1])) return ~0ull;
  dv_u64 i = seps(s, 0);
  if (s[i] == '.' && (s[i + 1] == 0 || sep(s[i + 1]))) return ~0ull;   // device namespace
  if (i == 2 && s[2] == '?' && sep(s[3])) {
    i = seps(s, 3);
    if ((s[i] | 32) != 'u' || s[i] == 0) return ~0ull;
    if ((s[i + 1] | 32) != 'n' || (s[i + 2] | 32) != 'c' || !sep(s[i + 3])) return ~0ull;
    i = seps(s, i + 3);
  }
  i = name(s, i); i = seps(s, i); return name(s, i);
}
extern "C" { dv_u64 spec_o_unc8(U8 s) { return unc(s); } dv_u64 spec_o_unc16(U16 s) { return unc(s); } }   // opaque to callers of is_unc; proved equal to it by H_unc8 and H_unc16
static inline dv_u64 o_unc(U8 s) { return spec_o_unc8(s); }
static inline dv_u64 o_unc(U16 s) { return spec_o_unc16(s); }
// end of the UNC root, \\?\ prefix and drive letter
template<class P> static inline dv_u64 drive(P s) {
  dv_u64 u = o_unc(s); if (u != ~0ull) return u;
  dv_u64 i = ssqs(s);
  return letter(s + i) && s[i + 1] == ':' ? i + 2 : i;
}
extern "C" {
bool stub_unc8(const char* p, const char** past) { dv_u64 e = spec_o_unc8((U8)p); if (e != ~0ull) { dv_assume(e <= strlen(p)); if (past) *past = p + e; } return e != ~0ull; }
bool stub_unc16(const wchar_t* p, const wchar_t** past) { dv_u64 e = spec_o_unc16((U16)p); if (e != ~0ull) { dv_assume(e <= wcslen(p)); if (past) *past = p + e; } return e != ~0ull; }
dv_u64 ghost_unc8(U8 s) { return unc(s); } dv_u64 ghost_unc16(U16 s) { return unc(s); }
dv_u64 ghost_ssqs8(U8 s) { return ssqs(s); }
dv_u64 ghost_drive8(U8 s) { return drive(s); } dv_u64 ghost_drive16(U16 s) { return drive(s); }
// opaque to callers: what is known is proved by H_drive8 and H_drive16
dv_u64 spec_o_drive8(U8 s) { return drive(s); }
dv_u64 spec_o_drive16(U16 s) { return drive(s); }
const char* stub_drive8(const char* p) { dv_u64 d = spec_o_drive8((U8)p); dv_assume(d <= strlen(p)); return p + d; }
const wchar_t* stub_drive16(const wchar_t* p) { dv_u64 d = spec_o_drive16((U16)p); dv_assume(d <= wcslen(p)); return p + d; }
}
static inline U8 r_(char* s) { return (U8)s; }
static inline U16 r_(wchar_t* s) { return (U16)s; }
static inline char* text(dv_u64& n, const char* nm = "path") {
  dv_alphabet(nm, "\\/\\/a:.?uncUNC~ b-"); n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>(nm, n + 1); s[n] = 0; dv_mark(s + n); n = strlen(s); dv_term(n); return s;
}
static inline wchar_t* wtext(dv_u64& n) {
  dv_alphabet("path", "\\/\\/a:.?uncUNC~ b-"); n = dv_scalar("n", 0, 1 << 20); wchar_t* s = dv_array<wchar_t>("path", n + 1); s[n] = 0; dv_mark(s + n); n = wcslen(s); dv_term(n * 2); return s;
}
extern "C" {
void H_unc8() {
  dv_u64 n; char* s = text(n); U8 u = (U8)s; const char* past = nullptr;
  dv_u64 e = ghost_unc8(u);
  bool r = path::is_unc(s, &past);
  dv_assert(r == (e != ~0ull), "UNC paths are recognised");
  dv_assert(!r || e <= n, "the UNC root ends inside the path");
  dv_assert(!r || past == s + e, "the UNC root ends after the share");
  dv_assert(path::is_unc(s) == (e != ~0ull), "UNC paths are recognised without asking for the end");
  dv_assert(path::past_ssqs(s) == ghost_ssqs8(u), "the \\\\?\\ prefix is measured");
  dv_assert(e == spec_o_unc8(u), "the opaque UNC root is this one");
  dv_reach("end"); if (r) dv_reach("unc");
}
void H_unc16() {
  dv_u64 n; wchar_t* s = wtext(n); U16 u = (U16)s; const wchar_t* past = nullptr;
  dv_u64 e = ghost_unc16(u);
  bool r = path::is_unc(s, &past);
  dv_assert(r == (e != ~0ull), "UNC paths are recognised");
  dv_assert(!r || e <= n, "the UNC root ends inside the path");
  dv_assert(!r || past == s + e, "the UNC root ends after the share");
  dv_assert(e == spec_o_unc16(u), "the opaque UNC root is this one");
  dv_reach("end"); if (r) dv_reach("unc");
}
void H_drive8() {
  dv_u64 n; char* s = text(n);
  dv_u64 d = ghost_drive8((U8)s); const char* r = path::past_drive<char>(s);
  dv_assert(r == s + d, "the drive, prefix or UNC root ends there"); dv_assert(d <= n, "the drive ends inside the path");
  dv_assert(d == spec_o_drive8((U8)s), "the opaque drive end is this one"); dv_reach("end");
}
void H_drive16() {
  dv_u64 n; wchar_t* s = wtext(n);
  dv_u64 d = ghost_drive16((U16)s); const wchar_t* r = path::past_drive<wchar_t>(s);
  dv_assert(r == s + d, "the drive, prefix or UNC root ends there"); dv_assert(d <= n, "the drive ends inside the path");
  dv_assert(d == spec_o_drive16((U16)s), "the opaque drive end is this one"); dv_reach("end");
}
}
// -------- functions that take a path apart; past_drive by contract
extern "C" {
// last separator of p[0..i)
dv_u64 spec_d_lastsep8(U8 p, dv_u64 i) { if (i == 0) return ~0ull; if (sep(p[i - 1])) return i - 1; return spec_d_lastsep8(p, i - 1); }
dv_u64 spec_d_lastsep16(U16 p, dv_u64 i) { if (i == 0) return ~0ull; if (sep(p[i - 1])) return i - 1; return spec_d_lastsep16(p, i - 1); }
// start of the run of separators that ends p[0..i)
// (x only names the place its law talks about)
dv_u64 spec_d_run8(U8 p, dv_u64 i, dv_u64 x) { if (i == 0 || !sep(p[i - 1])) return i; return spec_d_run8(p, i - 1, x); }
dv_u64 spec_d_run16(U16 p, dv_u64 i) { if (i == 0 || !sep(p[i - 1])) return i; return spec_d_run16(p, i - 1); }
bool law_d_run8(U8 p, dv_u64 i, dv_u64 x, dv_u64 r) { return r <= i && (x < r || x >= i || sep(p[x])); } bool law_d_run16(U16 p, dv_u64 i, dv_u64 r) { return r <= i; }
dv_u64 spec_runi8(U8 p, dv_u64 i) { if (i == ~0ull || !sep(p[i])) return i + 1; return spec_runi8(p, i - 1); }
// start of the component that ends before i
dv_u64 spec_d_comp8(U8 s, dv_u64 i) { if (i == 0 || sep(s[i - 1])) return i; return spec_d_comp8(s, i - 1); }
bool law_d_comp8(U8 p, dv_u64 i, dv_u64 r) { return r <= i; }
// start of the extension: the last dot that no blank, separator or colon follows
dv_u64 spec_ext8(U8 s, dv_u64 i, dv_u64 best) {
  if (s[i] == 0) return best;
  if (s[i] == '.') return spec_ext8(s, i + 1, i);
  return spec_ext8(s, i + 1, s[i] == ' ' || s[i] == ':' || sep(s[i]) ? ~0ull : best);
}
dv_u64 spec_lastdot8(U8 s, dv_u64 i, dv_u64 best) { if (s[i] == 0) return best; return spec_lastdot8(s, i + 1, s[i] == '.' ? i : best); }
// where the file name starts: after the drive and the last separator
dv_u64 ghost_name8(U8 s, dv_u64 n) { dv_u64 d = spec_o_drive8(s), i = spec_d_lastsep8(s + d, n - d); return i == ~0ull ? d : d + i + 1; }
dv_u64 ghost_name16(U16 s, dv_u64 n) { dv_u64 d = spec_o_drive16(s), i = spec_d_lastsep16(s + d, n - d); return i == ~0ull ? d : d + i + 1; }
// where the directory ends
dv_u64 ghost_dirend(U8 s, dv_u64 n) {
  dv_u64 p = spec_o_drive8(s);
  if ((p == 0 || s[p - 1] == ':') && sep(s[p])) ++p;
  dv_u64 i = spec_d_lastsep8(s + p, n - p); if (i == ~0ull) return p;
  dv_u64 j = spec_runi8(s + p, i);
  return j != 0 ? p + j : p + i;
}
dv_u64 spec_u_dirend(U8 s) { return ghost_dirend(s, strlen((const char*)s)); }   // opaque: what H_dirend proves get_directory_end to be
int stub_dirend(const char* s) { dv_u64 e = spec_u_dirend((U8)s); dv_assume(e <= strlen(s)); return (int)e; }
bool ghost_ext_at(U8 s, dv_u64 e) { return e != ~0ull && s[e + 1] != 0; }
}
extern "C" {
// what replacing the separators from i on puts at k
dv_u32 spec_m_put8(U8 s, dv_u64 i, dv_u64 k, dv_u8 to) { if (s[i] == 0 || i > k) return 0x100; if (i == k) return sep(s[i]) ? to : s[i]; return spec_m_put8(s, i + 1, k, to); }
dv_u8 spec_m_app8(U8 s, dv_u64 i, dv_u64 k, dv_u8 to, dv_u8 cur) { dv_u32 x = spec_m_put8(s, i, k, to); return x < 0x100 ? (dv_u8)x : cur; }
}
static inline void hnt(dv_u64 d) { dv_term(d); }
extern "C" {
void H_name8() {
  dv_u64 n; char* s = text(n); dv_u64 d = spec_o_drive8((U8)s); hnt(d); dv_assume(d <= n); dv_u64 e = ghost_name8((U8)s, n);
  const char* r = path::get_name(s);
  dv_assert(r == s + e, "the name starts after the drive and the last separator");
  str<280> out; expect_start(out);
  path::get_name(s, out);
  expect_text(out, "", 0, false, (const char*)s + e, n - e, n - e, "the name is everything behind");
  dv_reach("end");
}
void H_name16() {
  dv_u64 n; wchar_t* s = wtext(n); dv_u64 d = spec_o_drive16((U16)s); hnt(2 * d); dv_assume(d <= n); dv_u64 e = ghost_name16((U16)s, n);
  const wchar_t* r = path::get_name(s);
  dv_assert(r == s + e, "the name starts after the drive and the last separator");
  dv_reach("end");
}
void H_dirend() {
  dv_u64 n; char* s = text(n); dv_u64 d = spec_o_drive8((U8)s); hnt(d); dv_assume(d <= n); dv_u64 e = ghost_dirend((U8)s, n);
  int r = path::get_directory_end(s);
  dv_assert(r == (int)e, "the directory ends before the last run of separators");
  dv_assert((dv_u64)(dv_u32)r <= n, "the directory ends inside the path");
  dv_reach("end");
}
// get_directory_end by contract
void H_dir() {
  dv_u64 n; char* s = text(n); dv_u64 e = spec_u_dirend((U8)s);
  str<280> out; expect_start(out);
  path::get_directory(s, out);
  expect_text(out, "", 0, false, (const char*)s, n, e, "the directory is the path up to there");
  dv_reach("end");
}
void H_dir_inplace() {
  dv_u64 size = dv_scalar("size", 1, 65535); dv_alphabet("path", "\\/\\/a:.?uncUNC~ b-"); char* s = dv_array<char>("path", size);
  dv_u64 at = dv_scalar("n", 0, 65534); dv_assume(at < size); s[at] = 0; dv_mark(s + at);
  dv_u64 n = strlen(s), e = spec_u_dirend((U8)s), k = dv_scalar("k", 0, 65535); dv_assume(k < e); dv_assume(e <= n); dv_u8 o = (dv_u8)s[k];
  str_base out(s, (int)size); bool cached = dv_scalar("cached", 0, 1); out.m_length = cached ? n : 0;
  path::get_directory(out);
  dv_assert(out.length() == e && s[e] == 0, "the directory is the path up to there"); dv_assert((dv_u8)s[k] == o, "what is kept does not change");
  dv_reach("end");
}
void H_ext() {
  dv_u64 n; char* s = text(n); dv_u64 e = spec_ext8((U8)s, 0, ~0ull);
  const char* r = path::get_extension(s);
  bool has = ghost_ext_at((U8)s, e);
  dv_assert(has ? r == s + e : r == nullptr, "the extension starts at the last dot");
  str<280> out; expect_start(out);
  dv_assert(path::get_extension(s, out) == has, "an extension is reported when there is one");
  if (has) expect_text(out, "", 0, false, (const char*)s + e, n - e, n - e, "the extension is everything behind the dot");
  dv_reach("end"); if (has) dv_reach("ext");
}
void H_root() {
  dv_u64 n; char* s = text(n); dv_u64 d = spec_o_drive8((U8)s); hnt(d);
  dv_u64 i = spec_seps8((U8)s, d);
  dv_assert(path::is_rooted(s) == sep(s[d]), "rooted: a separator follows the drive");
  dv_assert(path::is_root(s) == (s[d] == 0 || (sep(s[d]) && s[i] == 0)), "a root is a drive and nothing but separators");
  dv_reach("end");
}
void H_hidden() {
  dv_u64 n; char* s = text(n); dv_u64 d = spec_o_drive8((U8)s); hnt(d); bool ign = dv_scalar("ign", 0, 1) != 0;
  dv_assume(d <= n);
  dv_u64 e = ign ? spec_d_run8((U8)s + d, n - d, 0) : n - d, i = spec_d_lastsep8((U8)s + d, e);
  dv_assert(path::is_unix_hidden(s, ign) == (s[i == ~0ull ? d : d + i + 1] == '.'), "hidden: the last component starts with a dot");
  dv_reach("end");
}
void H_sepnorm() {
  dv_u64 n; char* s = text(n); dv_u64 k = dv_scalar("k", 0, 1 << 20); dv_assume(k <= n); dv_watch(s + k, 1); dv_watch(s + n, 1);
  bool dflt = dv_scalar("dflt", 0, 1) != 0; bool back = dv_scalar("back", 0, 1); int sp = back ? '\\' : '/';
  dv_u8 e = spec_m_app8((U8)s, 0, k, dflt || back ? '\\' : '/', (dv_u8)s[k]);
  path::normalise_separators(s, dflt ? 0 : sp);
  dv_assert((dv_u8)s[k] == e, "every separator becomes the wanted one, nothing else changes");
  dv_reach("end");
}
void H_element() {
  dv_u64 n; char* s = text(n); dv_u64 i = spec_seps8((U8)s, 0), j = spec_name8((U8)s, i);
  const char* r = path::next_element(s);
  dv_assert(s[0] == 0 ? r == nullptr : r == s + j + (s[j] != 0), "the next element starts after the separator");
  dv_reach("end");
}
}
// -------- functions that edit a path
// a text buffer: any content, any size, length cached or not
template<class T> struct tb { T* s; dv_u64 size, n; };
template<class T> static inline void mk(tb<T>& b) {
  dv_alphabet("path", "\\/\\/a:.?uncUNC~ b-");
  b.size = dv_scalar("size", 1, 65535); b.s = dv_array<T>("path", b.size);
  dv_u64 at = dv_scalar("n", 0, 65534); dv_assume(at < b.size); b.s[at] = 0; dv_mark(b.s + at);
  b.n = str_len(b.s); dv_term(b.n);
}
template<class T> static inline void put(str_impl<T>& o, tb<T>& b, bool cached) { o.m_length = cached ? b.n : 0; }
static const char* g_app; static str_base* g_appto; static unsigned g_appat; static const char* g_fmt; static int g_fmtc;
extern "C" {
bool stub_append(str_base* out, const char* rhs) { g_app = rhs; g_appto = out; g_appat = g_p8.count; return true; }
bool stub_format(str_impl<char>* out, const char* fmt, int c) { if (!dv_prove_mode()) { char t[3] = {(char)c, ':', 0}; out->clear(); out->concat(t); } g_fmt = fmt; g_fmtc = c; return true; }
bool stub_getname(const char* in, str_base* out) { return dv_scalar("ok", 0, 1) != 0; }
}
extern "C" dv_u64 ghost_lo(U8 u, dv_u64 d) { return d && u[d - 1] == ':' ? spec_seps8(u, d) : d; }
// length and truncate by contract (proved by C03): the text's length, and cutting it at pos
static unsigned g_len; static bool g_cutdone; static const void* g_lenof;
extern "C" {
unsigned stub_length8(const str_impl<char>* t) { dv_assert(t == g_lenof, "the length asked for is the path's"); return g_len; }
void stub_truncate8(str_impl<char>* t, unsigned pos) { dv_assert(t == g_lenof && pos <= g_len, "the path is cut inside"); g_len = pos; g_cutdone = true; }
unsigned stub_length16(const str_impl<wchar_t>* t) { dv_assert(t == g_lenof, "the length asked for is the path's"); return g_len; }
void stub_truncate16(str_impl<wchar_t>* t, unsigned pos) { dv_assert(t == g_lenof && pos <= g_len, "the path is cut inside"); g_len = pos; g_cutdone = true; }
}
static inline dv_u64 drive_(const char* s) { return spec_o_drive8((U8)s); }
static inline dv_u64 drive_(const wchar_t* s) { return spec_o_drive16((U16)s); }
// where the separators that end p[lo..i) start
extern "C" dv_u64 spec_d_strip8(U8 p, dv_u64 i, dv_u64 lo) { if (i <= lo || !sep(p[i - 1])) return i; return spec_d_strip8(p, i - 1, lo); }
extern "C" dv_u64 spec_d_strip16(U16 p, dv_u64 i, dv_u64 lo) { if (i <= lo || !sep(p[i - 1])) return i; return spec_d_strip16(p, i - 1, lo); }
extern "C" bool law_d_strip8(U8 p, dv_u64 i, dv_u64 lo, dv_u64 r) { return r <= i; } extern "C" bool law_d_strip16(U16 p, dv_u64 i, dv_u64 lo, dv_u64 r) { return r <= i; }
static inline dv_u64 run_(const char* s, dv_u64 n, dv_u64 lo) { return spec_d_strip8((U8)s, n, lo); }
static inline dv_u64 run_(const wchar_t* s, dv_u64 n, dv_u64 lo) { return spec_d_strip16((U16)s, n, lo); }
template<class T> static inline void strip_() {
  tb<T> b; mk(b); dv_u64 d = drive_(b.s); hnt(d); dv_assume(d <= b.n);
  dv_u64 lo = d + (d < b.n && sep(b.s[d])), e = run_(b.s, b.n, lo);
  dv_term(e); dv_term(lo); dv_u64 k = dv_scalar("k", 0, 65535); dv_assume(k < e); T o = b.s[k]; dv_watch(b.s + k, sizeof(T)); dv_watch(b.s + d, sizeof(T));
  str_impl<T> s(b.s, (int)b.size); put(s, b, dv_scalar("cached", 0, 1) != 0); g_len = b.n; g_lenof = &s;
  if constexpr (sizeof(T) == 1) path::maybe_strip_last_separator(static_cast<str_base&>(s)); else path::maybe_strip_last_separator(static_cast<wstr_base&>(s));
  if (dv_prove_mode()) dv_assert(g_len == e, "separators at the end go, but not the root's");
  else dv_assert(s.length() == e && b.s[e] == 0, "separators at the end go, but not the root's");
  dv_assert(b.s[k] == o, "what is kept does not change");
  dv_reach("end"); if (e < b.n) dv_reach("stripped");
}
extern "C" {
void H_strip8() { strip_<char>(); }
void H_strip16() { strip_<wchar_t>(); }
}
static inline void parent(bool cached) {
  tb<char> b; mk(b); U8 u = (U8)b.s; dv_u64 d = spec_o_drive8(u); hnt(d); dv_assume(d <= b.n);
  dv_u64 lo = ghost_lo(u, d); dv_term(lo);
  dv_u64 ce = spec_d_strip8(u, b.n, 0), cs = spec_d_comp8(u, ce); if (cs < lo) cs = lo;
  dv_u64 e = spec_d_strip8(u, cs, lo); dv_term(ce); dv_term(cs); dv_term(e);
  dv_u64 k = dv_scalar("k", 0, 65535); dv_assume(k < e); dv_u8 o = (dv_u8)b.s[k];
  str_base s(b.s, (int)b.size); put(s, b, cached);
  str<280> child; bool wc = dv_scalar("child", 0, 1); expect_start(child);
  char keep[256]; if (!dv_prove_mode()) { if (b.n > 250) dv_assume(false); memcpy(keep, b.s, b.n + 1); }
  g_len = b.n; g_cutdone = false; g_lenof = &s;
  bool r = path::to_parent(s, wc ? &child : nullptr);
  if (dv_prove_mode()) dv_assert(g_cutdone && g_len == e, "the last component and the separators before it go, the root stays");
  else dv_assert(s.length() == e && b.s[e] == 0, "the last component and the separators before it go, the root stays");
  dv_assert((dv_u8)b.s[k] == o, "what is kept does not change");
  dv_assert(r == (e != b.n), "reports whether anything went");
  const char* src = dv_prove_mode() ? b.s : keep;
  if (wc) { if (cs <= ce) expect_text(child, "", 0, false, src + cs, b.n - cs, ce - cs, "the child is the last component"); else expect_text(child, "", 0, false, src + cs, b.n - cs, b.n - cs, "the child is empty"); dv_assert(cs <= ce || cs == b.n, "an empty child"); }
  dv_reach("end"); if (e < b.n) dv_reach("went");
}
extern "C" {
void H_parent() { parent(dv_scalar("cached", 0, 1) != 0); }
}
extern "C" bool ghost_last(U8 u, dv_u64 n) { return n == 0 || sep(u[n - 1]); }
extern "C" bool ghost_justdrive(U8 u, dv_u64 q, dv_u64 n) { return q != ~0ull && dv_isalpha(u[q]) && u[q + 1] == ':' && u[q + 2] == 0; }
static inline void append(bool cached) {
  tb<char> b; mk(b); U8 u = (U8)b.s; dv_alphabet("rhs", "\\/\\/a:.?uncUNC~ b-"); dv_u64 m = dv_scalar("m", 0, 1 << 16); char* r = dv_array<char>("rhs", m + 1); r[m] = 0; dv_mark(r + m); m = strlen(r);
  if (!dv_prove_mode()) dv_assume(b.size > b.n + m + 1);
  dv_u64 d = spec_o_drive8((U8)r); dv_assume(d <= m); bool rooted = sep(r[d]);
  dv_u64 q = spec_o_unc8(u) != ~0ull ? ~0ull : ghost_ssqs8(u);
  bool last = ghost_last(u, b.n), justdrive = ghost_justdrive(u, q, b.n);
  bool slash = !rooted && !last && !justdrive && !sep(r[0]);
  str_base s(b.s, (int)b.size); put(s, b, cached); expect_start(s);
  char keep[256]; if (!dv_prove_mode()) { if (b.n > 250) dv_assume(false); memcpy(keep, b.s, b.n + 1); }
  path::append(s, r);
  expect_text(s, dv_prove_mode() ? (const char*)b.s : keep, rooted ? 0 : b.n, slash, (const char*)r, m, m, "a rooted path replaces what was there, others are joined by one separator where there is none");
  dv_reach("end"); if (slash) dv_reach("slash"); if (rooted) dv_reach("rooted"); if (justdrive) dv_reach("drive");
}
extern "C" {
void H_append() { append(true); }
void H_append_u() { append(false); }
void H_join() {
  dv_u64 n; char* l = text(n, "lhs"); dv_u64 m; char* r = text(m, "rhs");
  str<280> out; expect_start(out); g_app = nullptr;
  path::join(l, r, out);
  if (dv_prove_mode()) {
    dv_assert((n == 0 && g_p8.count == 0) || (g_p8.count == 1 && g_p8.src[0] == l && g_p8.n[0] < 0), "the left side is taken over");
    dv_assert(g_app == r && g_appto == (str_base*)&out && g_appat == g_p8.count, "the right side is appended to it");
  } else { str<280> o2; o2.concat(l); path::append(o2, r); dv_assert(strcmp(o2.c_str(), out.c_str()) == 0, "joining is appending to the left side"); }
  dv_reach("end");
}
void H_base() {
  tb<char> b; mk(b); U8 u = (U8)b.s;
  if (dv_prove_mode()) {
    dv_u64 e = spec_strrchr(u, 0, '.', ~0ull); dv_u64 k = dv_scalar("k", 0, 65535); dv_assume(k < b.n && (e == ~0ull || k < e)); dv_u8 o = u[k];
    str_base s(b.s, (int)b.size); put(s, b, dv_scalar("cached", 0, 1) != 0);
    bool r = path::get_base_name("", s);
    if (r) { dv_assert(s.length() == (e == ~0ull ? b.n : e) && b.s[e == ~0ull ? b.n : e] == 0, "the base name is the name up to its last dot"); dv_assert(u[k] == o, "what is kept does not change"); dv_reach("end"); }
  } else {
    str<280> out; dv_assume(b.n < 250); path::get_base_name(b.s, out);
    dv_u64 c = ghost_name8(u, b.n), e = spec_strrchr(u + c, 0, '.', ~0ull); if (e == ~0ull) e = b.n - c;
    dv_assert(out.length() == e && memcmp(out.c_str(), b.s + c, e) == 0, "the base name is the name up to its last dot"); dv_reach("end");
  }
}
void H_getdrive() {
  dv_u64 n; char* s = text(n); dv_u64 q = ghost_ssqs8((U8)s);
  dv_assume(q <= n); dv_u8 c = (dv_u8)s[q] | 32; bool has = q < n && c >= 'a' && c <= 'z' && s[q + 1] == ':'; char dc = s[q];
  str<16> out; g_fmt = nullptr;
  dv_assert(path::get_drive(s, out) == has, "a drive is a letter and a colon, after any \\\\?\\");
  if (dv_prove_mode()) dv_assert(has ? g_fmt && g_fmt[0] == '%' && g_fmt[1] == 'c' && g_fmt[2] == ':' && g_fmt[3] == 0 && g_fmtc == dc : g_fmt == nullptr, "the drive is that letter and a colon");
  else if (has) { const char* o = out.c_str(); dv_assert(g_fmt && !strcmp(g_fmt, "%c:") && o[0] == dc && o[1] == ':' && o[2] == 0, "the drive is that letter and a colon"); }
  dv_reach("end"); if (has) dv_reach("has");
}
}
