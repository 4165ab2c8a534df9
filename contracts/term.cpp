#define private public
#define protected public
#include "pch.h"
#include "dv.h"
#include "clink/core/src/str_iter.cpp"
#include "clink/core/src/str_convert.cpp"
#include "clink/core/src/str.cpp"
#include "clink/terminal/src/ecma48_iter.cpp"
#include "libc.h"
#include "spec_utf.h"
#include "iter_contract.h"
typedef const dv_u8* U8;
extern "C" {
dv_u32 dv_prove_mode();
// text from i up to the terminator or the limit is well-formed UTF-8
bool spec_wf(U8 s, dv_u64 i, dv_u64 end) {
  if (i == end || s[i] == 0) return true;
  dv_u64 L = spec_o_len(s + i);
  if (!spec_o_ok(s + i) || end - i < L) return false;
  return spec_wf(s, i + L, end);
}
}
// -------- splitting text into codes
// (numbered as in the code) 0 start, 1 text, 2 after ESC, 3 ESC in a string, 4 CSI parameters, 5 CSI intermediates, 6 command string, 7 SOS string
enum { KNONE = 0, KCHARS = 1, KC0 = 2, KC1 = 3, KICF = 4 };
struct step_t { dv_u32 st; dv_u32 nest; bool eat, done, restart; };
// the second half of ESC in a command string is looked at before it is consumed
static inline dv_u32 c1state(dv_u32 c, bool& done) {
  c = (c & 0x1f) | 0x40; done = false;
  if (c == 'P' || c == ']' || c == '^' || c == '_') return 6;
  if (c == '[') return 4;
  if (c == 'X') return 7;
  done = true; return 0;
}
// c is the next character, d the one behind it (0: none)
static inline step_t step(dv_u32 st, dv_u32 nest, dv_u32 c, dv_u32 d) {
  step_t r = { st, nest, true, false, false };
  switch (st) {
  case 0:
    if (c == 0x1b) r.st = 2;
    else if (c < 0x20) r.done = true;
    else if (c >= 0x80 && c <= 0x9f) { r.st = c1state(c, r.done); }
    else r.st = 1;
    break;
  case 1: if (c < 0x20) { r.eat = false; r.done = true; } break;
  case 2:
    if (c >= 0x40 && c <= 0x5f) { r.st = c1state(c, r.done); if (r.done) r.st = 2; }
    else if (c >= 0x60 && c <= 0x7f) r.done = true;
    else r.st = 1;
    break;
  case 3: if (c == '\\') r.done = true; else { r.eat = false; r.restart = true; r.st = 0; r.nest = 0; } break;
  case 4: case 5:
    if (st == 4 && c >= 0x30 && c <= 0x3f) break;
    r.st = 5;
    if (c >= 0x20 && c <= 0x2f) break;
    if (c >= 0x40 && c <= 0x7e) { r.done = true; break; }
    r.eat = false; r.restart = true; r.st = 0; break;
  case 6:
    if (c == 0x1b) { if (d == ']') r.nest++; else if (d == '\\' && nest > 0) r.nest--; else r.st = 3; }
    else if (c == 0x9c) { r.done = true; }
    else if (c == 7) { if (nest > 0) r.nest--; else r.done = true; }
    else if ((c >= 8 && c <= 0x0d) || c >= 0x20) {}
    else { r.eat = false; r.restart = true; r.st = 0; }
    break;
  case 7: if (c == 0x1b) r.st = 3; else if (c == 0x9c) r.done = true; break;
  }
  return r;
}
static inline dv_u32 kindof(dv_u32 st, dv_u32 c, dv_u32 k) {
  if (st == 0) { if (c == 0x1b) return k; if (c < 0x20) return KC0 | c << 8; if (c >= 0x80 && c <= 0x9f) return KC1 | ((c & 0x1f) | 0x40) << 8; return KCHARS; }
  if (st == 2) { if (c >= 0x40 && c <= 0x5f) return KC1 | c << 8; if (c >= 0x60 && c <= 0x7f) return KICF | c << 8; return KCHARS; }
  return k;
}
static inline dv_u32 at(U8 s, dv_u64 i) { return s[i] == 0 ? 0 : spec_o_dec(s + i); }
extern "C" {
// one step, packed (state | done | eat | restart) and the nesting after it; opaque to next(), proved for the step functions by H_step_*
dv_u32 spec_o_step(dv_u32 st, dv_u32 nest, dv_u32 c, dv_u32 d) { step_t r = step(st, nest, c, d); return r.st | r.done << 8 | r.eat << 9 | r.restart << 10; }
dv_u32 spec_o_nest(dv_u32 st, dv_u32 nest, dv_u32 c, dv_u32 d) { return step(st, nest, c, d).nest; }
dv_u32 spec_o_kind(dv_u32 st, dv_u32 c, dv_u32 k) { return kindof(st, c, k); }
// what next() knows of a step (H_lemma_step)
static inline bool step_facts(dv_u32 st, dv_u32 r) {
  dv_u32 t = r & 0xff; bool done = r & 0x100, eat = r & 0x200, restart = r & 0x400;
  return t < 8 && (!restart || (t == 0 && !eat && !done)) && (!done || (t == 1) == (st == 1)) && (!done || eat == (st != 1)) && (t == 1 || st != 1);
}
// where the code ends; ~0 if the text ends first
dv_u64 spec_end(U8 s, dv_u64 i, dv_u32 st, dv_u32 nest) {
  if (s[i] == 0) return st == 1 ? i : ~0ull;
  dv_u64 L = spec_o_len(s + i); dv_u32 c = spec_o_dec(s + i), d = at(s, i + L), r = spec_o_step(st, nest, c, d);
  dv_u64 j = r & 0x200 ? i + L : i;
  if (r & 0x100) return j;
  return spec_end(s, j, r & 0xff, spec_o_nest(st, nest, c, d));
}
// where it starts: malformed sequences before it are dropped
dv_u64 spec_start(U8 s, dv_u64 i, dv_u32 st, dv_u32 nest, dv_u64 start) {
  if (s[i] == 0) return start;
  dv_u64 L = spec_o_len(s + i); dv_u32 c = spec_o_dec(s + i), d = at(s, i + L), r = spec_o_step(st, nest, c, d);
  if (r & 0x100) return start;
  return spec_start(s, r & 0x200 ? i + L : i, r & 0xff, spec_o_nest(st, nest, c, d), r & 0x400 ? i : start);
}
// its kind (low byte) and code
dv_u32 spec_kind(U8 s, dv_u64 i, dv_u32 st, dv_u32 nest, dv_u32 kind) {
  if (s[i] == 0) return kind;
  dv_u64 L = spec_o_len(s + i); dv_u32 c = spec_o_dec(s + i), d = at(s, i + L), r = spec_o_step(st, nest, c, d), k = spec_o_kind(st, c, kind);
  if (r & 0x100) return k;
  return spec_kind(s, r & 0x200 ? i + L : i, r & 0xff, spec_o_nest(st, nest, c, d), k);
}
// the step functions by contract
static dv_u32 g_kind;
static inline bool stub_step(ecma48_iter* t, int c) {
  U8 p = (U8)t->m_iter.m_ptr; dv_u32 st = t->m_state.state, nest = (dv_u32)t->m_nested_cmd_str;
  dv_u64 L = spec_o_len(p); dv_u32 d = at(p, L), r = spec_o_step(st, nest, (dv_u32)c, d);
  dv_assert(*p != 0 && (dv_u32)c == spec_o_dec(p), "contract of the step: the next character");
  dv_assume(step_facts(st, r));
  t->m_nested_cmd_str = (int)spec_o_nest(st, nest, (dv_u32)c, d);
  g_kind = spec_o_kind(st, (dv_u32)c, g_kind);
  t->m_state.state = (ecma48_state_enum)(r & 0xff);
  if (r & 0x400) { t->m_code.m_str = (const char*)p; t->m_code.m_length = 0; t->m_state.clear_buffer = true; }
  if (r & 0x200) t->m_iter.m_ptr += L;
  return (r & 0x100) != 0;
}
#define STEP(x) bool stub_##x(ecma48_iter* t, int c) { return stub_step(t, c); }
STEP(char) STEP(char_str) STEP(cmd_str) STEP(csi_f) STEP(csi_p) STEP(esc) STEP(esc_st) STEP(unknown)
}
// the code's buffer by contract (C03): what was appended since it was cleared,
// which must be one stretch of the input
static const void* g_buf; static const char* g_bs; static const char* g_be;
extern "C" {
void stub_bclear(str_impl<char>* t) { if (!g_buf) return; dv_assert(t == g_buf, "the code's buffer"); g_bs = g_be = nullptr; }
bool stub_bcat(str_impl<char>* t, const char* p, int n) {
  dv_assert(t == g_buf, "the code's buffer"); dv_assert(n >= 0, "length");
  if (!g_bs) g_bs = p; else dv_assert(p == g_be, "the code is one stretch of the text");
  g_be = p + n; return true;
}
unsigned stub_blen(const str_impl<char>* t) { dv_assert(t == g_buf, "the code's buffer"); return (unsigned)(g_be - g_bs); }
void H_seg() {
  dv_alphabet("s", "\x1b[]\\X0;m m\x07 a\xc2\x9b\xc2\x9c\x08\x01\x1b\x1b[P");
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n);
  dv_u64 p = dv_scalar("at", 0, 1 << 20); dv_assume(p <= n); U8 u = (U8)s;
  dv_assume(spec_wf(u, p, ~0ull));
  dv_u32 k0 = dv_scalar("kind", 0, 0xffff), k = spec_kind(u, p, 0, 0, k0); dv_u64 e = spec_end(u, p, 0, 0), b = spec_start(u, p, 0, 0, p);
  ecma48_state st; ecma48_iter it(s, st); it.m_iter.m_ptr = s + p; st.code.m_type = (ecma48_code::type)(k0 & 0xff); st.code.m_code = k0 >> 8;
  g_buf = &st.buffer; g_bs = g_be = s + p; g_kind = k0;
  dv_term(7); const ecma48_code& c = it.next();
  if (e == ~0ull) dv_assert(c.get_length() == 0, "an unfinished sequence is not reported");
  else {
    dv_assert(c.get_length() == e - b, "the code has its length");
    if (dv_prove_mode()) dv_assert(c.get_pointer() == s + b || (c.get_pointer() == st.buffer.m_data && g_bs == s + b && g_be == s + e), "the code is that stretch of the text");
    else dv_assert(memcmp(c.get_pointer(), s + b, e - b) == 0, "the code is that stretch of the text");
    dv_assert(it.get_pointer() == s + e, "the iterator goes on behind the code");
    if (dv_prove_mode()) dv_assert(g_kind == k, "the kind and number of the code");
    else { dv_assert(c.get_type() == (k & 0xff), "the kind of the code"); if ((k & 0xff) != KCHARS) dv_assert(c.get_code() == k >> 8, "the code's number"); }
    dv_reach("end"); if ((k & 0xff) == KCHARS) dv_reach("text"); if ((k & 0xff) == KC1) dv_reach("c1");
  }
}
}
extern "C" void H_lemma_step() {
  dv_u32 st = dv_scalar("st", 0, 7), nest = dv_scalar("nest", 0, 0xffffffff), c = dv_scalar("c", 1, 0x10ffff), d = dv_scalar("d", 0, 0x10ffff);
  dv_assert(step_facts(st, spec_o_step(st, nest, c, d)), "facts about one step"); dv_reach("end");
}
// the real step functions against the step
template<class F> static inline void h_step(dv_u32 st0, F f) {
  dv_alphabet("s", "\x1b[]\\X0;m m\x07 a\xc2\x9b\xc2\x9c\x08\x01\x1b\x1b[P");
  char* s = dv_array<char>("s", 10); s[9] = 0; U8 u = (U8)s; dv_assume(s[0] != 0); dv_assume(spec_wf(u, 0, ~0ull));
  ecma48_state st; ecma48_iter it(s, st); dv_u32 nest = dv_scalar("nest", 0, 1 << 20); dv_assume(st0 == 6 || nest == 0);
  dv_u32 k0 = dv_scalar("kind", 0, 0xffff); dv_assume(st0 != 1 || (k0 & 0xff) == KCHARS); st.code.m_type = (ecma48_code::type)(k0 & 0xff); st.code.m_code = k0 >> 8;
  st.state = (ecma48_state_enum)st0; st.clear_buffer = false; it.m_nested_cmd_str = (int)nest; st.code.m_str = s; st.code.m_length = 5;
  dv_u64 L = spec_o_len(u); dv_u32 c = spec_o_dec(u); dv_assume(dec_facts(u, L, c)); dv_u32 d = at(u, L), r = spec_o_step(st0, nest, c, d), k = spec_o_kind(st0, c, k0);
  bool done = f(it, (int)c);
  dv_assert(done == ((r & 0x100) != 0), "the code ends there");
  dv_assert(done || (dv_u32)st.state == (r & 0xff), "the state after the character");
  dv_assert(!done || ((dv_u32)st.state == 1) == (st0 == 1), "text ends as text");
  dv_assert(done || (dv_u32)it.m_nested_cmd_str == spec_o_nest(st0, nest, c, d), "the nesting of strings");
  dv_assert(it.m_iter.m_ptr == s + (r & 0x200 ? L : 0), "what is consumed");
  dv_assert(st.clear_buffer == ((r & 0x400) != 0) && (r & 0x400 ? st.code.m_str == s && st.code.m_length == 0 : st.code.m_str == s), "a malformed sequence is dropped");
  dv_assert(st.code.m_type == (k & 0xff), "the kind of the code"); if ((k & 0xff) != KCHARS) dv_assert(st.code.m_code == k >> 8, "the code's number");
  dv_reach("end");
}
extern "C" {
void H_step_unknown() { h_step(0, [](ecma48_iter& t, int c) { return t.next_unknown(c); }); }
void H_step_char() { h_step(1, [](ecma48_iter& t, int c) { return t.next_char(c); }); }
void H_step_esc() { h_step(2, [](ecma48_iter& t, int c) { return t.next_esc(c); }); }
void H_step_esc_st() { h_step(3, [](ecma48_iter& t, int c) { return t.next_esc_st(c); }); }
void H_step_csi_p() { h_step(4, [](ecma48_iter& t, int c) { return t.next_csi_p(c); }); }
void H_step_csi_f() { h_step(5, [](ecma48_iter& t, int c) { return t.next_csi_f(c); }); }
void H_step_cmd_str() { h_step(6, [](ecma48_iter& t, int c) { return t.next_cmd_str(c); }); }
void H_step_char_str() { h_step(7, [](ecma48_iter& t, int c) { return t.next_char_str(c); }); }
}
// -------- decoding a control sequence
// the bytes of a code, from i to its end n, by characters
extern "C" {
dv_u64 spec_skip(U8 s, dv_u64 n) {   // behind the introducer: ESC and a character, or one C1 character
  if (n == 0 || s[0] == 0) return 0;
  dv_u64 i = spec_o_len(s); if (spec_o_dec(s) == 0x1b && i != n && s[i]) i += spec_o_len(s + i);
  return i;
}
// value of parameter k (r if there is none); v is what the digits so far say, q the number of the parameter they belong to
dv_u32 spec_param(U8 s, dv_u64 i, dv_u64 n, dv_u32 v, dv_u8 any, dv_u32 q, dv_u32 k, dv_u32 max, dv_u32 r) {
  if (i == n || s[i] == 0) return (any & 1) && q < max && q == k ? v : r;
  dv_u32 c = spec_o_dec(s + i); dv_u64 j = i + spec_o_len(s + i);
  bool sep = c == ';'; dv_u32 nv = sep ? 0 : c >= '0' && c <= '9' ? v * 10 + (c - '0') : v;
  return spec_param(s, j, n, nv, c >= 0x30 && c <= 0x3b ? 1 : any, sep && q < max ? q + 1 : q, k, max, sep && q == k ? v : r);
}
// number of parameters (one more than separators, none if there is nothing but other characters), at most max
dv_u32 spec_params(U8 s, dv_u64 i, dv_u64 n, dv_u8 any, dv_u32 q, dv_u32 max) {
  if (i == n || s[i] == 0) return (any & 1) && q < max ? q + 1 : q;
  dv_u32 c = spec_o_dec(s + i); dv_u64 j = i + spec_o_len(s + i);
  return spec_params(s, j, n, c >= 0x30 && c <= 0x3b ? 1 : any, c == ';' && q < max ? q + 1 : q, max);
}
// the last intermediate (low byte) and final character
dv_u32 spec_final(U8 s, dv_u64 i, dv_u64 n, dv_u8 f, dv_u8 m) {
  if (i == n || s[i] == 0) return f << 8 | m;
  dv_u32 c = spec_o_dec(s + i); dv_u64 j = i + spec_o_len(s + i);
  return spec_final(s, j, n, c >= 0x20 && c <= 0x3f ? f : (dv_u8)c, c >= 0x20 && c <= 0x2f ? (dv_u8)c : m);
}
void H_csi() {
  dv_alphabet("s", "\x1b[;:0123456789 m?<= /@\xc2\x9b~");
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n); U8 u = (U8)s;
  dv_assume(spec_wf(u, 0, n));
  dv_u32 max = dv_scalar("max", 1, 127), k = dv_scalar("k", 0, 126); dv_assume(k < max);
  ecma48_code code; code.m_str = s; code.m_length = n; code.m_type = (ecma48_code::type)dv_scalar("type", 0, 4); code.m_code = dv_scalar("code", 0x50, 0x5f);
  if (!dv_prove_mode()) { code.m_type = ecma48_code::type_c1; code.m_code = 0x5b; }
  ecma48_code::csi_base b; int* params = dv_array<int>("params", max);
  dv_u64 i = spec_skip(u, n); bool priv = i != n && s[i] && spec_o_dec(u + i) >= 0x3c && spec_o_dec(u + i) <= 0x3f; if (priv) i += spec_o_len(u + i);
  dv_watch(params + k, 4); dv_u32 v = spec_param(u, i, n, 0, 0, 0, k, max, (dv_u32)params[k]), cnt = spec_params(u, i, n, 0, 0, max), fm = spec_final(u, i, n, 0, 0);
  dv_term(max); bool ok = code.decode_csi(b, params, max);
  dv_assert(ok == (code.m_type == ecma48_code::type_c1 && code.m_code == 0x5b), "only control sequences are decoded");
  if (ok) {
    dv_assert(b.private_use == priv, "private sequence");
    dv_assert(b.param_count == cnt, "number of parameters");
    if (k < cnt) dv_assert((dv_u32)params[k] == v, "value of a parameter");
    dv_assert((dv_u8)b.intermediate == (fm & 0xff), "intermediate character"); dv_assert((dv_u8)b.final == fm >> 8, "final character");
    dv_reach("end");
  }
}
}
// -------- the text inside a command string
extern "C" {
dv_u64 spec_c1end(U8 s, dv_u64 i, dv_u64 n) {
  if (i == n || s[i] == 0) return i;
  dv_u32 c = spec_o_dec(s + i); if (c == 0x9c || c == 0x1b) return i;
  return spec_c1end(s, i + spec_o_len(s + i), n);
}
void H_c1_str() {
  dv_alphabet("s", "\x1b]abc;\xc2\x9c\xc2\x9d\\\x07 0");
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n); U8 u = (U8)s;
  dv_assume(spec_wf(u, 0, n)); dv_assume(dv_prove_mode() || n < 200);
  ecma48_code code; code.m_str = s; code.m_length = n; code.m_type = (ecma48_code::type)dv_scalar("type", 0, 4); code.m_code = dv_scalar("code", 0x50, 0x5f);
  dv_u64 i = spec_skip(u, n), e = spec_c1end(u, i, n);
  str<256> out; g_buf = &out; g_bs = s; g_be = s + n;
  bool ok = code.get_c1_str(out);
  dv_assert(ok == (code.m_type == ecma48_code::type_c1 && code.m_code != 0x5b), "only codes that carry a string have one");
  if (ok) {
    if (dv_prove_mode()) dv_assert(g_bs == s + i && g_be == s + e, "the string is what is between the introducer and the terminator");
    else dv_assert(out.length() == e - i && memcmp(out.c_str(), s + i, e - i) == 0, "the string is what is between the introducer and the terminator");
    dv_reach("end"); if (e < n) dv_reach("terminated");
  }
}
void H_strip() {
  dv_alphabet("s", "\x1b\\\x07\"a");
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>("s", n);
  const char* p = s; int32 len = (int32)n; strip_code_terminator(p, len);
  dv_u64 e = n >= 1 && s[n - 1] == 7 ? 1 : n >= 2 && s[n - 1] == '\\' && s[n - 2] == 0x1b ? 2 : 0;
  dv_assert(p == s && (dv_u64)len == n - e, "the terminator of the string is left out, nothing else");
  p = s; len = (int32)n; strip_code_quotes(p, len);
  bool q = n >= 2 && s[0] == '"' && s[n - 1] == '"';
  dv_assert(p == s + (q ? 1 : 0) && (dv_u64)len == n - (q ? 2 : 0), "a pair of quotes is left out, nothing else");
  dv_reach("end");
}
}
