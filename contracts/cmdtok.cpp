#define private public
#define protected public
#include "pch.h"
#include "dv.h"
#include "clink/core/src/str_iter.cpp"
#include "clink/core/src/str_convert.cpp"
#include "clink/core/src/str.cpp"
#include "clink/lib/src/cmd_tokenisers.cpp"
#include "libc.h"
#include "spec_utf.h"
#include "iter_contract.h"
typedef const dv_u8* U8;
static inline bool at_end(U8 s, dv_u64 i, dv_u64 end) { return i == end || s[i] == 0; }
extern "C" {
// strchr on the short constant delimiter lists (only whether it is found)
bool spec_has(U8 s, dv_u32 c) {
  if (s[0] == c) return true; if (!s[0]) return false; if (s[1] == c) return true; if (!s[1]) return false; if (s[2] == c) return true; if (!s[2]) return false;
  if (s[3] == c) return true; if (!s[3]) return false; if (s[4] == c) return true; if (!s[4]) return false; if (s[5] == c) return true; if (!s[5]) return false;
  if (s[6] == c) return true; if (!s[6]) return false; if (s[7] == c) return true; if (!s[7]) return false; if (s[8] == c) return true; if (!s[8]) return false;
  return s[9] == c;
}
bool spec_facts(U8 p, dv_u64 L, dv_u32 c) { return dec_facts(p, L, c); }
const char* stub_chr(const char* s, int c) { return (c & ~0xff) || !spec_has((U8)s, (dv_u32)c) ? nullptr : s; }
static bool g_enh; static U8 g_s; static dv_u64 g_end, g_n;
bool stub_setting(const void*) { return g_enh; }
// what is known of a word by contract: is it a doskey alias; of what was read of a command: is it REM
bool spec_u_isalias(U8 word) { return word[0] == 'a' || word[0] == 0xc3; }
dv_u32 spec_u_rem(dv_u32 tok, dv_u32 c, dv_u32 st) { dv_u32 k = tok & 7; if (k == 7) return 14; if (k == 0) return st > 2 || c == ' ' || c == '(' || c == '@' ? 0 : c == 'r' ? 2 : 14; if (k == 3) return c == ' ' ? 15 : 14; return (k == 1 ? c == 'e' : c == 'm') ? 2 * (k + 1) : 14; }
static dv_u32 g_tok;
void stub_clear(cmd_state*, bool) { g_tok = 0; }
bool stub_test(cmd_state*, int c, dv_u32 st) { dv_u32 r = spec_u_rem(g_tok, c, st); g_tok = r >> 1; return r & 1; }
// text from i up to the terminator or the limit is well-formed UTF-8
bool spec_wf(U8 s, dv_u64 i, dv_u64 end) {
  if (at_end(s, i, end)) return true;
  dv_u64 L = spec_o_len(s + i);
  if (!spec_o_ok(s + i) || end - i < L) return false;
  return spec_wf(s, i + L, end);
}
// end of the word: the first space or tab
dv_u64 spec_word(U8 s, dv_u64 i, dv_u64 end) {
  if (i > 1 << 24 || at_end(s, i, end)) return i;
  dv_u32 c = spec_o_dec(s + i); if (c == ' ' || c == '\t') return i;
  return spec_word(s, i + (spec_o_len(s + i) & 7), end);
}
bool law_word(U8 s, dv_u64 i, dv_u64 end, dv_u64 r) { return r >= i; }

// what precedes a command: spaces, @ and parentheses; behind the last ( and a space or @ that follows it
static inline bool lead(dv_u8 c) { return c == ' ' || c == '@' || c == '('; }
static inline dv_u64 lead_next(U8 s, dv_u64 i, dv_u64 end) { dv_u64 j = i + 1; return s[i] == '(' && !at_end(s, j, end) && (s[j] == ' ' || s[j] == '@') ? j + 1 : j; }
dv_u64 spec_lead(U8 s, dv_u64 i, dv_u64 end, dv_u64 at) {
  if (at_end(s, i, end) || !lead(s[i])) return at;
  dv_u64 j = lead_next(s, i, end); return spec_lead(s, j, end, s[i] == '(' ? j : at);
}
dv_u32 spec_parens(U8 s, dv_u64 i, dv_u64 end, dv_u32 k) {
  if (at_end(s, i, end) || !lead(s[i])) return k;
  return spec_parens(s, lead_next(s, i, end), end, s[i] == '(' ? k + 1 : k);
}
// whether it is still the first command: no parenthesis was found
dv_u8 spec_first(U8 s, dv_u64 i, dv_u64 end, dv_u8 f) {
  if (at_end(s, i, end) || !lead(s[i])) return f;
  return spec_first(s, lead_next(s, i, end), end, s[i] == '(' ? 0 : f);
}
// position of the outermost of at most k closing parentheses (and spaces) that end [off, i)
dv_u32 spec_trim(U8 s, dv_u32 i, dv_u32 off, dv_u32 k, dv_u32 best) {
  if ((int)k <= 0 || i <= off || (s[i - 1] != ')' && s[i - 1] != ' ')) return best;
  bool p = s[i - 1] == ')';
  return spec_trim(s, i - 1, off, p ? k - 1 : k, p ? i - 1 : best);
}
// the rest of the text
dv_u64 spec_rest(U8 s, dv_u64 i, dv_u64 end) { if (at_end(s, i, end)) return i; return spec_rest(s, i + spec_o_len(s + i), end); }
// redirection grammar. State: 0 text, 1 space, 2 digit, then (+1 out, +2 double, +4 numbered) 3 <, 4 >, 5 <<, 6 >>,
// 7 n<, 8 n>, 9 n<<, 10 n>>, 11 n>&, 12 n>&m. Result also: 13 end of command, 14 argument, 15 complete, 16 bad
static inline dv_u32 kind(dv_u32 c) { return c == ' ' || c == '\t' || c == 0 ? 1 : c >= '0' && c <= '9' ? 2 : c == '<' ? 3 : c == '>' ? 4 : c == '&' ? 5 : c == '|' ? 6 : 0; }
dv_u32 spec_o_trans(dv_u32 st, dv_u32 k) {
  if (st <= 2) return k >= 5 ? 13 : k >= 3 ? (st == 2 ? k + 4 : k) : k == 2 ? (st == 1 ? 2 : 0) : k;
  if (st == 11) return k == 2 ? 12 : 16;
  if (st == 12) return 15;
  dv_u32 numbered = st >= 7, r = st - 3 - 4 * numbered, out = r & 1, dbl = r >> 1;
  if (k <= 2) return 14;
  if (k == 5) return numbered ? 11 : 16;
  if (k == 6 || dbl || k - 3 != out) return 16;
  return st + 2;
}
// (H_table: the transition table is this grammar)
static inline dv_u32 trans(dv_u32 st, dv_u32 k) { return (dv_u32)c_transition[st][k]; }
static inline bool name_delim(dv_u32 c) { return c == '@' || c == ' ' || c == '\t' || c == '=' || c == ';' || c == ',' || c == '('; }
// end of the command that is being read at i: end << 1 | ended by & or |; REM: ~0
dv_u64 spec_walk(U8 s, dv_u64 i, dv_u64 end, dv_u32 st, dv_u8 quoted, dv_u8 arg, dv_u8 text, dv_u32 tok, dv_u32 quote) {
  if (at_end(s, i, end)) return i << 1;
  dv_u32 c = spec_o_dec(s + i); dv_u64 j = i + spec_o_len(s + i);
  if (quoted & 1) return spec_walk(s, j, end, st, c == quote ? 0 : quoted, arg, text, tok, quote);
  if (c == '^' && !at_end(s, j, end)) j += spec_o_len(s + j);
  dv_u32 k = kind(c), n = trans(st, k);
  if ((n == 0 || n == 2) && !(text & 1) && !name_delim(c) && c != '&' && c != '|') {
    text = 1;
    if (k == 2 && n == 0 && j >= 2 && s[j - 2] == '@' && !at_end(s, j, end) && s[j] == '>') ++j;
  }
  if (n == 13 && !(text & 1)) n = 0;
  if (n >= 14) { n = trans(1, k); arg = 1; }
  else if (n != 0) arg = 0;
  if (n <= 2 && !(arg & 1)) {
    dv_u32 r = spec_u_rem(tok, c, n); tok = r >> 1;
    if (r & 1) return ~0ull;
  }
  if (n == 13) return (j - 1) << 1 | 1;
  return spec_walk(s, j, end, n, c == quote ? 1 : quoted, arg, text, tok, quote);
}
// contracts
// str_iter::next at a character of well-formed text (H_lemma_wf: by definition)
int stub_next8w(str_iter_impl<char>* it) {
  U8 p = (U8)it->m_ptr; dv_u64 i = p - g_s;
  if (it->m_ptr == it->m_end || *p == 0) return 0;
  dv_assert(spec_wf(g_s, i, g_end), "contract of next: the text is well-formed here");
  dv_u64 L = spec_o_len(p); dv_u32 c = spec_o_dec(p); dv_assume(spec_facts(p, L, c)); dv_assume(spec_wf(g_s, i + L, g_end) && g_end - i >= L && spec_rest(g_s, i + L, g_end) == spec_rest(g_s, i, g_end));
  it->m_ptr += L; return (int)c;
}
void H_lemma_wf() {
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>("s", n + 1); s[n] = 0; U8 u = (U8)s;
  dv_u64 end = dv_scalar("limit", 0, (1 << 20) + 1) - 1; dv_assume(end == ~0ull || end <= n);
  dv_u64 i = dv_scalar("at", 0, 1 << 20); dv_assume(i < n && i < end && s[i]); dv_assume(spec_wf(u, i, end));
  dv_u64 L = spec_o_len(u + i); dv_assert(spec_o_ok(u + i) && end - i >= L, "a character is well-formed"); dv_assert(spec_wf(u, i + L, end), "and so is what follows"); dv_assert(spec_rest(u, i, end) == spec_rest(u, i + L, end), "with the same end"); dv_reach("end");
}
dv_u32 stub_alias(str_iter_impl<char>* it, void*) {
  dv_u64 i = it->m_ptr - (const char*)g_s, w = spec_word(g_s, i, g_end); dv_assume(w >= i && w <= g_n);
  return spec_u_isalias(g_s + i) ? (dv_u32)(w - i) : 0;
}
dv_u64 spec_o_lead(U8 s, dv_u64 i, dv_u64 end) { return spec_lead(s, i, end, i); }
dv_u8 spec_o_first(U8 s, dv_u64 i, dv_u64 end, dv_u8 f) { return spec_first(s, i, end, f); }
dv_u32 spec_o_parens(U8 s, dv_u64 i, dv_u64 end) { return spec_parens(s, i, end, 0); }
static inline bool whole(U8 s, dv_u64 i, dv_u64 end, bool first, bool enh) { return (first || enh) && !at_end(s, i, end) && s[i] == '(' && spec_u_isalias(s + i) && spec_word(s, i, end) != i; }
int stub_parens(str_iter_impl<char>* it, bool* first, void*) {
  dv_u64 i = it->m_ptr - (const char*)g_s; bool none = whole(g_s, i, g_end, *first, g_enh);
  dv_u64 j = none ? i : spec_o_lead(g_s, i, g_end); dv_u32 k = none ? 0 : spec_o_parens(g_s, i, g_end);
  dv_assume(j >= i && j <= g_n); dv_assume(spec_wf(g_s, j, g_end)); dv_assume(spec_rest(g_s, j, g_end) == spec_rest(g_s, i, g_end));
  it->m_ptr = (const char*)g_s + j; if (!none) *first = spec_o_first(g_s, i, g_end, *first) & 1; return (int)k;
}
dv_u32 spec_o_trim(U8 s, dv_u32 off, dv_u32 len, dv_u32 k) { return spec_trim(s, len, off, k, len); }
dv_u32 stub_trim(const char* s, dv_u32 off, dv_u32 len, int k) {
  dv_assert(off <= len && s == (const char*)g_s && len <= g_n, "contract of trim_trailing_parens: a command");
  dv_u32 r = spec_o_trim(g_s, off, len, k); dv_assume(off <= r && r <= len); return r;
}
// is_alias_word with the word it copies recorded (C03), and the doskey query as an uninterpreted function of it
dv_u32 dv_prove_mode();
static const char* g_wsrc; static dv_u32 g_wlen; static const void* g_wobj;
bool stub_wcat(str_impl<char>* t, const char* src, int n) { g_wsrc = src; g_wlen = (dv_u32)n; g_wobj = t->m_data; if (n) t->m_data[0] = src[0]; return true; }
dv_u32 stub_wlen(const str_impl<char>* t) { dv_assert(t->m_data == g_wobj, "the length of the word"); return g_wlen; }
bool stub_query(void*, const char* name, void*) { if (!dv_prove_mode()) return spec_u_isalias((U8)name); dv_assert(name == g_wobj, "the word is looked up"); return spec_u_isalias((U8)g_wsrc); }
bool stub_query_os(const char* name, void*) { return stub_query(nullptr, name, nullptr); }
#define TEXT() dv_alphabet("s", "r e m\"^&|<>12 @(); a\xc3\xa9"); \
  dv_u64 n = dv_scalar("n", 0, 1 << 20); char* s = dv_array<char>("s", n + 1); s[n] = 0; dv_mark(s + n); U8 u = (U8)s; \
  dv_u64 end = dv_scalar("limit", 0, (1 << 20) + 1) - 1; dv_assume(end == ~0ull || end <= n); g_s = u; g_n = n; g_end = end; \
  dv_u64 at = dv_scalar("at", 0, 1 << 20); dv_assume(at <= n && at <= end); dv_assume(spec_wf(u, at, end)); \
  str_iter it(s, (int)end); it.m_ptr = s + at
void H_trim() {
  dv_alphabet("s", ") a");
  dv_u64 n = dv_scalar("n", 0, 1 << 20), off = dv_scalar("offset", 0, 1 << 20), k = dv_scalar("parens", 0, 0xffffffff); char* s = dv_array<char>("s", n + 1);
  dv_assume(off <= n); dv_u32 e = spec_trim((U8)s, (dv_u32)n, (dv_u32)off, (dv_u32)k, (dv_u32)n);
  dv_u32 r = trim_trailing_parens(s, (dv_u32)off, (dv_u32)n, (int)k);
  dv_assert(r == e, "the closing parentheses that match are left out"); dv_assert(r <= n && r >= off, "it stays within the command");
  dv_reach("end"); if (r < n) dv_reach("parens");
}
void H_alias() {
  TEXT(); bool cache = dv_scalar("cache", 0, 1); dv_u64 w = spec_word(u, at, end);
  dv_u32 r = is_alias_word(it, cache ? (alias_cache*)s : nullptr);
  dv_assert(r == (w != at && spec_u_isalias(u + at) ? (dv_u32)(w - at) : 0), "the length of the word, if it is an alias");
  dv_assert(it.m_ptr == s + at, "the iterator is where it was"); dv_assert(w >= at && w <= n, "the word is within the text");
  if (dv_prove_mode()) dv_assert(g_wsrc == s + at && g_wlen == (dv_u32)(w - at), "the word, whole, is looked up");
  dv_reach("end"); if (r > 3) dv_reach("alias");
}
void H_parens() {
  TEXT(); bool first = dv_scalar("first", 0, 1), f = first; g_enh = dv_scalar("enhanced", 0, 1);
  dv_u64 e = spec_lead(u, at, end, at), rest = spec_rest(u, at, end); dv_u32 k = spec_parens(u, at, end, 0); dv_u8 f1 = spec_first(u, at, end, first); bool none = whole(u, at, end, first, g_enh);
  int r = skip_leading_parens(it, f, nullptr);
  if (none) { dv_assert(r == 0 && it.m_ptr == s + at && f == first, "an alias that begins with a parenthesis is not split"); }
  else {
    dv_assert((dv_u32)r == k, "how many parentheses"); dv_assert(it.m_ptr == s + e, "it stands behind them");
    dv_assert((dv_u8)f == (f1 & 1), "no more the first");
    dv_assert(spec_wf(u, it.m_ptr - s, end), "well-formed text is left"); dv_assert(spec_rest(u, it.m_ptr - s, end) == rest, "the same end");
  }
  dv_assert(it.m_ptr >= s + at && it.m_ptr <= s + n, "it stays within the text");
  dv_reach("end"); if (r > 1) dv_reach("parens");
}
void H_table() {
  dv_u32 st = (dv_u32)dv_scalar("state", 0, 12), c = (dv_u32)dv_scalar("c", 0, 0x10ffff);
  dv_assert((dv_u32)get_input_type((int)c) < 7, "a kind of character");
  dv_assert((dv_u32)c_transition[st][get_input_type((int)c)] == spec_o_trans(st, kind(c)), "the transition table is the redirection grammar"); dv_reach("end");
}
union CT { cmd_command_tokeniser t; CT() {} ~CT() {} };
void H_command() {
  TEXT(); g_enh = dv_scalar("enhanced", 0, 1); dv_u8 qc = (dv_u8)dv_scalar("quote", 0, 127); char* qp = dv_array<char>("qp", 2); qp[0] = (char)qc; bool hasq = dv_scalar("hasq", 0, 1);
  CT x; x.t.m_iter = it; x.t.m_start = s; x.t.m_quote_pair = hasq ? qp : nullptr; x.t.m_alias_cache = nullptr; x.t.m_next_redir_arg = false;
  dv_u32 quote = hasq && qc ? qc : '"'; dv_u32 off = 7, len = 7; g_tok = 0;
  // what is expected
  dv_u64 i = at; bool first = at == 0, none = at_end(u, i, end); dv_u64 e = 0, rest = spec_rest(u, at, end), pos = 0; dv_u32 k = 0, o = (dv_u32)at, l = 0;
  if (!none) {
    if (!first && (u[i] == '&' || u[i] == '|')) { dv_u8 c1 = u[i]; ++i; if (!at_end(u, i, end) && u[i] == c1) ++i; }
    bool one = whole(u, i, end, first, g_enh); dv_u64 b = i; bool f1 = first; if (!one) { f1 = spec_o_first(u, b, end, first) & 1; k = spec_o_parens(u, b, end); i = spec_o_lead(u, b, end); dv_assume(i >= b && i <= n); }
    if (!f1 && !k && !at_end(u, i, end) && u[i] == ' ') ++i;
    o = (dv_u32)i; dv_u64 w = spec_word(u, i, end); bool alias = spec_u_isalias(u + i) && w != i;
    dv_u32 tok = alias ? spec_u_rem(0, 0xff, 0) >> 1 : 0;
    e = spec_walk(u, alias ? w : i, end, 1, 0, 0, alias, tok, quote);
    pos = e == ~0ull ? rest : e >> 1; l = spec_o_trim(u, o, (dv_u32)pos, k) - o;
  }
  word_token t = x.t.cmd_command_tokeniser::next(off, len);
  dv_assert(off == o, "the command begins behind separator, parentheses and padding");
  if (none) { dv_assert(!t && len == 0 && x.t.m_iter.m_ptr == s + at, "no command is left"); }
  else {
    dv_assert(x.t.m_iter.m_ptr == s + (pos), "it ends at the first separator outside quotes and redirections");
    dv_assert(len == l, "without the closing parentheses");
    dv_assert(pos <= n && (dv_u64)off + len <= pos && off >= at, "commands do not overlap");
    dv_assert(t.delim == (e != ~0ull && (e & 1) ? u[pos] : 0) && !t.redir_arg, "what ended it");
    dv_assert(spec_wf(u, x.t.m_iter.m_ptr - s, end), "well-formed text is left");
  }
  dv_reach("end"); if (len > 4) dv_reach("text"); if (e != ~0ull && (e & 1)) dv_reach("separator");
}
}
