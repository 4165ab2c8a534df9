// Contract of str_iter::next on well-formed text, proved for the real function
// by C02 (H_next_contract); callers are checked against it.  Decoding itself is
// opaque to the callers' proofs (spec_o_*): they use the facts below, which
// H_lemma_decode proves from the definitions.
#pragma once
extern "C" {
// one well-formed scalar is encoded at p; its length; its value
bool spec_o_ok(const dv_u8* p) { unsigned L; return utf8_ok(p, 0, L); }
dv_u64 spec_o_len(const dv_u8* p) { unsigned L; utf8_dec(p, 0, L); return L; }
dv_u32 spec_o_dec(const dv_u8* p) { unsigned L; return utf8_dec(p, 0, L); }
}
// what is known of them
static inline bool dec_facts(const dv_u8* p, dv_u64 L, dv_u32 c) {
  return L >= 1 && L <= 4 && c != 0 && c <= 0x10ffff && (p[0] < 0x80 ? L == 1 && c == p[0] : L > 1 && c >= 0x80)
    && p[0] != 0 && (L < 2 || p[1] >= 0x80) && (L < 3 || p[2] >= 0x80) && (L < 4 || p[3] >= 0x80);
}
extern "C" int stub_next8(str_iter_impl<char>* it) {
  const dv_u8* p = (const dv_u8*)it->m_ptr;
  if (it->m_ptr == it->m_end || *p == 0) return 0;
  dv_assert(spec_o_ok(p), "contract of next: the text is well-formed here");
  dv_u64 L = spec_o_len(p); dv_u32 c = spec_o_dec(p);
  dv_assume(dec_facts(p, L, c));
  it->m_ptr += L;
  return (int)c;
}
