// Reference semantics of UTF-8 and UTF-16 (RFC 3629 / Unicode), as recursive
// functions over the input position.  Nothing here is taken from the code.
#pragma once
extern "C" {
// the bytes from s[i] up to the terminator are well-formed UTF-8
bool spec_wf8(const dv_u8* s, dv_u64 i) {
  unsigned c = s[i];
  if (c == 0) return true;
  if (c < 0x80) return spec_wf8(s, i + 1);
  if (c < 0xc2 || c > 0xf4) return false;
  if ((s[i + 1] & 0xc0) != 0x80) return false;
  if (c < 0xe0) return spec_wf8(s, i + 2);
  if ((s[i + 2] & 0xc0) != 0x80) return false;
  unsigned hi = ((c & 15) << 6) | (s[i + 1] & 63);
  if (c < 0xf0) { if (hi < 0x20 || (hi >= 0x360 && hi < 0x380)) return false; return spec_wf8(s, i + 3); }
  if ((s[i + 3] & 0xc0) != 0x80) return false;
  hi = ((c & 7) << 6) | (s[i + 1] & 63);
  if (hi < 0x10 || hi >= 0x110) return false;
  return spec_wf8(s, i + 4);
}
}
// one well-formed scalar (not NUL) is encoded at s[i], in L bytes
static inline bool utf8_ok(const dv_u8* s, dv_u64 i, unsigned& L) {
  unsigned c = s[i]; L = 1;
  if (c < 0x80) return c != 0;
  if (c < 0xc2 || c > 0xf4 || (s[i + 1] & 0xc0) != 0x80) return false;
  L = 2; if (c < 0xe0) return true;
  if ((s[i + 2] & 0xc0) != 0x80) return false;
  unsigned hi = ((c & 15) << 6) | (s[i + 1] & 63);
  L = 3; if (c < 0xf0) return !(hi < 0x20 || (hi >= 0x360 && hi < 0x380));
  if ((s[i + 3] & 0xc0) != 0x80) return false;
  hi = ((c & 7) << 6) | (s[i + 1] & 63);
  L = 4; return hi >= 0x10 && hi < 0x110;
}
static inline unsigned utf8_dec(const dv_u8* s, dv_u64 i, unsigned& L) {
  unsigned c = s[i];
  if (c < 0x80) { L = 1; return c; }
  if (c < 0xe0) { L = 2; return ((c & 31) << 6) | (s[i + 1] & 63); }
  if (c < 0xf0) { L = 3; return ((c & 15) << 12) | ((s[i + 1] & 63) << 6) | (s[i + 2] & 63); }
  L = 4; return ((c & 7) << 18) | ((s[i + 1] & 63) << 12) | ((s[i + 2] & 63) << 6) | (s[i + 3] & 63);
}
// one UTF-16 step; an unpaired surrogate stands for U+FFFD
static inline unsigned utf16_dec(const dv_u16* s, dv_u64 i, unsigned& L) {
  unsigned c = s[i];
  L = 1;
  if (c >= 0xd800 && c <= 0xdbff) {
    unsigned d = s[i + 1];
    if (d < 0xdc00 || d > 0xdfff) return 0xfffd;
    L = 2; return 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00);
  }
  if (c >= 0xdc00 && c <= 0xdfff) return 0xfffd;
  return c;
}
static inline unsigned utf8_size(unsigned c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
static inline dv_u8 utf8_byte(unsigned c, unsigned j) {
  unsigned n = utf8_size(c);
  if (n == 1) return (dv_u8)c;
  unsigned v = (c >> (6 * (n - 1 - j)));
  if (j) return 0x80 | (v & 63);
  return (dv_u8)((n == 2 ? 0xc0 : n == 3 ? 0xe0 : 0xf0) | v);
}
static inline unsigned utf16_size(unsigned c) { return c > 0xffff ? 2 : 1; }
static inline dv_u16 utf16_unit(unsigned c, unsigned j) {
  if (c <= 0xffff) return (dv_u16)c;
  c -= 0x10000;
  return j ? 0xdc00 + (c & 0x3ff) : 0xd800 + (c >> 10);
}
