// Contracts of C library functions the code calls (assumed, listed in the
// evidence): each is defined through a specification function, so the proofs
// use the definition, and the native replay runs it.
#pragma once
extern "C" {
dv_u64 spec_strchr(const dv_u8* s, dv_u64 i, dv_u8 c) { if (s[i] == c) return i; if (s[i] == 0) return ~0ull; return spec_strchr(s, i + 1, c); }
dv_u64 spec_wcschr(const dv_u16* s, dv_u64 i, dv_u16 c) { if (s[i] == c) return i; if (s[i] == 0) return ~0ull; return spec_wcschr(s, i + 1, c); }
// last position of c in s[i..], or best
dv_u64 spec_strrchr(const dv_u8* s, dv_u64 i, dv_u8 c, dv_u64 best) { if (s[i] == c) best = i; if (s[i] == 0) return best; return spec_strrchr(s, i + 1, c, best); }
char* dv_strchr(const char* s, int c) {
  dv_u64 L = strlen(s), i = spec_strchr((const dv_u8*)s, 0, (dv_u8)c);
  dv_assume(i == ~0ull || (i <= L && (dv_u8)s[i] == (dv_u8)c));
  return i == ~0ull ? nullptr : (char*)s + i;
}
wchar_t* dv_wcschr(const wchar_t* s, wchar_t c) {
  dv_u64 L = wcslen(s), i = spec_wcschr((const dv_u16*)s, 0, (dv_u16)c);
  dv_assume(i == ~0ull || (i <= L && s[i] == c));
  return i == ~0ull ? nullptr : (wchar_t*)s + i;
}
char* dv_strrchr(const char* s, int c) {
  dv_u64 L = strlen(s), i = spec_strrchr((const dv_u8*)s, 0, (dv_u8)c, ~0ull);
  dv_assume(i == ~0ull || (i <= L && (dv_u8)s[i] == (dv_u8)c));
  return i == ~0ull ? nullptr : (char*)s + i;
}
// classification outside ASCII depends on the locale: left open
dv_u32 spec_u_iswalpha(dv_u32 c) { return c >= 128 && (c & 7) == 1; }
dv_u32 spec_u_lower(dv_u32 c) { return (c >= 'A' && c <= 'Z') || (c >= 0xc0 && c <= 0xde && c != 0xd7) || (c >= 0x391 && c <= 0x3a9) ? c + 32 : c; }
int dv_iswalpha(unsigned short c) { return c < 128 ? ((c | 32) >= 'a' && (c | 32) <= 'z') : spec_u_iswalpha(c) != 0; }
int dv_isalpha(int c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }
int dv_isdigit(int c) { return c >= '0' && c <= '9'; }
int dv_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int dv_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int dv_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
// CharLowerW on a single character: some function of that character; ASCII is known
void* dv_CharLowerW(void* p) { dv_u32 c = (dv_u16)(dv_u64)p; return (void*)(dv_u64)(c < 128 ? (dv_u32)dv_tolower((int)c) : (spec_u_lower(c) & 0xffff) | 0x80); }
}
