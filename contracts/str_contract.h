// Contract of str_impl::concat as a list of appended pieces (proved for the
// real function by C03): appending puts the source, up to n elements or its
// terminator, behind the text.  In proofs the pieces are recorded; in native
// runs the real function runs and the text itself is compared.
#pragma once
template<class T> struct pieces { const T* src[4]; int n[4]; unsigned count; const void* target; };
static pieces<char> g_p8; static pieces<wchar_t> g_p16;
template<class T> static inline void record(pieces<T>& p, const T* src, int n) {
  unsigned k = p.count; p.count = k + 1; dv_assert(k < 4, "pieces");
  if (k == 0) { p.src[0] = src; p.n[0] = n; } else if (k == 1) { p.src[1] = src; p.n[1] = n; } else if (k == 2) { p.src[2] = src; p.n[2] = n; } else { p.src[3] = src; p.n[3] = n; }
}
extern "C" {
bool stub_concat8(str_impl<char>* t, const char* src, int n) {
  dv_assert(t == g_p8.target, "text is appended to the output only"); 
  record(g_p8, src, n); return true;
}
bool stub_concat16(str_impl<wchar_t>* t, const wchar_t* src, int n) {
  dv_assert(t == g_p16.target, "text is appended to the output only"); 
  record(g_p16, src, n); return true;
}
dv_u32 dv_prove_mode();
}
static inline void expect_start(str_impl<char>& out) { g_p8.count = 0; g_p8.target = &out; }
static inline void expect_start(str_impl<wchar_t>& out) { g_p16.count = 0; g_p16.target = &out; }
static inline pieces<char>& pcs(const char*) { return g_p8; }
static inline pieces<wchar_t>& pcs(const wchar_t*) { return g_p16; }
// the text is now exactly old[0..oldn) + (a backslash) + src[0..n)
template<class T> static inline void expect_text(str_impl<T>& out, const T* old, dv_u64 oldn, bool slash, const T* src, dv_u64 srclen, dv_u64 n, const char* what) {
  if (dv_prove_mode()) {
    // oldn elements stay (the text was truncated or cleared to them), then the pieces
    dv_assert(out.m_data[oldn] == 0 && (out.m_length == oldn || out.m_length == 0), what);
    unsigned k = slash ? 1 : 0; pieces<T>& p = pcs(src);
    if (slash) { dv_assert(p.count > 0, "a separator is added"); if (p.count > 0) { dv_assert(p.n[0] < 0, "the separator text is used whole"); const T* x = p.src[0]; dv_assert(x[0] == '\\' && x[1] == 0, "the separator is a backslash"); } }
    const T* ps = slash ? p.src[1] : p.src[0]; int pn = slash ? p.n[1] : p.n[0];
    if (srclen == n) dv_assert((n == 0 && p.count == k) || (p.count == k + 1 && ps == src && (pn < 0 || (dv_u64)pn >= n)), what);
    else dv_assert((n == 0 && p.count == k) || (p.count == k + 1 && ps == src && pn >= 0 && (dv_u64)pn == n), what);
  } else {
    dv_u64 j = 0; const T* o = out.c_str();
    for (dv_u64 i = 0; i < oldn; ++i) dv_assert(o[j++] == old[i], what);
    if (slash) dv_assert(o[j++] == '\\', what);
    for (dv_u64 i = 0; i < n; ++i) dv_assert(o[j++] == src[i], what);
    dv_assert(o[j] == 0 && out.length() == j, what);
  }
}
