#define private public
#define protected public
#include "pch.h"
#include "dv.h"
#include "clink/terminal/src/attributes.cpp"
// The state of the text attributes as five settings, each set or not: colours (16 bits,
// 15 rgb bits and a flag), bold, underline, reverse.
struct A { dv_u32 fgs, fg, bgs, bg, bos, bo, uns, un, res, re; };
static A look(const attributes& a) {
  auto f = a.get_fg(); auto b = a.get_bg(); auto o = a.get_bold(); auto u = a.get_underline(); auto r = a.get_reverse();
  return { f.set, f.value.value, b.set, b.value.value, o.set, o.value, u.set, u.value, r.set, r.value };
}
static attributes any(const char* name) {
  attributes a; dv_u64 v = dv_scalar(name, 0, ~0ull); a.m_state = v;
  dv_assume(a.m_flags.all <= 31); return a;
}
static bool same(const A& x, const A& y) { return x.fgs == y.fgs && x.fg == y.fg && x.bgs == y.bgs && x.bg == y.bg && x.bos == y.bos && x.bo == y.bo && x.uns == y.uns && x.un == y.un && x.res == y.res && x.re == y.re; }
// what is set, with its values
static bool same_set(const A& x, const A& y) { return x.fgs == y.fgs && x.bgs == y.bgs && x.bos == y.bos && x.uns == y.uns && x.res == y.res && (!x.fgs || x.fg == y.fg) && (!x.bgs || x.bg == y.bg) && (!x.bos || x.bo == y.bo) && (!x.uns || x.un == y.un) && (!x.res || x.re == y.res); }
extern "C" {
void H_merge() {
  attributes f = any("first"), s = any("second"); A x = look(f), y = look(s);
  A m = look(attributes::merge(f, s));
  dv_assert(m.fgs == (x.fgs | y.fgs) && m.bgs == (x.bgs | y.bgs) && m.bos == (x.bos | y.bos) && m.uns == (x.uns | y.uns) && m.res == (x.res | y.res), "merge: set in one of the two");
  dv_assert(m.fg == (y.fgs ? y.fg : x.fg) && m.bg == (y.bgs ? y.bg : x.bg), "merge: colours of the second where set, else of the first");
  dv_assert(m.bo == (y.bos ? y.bo : x.bo), "merge: bold of the second where set, else of the first");
  dv_assert(m.un == (y.uns ? y.un : x.un), "merge: underline of the second where set, else of the first");
  dv_assert(m.re == (y.res ? y.re : x.re), "merge: reverse of the second where set, else of the first");
  dv_reach("end");
}
void H_diff() {
  attributes f = any("from"), t = any("to"); A x = look(f), y = look(t);
  A d = look(attributes::diff(f, t));
  dv_assert(d.fgs == (y.fgs && x.fg != y.fg) && d.bgs == (y.bgs && x.bg != y.bg), "diff: the colours that change");
  dv_assert(d.bos == (y.bos && x.bo != y.bo), "diff: bold where it changes");
  dv_assert(d.uns == (y.uns && x.un != y.un), "diff: underline where it changes");
  dv_assert(d.res == (y.res && x.re != y.re), "diff: reverse where it changes");
  dv_assert(d.fg == y.fg && d.bg == y.bg && d.bo == y.bo && d.un == y.un && d.re == y.re, "diff: to the values of the second");
  // what is written for the difference leads from one to the other
  A m = look(attributes::merge(f, attributes::diff(f, t)));
  dv_assert((!y.fgs || m.fg == y.fg) && (!y.bgs || m.bg == y.bg) && (!y.bos || m.bo == y.bo) && (!y.uns || m.un == y.un) && (!y.res || m.re == y.re), "first merged with diff is second");
  dv_reach("end");
}
void H_set() {
  attributes a = any("state"); A x = look(a), y; dv_u32 op = (dv_u32)dv_scalar("op", 0, 8), v = (dv_u32)dv_scalar("value", 0, 0xffffff); bool on = v & 1;
  dv_u32 r = v & 255, g = v >> 8 & 255, b = v >> 16, rgb = r >> 3 | g >> 3 << 5 | b >> 3 << 10 | 0x8000, code = r == 231 ? 15 : r; y = x;
  if (op == 0) { a.reset_fg(); y.fgs = 1; y.fg = 231; }
  else if (op == 1) { a.reset_bg(); y.bgs = 1; y.bg = 231; }
  else if (op == 2) { a.set_fg((uint8)r); y.fgs = 1; y.fg = code; }
  else if (op == 3) { a.set_bg((uint8)r); y.bgs = 1; y.bg = code; }
  else if (op == 4) { a.set_fg((uint8)r, (uint8)g, (uint8)b); y.fgs = 1; y.fg = rgb; }
  else if (op == 5) { a.set_bg((uint8)r, (uint8)g, (uint8)b); y.bgs = 1; y.bg = rgb; }
  else if (op == 6) { a.set_bold(on); y.bos = 1; y.bo = on; }
  else if (op == 7) { a.set_underline(on); y.uns = 1; y.un = on; }
  else { a.set_reverse(on); y.res = 1; y.re = on; }
  A z = look(a);
  dv_assert(z.fgs == y.fgs && z.fg == y.fg, "the foreground"); dv_assert(z.bgs == y.bgs && z.bg == y.bg, "the background");
  dv_assert(z.bos == y.bos && z.bo == y.bo, "bold"); dv_assert(z.uns == y.uns && z.un == y.un, "underline"); dv_assert(z.res == y.res && z.re == y.re, "reverse");
  dv_assert(a.m_flags.all <= 31, "no other flag");
  auto fg = a.get_fg(), bg = a.get_bg();
  dv_assert(fg.is_default == (z.fg == 231) && bg.is_default == (z.bg == 231), "which colours are the default");
  RGB_t c; fg.value.as_888(c); dv_u32 p = z.fg;
  dv_assert(c.r >> 3 == (p & 31) && c.g >> 3 == (p >> 5 & 31) && c.b >> 3 == (p >> 10 & 31), "a colour keeps the upper bits of its parts");
  dv_assert((c.r & 7) == (p & 7) && (c.g & 7) == (p >> 5 & 7) && (c.b & 7) == (p >> 10 & 7), "and fills the lower ones");
  dv_reach("end");
}
void H_equal() {
  attributes f = any("left"), s = any("right"); A x = look(f), y = look(s);
  bool e = (!(x.fgs && y.fgs) || x.fg == y.fg) && (!(x.bgs && y.bgs) || x.bg == y.bg) && (!(x.bos && y.bos) || x.bo == y.bo) && (!(x.uns && y.uns) || x.un == y.un) && (!(x.res && y.res) || x.re == y.re);
  dv_assert((f == s) == e, "equal: the same where both are set"); dv_assert((f != s) == !e, "unequal");
  attributes d(attributes::defaults); A z = look(d);
  dv_assert(z.fgs && z.bgs && z.bos && z.uns && z.res && z.fg == 231 && z.bg == 231 && !z.bo && !z.un && !z.re, "the defaults set everything");
  dv_assert(look(attributes()).fgs == 0 && attributes().m_state == 0, "nothing is set at first"); dv_reach("end");
}
}
