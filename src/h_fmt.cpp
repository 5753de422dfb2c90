// Properties of SoDa::Format (F01 - F09)
#include "pbt.hpp"
#include "Format.hxx"
#include "Exception.hxx"
#include <cmath>
#include <cfloat>
#include <type_traits>

using namespace pbt;
using std::string;

// ---------------------------------------------------------------- generators

static string anyBytes(Src &s, int small, int medium, int max) {
  string r; int n = s.size(small, medium, max);
  uint64_t style = s.draw(4);
  for(int i = 0; i < n; i++) {
    switch(style) {
    case 0: r.push_back((char)('a' + s.draw(26))); break;
    case 1: r.push_back(s.pickc("ab 01%%%x.,-\t\n")); break;
    case 2: r.push_back((char)(32 + s.draw(95))); break;
    default: r.push_back((char) s.draw(256)); break;
    }
  }
  return r;
}

static double anyDouble(Src &s) {
  uint64_t k = s.draw(12);
  double v;
  switch(k) {
  case 0: v = (double) s.draw(20); break;
  case 1: v = (double) (int64_t) s.draw(2000000) / pow(10.0, (double) s.draw(7)); break;
  case 2: { // near a power of ten
    int e = s.range(-320, 308); char b[32]; snprintf(b, sizeof b, "1e%d", e); v = strtod(b, 0);
    int ul = s.range(-3, 3); for(; ul > 0; ul--) v = nextafter(v, INFINITY); for(; ul < 0; ul++) v = nextafter(v, 0); break; }
  case 3: { // decimal ties and all-nines
    char b[64]; int n = s.range(1, 16); string d; bool nines = s.coin();
    for(int i = 0; i < n; i++) d.push_back(nines ? '9' : (char)('0' + s.draw(10)));
    d += s.coin() ? "5" : (s.coin() ? "49" : "51");
    snprintf(b, sizeof b, "e%d", s.range(-30, 30)); d += b;
    v = strtod(d.c_str(), 0); break; }
  case 4: { // small exponents, few digits
    char b[64]; snprintf(b, sizeof b, "%llue%d", (unsigned long long) s.draw(100000), s.range(-12, 12)); v = strtod(b, 0); break; }
  case 5: { uint64_t b = s.draw(1ULL << 52) >> s.draw(52); memcpy(&v, &b, 8); break; }  // subnormal
  case 6: v = DBL_MAX; for(int i = s.range(0, 3); i > 0; i--) v = nextafter(v, 0); break;
  case 7: v = (double) s.u64(); break;
  case 8: v = ldexp((double) (1 + s.draw(15)), s.range(-40, 60)); break;
  case 9: { static const double f[] = { 999.5, 999.9995, 99.95, 9.95, 0.9995, 9.5, 999.4999999, 1000, 100, 10, 1, 0.1, 0.001,
					 1e6, 999999.5, 1e-3, 1e-6, 2.5, 0.5, 1.5, 3.5, 0.125, 1e22, 1e23, 123456789012345678.0, 5e-324,
					 2.2250738585072014e-308, 1.7e308, 9.99e307 };
    v = f[s.draw(sizeof f / sizeof f[0])]; break; }
  default: { uint64_t b = s.draw(0); memcpy(&v, &b, 8); if(std::isnan(v) || std::isinf(v)) v = 1.0 / 3; break; }
  }
  if(s.coin()) v = -v;
  return v;
}

static string fd(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

static string C(const char *f, int p, double v) {
  int n = snprintf(nullptr, 0, f, p, v); string r(n + 1, 0); snprintf(&r[0], n + 1, f, p, v); r.resize(n); return r;
}

// ------------------------------------------------- reference model of a format

struct RefFormat {
  string orig;
  std::vector<string> vals;
  // text with all values supplied so far; unfilled counts visible placeholders
  string text(int *unfilled = nullptr, int *filled = nullptr) const {
    string r; size_t i = 0, n = orig.size(); int un = 0, fi = 0;
    while(i < n) {
      char ch = orig[i];
      if(ch != '%') { r += ch; i++; continue; }
      if(i + 1 >= n) { r += '%'; i++; continue; }
      char nx = orig[i + 1];
      if(nx == '%') { r += '%'; i += 2; continue; }
      if(nx < '0' || nx > '9') { r += '%'; r += nx; i += 2; continue; }
      size_t j = i + 1; uint64_t k = 0; string num;
      while(j < n && orig[j] >= '0' && orig[j] <= '9') { if(num == "0") num.clear(); num += orig[j]; if(k < 1000000000000ULL) k = k * 10 + (orig[j] - '0'); j++; }
      if(k < vals.size()) { r += vals[k]; fi++; }
      else { r += '%'; r += num; un++; }
      i = j;
    }
    if(unfilled) *unfilled = un;
    if(filled) *filled = fi;
    return r;
  }
};

// a format string made of placeholders, literals and stray percent signs
static string genFormat(Src &s, int maxidx, int toks_avg, int toks_max, bool nul_ok) {
  string r;
  auto l = s.loop(toks_avg, toks_max);
  uint64_t style = s.draw(4);
  while(s.more(l)) {
    switch(s.draw(style == 0 ? 3 : 10)) {
    case 0: case 3: case 4: {
      if(s.chance(1, 15)) {   // numbers nobody supplies a value for, in and beyond the range of the integer types
        static const char *f[] = { "4294967295", "4294967296", "4294967297", "4294967306", "2147483648", "18446744073709551616", "18446744073709551617", "99999999999999999999", "42949672960", "256", "65536", "65537", "00", "007", "0000000000000000000001", "340282366920938463463374607431768211456" };
        r += '%'; r += f[s.draw(sizeof f / sizeof *f)]; break; }
      int k = s.chance(1, 12) ? (int) s.draw(1000000) : s.chance(1, 6) ? maxidx : s.range(0, maxidx);
      r += '%' + std::to_string(k); break; }
    case 1: r += s.pickc("ab :,.-x"); break;
    case 2: r += anyBytes(s, 6, 40, style == 3 ? 500 : 40); break;
    case 5: r += "%%"; break;
    case 6: r += '%'; break;
    case 7: r += '%'; r += s.pickc("abdsf %0123."); break;
    case 8: r += (char)('0' + s.draw(10)); break;
    default: r += "%%" + std::to_string(s.range(0, maxidx)); break;
    }
  }
  if(!nul_ok) std::replace(r.begin(), r.end(), '\0', '0');
  return r;
}

// add a value of a random type; returns the text it must appear as
static string addAny(Src &s, SoDa::Format &f, Ctx &c, bool nul_ok = true) {
  switch(s.draw(6)) {
  case 1: { int v = s.i32(); f.addI(v); DESC(".addI(" << v << ")"); return std::to_string(v); }
  case 2: { unsigned long v = s.u64(); f.addU(v); DESC(".addU(" << v << ")"); return std::to_string(v); }
  case 3: { char v = (char) s.draw(256); if(!v && !nul_ok) v = '%'; f.addC(v); DESC(".addC(" << (int) v << ")"); return string(1, v); }
  case 4: { bool v = s.coin(); f.addB(v); DESC(".addB(" << v << ")"); return v ? "T" : "F"; }
  default: {
    string v = s.chance(1, 3) ? "%" + std::to_string(s.draw(12)) : anyBytes(s, 5, 30, 300);
    if(!nul_ok) std::replace(v.begin(), v.end(), '\0', '%');
    f.addS(v); DESC(".addS(" << quote(v, 60) << ")"); return v; }
  }
}

// ------------------------------------------------------------------------ F01

static void F01(Src &s, Ctx &c) {
  int maxidx = s.size(3, 14, 130);
  RefFormat m; m.orig = genFormat(s, maxidx, s.size(5, 14, 150), 400, true);
  SoDa::Format f(m.orig);
  DESC("Format(" << quote(m.orig) << ")");
  CHECK(f.str() == m.text(), "text before any value is " << quote(f.str()) << ", expected " << quote(m.text()));
  int n = s.size(4, 16, 140);
  if(s.coin()) n = maxidx + 1 + (int) s.draw(3);
  int filled = 0, un = 0;
  for(int i = 0; i < n; i++) {
    try { m.vals.push_back(addAny(s, f, c)); }
    catch(SoDa::Format::BadFormat &e) {
      // too many values may be refused, but never change the text
      RefFormat m2 = m; m2.vals.push_back("#"); 
      CHECK(m2.text() == m.text(), "a value for a placeholder was refused: " << e.what());
      CHECK(f.str() == m.text(), "a refused value changed the text");
      break;
    }
    if(i < 6 || i + 1 == n || s.chance(1, 8)) {
      string want = m.text(&un, &filled), got = f.str();
      CHECK(got == want, "after " << i + 1 << " values the text is " << quote(got) << ", expected " << quote(want));
    }
  }
  string want = m.text(&un, &filled);
  DESC(" -> " << quote(want));
  c.nontrivial(filled > 0);
  c.label("filled", filled > 0); c.label("unfilled", un > 0); c.label("two-digit placeholder", maxidx > 9 && n > 10);
  c.label("more values than placeholders", n > maxidx + 1); c.label("value contains %", want.find('%') != string::npos);
}

// ------------------------------------------------------------------------ F02

static void F02(Src &s, Ctx &c) {
  struct Obj { SoDa::Format f; RefFormat m; };
  std::vector<Obj> pool;
  auto mk = [&]() { RefFormat m; m.orig = genFormat(s, s.size(3, 12, 12), 5, 60, false); DESC("new(" << quote(m.orig) << ");"); return Obj{SoDa::Format(m.orig), m}; };
  pool.push_back(mk());
  auto verify = [&](Obj &o, const char *when) {
    string want = o.m.text(), got = o.f.str();
    CHECK(got == want, when << ": text of " << quote(o.m.orig) << " is " << quote(got) << ", expected " << quote(want));
  };
  int resets = 0, copies = 0, thrown = 0, adds_after = 0;
  auto l = s.loop(s.size(12, 30, 120), 300);
  while(s.more(l)) {
    size_t i = s.draw(pool.size());
    DESC(" #" << i);
    switch(s.draw(9)) {
    case 0: case 1: case 2: pool[i].m.vals.push_back(addAny(s, pool[i].f, c, false)); if(resets || copies) adds_after++; break;
    case 3: { SoDa::Format &r = pool[i].f.reset(); DESC(".reset()"); CHECK(&r == &pool[i].f, "reset returned another object"); pool[i].m.vals.clear(); resets++; break; }
    case 4: if(pool.size() < 5) { DESC(".copy"); pool.push_back(Obj{SoDa::Format(pool[i].f), pool[i].m}); copies++; } else pool.erase(pool.begin() + i);
      if(pool.empty()) pool.push_back(mk()); i = pool.size() - 1; break;
    case 5: { size_t j = s.draw(pool.size()); DESC(" assigned from #" << j); pool[i].f = pool[j].f; RefFormat mm = pool[j].m; pool[i].m = mm; copies++; break; }
    case 6: { // strict read
      int un; string want = pool[i].m.text(&un); bool threw = false; string got;
      DESC(".str(true)");
      try { got = pool[i].f.str(true); }
      catch(SoDa::Format::BadFormat &e) {
        threw = true; thrown++;
        SoDa::Exception *base = &e; string what = base->what();
        CHECK(what.find(pool[i].m.orig) != string::npos, "the bad-format message " << quote(what) << " does not name the format string " << quote(pool[i].m.orig));
      }
      CHECK(threw == (un > 0), "strict read " << (threw ? "threw" : "did not throw") << " with " << un << " unfilled placeholders of " << quote(pool[i].m.orig));
      if(!threw) CHECK(got == want, "strict text is " << quote(got) << ", expected " << quote(want));
      break; }
    case 7: { std::ostringstream os; DESC(".<<"); os << "<" << pool[i].f << ">"; string want = "<" + pool[i].m.text() + ">"; CHECK(os.str() == want, "streamed text is " << quote(os.str()) << ", expected " << quote(want)); break; }
    default: if(pool.size() < 5) { pool.push_back(mk()); i = pool.size() - 1; } break;
    }
    verify(pool[i], "after the step");
    if(s.chance(1, 4)) for(auto &o : pool) verify(o, "bystander");
  }
  for(auto &o : pool) { verify(o, "at the end"); verify(o, "at the end, again"); }
  c.nontrivial((resets > 0 || copies > 0) && adds_after > 0);
  c.label("reset", resets > 0); c.label("copy", copies > 0); c.label("bad format thrown", thrown > 0);
}

// ------------------------------------------------------------------------ F03

static string groupDigits(const string &digs, char sep, unsigned g) {
  string r; size_t n = digs.size();
  for(size_t i = 0; i < n; i++) { r += digs[i]; size_t left = n - 1 - i; if(sep && left > 0 && left % g == 0) r += sep; }
  return r;
}
static string padLeft(const string &t, size_t w, char fill) { return t.size() >= w ? t : string(w - t.size(), fill) + t; }
static char genSep(Src &s) { switch(s.draw(8)) { case 0: case 1: return '\0'; case 7: return (char) s.draw(256); default: return s.pickc(",._ '-0f"); } }
static unsigned hugeWidth(Src &s) { static const unsigned b[] = { 32767, 65535, 40000, 100000, 131071 }; return b[s.draw(5)] + (unsigned) s.draw(12); }
static unsigned genWidth(Src &s) { return s.chance(1, 150) ? hugeWidth(s) : (unsigned) s.size(14, 40, 3000); }

static void F03(Src &s, Ctx &c) {
  int n = 1 + (int) s.draw(5); string fs, want; bool nt = false;
  for(int i = 0; i < n; i++) fs += "[%" + std::to_string(i) + "]";
  SoDa::Format f(fs);
  for(int i = 0; i < n; i++) {
    int v = s.i32(); unsigned w = genWidth(s); char sep = genSep(s), fill = s.chance(1, 2) ? '\0' : s.chance(1, 5) ? (char) s.draw(256) : s.pickc("0*x -,");
    DESC(" addI(" << v << ", " << w << ", " << (int) sep << ", " << (int) fill << ")");
    string digs = std::to_string(v < 0 ? -(int64_t) v : (int64_t) v);
    string t = (v < 0 ? "-" : "") + groupDigits(digs, sep, 3);
    want += "[" + padLeft(t, w, fill ? fill : ' ') + "]";
    f.addI(v, w, sep, fill);
    nt = nt || w > t.size() || (sep && digs.size() > 3);
    c.label("negative", v < 0); c.label("grouped", sep && digs.size() > 3); c.label("padded", w > t.size()); c.label("fill", fill && w > t.size());
    c.label("extreme", v == INT32_MIN || v == INT32_MAX); c.label("first group full and negative", v < 0 && sep && digs.size() % 3 == 0);
  }
  string got = f.str();
  DESC(" -> " << quote(got, 120));
  CHECK(got == want, "got " << quote(got) << ", expected " << quote(want));
  c.nontrivial(nt);
}

// ------------------------------------------------------------------------ F04

static void F04(Src &s, Ctx &c) {
  int n = 1 + (int) s.draw(4); bool nt = false;
  string fs; std::vector<string> want1, want2;
  for(int i = 0; i < n; i++) fs += "%" + std::to_string(i) + "\n|\n";
  SoDa::Format f(fs);
  std::vector<string> cand[2];
  for(int i = 0; i < n; i++) {
    unsigned long v = s.u64(); char fmt = s.pickc("dxXohHDO"); unsigned w = genWidth(s); char sep = genSep(s); if(sep == '\n' || sep == '|') sep = '_';
    if(sep && !strchr("dD", fmt)) w %= 3001;   // zero-filled digits are grouped in quadratic time
    unsigned g = 1 + (unsigned) s.size(5, 12, 70);
    if(s.chance(1, 12)) { static const unsigned big[] = { 127, 255, 256, 32767, 65535, 65536, 0x7fffffffu, 0x80000000u, 0xfffffff0u, 0xffffffffu }; unsigned k = big[s.draw(10)]; g = k > 0xffffff00u ? k - (unsigned) s.draw(12) : k + (unsigned) s.draw(12); }
    bool defg = s.chance(1, 8);
    DESC(" addU(" << v << ", '" << fmt << "', " << w << ", " << (int) sep << (defg ? "" : ", " + std::to_string(g)) << ")");
    char b[64]; string t, t2;
    unsigned gg = defg ? 4 : g;
    switch(fmt) {
    case 'd': case 'D': snprintf(b, sizeof b, "%lu", v); t = padLeft(groupDigits(b, sep, gg), w, ' '); t2 = t; break;
    case 'o': case 'O': {
      snprintf(b, sizeof b, "%s%lo", v ? "0" : "", v); t = padLeft(b, w, '0');
      // the leading 0 is a prefix: a separator behind it may or may not be there
      t2 = groupDigits(t, sep, gg); t = t.substr(0, 1) + groupDigits(t.substr(1), sep, gg); break; }
    default: snprintf(b, sizeof b, (fmt == 'X' || fmt == 'H') ? "%lX" : "%lx", v); t = "0x" + groupDigits(padLeft(b, w, '0'), sep, gg); t2 = t; break;
    }
    cand[0].push_back(t); cand[1].push_back(t2);
    if(defg) f.addU(v, fmt, w, sep); else f.addU(v, fmt, w, sep, g);
    nt = nt || w > strlen(b) || (sep && strlen(b) > gg) || v > 0xffffffffUL;
    c.label("hex", strchr("xXhH", fmt)); c.label("octal", strchr("oO", fmt)); c.label("decimal", strchr("dD", fmt));
    c.label("grouped", sep && strlen(b) > gg); c.label("wide", w > strlen(b)); c.label("more than 32 bits", v > 0xffffffffUL);
    c.label("grouped and padded decimal", sep && strchr("dD", fmt) && t[0] == ' ');
  }
  string got = f.str(); DESC(" -> " << quote(got, 160));
  size_t pos = 0;
  for(int i = 0; i < n; i++) {
    bool ok = false; string lst;
    for(int k = 0; k < 2 && !ok; k++) {
      const string e = cand[k][i] + "\n|\n"; lst = cand[k][i];
      if(got.compare(pos, e.size(), e) == 0) { pos += e.size(); ok = true; }
    }
    CHECK(ok, "field " << i << ": got " << quote(got.substr(pos, 200)) << ", expected " << quote(cand[0][i]));
  }
  CHECK(pos == got.size(), "trailing text");
  c.nontrivial(nt);
}

// ------------------------------------------------------------------------ F05

static string oneF(double v, char fmt, unsigned w, unsigned p) { SoDa::Format f("%0"); f.addF(v, fmt, w, p); return f.str(); }

static void F05(Src &s, Ctx &c) {
  int n = 1 + (int) s.draw(3);
  SoDa::Format multi("%0\x01%1\x01%2"); string multi_want;
  for(int i = 0; i < n; i++) {
    bool special = s.chance(1, 8);
    double v = special ? (s.coin() ? INFINITY : NAN) : anyDouble(s); if(special && s.coin()) v = -v;
    char fmt = special ? s.pickc("fsge") : s.pickc("fsg");
    unsigned p = s.chance(1, 100) ? 400 + (unsigned) s.draw(2500) : (unsigned) s.size(9, 30, 400), w = s.chance(1, 3) ? 0 : s.chance(1, 150) ? hugeWidth(s) : (unsigned) s.size(20, 50, 900);
    DESC(" addF(" << fd(v) << ", '" << fmt << "', " << w << ", " << p << ")");
    string want = std::isnan(v) ? "nan" : std::isinf(v) ? (v < 0 ? "-inf" : "inf") : C(fmt == 'f' ? "%.*f" : fmt == 's' ? "%.*e" : "%.*g", (int) p, v);
    string got = oneF(v, fmt, w, p), t = got;
    while(!t.empty() && t.back() == ' ') t.pop_back();
    CHECK(t == want, fd(v) << " as '" << fmt << "' width " << w << " precision " << p << " gives " << quote(got) << ", expected " << quote(want));
    CHECK(got.size() >= w, "field " << quote(got) << " is narrower than " << w);
    if(s.chance(1, 4)) { // the same with defaults
      SoDa::Format d("%0"); d.addF(v); string dt = d.str(); while(!dt.empty() && dt.back() == ' ') dt.pop_back();
      string dw = (std::isnan(v) || std::isinf(v)) ? want : C("%.*f", 6, v); CHECK(dt == dw, "default addF(" << fd(v) << ") gives " << quote(dt) << ", expected " << quote(dw));
    }
    multi.addF(v, fmt, w, p); multi_want += (i ? "\x01" : "") + got;
    DESC("=" << quote(got, 60));
    c.nontrivial(special || w > want.size() || p > 0);
    c.label("special", special); c.label("padded", w > want.size()); c.label("precision > 17", p > 17); c.label("negative", std::signbit(v));
    c.label("subnormal", !special && std::fpclassify(v) == FP_SUBNORMAL);
  }
  for(int i = n; i < 3; i++) multi_want += "\x01%" + std::to_string(i);
  CHECK(multi.str() == multi_want, "fields side by side give " << quote(multi.str()) << ", expected " << quote(multi_want));
}

// ------------------------------------------------------------------------ F06

static void checkEng(double v, unsigned w, int n, const string &got) {
#define BAD(why) CHECK(false, fd(v) << " in engineering notation, width " << w << ", " << n << " digits, gives " << quote(got) << ": " << why)
  if(got.size() < w) BAD("narrower than its width");
  string t = got; while(!t.empty() && t.back() == ' ') t.pop_back();
  if(v == 0) {
    size_t b = (!t.empty() && (t[0] == ' ')) ? 1 : 0; string z = t.substr(b); char *end;
    if(z.empty() || z[0] == ' ') BAD("not left justified");
    double d = strtod(z.c_str(), &end);
    if(*end || d != 0) BAD("not a zero");
    return;
  }
  size_t i = 0;
  if(t.empty() || t[0] != (v < 0 ? '-' : ' ')) BAD("wrong sign column");
  i = 1; string ip, fp, ep;
  while(i < t.size() && isdigit((unsigned char) t[i])) ip += t[i++];
  if(ip.empty() || ip.size() > 3 || ip[0] == '0') BAD("integer part is not between 1 and 999");
  if(i < t.size() && t[i] == '.') { i++; while(i < t.size() && isdigit((unsigned char) t[i])) fp += t[i++]; if(fp.empty()) BAD("radix point without digits"); }
  if(i >= t.size() || t[i] != 'e') BAD("no exponent"); i++;
  if(i >= t.size() || (t[i] != '+' && t[i] != '-')) BAD("no exponent sign");
  bool eneg = t[i++] == '-';
  while(i < t.size() && isdigit((unsigned char) t[i])) ep += t[i++];
  if(ep.empty() || ep.size() > 3 || i != t.size()) BAD("malformed exponent");
  int e = atoi(ep.c_str()); if(eneg) e = -e;
  if(e % 3) BAD("exponent is not a multiple of three");
  if((int) ip.size() > n) {
    if(!fp.empty()) BAD("too many digits");
    for(size_t k = n; k < ip.size(); k++) if(ip[k] != '0') BAD("digits past the last significant one");
  } else if((int)(ip.size() + fp.size()) != n) BAD("wrong number of significant digits");
  string num = ip + (fp.empty() ? "" : "." + fp) + "e" + std::to_string(e);
  long double x = strtold(num.c_str(), nullptr), av = fabsl((long double) v);
  string us = "1e" + std::to_string(e + (int) ip.size() - n);
  long double unit = strtold(us.c_str(), nullptr);
  if(!(fabsl(x - av) <= unit * 0.5L * 1.05L)) BAD("off by more than half a unit of the last digit");
#undef BAD
}

static void F06(Src &s, Ctx &c) {
  int n = s.range(1, 17); unsigned w = s.chance(1, 3) ? 0 : s.chance(1, 150) ? hugeWidth(s) : (unsigned) s.size(24, 60, 600);
  double v = s.chance(1, 40) ? (s.coin() ? -0.0 : 0.0) : anyDouble(s);
  DESC("addF(" << fd(v) << ", 'e', " << w << ", " << n << ")");
  string got = oneF(v, 'e', w, n);
  DESC(" -> " << quote(got, 80));
  checkEng(v, w, n, got);
  // the same field between others
  if(s.chance(1, 6)) {
    double v2 = anyDouble(s); SoDa::Format f("a%0b%1c%0"); f.addF(v, 'e', w, n).addF(v2, 'e', 0, 5);
    string want = "a" + got + "b" + oneF(v2, 'e', 0, 5) + "c" + got;
    CHECK(f.str() == want, "in context: " << quote(f.str()) << ", expected " << quote(want));
  }
  c.nontrivial(v != 0);
  c.label("zero", v == 0); c.label("negative", v < 0); c.label("fewer digits than the integer part", n < 3); c.label("n > 11", n > 11);
  c.label("large exponent", fabs(v) > 1e99 || (v != 0 && fabs(v) < 1e-99)); c.label("wide", w > 30);
}

// ------------------------------------------------------------------------ F07

static void F07(Src &s, Ctx &c) {
  struct Sep { Sep() { SoDa::Format::separator = '.'; } ~Sep() { SoDa::Format::separator = '.'; } } guard;
  char r = s.chance(1, 5) ? (char) (1 + s.draw(255)) : s.pickc(",;'_e-+0 :d");
  int n = 1 + s.size(4, 10, 30), floats = 0, changed = 0;
  string fs, want; 
  DESC("radix '" << r << "'");
  std::vector<std::function<void(SoDa::Format &)>> adds; std::vector<bool> isf;
  for(int i = 0; i < n; i++) {
    fs += s.pickc("|./,e") + string("%") + std::to_string(i) + ".x";
    switch(s.draw(8)) {
    case 0: { int v = s.i32(); char sep = s.pickc(".,"); adds.push_back([=](SoDa::Format &f) { f.addI(v, 5, sep); }); isf.push_back(false); DESC(" I" << v); break; }
    case 1: { string v = anyBytes(s, 6, 20, 20) + "."; adds.push_back([=](SoDa::Format &f) { f.addS(v, 3); }); isf.push_back(false); DESC(" S"); break; }
    case 2: { unsigned long v = s.u64(); adds.push_back([=](SoDa::Format &f) { f.addU(v, 'd', 4, '.', 3); }); isf.push_back(false); DESC(" U" << v); break; }
    case 3: { bool b = s.coin(); adds.push_back([=](SoDa::Format &f) { if(b) f.addC('.'); else f.addB(b); }); isf.push_back(false); break; }
    default: {
      bool special = s.chance(1, 12); double v = special ? (s.coin() ? NAN : -INFINITY) : s.chance(1, 10) ? 0.0 : anyDouble(s);
      char fmt = s.pickc("fsge"); unsigned p = (unsigned) s.size(6, 17, 40), w = s.coin() ? 0 : (unsigned) s.size(20, 40, 200);
      if(fmt == 'e' && p == 0) p = 1;
      adds.push_back([=](SoDa::Format &f) { f.addF(v, fmt, w, p); }); isf.push_back(!special); if(!special) floats++; DESC(" F(" << fd(v) << ",'" << fmt << "'," << w << "," << p << ")"); break; }
    }
  }
  // each field on its own, with the usual radix point
  std::vector<string> fields;
  for(int i = 0; i < n; i++) {
    SoDa::Format f("%0"); adds[i](f); string t = f.str();
    if(isf[i]) { size_t q = t.find('.'); if(q != string::npos) { t[q] = r; changed++; } }
    fields.push_back(t);
  }
  RefFormat m; m.orig = fs; m.vals = fields; want = m.text();
  SoDa::Format::separator = r;
  SoDa::Format f(fs);
  for(int i = 0; i < n; i++) {
    adds[i](f);
    SoDa::Format g("%0"); adds[i](g);
    CHECK(g.str() == fields[i], "field " << i << " with radix '" << r << "' is " << quote(g.str()) << ", expected " << quote(fields[i]));
  }
  CHECK(f.str() == want, "with radix '" << r << "': " << quote(f.str()) << ", expected " << quote(want));
  c.nontrivial(changed > 0 && r != '.');
  c.label("float field with a radix point", changed > 0); c.label("radix is a digit, sign, e or blank", strchr("e-+0 d", r)); 
}

// ------------------------------------------------------------------------ F08

static void F08(Src &s, Ctx &c) {
  int n = 1 + (int) s.draw(4); string fs, want; bool nt = false;
  for(int i = 0; i < n; i++) fs += "<%" + std::to_string(i) + ">";
  SoDa::Format f(fs);
  for(int i = 0; i < n; i++) {
    want += "<";
    switch(s.draw(8)) {
    case 0: { char ch = (char) s.draw(256); f.addC(ch); want += ch; DESC(" addC(" << (int) ch << ")"); break; }
    case 1: { bool b = s.coin(); f.addB(b); want += b ? 'T' : 'F'; DESC(" addB(" << b << ")"); break; }
    default: {
      string v = anyBytes(s, 10, 80, 6000); if(s.chance(1, 400) && !v.empty()) { size_t want = 60000 + s.draw(80000); string w; while(w.size() < want) w += v; v = w; } int w = s.chance(1, 100) ? (int) hugeWidth(s) : s.size(16, 80, 7000);
      if(s.chance(1, 5)) w = (int) v.size() + s.range(-2, 2);
      if(w < 0) w = 0;
      size_t p = v.size() < (size_t) w ? w - v.size() : 0; bool left = s.coin();
      want += left ? v + string(p, ' ') : string(p, ' ') + v;
      if(w == 0 && s.coin()) f.addS(v); else f.addS(v, left ? -w : w);
      DESC(" addS(" << quote(v, 40) << ", " << (left ? -w : w) << ")");
      nt = nt || !v.empty(); c.label("padded left", p && !left); c.label("width above 32767", w > 32767); c.label("padded right", p && left); c.label("exact", w && (size_t) w == v.size()); c.label("longer than width", v.size() > (size_t) w); c.label("long", v.size() > 500); }
    }
    want += ">";
  }
  CHECK(f.str() == want, "got " << quote(f.str()) << ", expected " << quote(want));
  c.nontrivial(nt);
}

// ------------------------------------------------------------------------ F09

class MyFormat : public SoDa::Format_ext<MyFormat> {
public:
  MyFormat(const string &s) : SoDa::Format_ext<MyFormat>(s, this) {}
  MyFormat &mine(const string &v) { addS("<" + v + ">"); count++; return *this; }
  int count = 0;
};
template<typename R> static void sameObj(R &r, MyFormat &f) {
  CHECK((std::is_same<R, MyFormat>::value), "an add method does not return the extended type");
  CHECK((const void *) &r == (const void *) &f, "an add method returned another object");
}
template<typename F, typename V> static auto addIFill(F &f, V v, unsigned w, char sep, char fill, int) -> decltype(f.addI(v, w, sep, fill)) { return f.addI(v, w, sep, fill); }
template<typename F, typename V> static F &addIFill(F &, V, unsigned, char, char, long) { throw Failure{"the extended addI takes no fill character"}; }

static void F09(Src &s, Ctx &c) {
  string fs = genFormat(s, 6, 8, 60, true);
  for(int i = 0; i < 4; i++) fs += "%" + std::to_string(i) + " ";
  SoDa::Format b(fs); MyFormat x(fs);
  DESC("Format_ext(" << quote(fs, 80) << ")");
  int n = s.size(6, 10, 60); bool nt = false;
  for(int i = 0; i < n; i++) {
    bool dflt = s.chance(1, 4);
    switch(s.draw(8)) {
    case 0: { int v = s.i32(); unsigned w = (genWidth(s) % (s.chance(1, 60) ? 1000000 : 60)); char sep = genSep(s), fill = s.pickc("0*- "); int k = (int) s.draw(4);
      DESC(".addI(" << v << "," << w << ")");
      if(k == 0) { b.addI(v); sameObj(x.addI(v), x); }
      else if(k == 1) { b.addI(v, w); sameObj(x.addI(v, w), x); }
      else if(k == 2) { b.addI(v, w, sep); sameObj(x.addI(v, w, sep), x); }
      else { b.addI(v, w, sep, fill); sameObj(addIFill(x, v, w, sep, fill, 0), x); }
      break; }
    case 1: case 2: { unsigned long v = s.u64(); char fmt = s.pickc("dxXohH"); unsigned w = (genWidth(s) % (s.chance(1, 60) ? 1000000 : 60)), g = 1 + (unsigned) s.draw(8); char sep = genSep(s); int k = (int) s.draw(5); if(sep) w %= 3001;
      DESC(".addU(" << v << ",'" << fmt << "')"); nt = nt || v > 0xffffffffUL;
      if(k == 0) { b.addU(v); sameObj(x.addU(v), x); }
      else if(k == 1) { b.addU(v, fmt); sameObj(x.addU(v, fmt), x); }
      else if(k == 2) { b.addU(v, fmt, w); sameObj(x.addU(v, fmt, w), x); }
      else if(k == 3) { b.addU(v, fmt, w, sep); sameObj(x.addU(v, fmt, w, sep), x); }
      else { b.addU(v, fmt, w, sep, g); sameObj(x.addU(v, fmt, w, sep, g), x); }
      break; }
    case 3: case 4: { double v = s.chance(1, 10) ? -INFINITY : anyDouble(s); char fmt = s.pickc("fsge"); unsigned w = (unsigned) s.draw(40), p = 1 + (unsigned) s.draw(17); int k = (int) s.draw(4);
      DESC(".addF(" << fd(v) << ",'" << fmt << "')"); nt = true;
      if(k == 0) { b.addF(v); sameObj(x.addF(v), x); }
      else if(k == 1) { b.addF(v, fmt); sameObj(x.addF(v, fmt), x); }
      else if(k == 2) { b.addF(v, fmt, w); sameObj(x.addF(v, fmt, w), x); }
      else { b.addF(v, fmt, w, p); sameObj(x.addF(v, fmt, w, p), x); }
      break; }
    case 5: { string v = anyBytes(s, 8, 30, 100); int w = s.chance(1, 100) ? (int) hugeWidth(s) : s.range(-20, 20); DESC(".addS(" << quote(v, 20) << ")");
      if(dflt) { b.addS(v); sameObj(x.addS(v), x); } else { b.addS(v, w); sameObj(x.addS(v, w), x); } break; }
    case 6: { char v = (char) s.draw(256); DESC(".addC"); b.addC(v); sameObj(x.addC(v), x); break; }
    default: { bool v = s.coin(); DESC(".addB(" << v << ")"); b.addB(v); sameObj(x.addB(v), x); break; }
    }
    if(s.chance(1, 6)) { b.addS("<m>"); int k = x.count; sameObj(x.mine("m"), x); CHECK(x.count == k + 1, "own method lost"); }
    if(s.chance(1, 12)) { b.reset(); x.reset(); DESC(".reset()"); }
    CHECK(x.str() == b.str(), "extended text " << quote(x.str()) << ", base text " << quote(b.str()));
    if(s.chance(1, 6)) { std::ostringstream ox, ob; ox << x; ob << b; CHECK(ox.str() == ob.str(), "extended stream output " << quote(ox.str()) << ", base stream output " << quote(ob.str())); }
    if(s.chance(1, 6)) { string tx, tb; try { tx = x.str(true); } catch(SoDa::Format::BadFormat &e) { tx = string("threw ") + e.what(); } try { tb = b.str(true); } catch(SoDa::Format::BadFormat &e) { tb = string("threw ") + e.what(); } CHECK(tx == tb, "strict read of the extended object: " << quote(tx) << ", of the base object: " << quote(tb)); }
  }
  c.nontrivial(nt && n > 1);
}

namespace pbt {
const std::vector<Prop> props = { {"F01", F01}, {"F02", F02}, {"F03", F03}, {"F04", F04}, {"F05", F05}, {"F06", F06}, {"F07", F07}, {"F08", F08}, {"F09", F09} };
void harnessInit() {}
}
