// Properties of SoDa::Options (O01 - O09)
#include "pbt.hpp"
#include "Options.hxx"
#include <cfloat>
#include <cmath>
#include <limits>
using namespace pbt;
using std::string;

// ------------------------------------------------------------ declared options

// a type of the user's own: two integers in one value
struct Span { int a = 0, b = 0; bool operator==(const Span &o) const { return a == o.a && b == o.b; } bool operator!=(const Span &o) const { return !(*this == o); } bool operator<(const Span &o) const { return a != o.a ? a < o.a : b < o.b; } };
static std::istream &operator>>(std::istream &i, Span &s) { return i >> s.a >> s.b; }
static std::ostream &operator<<(std::ostream &o, const Span &s) { return o << s.a << ".." << s.b; }

enum Type { INT, UINT, LONG, ULONG, SHORT, FLOAT, DOUBLE, BOOL, CHAR, STRING, USHORT, LLONG, ULLONG, LDOUBLE, SPAN, NTYPES };
static const char *tname[] = { "int", "unsigned", "long", "ulong", "short", "float", "double", "bool", "char", "string", "ushort", "llong", "ullong", "long double", "user type" };
static bool isSignedNum(Type t) { return t == LLONG || t == LDOUBLE || t == INT || t == LONG || t == SHORT || t == FLOAT || t == DOUBLE; }

template<typename T> static string canon(const T &v) { std::ostringstream o; o.precision(sizeof(T) > 8 ? 21 : 17); o << v; return o.str(); }
static string canon(const char &v) { return "#" + std::to_string((int) v); }
static string canon(const bool &v) { return v ? "true" : "false"; }
static string canon(const string &v) { return v; }

static unsigned hashStr(const string &s) { unsigned h = 5381; for(unsigned char ch : s) h = h * 33 + ch; return h ^ (h >> 13); }

struct Slot {        // where values go
  bool pres = false;
  int i = 0; unsigned u = 0; long l = 0; unsigned long ul = 0; short sh = 0; float f = 0; double d = 0; bool b = false; char ch = 0; string s; unsigned short us = 0; long long ll = 0; unsigned long long ull = 0; long double ld = 0; Span sp;
  std::vector<int> vi; std::vector<unsigned> vu; std::vector<long> vl; std::vector<unsigned long> vul; std::vector<short> vsh;
  std::vector<float> vf; std::vector<double> vd; std::vector<bool> vb; std::vector<char> vch; std::vector<string> vs;
  std::vector<unsigned short> vus; std::vector<long long> vll; std::vector<unsigned long long> vull; std::vector<long double> vld; std::vector<Span> vsp;
};
template<typename T> struct Mem;
#define MEM(T, sc, ve) template<> struct Mem<T> { static T &sca(Slot &x) { return x.sc; } static std::vector<T> &vec(Slot &x) { return x.ve; } }
MEM(int, i, vi); MEM(unsigned, u, vu); MEM(long, l, vl); MEM(unsigned long, ul, vul); MEM(short, sh, vsh);
MEM(float, f, vf); MEM(double, d, vd); MEM(bool, b, vb); MEM(char, ch, vch); MEM(string, s, vs); MEM(unsigned short, us, vus); MEM(long long, ll, vll); MEM(unsigned long long, ull, vull); MEM(long double, ld, vld); MEM(Span, sp, vsp);

template<typename T> static T fromText(const string &t) { std::istringstream i(t); T v; i >> v; return v; }
template<> string fromText<string>(const string &t) { return t; }
template<> char fromText<char>(const string &t) { return t[0]; }
template<> float fromText<float>(const string &t) { return strtof(t.c_str(), 0); }
template<> long double fromText<long double>(const string &t) { return strtold(t.c_str(), 0); }
template<> double fromText<double>(const string &t) { return strtod(t.c_str(), 0); }
template<> bool fromText<bool>(const string &t) { if(strchr("tT", t[0]) && t[0]) return true; if(strchr("fF", t[0]) && t[0]) return false; return atol(t.c_str()) != 0; }

#define BYTYPE(type, CALL) switch(type) { case INT: { typedef int T; CALL; } break; case UINT: { typedef unsigned T; CALL; } break; case LONG: { typedef long T; CALL; } break; \
  case ULONG: { typedef unsigned long T; CALL; } break; case SHORT: { typedef short T; CALL; } break; case FLOAT: { typedef float T; CALL; } break; case DOUBLE: { typedef double T; CALL; } break; \
  case BOOL: { typedef bool T; CALL; } break; case CHAR: { typedef char T; CALL; } break; \
  case USHORT: { typedef unsigned short T; CALL; } break; case LLONG: { typedef long long T; CALL; } break; case ULLONG: { typedef unsigned long long T; CALL; } break; \
  case LDOUBLE: { typedef long double T; CALL; } break; case SPAN: { typedef Span T; CALL; } break; default: { typedef string T; CALL; } break; }

struct Decl {
  char kind; Type type; bool has_def; string def; string lname; char ab; string doc, err; int test; bool plain;   // test < 0: none; plain: declared with as few arguments as possible
  bool accepts(const string &canonical) const { return test < 0 || (int)(hashStr(canonical) % 4) != test; }
  bool defaulted() const { return kind == 'V' || has_def; }
};

struct Decls { std::vector<Decl> d; std::vector<string> info; };

template<typename T> static SoDa::Options &declareOne(SoDa::Options &o, const Decl &d, Slot &x) {
  Decl dd = d;
  std::function<bool(T)> tf = [dd](T v) { return dd.accepts(canon(v)); };
  bool t = d.test >= 0;
  if(d.kind == 'V') { if(t && d.err.empty()) return o.addV<T>(&Mem<T>::vec(x), d.lname, d.ab, d.doc, tf); else if(t) return o.addV<T>(&Mem<T>::vec(x), d.lname, d.ab, d.doc, tf, d.err); else if(d.doc.empty()) return o.addV<T>(&Mem<T>::vec(x), d.lname, d.ab); else return o.addV<T>(&Mem<T>::vec(x), d.lname, d.ab, d.doc); }
  else if(d.has_def) {
    T def = fromText<T>(d.def);
    if(t && d.err.empty()) return o.add<T>(&Mem<T>::sca(x), d.lname, d.ab, def, d.doc, tf); else if(t) return o.add<T>(&Mem<T>::sca(x), d.lname, d.ab, def, d.doc, tf, d.err); else if(d.plain) return o.add<T>(&Mem<T>::sca(x), d.lname, d.ab, def, d.doc); else return o.add<T>(&Mem<T>::sca(x), d.lname, d.ab, def, d.doc, [](T) { return true; }, d.err);
  } else {
    if(t && d.err.empty()) return o.add<T>(&Mem<T>::sca(x), d.lname, d.ab, d.doc, tf); else if(t) return o.add<T>(&Mem<T>::sca(x), d.lname, d.ab, d.doc, tf, d.err);
    else {
      // with a string target the shorter calls are ambiguous (or mean another overload)
      if constexpr(!std::is_same<T, string>::value) { if(d.plain && d.doc.empty()) { return o.add<T>(&Mem<T>::sca(x), d.lname, d.ab); } if(d.plain) { return o.add<T>(&Mem<T>::sca(x), d.lname, d.ab, d.doc); } }
      return o.add<T>(&Mem<T>::sca(x), d.lname, d.ab, d.doc, [](T) { return true; });
    }
  }
}

struct Parser {
  SoDa::Options o; std::vector<Slot> slots; const Decls *ds;
  void declare(size_t from, size_t to) {
    for(size_t k = from; k < to; k++) {
      const Decl &e = ds->d[k]; SoDa::Options *r = nullptr;
      if(e.kind == 'P') { if(e.doc.empty()) r = &o.addP(&slots[k].pres, e.lname, e.ab); else r = &o.addP(&slots[k].pres, e.lname, e.ab, e.doc); }
      else BYTYPE(e.type, r = &declareOne<T>(o, e, slots[k]));
      CHECK(r == &o, "declaring --" << e.lname << " returns another parser");
    }
  }
  Parser(const Decls &d, bool kvp = false, bool prefill = false, size_t first = SIZE_MAX) : o(kvp), slots(d.d.size()), ds(&d) {
    for(auto &x : slots) { x.i = 77; x.s = "junk"; x.pres = true; x.b = true; x.d = 5; }
    if(prefill) for(size_t k = 0; k < d.d.size(); k++) if(d.d[k].kind == 'V') BYTYPE(d.d[k].type, Mem<T>::vec(slots[k]).push_back(T()));
    for(auto &i : d.info) CHECK(&o.addInfo(i) == &o, "addInfo returns another parser");
    declare(0, std::min(first, d.d.size()));
  }
  string show(size_t k) {
    const Decl &e = ds->d[k]; Slot &x = slots[k];
    if(e.kind == 'P') return x.pres ? "true" : "false";
    string r;
    if(e.kind == 'S') { BYTYPE(e.type, r = canon(Mem<T>::sca(x))); return r; }
    BYTYPE(e.type, for(T v : Mem<T>::vec(x)) { r += "<"; r += canon(v); r += ">"; });
    return r;
  }
};
// what show() must say for a value text
static string canonOf(Type t, const string &text) { string r; BYTYPE(t, r = canon(fromText<T>(text))); return r; }
static string canonZero(Type t) { string r; BYTYPE(t, r = canon(T())); return r; }

static string textBytes(Src &s, int small, int medium, int max) {
  string r; int n = s.size(small, medium, max); uint64_t style = s.draw(4);
  for(int i = 0; i < n; i++) switch(style) {
    case 0: r += (char)('a' + s.draw(26)); break;
    case 1: r += s.pickc("ab=,- 1%\t\n'"); break;
    case 2: r += (char)(33 + s.draw(94)); break;
    default: r += (char)(1 + s.draw(255)); break; }
  return r;
}

// a text that converts to the type; neg: negative numbers allowed
static string genText1(Src &s, Type t, bool neg) {
  char b[64];
  switch(t) {
  case INT: { int v = s.i32(); if(!neg && v < 0) v = v == INT32_MIN ? 7 : -v; if(s.chance(1, 10) && v >= 0) return "+" + std::to_string(v); return std::to_string(v); }
  case SHORT: { int v = (int) (int16_t) s.draw(65536); if(!neg && v < 0) v = ~v; return std::to_string(v); }
  case UINT: return std::to_string((unsigned) s.u64());
  case LONG: { long v = (long) s.u64(); if(!neg && v < 0) v = ~v; return std::to_string(v); }
  case ULONG: return std::to_string(s.u64());
  case FLOAT: case DOUBLE: {
    double v = s.chance(1, 4) ? (double) s.draw(100) / 8 : s.chance(1, 3) ? (double) s.i32() : (double) s.i32() * pow(10.0, s.range(-20, 20));
    if(!neg) v = fabs(v);
    if(s.chance(1, 8)) { snprintf(b, sizeof b, "%s.%u", (neg && s.coin()) ? "-" : "", (unsigned) s.draw(1000)); return b; }
    snprintf(b, sizeof b, s.coin() ? "%g" : "%.17g", v);
    return (!neg && b[0] == '-') ? string(b + 1) : string(b); }
  case BOOL: { static const char *f[] = { "0", "1", "true", "false", "TRUE", "FALSE", "T", "F", "t", "f", "True", "False", "17" }; return f[s.draw(13)]; }
  case CHAR: { char ch = (char)(33 + s.draw(94)); if(s.chance(1, 8)) ch = (char)(128 + s.draw(96)); return string(1, ch); }
  case USHORT: return std::to_string((unsigned) s.draw(65536));
  case LLONG: { long long v = (long long) s.u64(); if(!neg && v < 0) v = ~v; return std::to_string(v); }
  case ULLONG: return std::to_string((unsigned long long) s.u64());
  case LDOUBLE: { snprintf(b, sizeof b, s.coin() ? "%Lg" : "%.21Lg", (long double) s.i32() * powl(10.0L, s.range(-30, 30))); return (!neg && b[0] == '-') ? string(b + 1) : string(b); }
  case SPAN: { string r = std::to_string(s.draw(100)) + " " + std::to_string(s.i32()); return s.chance(1, 5) ? " " + r : r; }
  default: {
    if(s.chance(1, 4)) { static const char *f[] = { "", "help", "-", "--", "a b", " ", "=", "\t", "true", "7" }; return f[s.draw(10)]; }
    return textBytes(s, 8, 40, 2000); }
  }
}
static string genText(Src &s, Type t, bool neg) {
  string r = genText1(s, t, neg);
  if((t == INT || t == SHORT || t == UINT || t == LONG || t == ULONG || t == USHORT || t == LLONG || t == ULLONG) && s.chance(1, 10)) r.insert(r[0] == '-' || r[0] == '+', 1 + s.draw(3), '0');   // leading zeros
  return r;
}
static bool dashLed(const string &t) { return t.size() >= 2 && t[0] == '-' && t != "--"; }
static bool numberLooking(const string &t) { return t.size() >= 2 && t[0] == '-' && (isdigit((unsigned char) t[1]) || t[1] == '.'); }

static string genName(Src &s) {
  string r(1, (char)('a' + s.draw(26))); int n = s.size(5, 12, 40); static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789_-.ABC";
  for(int i = 0; i < n; i++) r += al[s.draw(sizeof al - 1)];
  return r;
}

static Decls genDecls(Src &s, Ctx &c, int avg = 5, bool presence = true, bool tests = true) {
  Decls r; std::set<string> used; std::set<char> ab;
  int n = s.size(avg, 12, 40, 1);
  static const char abs[] = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_@+?#%:,/";
  DESC("declare");
  for(int i = 0; i < n; i++) {
    Decl d; d.kind = s.pickc(presence ? "SSVP" : "SSV"); d.type = (Type) s.draw(NTYPES); d.has_def = s.coin();
    d.lname = genName(s);
    if(i > 0 && s.chance(1, 6)) d.lname = r.d[s.draw(i)].lname + (char)('a' + s.draw(26));   // prefixes of each other
    while(used.count(d.lname) || d.lname == "help") d.lname += (char)('a' + (used.size() % 26));
    d.ab = abs[s.draw(sizeof abs - 1)];
    if(s.chance(1, 12)) { char hb = (char)(128 + s.draw(128)); if(!ab.count(hb)) d.ab = hb; }
    if(s.chance(1, 10)) { char num = s.pickc("0123456789."); if(!ab.count(num)) d.ab = num; }   // an option like a number
    for(size_t k = 0; ab.count(d.ab) && k < sizeof abs - 1; k++) d.ab = abs[((strchr(abs, d.ab) ? strchr(abs, d.ab) - abs : 0) + 1) % (sizeof abs - 1)];
    used.insert(d.lname); ab.insert(d.ab);
    d.test = (tests && d.kind != 'P' && s.chance(1, 4)) ? (int) s.draw(4) : -1;
    d.err = d.test >= 0 && !s.chance(1, 3) ? "errtext" + std::to_string(i) : "";
    d.doc = s.coin() ? "" : "doc of " + d.lname;
    d.plain = (i * 7 + d.lname.size()) % 3 != 0;
    if(d.kind == 'P') { d.type = BOOL; d.has_def = false; }
    if(d.kind == 'V') d.has_def = false;
    if(d.has_def) d.def = genText(s, d.type, true);
    DESC(" --" << d.lname << "/-" << d.ab << ":" << (d.kind == 'P' ? "presence" : string(d.kind == 'V' ? "vector " : "") + tname[d.type]) << (d.has_def ? "=" + quote(d.def, 20) : "") << (d.test >= 0 ? " tested" : ""));
    r.d.push_back(d);
  }
  DESC("; ");
  return r;
}

// ------------------------------------------------------------ command lines

struct Line {
  std::vector<string> tok;
  std::vector<string> expect;        // per option: final shown value ("" + set)
  std::vector<bool> mentioned, assigned;
  std::vector<string> pos;
  bool numberWanted = false;         // ... and a number would be its value
  bool wants_switch = false;         // an omitted value: a switch or the end must follow
  int omitted = 0, negatives = 0, values = 0, dashed = 0;
};

struct Profile { int neg = 4, omit = 6, dash = 8, pos = 4; };   // 1 in n

static void startLine(Line &l, const Decls &ds, Parser &p) {
  l.mentioned.assign(ds.d.size(), false); l.assigned.assign(ds.d.size(), false); l.expect.clear();
  for(size_t k = 0; k < ds.d.size(); k++) l.expect.push_back(p.show(k));
}
static bool likeNumber(char ab) { return isdigit((unsigned char) ab) || ab == '.'; }
// by its long or short name; not by one that looks like the number which the option before could take
static string sw(Src &s, const Decl &d, bool numberWanted = false) { return s.coin() || (numberWanted && likeNumber(d.ab)) ? "--" + d.lname : string("-") + d.ab; }

// a value text the option accepts as the next token
static bool genValue(Src &s, const Decls &ds, const Decl &d, const Profile &pf, string &out, bool cmdline = true) {
  for(int tries = 0; tries < 6; tries++) {
    string t = genText(s, d.type, s.chance(1, pf.neg) && isSignedNum(d.type));
    if(cmdline && d.type == STRING) {
      if(!d.defaulted() && s.chance(1, pf.dash)) {
        static const char *f[] = { "-h", "--help", "-5", "-", "--", "---", "-x y" };
        t = s.coin() ? f[s.draw(7)] : sw(s, ds.d[s.draw(ds.d.size())]);
      }
      if(d.defaulted() && dashLed(t)) continue;
    }
    if(cmdline && d.type == CHAR && d.defaulted() && dashLed(t)) continue;
    if(!d.accepts(canonOf(d.type, t))) continue;
    out = t; return true;
  }
  return false;
}

static void genItem(Src &s, const Decls &ds, const Profile &pf, Line &l) {
  if(!l.wants_switch && s.chance(1, pf.pos)) {
    string t = s.chance(1, 5) ? string(s.coin() ? "-" : "--") : s.chance(1, 5) ? ds.d[s.draw(ds.d.size())].lname : genText(s, STRING, false);
    if(dashLed(t)) t = "p" + t;
    l.tok.push_back(t); l.pos.push_back(t);
    return;
  }
  size_t k = s.draw(ds.d.size()); const Decl &d = ds.d[k];
  if(d.kind == 'P') { l.tok.push_back(sw(s, d, l.numberWanted)); l.mentioned[k] = l.assigned[k] = true; l.expect[k] = "true"; l.wants_switch = l.numberWanted = false; return; }
  if(d.defaulted() && s.chance(1, pf.omit)) { l.tok.push_back(sw(s, d, l.numberWanted)); l.mentioned[k] = true; l.wants_switch = true; l.numberWanted = isSignedNum(d.type) || d.type == CHAR; l.omitted++; return; }
  string v;
  if(!genValue(s, ds, d, pf, v)) return;
  l.tok.push_back(sw(s, d, l.numberWanted)); l.tok.push_back(v); l.mentioned[k] = l.assigned[k] = true; l.wants_switch = l.numberWanted = false; l.values++;
  if(numberLooking(v) && isSignedNum(d.type)) l.negatives++; else if(dashLed(v)) l.dashed++;
  string cv = canonOf(d.type, v);
  if(d.kind == 'S') l.expect[k] = cv; else l.expect[k] += "<" + cv + ">";
}

// a line far longer than people type: many positional tokens, many values for one vector, or one very long token
static void burst(Src &s, const Decls &ds, Line &l) {
  if(l.wants_switch) return;
  int n = s.chance(1, 8) ? 60000 + (int) s.draw(12000) : 200 + (int) s.draw(5000); size_t vec = ds.d.size(); for(size_t k = 0; k < ds.d.size(); k++) if(ds.d[k].kind == 'V' && ds.d[k].type != BOOL && ds.d[k].test < 0) vec = k;
  uint64_t how = s.draw(3);
  if(how == 0 && vec < ds.d.size()) { const Decl &d = ds.d[vec]; for(int i = 0; i < n; i++) { string v = d.type == CHAR ? string(1, (char)('a' + i % 26)) : d.type == SPAN ? std::to_string(i) + " 1" : std::to_string(i % 30000); l.tok.push_back("--" + d.lname); l.tok.push_back(v); l.expect[vec] += "<" + canonOf(d.type, v) + ">"; } l.mentioned[vec] = l.assigned[vec] = true; l.values += n; }
  else if(how == 1) { string w(20 * n, 'w'); w += std::to_string(n); l.tok.push_back(w); l.pos.push_back(w); }
  else for(int i = 0; i < n; i++) { string w = "w" + std::to_string(i); l.tok.push_back(w); l.pos.push_back(w); }
}

struct Cerr { std::ostringstream os; std::streambuf *old; Cerr() { old = std::cerr.rdbuf(os.rdbuf()); } ~Cerr() { std::cerr.rdbuf(old); } string str() { return os.str(); } };

static string showToks(const std::vector<string> &t) { string r = "["; for(auto &x : t) { if(r.size() > 1) r += ", "; if(r.size() > 1200) { r += "..."; break; } r += quote(x, 60); } return r + "]"; }

static string asString(Src &s, const std::vector<string> &t) {
  string r; auto ws = [&]() { string w; int n = 1 + (int) (s.chance(1, 4) ? s.draw(4) : 0); for(int i = 0; i < n; i++) w += s.chance(2, 3) ? ' ' : s.pickc(" \t\n\r\v\f"); return w; };
  if(s.chance(1, 5)) r += ws();
  for(size_t i = 0; i < t.size(); i++) {
    if(i) r += ws();
    bool q = t[i].empty(); for(unsigned char ch : t[i]) q = q || isspace(ch);
    r += q ? "\"" + t[i] + "\"" : t[i];
  }
  if(s.chance(1, 5)) r += ws();
  return r;
}
static bool stringable(const std::vector<string> &t) { for(auto &x : t) if(x.find_first_of(string("\"\0", 2)) != string::npos) return false; return true; }

static bool parseArgv(SoDa::Options &o, const std::vector<string> &t) {
  std::vector<string> st; st.push_back("prog name"); st.insert(st.end(), t.begin(), t.end());
  std::vector<char *> av; for(auto &x : st) av.push_back(&x[0]);
  av.push_back(nullptr);
  return o.parse((int) st.size(), av.data());
}
static bool parseList(SoDa::Options &o, const std::vector<string> &t) { return o.parse(std::list<string>(t.begin(), t.end())); }

static void checkTargets(Parser &p, const Line &l) {
  for(size_t k = 0; k < p.ds->d.size(); k++) {
    string got = p.show(k);
    CHECK(got == l.expect[k], "option --" << p.ds->d[k].lname << (l.mentioned[k] ? "" : " (not mentioned)") << " holds " << quote(got) << ", expected " << quote(l.expect[k]) << " after " << showToks(l.tok));
  }
}
static void checkPos(Parser &p, const std::vector<string> &want) {
  const std::vector<string> &got = p.o.getPosArgs();
  CHECK(got == want, "positional arguments are " << showToks(got) << ", expected " << showToks(want));
  CHECK(p.o.numPosArgs() == (int) want.size(), "number of positional arguments");
}

// write something else into the targets, so that "not touched" is visible
static void sentinels(Src &s, Parser &p) {
  for(size_t k = 0; k < p.ds->d.size(); k++) {
    const Decl &e = p.ds->d[k]; Slot &x = p.slots[k];
    if(e.kind == 'P') { x.pres = s.coin(); continue; }
    string t = genText(s, e.type, true);
    if(e.kind == 'S') { BYTYPE(e.type, Mem<T>::sca(x) = fromText<T>(t)); }
    else if(s.coin()) { BYTYPE(e.type, Mem<T>::vec(x).push_back(fromText<T>(t))); }
  }
}

static void wellFormed(Src &s, Ctx &c, const Profile &pf, int which) {
  Decls ds = genDecls(s, c);
  bool prefill = s.chance(1, 3); if(prefill) DESC("vectors not empty; ");
  size_t first = s.chance(1, 4) ? s.draw(ds.d.size() + 1) : SIZE_MAX;
  Parser p(ds, false, prefill, first);
  if(first < ds.d.size()) {
    // some options are declared after the parser has been used
    DESC(first << " declared, then ");
    const Decl &later = ds.d[first + s.draw(ds.d.size() - first)];
    switch(s.draw(5)) {
    case 0: { std::ostringstream h; p.o.printHelp(h); DESC("help; "); break; }
    case 1: CHECK(!p.o.isPresent(later.lname) && !p.o.isPresent(later.ab), "--" << later.lname << " is present before it is declared"); DESC("asked for --" << later.lname << "; "); break;
    case 2: { string t = s.coin() ? "--" + later.lname : string("-") + later.ab; Cerr e; CHECK(!parseList(p.o, { t }), "an option not yet declared is accepted: " << t); DESC("refused " << t << "; "); break; }
    case 3: { Cerr e; CHECK(parseList(p.o, {}), "an empty line is refused"); DESC("an empty line; "); break; }
    default: DESC("nothing; "); break; }
    p.declare(first, ds.d.size());
  }
  if(which == 1 && s.coin()) { DESC("targets overwritten; "); sentinels(s, p); }
  Line l; startLine(l, ds, p);
  if(which == 3) {
    for(size_t k = 0; k < ds.d.size(); k++) {
      const Decl &d = ds.d[k];
      string want = d.kind == 'P' ? "false" : d.kind == 'V' ? (prefill ? "<" + canonZero(d.type) + ">" : "") : d.has_def ? canonOf(d.type, d.def) : canonZero(d.type);
      CHECK(l.expect[k] == want, "before parsing, --" << d.lname << " holds " << quote(l.expect[k]) << ", expected the default " << quote(want));
    }
  }
  int n = s.size(8, 25, 250); for(int i = 0; i < n; i++) genItem(s, ds, pf, l);
  bool many = s.chance(1, 120); if(many) burst(s, ds, l);
  std::vector<string> ulong; std::vector<char> ushort;
  if(which == 3 && s.chance(1, 3)) {
    for(int i = 0; i < 2; i++) {
      string nm = genName(s) + "?"; char ab = (char)(33 + s.draw(94)); bool decl = ab == '-' || ab == 'h' || ab == '.' || isdigit((unsigned char) ab); for(auto &d : ds.d) decl = decl || d.ab == ab || d.lname == nm;
      if(decl) continue;
      bool lng = s.coin(); if(lng) ulong.push_back(nm); else ushort.push_back(ab);
      string t = lng ? "--" + nm : string("-") + ab; DESC("refused " << t << "; "); Cerr e; CHECK(!parseList(p.o, { t }), "an unknown option is accepted: " << t);
    }
  }
  DESC("parse " << showToks(l.tok));
  bool ret; { Cerr e; uint64_t how = s.draw(stringable(l.tok) ? 3 : 2);
    ret = how == 0 ? parseArgv(p.o, l.tok) : how == 1 ? parseList(p.o, l.tok) : p.o.parse(asString(s, l.tok));
    CHECK(ret, "a well formed line is refused with " << quote(e.str(), 200) << ": " << showToks(l.tok));
    CHECK(e.str().empty(), "a well formed line is accepted, but the standard error got " << quote(e.str(), 200) << ": " << showToks(l.tok)); }
  checkTargets(p, l); checkPos(p, l.pos);
  for(size_t k = 0; k < ds.d.size(); k++) {
    CHECK(p.o.isPresent(ds.d[k].lname) == l.mentioned[k], "isPresent(\"" << ds.d[k].lname << "\") is " << !l.mentioned[k] << " after " << showToks(l.tok));
    CHECK(p.o.isPresent(ds.d[k].ab) == l.mentioned[k], "isPresent('" << ds.d[k].ab << "') is " << !l.mentioned[k] << " after " << showToks(l.tok));
  }
  if(which == 3) {
    for(auto &nm : ulong) CHECK(!p.o.isPresent(nm) && !p.o.isPresent(nm), "undeclared name " << nm << " is present");
    for(char ab : ushort) CHECK(!p.o.isPresent(ab) && !p.o.isPresent(ab), "undeclared name " << ab << " is present");
    c.label("after a refused line", !ulong.empty() || !ushort.empty());
    for(int i = 0; i < 3; i++) {
      string nm = s.coin() ? genName(s) : ds.d[s.draw(ds.d.size())].lname + "x"; bool decl = nm == "help"; for(auto &d : ds.d) decl = decl || d.lname == nm;
      if(!decl) CHECK(!p.o.isPresent(nm), "undeclared name " << nm << " is present");
      char ab = (char)(33 + s.draw(94)); decl = false; for(auto &d : ds.d) decl = decl || d.ab == ab;
      if(!decl) CHECK(!p.o.isPresent(ab), "undeclared name " << ab << " is present");
    }
  }
  if(which == 3 && s.chance(1, 3)) {
    // and asking leaves the parser as it was
    std::ostringstream h, g; p.o.printHelp(h); Parser q(ds, false, false, 0); q.declare(0, ds.d.size()); q.o.printHelp(g); CHECK(h.str() == g.str(), "after queries the help text is " << quote(h.str(), 400) << ", expected " << quote(g.str(), 400));
    for(size_t k = 0; k < ds.d.size(); k++) CHECK(p.o.isPresent(ds.d[k].lname) == l.mentioned[k] && p.o.isPresent(ds.d[k].ab) == l.mentioned[k], "presence of --" << ds.d[k].lname << " changed");
  }
  size_t ment = 0; for(bool b : l.mentioned) ment += b;
  bool trailing = l.wants_switch;
  if(which == 4) c.nontrivial(l.negatives || l.omitted || l.dashed);
  else if(which == 3) c.nontrivial(ment > 0 && ment < ds.d.size());
  else c.nontrivial(l.values > 0);
  bool num = false; for(size_t k = 0; k < ds.d.size(); k++) num = num || (l.mentioned[k] && likeNumber(ds.d[k].ab)); c.label("option like a number", num);
  c.label("declared in two steps", first < ds.d.size());
  c.label("values", l.values > 0); c.label("negative value", l.negatives > 0); c.label("value omitted", l.omitted > 0); c.label("value omitted at the end", trailing);
  c.label("dash-led value of an option without default", l.dashed > 0); c.label("positional", !l.pos.empty()); c.label("a line of hundreds of tokens or a token of thousands of bytes", many); c.label("more than 20 tokens", l.tok.size() > 20);
  bool vec = false; for(size_t k = 0; k < ds.d.size(); k++) vec = vec || (ds.d[k].kind == 'V' && l.assigned[k]); c.label("vector", vec);
}

static void O01(Src &s, Ctx &c) { Profile pf; pf.omit = 20; wellFormed(s, c, pf, 1); }
static void O03(Src &s, Ctx &c) { Profile pf; pf.omit = 4; wellFormed(s, c, pf, 3); }
static void O04(Src &s, Ctx &c) { Profile pf; pf.omit = 3; pf.neg = 2; pf.dash = 2; pf.pos = 8; wellFormed(s, c, pf, 4); }

// a text that does not convert
static string badText(Src &s, const Decl &d) {
  switch(d.type) {
  case CHAR: return s.pick(std::vector<string>{ "", " ", "\t \n" });
  case BOOL: return s.pick(std::vector<string>{ "maybe", "x", "yes", "no", "on", "=1", "?", "N" });
  default: break;
  }
  std::vector<string> v{ "abc", "", "x1", " ", "=", "true", "e5", "+", "," };
  if(!d.defaulted()) { v.push_back("-x"); v.push_back("--"); v.push_back("-"); v.push_back("--long"); v.push_back("-h"); }
  if(d.type == INT) { v.push_back("99999999999"); v.push_back("2147483648"); }
  if(d.type == SHORT) v.push_back("32768");
  if(d.type == USHORT) v.push_back("65536");
  if(d.type == SPAN) { v.push_back("5"); v.push_back("5 x"); v.push_back("1 99999999999"); }
  if(d.type == UINT) v.push_back("4294967296");
  if(d.type == LONG || d.type == ULONG || d.type == LLONG || d.type == ULLONG) { v.push_back("99999999999999999999999"); v.push_back("18446744073709551616"); }
  return s.pick(v);
}

static string arbitraryTok(Src &s, const Decls &ds) {
  switch(s.draw(6)) {
  case 0: return sw(s, ds.d[s.draw(ds.d.size())]);
  case 1: return genText(s, (Type) s.draw(NTYPES), true);
  case 2: return string(s.coin() ? "-" : "--") + textBytes(s, 4, 10, 10);
  case 3: return s.pick(std::vector<string>{ "-", "--", "", "-h", "--help", "---", "-1", "-.", "\"", "--h" });
  default: return textBytes(s, 6, 20, 200);
  }
}

static int askOthers(Src &, Ctx &, const Decls &, SoDa::Options &, int);
static void O02(Src &s, Ctx &c) {
  Decls ds = genDecls(s, c); Parser p(ds); c.label("asked for undeclared names", askOthers(s, c, ds, p.o, 6)); Profile pf; Line l; startLine(l, ds, p);
  int n = s.size(4, 15, 100); for(int i = 0; i < n; i++) genItem(s, ds, pf, l);
  string need1, need2, what; bool ends = false, help = false; size_t helpat = 0;
  std::vector<size_t> val; for(size_t k = 0; k < ds.d.size(); k++) if(ds.d[k].kind != 'P') val.push_back(k);
  uint64_t kind = s.draw(7);
  if(kind <= 1 || val.empty()) {
    if(s.coin()) {
      string nm = s.coin() ? genName(s) : ds.d[s.draw(ds.d.size())].lname + s.pickc("x=-1"); if(s.chance(1, 6)) nm = ds.d[s.draw(ds.d.size())].lname.substr(0, 1 + s.draw(4)) + "=3";
      for(bool again = true; again; ) { again = nm == "help"; for(auto &d : ds.d) again = again || d.lname == nm; if(again) nm += "q"; }
      l.tok.push_back("--" + nm); need1 = nm;
    } else {
      char ab = 0; if(!l.wants_switch && s.chance(1, 3)) ab = s.pickc("0123456789.");   // looks like a number, but no option is waiting for one
      for(int i = 0; i < 40 && !ab; i++) { char t = (char)(33 + s.draw(94)); if(isdigit(t) || t == '.' || t == '-' || t == 'h') continue; bool decl = false; for(auto &d : ds.d) decl = decl || d.ab == t; if(!decl) ab = t; }
      if(!ab) ab = '~'; for(auto &d : ds.d) if(d.ab == ab) return;
      l.tok.push_back(string("-") + ab + (s.chance(1, 4) ? "zz" : "")); need1 = string("-") + ab;
    }
    what = need1.size() == 2 && strchr("0123456789.", need1[1]) ? "unknown option like a number" : "unknown option";
  } else if(kind <= 3) {
    const Decl *d = nullptr; for(int i = 0; i < 20 && !d; i++) { const Decl &e = ds.d[s.pick(val)]; if(e.type != STRING) d = &e; }
    if(!d) return;
    l.tok.push_back(sw(s, *d, l.numberWanted)); l.tok.push_back(badText(s, *d)); need1 = d->lname; what = "inconvertible value";
  } else if(kind == 4) {
    const Decl *d = nullptr; string t;
    for(int i = 0; i < 40 && !d; i++) { const Decl &e = ds.d[s.pick(val)]; if(e.test < 0) continue; t = genText(s, e.type, isSignedNum(e.type)); if(e.defaulted() && dashLed(t) && !isSignedNum(e.type)) continue; if(!e.accepts(canonOf(e.type, t))) d = &e; }
    if(!d) return;
    l.tok.push_back(sw(s, *d, l.numberWanted)); l.tok.push_back(t); need1 = d->lname; need2 = d->err; what = "refused value";
  } else if(kind == 5) {
    const Decl *d = nullptr; for(int i = 0; i < 30 && !d; i++) { const Decl &e = ds.d[s.pick(val)]; if(!e.defaulted()) d = &e; }
    if(!d) return;
    l.tok.push_back(sw(s, *d, l.numberWanted)); need1 = d->lname; ends = true; what = "missing value";
  } else { helpat = l.tok.size(); l.tok.push_back(s.coin() ? "-h" : "--help"); help = true; what = "help request"; }
  if(!ends) { int m = s.size(3, 12, 60); for(int i = 0; i < m; i++) l.tok.push_back(arbitraryTok(s, ds)); }
  DESC("parse " << showToks(l.tok) << " (" << what << ")");
  bool ret; string msg; { Cerr e; uint64_t how = s.draw(stringable(l.tok) ? 3 : 2); ret = how == 0 ? parseArgv(p.o, l.tok) : how == 1 ? parseList(p.o, l.tok) : p.o.parse(asString(s, l.tok)); msg = e.str(); }
  DESC(" -> " << ret << " " << quote(msg, 200));
  CHECK(!ret, what << " is accepted: " << showToks(l.tok));
  if(help) { std::ostringstream h; p.o.printHelp(h); CHECK(msg.find(h.str()) != string::npos, "the help request printed " << quote(msg) << ", not the help text " << quote(h.str()));
    // and it is not treated like an option nobody knows
    string tk = l.tok[helpat], odd = tk == "-h" ? "-\x01" : "--\x01zz"; Parser u(ds); string m2; { Cerr e; parseList(u.o, { odd }); m2 = e.str(); }
    for(size_t f; (f = m2.find(odd)) != string::npos; ) m2.replace(f, odd.size(), tk);
    CHECK(msg != m2, "the help request " << tk << " is answered like an unknown option: " << quote(msg, 200)); }
  else {
    // naming the option is more than listing it in the help text
    string m = msg; std::ostringstream h; p.o.printHelp(h); size_t at = h.str().empty() ? string::npos : m.find(h.str()); if(at != string::npos) m.erase(at, h.str().size());
    CHECK(m.find(need1) != string::npos, what << ": the message " << quote(m) << " does not name " << quote(need1));
    CHECK(need2.empty() || m.find(need2) != string::npos, "the message " << quote(m) << " lacks the declared error text " << quote(need2));
  }
  c.nontrivial(); c.label(what.c_str());
  // arbitrary lines must not throw or crash either
  if(s.chance(1, 3)) {
    Parser q(ds); std::vector<string> t; int m = s.size(6, 20, 80); for(int i = 0; i < m; i++) t.push_back(arbitraryTok(s, ds));
    DESC("; and arbitrary " << showToks(t)); Cerr e; if(s.coin()) parseList(q.o, t); else { string u; for(auto &x : t) u += x + " "; q.o.parse(u); }
  }
}

// asking for names that nobody declared
static int askOthers(Src &s, Ctx &c, const Decls &ds, SoDa::Options &o, int oneIn) {
  if(!s.chance(1, oneIn)) return 0;
  int n = 1 + (int) s.draw(3), r = 0;
  for(int i = 0; i < n; i++) {
    string nm = s.coin() ? genName(s) : ds.d[s.draw(ds.d.size())].lname; if(s.coin()) nm = "--" + nm; else nm += s.pickc("-x= "); if(s.chance(1, 4)) nm = "help"; char ab = (char)(1 + s.draw(255)); bool dn = false, da = false;
    for(auto &d : ds.d) { dn = dn || d.lname == nm; da = da || d.ab == ab; }
    if(!dn) { CHECK(!o.isPresent(nm), "undeclared name " << quote(nm) << " is present"); r++; } if(!da) { CHECK(!o.isPresent(ab), "undeclared name '" << ab << "' is present"); r++; }
  }
  DESC("asked for " << r << " undeclared names; ");
  return r;
}

// any line: well formed, faulty, truncated or random
static std::vector<string> anyLine(Src &s, const Decls &ds, Parser &p, int maxn, int &kind) {
  Line l; startLine(l, ds, p); Profile pf; int n = s.size(5, 15, maxn); kind = (int) s.draw(5);
  if(kind == 4) { for(int i = 0; i < n; i++) l.tok.push_back(arbitraryTok(s, ds)); return l.tok; }
  for(int i = 0; i < n; i++) genItem(s, ds, pf, l);
  if(s.chance(1, 150)) burst(s, ds, l);
  if(kind == 1 && !l.tok.empty()) l.tok.resize(s.draw(l.tok.size() + 1));
  if(kind == 2) l.tok.insert(l.tok.begin() + s.draw(l.tok.size() + 1), arbitraryTok(s, ds));
  if(kind == 3) { const Decl &d = ds.d[s.draw(ds.d.size())]; l.tok.push_back(sw(s, d)); if(d.kind != 'P' && s.coin()) l.tok.push_back(badText(s, d)); }
  return l.tok;
}
static void comparePars(Parser &a, Parser &b, const char *na, const char *nb, const std::vector<string> &t) {
  for(size_t k = 0; k < a.ds->d.size(); k++)
    CHECK(a.show(k) == b.show(k), "--" << a.ds->d[k].lname << " holds " << quote(a.show(k)) << " by " << na << " but " << quote(b.show(k)) << " by " << nb << " of " << showToks(t));
}

static void O05(Src &s, Ctx &c) {
  Decls ds = genDecls(s, c); Parser pa(ds), pl(ds), ps(ds); int kind;
  std::vector<string> t = anyLine(s, ds, pa, 120, kind), u;
  for(auto x : t) { for(auto &ch : x) if(ch == '"' || ch == 0) ch = '\''; u.push_back(x); }
  if(s.chance(1, 5)) u.push_back(""); 
  string str = asString(s, u);
  DESC("tokens " << showToks(u) << " string " << quote(str, 200));
  bool ra, rl, rs; string ea, el, es;
  { Cerr e; ra = parseArgv(pa.o, u); ea = e.str(); } { Cerr e; rl = parseList(pl.o, u); el = e.str(); } { Cerr e; rs = ps.o.parse(str); es = e.str(); }
  CHECK(ra == rl && ra == rs, "argv gives " << ra << ", list gives " << rl << ", string gives " << rs << " for " << showToks(u) << " / " << quote(str) << " messages " << quote(ea, 80) << quote(el, 80) << quote(es, 80));
  comparePars(pa, pl, "argv", "list", u); comparePars(pl, ps, "list", "string", u);
  for(auto &d : ds.d) {
    bool x = pa.o.isPresent(d.lname), y = pl.o.isPresent(d.lname), z = ps.o.isPresent(d.lname);
    CHECK(x == y && x == z, "presence of --" << d.lname << ": argv " << x << ", list " << y << ", string " << z << " for " << showToks(u));
  }
  CHECK(pa.o.getPosArgs() == pl.o.getPosArgs(), "positional: argv " << showToks(pa.o.getPosArgs()) << " list " << showToks(pl.o.getPosArgs()));
  CHECK(ps.o.getPosArgs() == pl.o.getPosArgs(), "positional: string " << showToks(ps.o.getPosArgs()) << " list " << showToks(pl.o.getPosArgs()) << " for " << quote(str));
  bool q = false; for(auto &x : u) { q = q || x.empty(); for(unsigned char ch : x) q = q || isspace(ch); }
  c.nontrivial(u.size() > 1); c.label("quoted token", q); c.label("accepted", ra); c.label("refused", !ra);
}

static void O06(Src &s, Ctx &c) {
  Decls ds = genDecls(s, c, 5, s.chance(1, 3), false);
  bool kvp = s.coin(); Parser p(ds, kvp), q(ds, kvp);
  Line l; startLine(l, ds, p); Profile pf; std::vector<string> items; int n = s.size(5, 15, 120, 1), bare = 0, fault = s.chance(1, 4) ? 1 + (int) s.draw(4) : 0, faultpos = (int) s.draw(n); bool eq = false, empties = false, dash = false, emptyval = false; string badkey;
  auto pad = [&]() { return string(s.chance(1, 3) ? s.draw(4) : 0, ' '); };
  for(int i = 0; i < n; i++) {
    size_t k = s.draw(ds.d.size()); const Decl &d = ds.d[k]; string v;
    if(fault && i == faultpos) {
      if(fault == 1) { string nm = d.lname + "zz"; if(s.chance(1, 3)) nm = string(1, d.ab); else if(s.chance(1, 6)) nm = string("--") + d.lname; else if(s.chance(1, 6)) nm = d.lname.substr(0, 1 + s.draw(d.lname.size())); if(nm.find_first_of("=, ") != string::npos) nm = d.lname + "zz"; for(bool again = true; again; ) { again = nm == "help"; for(auto &e : ds.d) again = again || e.lname == nm; if(again) nm += "q"; } badkey = nm; items.push_back(nm + (s.coin() ? "=1" : "")); continue; }
      if(fault == 3) { if(d.kind != 'P' && !d.defaulted()) { items.push_back(pad() + d.lname + pad()); continue; } fault = 0; }
      else if(fault == 4) { items.push_back(pad() + "help" + (s.chance(1, 3) ? "=1" : "") + pad()); continue; }
      else if(d.type == STRING || d.kind == 'P') { fault = 0; } else { string bt = badText(s, d); if(bt.find(',') != string::npos) bt = "x"; items.push_back(d.lname + "=" + bt); continue; }
    }
    while(s.chance(1, 8)) { items.push_back(pad()); empties = true; }
    if(d.kind == 'P') { items.push_back(pad() + d.lname + (s.coin() ? "" : s.coin() ? "=1" : "=true") + pad()); l.expect[k] = "true"; l.mentioned[k] = true; l.values++; bare++; continue; }
    if(d.defaulted() && s.chance(1, 8)) { items.push_back(pad() + d.lname + pad()); l.mentioned[k] = true; l.values++; bare++; continue; }
    if(!genValue(s, ds, d, pf, v, false)) continue;
    if(d.type == STRING) {
      static const char *f[] = { "", "=", "a=b", "x=y=z", "-q", "--help", "-5", "a b", "=a=", "-", "--" };
      if(s.coin()) v = f[s.draw(11)];
      string w; for(char ch : v) { if(ch == ',') continue; if(ch == ' ' && (w.empty() || w.back() == ' ')) continue; w += ch; }
      while(!w.empty() && w.back() == ' ') w.pop_back();
      v = w; eq = eq || v.find('=') != string::npos; dash = dash || dashLed(v); emptyval = emptyval || v.empty();
    }
    if(d.type == CHAR && v == ",") v = ";";
    items.push_back(pad() + d.lname + "=" + v + pad());
    string cv = canonOf(d.type, v); if(d.kind == 'S') l.expect[k] = cv; else l.expect[k] += "<" + cv + ">"; l.mentioned[k] = true; l.values++;
  }
  if(s.chance(1, 8)) { items.push_back(pad()); empties = true; }
  if(l.values == 0 && !fault) return;
  string str; for(size_t i = 0; i < items.size(); i++) { if(i) str += ","; str += items[i]; }
  l.tok = items;
  DESC((kvp ? "kvp parser " : "") << quote(str, 300));
  bool r1, r2; string e1, e2;
  { Cerr e; r1 = (kvp && s.coin()) ? p.o.parse(str) : p.o.parseKeyValue(str); e1 = e.str(); }
  { Cerr e; r2 = (kvp && s.coin()) ? parseArgv(q.o, items) : q.o.parseKeyValue(std::list<string>(items.begin(), items.end())); e2 = e.str(); }
  bool faulty = fault != 0;
  CHECK(r1 == !faulty, (faulty ? "a faulty list is accepted: " : "a good list is refused: ") << quote(str) << " message " << quote(e1, 200));
  CHECK(r2 == !faulty, (faulty ? "a faulty list of items is accepted: " : "a good list of items is refused: ") << showToks(items) << " message " << quote(e2, 200));
  if(!faulty) { checkTargets(p, l); checkTargets(q, l);
    for(size_t k = 0; k < ds.d.size(); k++) CHECK(p.o.isPresent(ds.d[k].lname) == l.mentioned[k] && q.o.isPresent(ds.d[k].lname) == l.mentioned[k], "presence of " << ds.d[k].lname << " after " << quote(str)); }
  else { if(fault == 1) CHECK(e1.find(badkey) != string::npos, "the message " << quote(e1, 200) << " does not name the unknown key " << quote(badkey));
    if(fault == 4) { std::ostringstream h; p.o.printHelp(h); CHECK(e1.find(h.str()) != string::npos && e2.find(h.str()) != string::npos, "the key help printed " << quote(e1, 200) << " / " << quote(e2, 200) << ", expected the help text " << quote(h.str(), 200)); }
    else CHECK(!e1.empty() && !e2.empty(), "no message for a faulty list " << quote(str)); }
  c.nontrivial(l.values > 1 || faulty); c.label("empty item", empties); c.label("value with =", eq); c.label("dash-led value", dash); c.label("empty value", emptyval); c.label("unknown key or bad value", faulty); c.label("bare key", bare > 0);
  // any list at all: no exception
  if(s.chance(1, 4)) { string any; auto lp = s.loop(20, 200); while(s.more(lp)) any += s.chance(1, 3) ? s.pickc(",= -ab") : s.chance(1, 4) ? (char) s.draw(256) : s.pickc(",="); if(s.coin()) any += "," + ds.d[0].lname; Parser r(ds, kvp); Cerr e; DESC("; any " << quote(any, 60)); r.o.parseKeyValue(any); }
}

static void O07(Src &s, Ctx &c) {
  Decls ds = genDecls(s, c); Parser a(ds), b(ds); int kind; 
  int h = s.size(3, 8, 30, 1); int refused = 0; 
  for(int i = 0; i < h; i++) {
    bool kv = s.chance(1, 8); std::vector<string> t = anyLine(s, ds, a, 30, kind); bool r; Cerr e;
    DESC("history " << showToks(t) << "; ");
    if(kv) { string v; if(genValue(s, ds, ds.d[0], Profile(), v)) r = a.o.parseKeyValue(ds.d[0].lname + "=" + v); else r = true; }
    else { uint64_t how = s.draw(3); string q; for(auto &x : t) q += x + " "; if(s.chance(1, 4)) q.insert(s.draw(q.size() + 1), "\""); r = how == 0 ? parseList(a.o, t) : how == 1 ? parseArgv(a.o, t) : a.o.parse(q); }
    refused += !r;
    if(s.chance(1, 10)) { std::ostringstream o; a.o.printHelp(o); }
    askOthers(s, c, ds, a.o, 6);
  }
  // same starting values in both
  std::vector<Slot> common = b.slots; for(size_t k = 0; k < common.size(); k++) a.slots[k] = common[k];
  size_t before = a.o.getPosArgs().size();
  std::vector<string> t = anyLine(s, ds, b, 60, kind);
  DESC("then " << showToks(t));
  bool ra, rb, asStr = stringable(t) && s.coin(); string ma, mb, st = asStr ? asString(s, t) : ""; { Cerr e; ra = asStr ? a.o.parse(st) : parseList(a.o, t); ma = e.str(); } bool freshStr = asStr && s.chance(1, 4); { Cerr e; rb = freshStr ? b.o.parse(st) : parseList(b.o, t); mb = e.str(); }
  CHECK(ra == rb, "the used parser gives " << ra << " " << quote(ma, 100) << ", a fresh one " << rb << " " << quote(mb, 100) << " for " << showToks(t));
  comparePars(a, b, "the used parser", "a fresh one", t);
  std::vector<string> pa(a.o.getPosArgs()); CHECK(pa.size() >= before, "positional arguments were lost"); pa.erase(pa.begin(), pa.begin() + before);
  CHECK(pa == b.o.getPosArgs(), "the used parser adds positional arguments " << showToks(pa) << ", a fresh one " << showToks(b.o.getPosArgs()) << " for " << showToks(t));
  c.nontrivial(!t.empty()); c.label("a refused line in the history", refused > 0); c.label("last line accepted", ra); c.label("last line has positional arguments", !pa.empty());
}

static void O08(Src &s, Ctx &c) {
  Decls ds = genDecls(s, c, 3); Parser p(ds); Profile pf; pf.pos = 2; std::vector<string> want; int rounds = s.range(1, 2);
  if(s.chance(1, 20)) rounds = 0;
  auto look = [&]() {
    checkPos(p, want); int n = (int) want.size(); std::vector<int> idx{ 0, -1, n, n - 1, n + 1, n + 2, INT32_MIN, INT32_MAX, -2, n * 2 + 1 };
    for(int i = 0; i < 6; i++) idx.push_back(s.chance(1, 3) ? s.i32() : s.range(-3, n + 8));
    for(int i : idx) { string g = p.o.getPosArg(i), w = (i >= 0 && i < n) ? want[i] : ""; CHECK(g == w, "getPosArg(" << i << ") of " << n << " is " << quote(g) << ", expected " << quote(w)); }
    if(n <= 300) for(int i = 0; i < n; i++) CHECK(p.o.getPosArg(i) == want[i], "getPosArg(" << i << ")");
  };
  for(int r = 0; r < rounds; r++) {
    Line l; startLine(l, ds, p); int n = s.size(8, 30, 300); for(int i = 0; i < n; i++) genItem(s, ds, pf, l);
    if(s.chance(1, 150)) burst(s, ds, l);
    DESC("parse " << showToks(l.tok)); Cerr e; bool ret = s.coin() ? parseArgv(p.o, l.tok) : parseList(p.o, l.tok);
    CHECK(ret, "refused: " << e.str());
    want.insert(want.end(), l.pos.begin(), l.pos.end());
    look();
  }
  if(!rounds) look();
  c.nontrivial(!want.empty()); c.label("no positional", want.empty()); c.label("more than 10", want.size() > 10);
}

static void O09(Src &s, Ctx &c) {
  bool kvp = s.coin(); Decls ds = genDecls(s, c); 
  int ni = s.size(2, 6, 20); for(int i = 0; i < ni; i++) ds.info.push_back(s.chance(1, 4) ? textBytes(s, 20, 80, 300) : "info " + std::to_string(s.draw(5)) + " line");
  for(size_t i = 0; i < ds.d.size(); i++) if(s.coin()) { ds.d[i].doc = textBytes(s, 20, 60, 400); if(s.coin()) ds.d[i].doc += "%0 %1 %%"; for(auto &ch : ds.d[i].doc) if(ch == '\n' || ch == '\r') ch = ' '; }
  size_t first = s.chance(1, 4) ? s.draw(ds.d.size() + 1) : SIZE_MAX; Parser p(ds, kvp, false, first), q(ds, kvp);
  if(first < ds.d.size()) { std::ostringstream h; p.o.printHelp(h); p.declare(first, ds.d.size()); DESC("help already printed when " << first << " were declared; "); }
  if(s.chance(1, 6)) { std::ostringstream h; p.o.printHelp(h); string more = "added later"; p.o.addInfo(more); q.o.addInfo(more); ds.info.push_back(more); ni++; DESC("help already printed before the last information line; "); }
  askOthers(s, c, ds, p.o, 3);
  std::vector<string> before; for(size_t k = 0; k < ds.d.size(); k++) before.push_back(p.show(k));
  std::ostringstream o; o << "start\n"; std::ostream &r = p.o.printHelp(o); CHECK(&r == &o, "printHelp returned another stream");
  string text = o.str(); CHECK(text.compare(0, 6, "start\n") == 0, "earlier output lost"); text.erase(0, 6);
  std::ostringstream o2; p.o.printHelp(o2); CHECK(o2.str() == text, "a second help text differs");
  for(size_t k = 0; k < ds.d.size(); k++) { CHECK(p.show(k) == before[k], "printing help changed --" << ds.d[k].lname); CHECK(!p.o.isPresent(ds.d[k].lname), "printing help made --" << ds.d[k].lname << " present"); }
  DESC("help text " << quote(text, 300));
  size_t at = 0; for(auto &i : ds.info) { size_t f = text.find(i + "\n", at); CHECK(f != string::npos, "information line " << quote(i) << " is missing or out of order in " << quote(text)); at = f + i.size(); }
  std::vector<string> lines; { string cur; for(char ch : text) if(ch == '\n') { lines.push_back(cur); cur.clear(); } else cur += ch; if(!cur.empty()) lines.push_back(cur); }
  for(auto &d : ds.d) {
    bool ok = false; string L = kvp ? d.lname : "--" + d.lname, A = string("-") + d.ab;
    for(auto &ln : lines) {
      auto word = [&](const string &w, size_t from) -> size_t {
        for(size_t f = ln.find(w, from); f != string::npos; f = ln.find(w, f + 1))
          if((f == 0 || isspace((unsigned char) ln[f - 1]) || ispunct((unsigned char) ln[f - 1])) && (f + w.size() == ln.size() || isspace((unsigned char) ln[f + w.size()]) || strchr(",:", ln[f + w.size()]))) return f;
        return string::npos; };
      size_t f = word(L, 0); if(f == string::npos) continue;
      if(!kvp) { if(word(A, 0) == string::npos) continue; }
      if(ln.find(d.doc) == string::npos) continue;
      ok = true; break;
    }
    CHECK(ok, "no help line shows " << L << (kvp ? "" : " and " + A) << " with " << quote(d.doc) << " in " << quote(text));
  }
  { size_t infos = 0; for(auto &i : ds.info) infos += 1 + std::count(i.begin(), i.end(), '\n'); CHECK(lines.size() >= infos + ds.d.size(), "only " << lines.size() << " lines for " << ds.d.size() << " options and " << infos << " lines of information: " << quote(text)); }
  // later parses are the same
  int kind; std::vector<string> t = anyLine(s, ds, q, 20, kind); bool a, b; { Cerr e; a = p.o.parse(std::list<string>(t.begin(), t.end())); b = q.o.parse(std::list<string>(t.begin(), t.end())); }
  CHECK(a == b, "printing help changed the outcome of " << showToks(t)); comparePars(p, q, "the parser that printed help", "a fresh one", t);
  std::ostringstream o3; p.o.printHelp(o3); CHECK(o3.str() == text, "the help text changed after a parse");
  if(kvp && s.coin()) { Parser h(ds, true); Cerr e; bool ret = h.o.parseKeyValue(string(s.coin() ? " help" : "help,")); CHECK(!ret, "a help request is accepted"); CHECK(e.str().find(text) != string::npos, "the key help prints " << quote(e.str()) << ", expected " << quote(text));
    Parser u(ds, true); Cerr e2; u.o.parseKeyValue(string("\x01zz")); string m2 = e2.str(); for(size_t f; (f = m2.find("\x01zz")) != string::npos; ) m2.replace(f, 3, "help"); CHECK(e.str() != m2, "the key help is answered like an unknown key: " << quote(m2, 200)); }
  if(!kvp) { Parser h(ds); Cerr e; bool ret = parseList(h.o, { s.coin() ? "-h" : "--help" }); CHECK(!ret, "a help request is accepted"); CHECK(e.str().find(text) != string::npos, "the help request prints " << quote(e.str()) << ", expected " << quote(text)); }
  c.nontrivial(ds.d.size() > 1); c.label("key=value mode", kvp); c.label("information lines", ni > 0);
}

namespace pbt {
const std::vector<Prop> props = { {"O01", O01}, {"O02", O02}, {"O03", O03}, {"O04", O04}, {"O05", O05}, {"O06", O06}, {"O07", O07}, {"O08", O08}, {"O09", O09} };
void harnessInit() {}
}
