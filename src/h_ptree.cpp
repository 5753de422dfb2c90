// Properties of SoDa::PropertyTree and SoDa::PropertyTreeYAML (P01 - P07)
#include "pbt.hpp"
#include "PropertyTree.hxx"
#include "PropertyTreeYAML.hxx"
#include <memory>
#include <cmath>
#include <fstream>
#include <sys/stat.h>
using namespace pbt;
using std::string;

// the tree as a user of a derived class sees it
struct Tree : public SoDa::PropertyTreeYAML {
  Tree() {}
  Tree(const string &f) : SoDa::PropertyTreeYAML(f) {}
  auto top() -> decltype(this->root->getProp("", false)) { return this->root->getProp("", false); }
};
typedef SoDa::PropertyTree::PropNode PN;

// ------------------------------------------------------------ documents

struct N; typedef std::shared_ptr<N> NP;
struct N {
  enum Kind { SCALAR, MAP, SEQ, NUL } kind; string text;
  std::vector<std::pair<string, NP>> kids; std::vector<NP> items;
  int refs = 0, size = 1, depth = 1, anchor = 0;
  N(Kind k, const string &t = "") : kind(k), text(t) {}
};

static const char *specials[] = { "", "null", "~", "Null", "true", "no", "-", "- a", "? b", "# c", "a # b", "a: b", "[x]", "{y: 1}", "&anchor", "*alias", "!tag", "|", ">", "%dir", "@at", "`tick", "'q'", "\"dq\"", "---", "...", "=", "<<", ",", ":", "0x1F", "1e3", "1_000", "\\n", "a\\b", "%0 %1 %%" };
static string genWord(Src &s, int max) { string r; int n = s.range(1, max); for(int i = 0; i < n; i++) r += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./+-"[i == 0 ? s.draw(52) : s.draw(67)]; return r; }
static string genNumber(Src &s) {
  char b[64];
  switch(s.draw(6)) {
  case 4: { string z(s.draw(45), '0'); bool neg = s.chance(1, 4); if(s.coin()) return (neg ? "-" : "") + z + std::to_string(s.draw(100000)); string r = (neg ? "-0." : "0.") + z; int n = s.range(1, 40); for(int i = 0; i < n; i++) r += (char)('0' + s.draw(10)); return r; }   // long ways to write a number
  case 0: return std::to_string(s.i32());
  case 1: return std::to_string(s.u64());
  case 2: return std::to_string((long) s.u64());
  case 3: return std::to_string(s.draw(100));
  default: snprintf(b, sizeof b, s.coin() ? "%g" : "%.17g", (double) s.i32() * pow(10.0, s.range(-20, 20))); return b;
  }
}
static string genText(Src &s, bool oneline = false) {
  static const char *uni[] = { "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xc2\xb5", "\xe2\x82\xac" };
  switch(s.draw(8)) {
  case 0: case 1: return genWord(s, 8);
  case 2: return genNumber(s);
  case 3: { string r = genWord(s, 6); auto l = s.loop(3, 20); while(s.more(l)) r += " " + genWord(s, 5); return r; }
  case 4: return specials[s.draw(sizeof specials / sizeof *specials)];
  case 5: { string r; int n = s.size(8, 30, 400); for(int i = 0; i < n; i++) r += (char)(32 + s.draw(95)); return r; }
  case 6: { string r; int n = s.size(5, 12, 60); for(int i = 0; i < n; i++) { if(s.chance(1, 3)) r += uni[s.draw(5)]; else r += (char)('a' + s.draw(26)); } return r; }
  default: { string r; int n = s.size(10, 20, 200); for(int i = 0; i < n; i++) r += oneline ? s.pickc("ab c\"'\\") : s.pickc("abc \n\t\x01'\"\\"); return r; }
  }
}
static string trim(const string &t) { size_t a = t.find_first_not_of(" \t\r"), b = t.find_last_not_of(" \t\r"); return a == string::npos ? "" : t.substr(a, b - a + 1); }
// a key that a path can name: not empty, no ':', single inner spaces
static string genKey(Src &s) {
  string t = s.chance(2, 3) ? genWord(s, s.chance(1, 8) ? 60 : 6) : genText(s, true), r;
  for(char ch : t) { if(ch == ':') ch = ';'; if(ch == ' ' && (r.empty() || r.back() == ' ')) continue; r += ch; }
  while(!r.empty() && r.back() == ' ') r.pop_back();
  if(r.size() > 200) r.resize(200);
  while(!r.empty() && ((unsigned char) r.back() >= 128 || r.back() == ' ')) { if(r.size() < 200) { if(r.back() != ' ') break; } r.pop_back(); }
  return r.empty() ? "k" : r;
}

struct Gen {
  Src &s; bool seqs, oneline, share; int budget; std::vector<NP> pool;
  Gen(Src &s, bool seqs, bool oneline, bool share) : s(s), seqs(seqs), oneline(oneline), share(share) { budget = s.size(12, 40, 150, 1); }
  string txt() { string t = genText(s, oneline); return oneline ? trim(t) : t; }
  NP scalar() { return std::make_shared<N>(N::SCALAR, txt()); }
  NP fin(NP n) {
    for(auto &k : n->kids) { n->size += k.second->size; n->depth = std::max(n->depth, 1 + k.second->depth); }
    for(auto &k : n->items) { n->size += k->size; n->depth = std::max(n->depth, 1 + k->depth); }
    if(share && n->kind != N::NUL) pool.push_back(n);
    return n;
  }
  NP seq(int depth) {
    NP n = std::make_shared<N>(N::SEQ); auto l = s.loop(4, 30);
    while(s.more(l)) { budget--; if(s.chance(1, 6) && depth > 0) n->items.push_back(seq(depth - 1)); else if(s.chance(1, 12)) n->items.push_back(std::make_shared<N>(N::NUL)); else n->items.push_back(fin(scalar())); }
    return fin(n);
  }
  NP value(int depth) {
    budget--;
    if(share && !pool.empty() && s.chance(1, 8)) { NP p = pool[s.draw(pool.size())]; if(p->size <= 30 && p->depth < 12) { p->refs++; budget -= p->size; return p; } }
    uint64_t k = s.draw(20);
    if(k < 10 || depth <= 0 || budget <= 0) return fin(scalar());
    if(seqs && k < 14) return seq(3);
    if(seqs && k == 14) return std::make_shared<N>(N::NUL);
    return map(depth - 1);
  }
  NP map(int depth) {
    NP n = std::make_shared<N>(N::MAP); std::set<string> used; auto l = s.loop(4, 40);
    while(budget > 0 && s.more(l)) { string k = genKey(s); if(!used.insert(k).second) continue; NP v = value(depth); n->kids.push_back({k, v}); }
    return fin(n);
  }
  // much of one thing: entries, items, text, or levels
  NP bulk() {
    int n = s.chance(1, 12) ? s.range(60000, 70000) : s.chance(1, 3) ? s.range(1000, 4000) : s.range(100, 1000);
    switch(s.draw(4)) {
    case 0: { NP m = std::make_shared<N>(N::MAP); for(int i = 0; i < n / 8; i++) m->kids.push_back({ "k" + std::to_string(i), fin(std::make_shared<N>(N::SCALAR, "v" + std::to_string(i))) }); return fin(m); }
    case 1: if(seqs) { NP m = std::make_shared<N>(N::SEQ); for(int i = 0; i < n / 8; i++) m->items.push_back(fin(std::make_shared<N>(N::SCALAR, "v" + std::to_string(i)))); return fin(m); } // fall through
    case 2: return fin(std::make_shared<N>(N::SCALAR, string(n, 'w') + std::to_string(n)));
    default: { NP m = fin(std::make_shared<N>(N::SCALAR, "v")); for(int i = 0; i < std::min(n / 8, 250); i++) { NP o = std::make_shared<N>(N::MAP); o->kids.push_back({ "k" + std::to_string(i), m }); m = fin(o); } return m; }
    }
  }
  NP document() {
    if(s.chance(1, 700)) { NP n = map(2); for(auto &k : n->kids) if(k.first == "bulk") return n; n->kids.push_back({ "bulk", bulk() }); return fin(n); }
    int d = s.chance(1, 12) ? 60 : s.chance(1, 3) ? 8 : 3;
    if(d == 60) { NP n = map(2); int k = s.range(1, 60); while(k-- > 0) { NP m = std::make_shared<N>(N::MAP); m->kids.push_back({genKey(s), n}); n = fin(m); } return n; }
    return map(d); }
};

struct Render {
  Src &s; string out; int anchors = 0; bool literal = false, crlf = false, plainstyle;
  Render(Src &s) : s(s) { plainstyle = s.chance(1, 3); }
  static bool plainOk(const string &t) {
    if(t.empty() || t == "null" || t == "Null" || t == "NULL" || t == "~") return false;
    size_t i = 0; if((t[0] == '-' || t[0] == '.' || t[0] == '+') && t.size() > 1 && isdigit((unsigned char) t[1])) i = 1;
    if(!isalnum((unsigned char) t[i])) return false;
    for(; i < t.size(); i++) { unsigned char ch = t[i]; if(isalnum(ch) || (ch && strchr("_./+-", ch))) continue; if(ch == ' ' && t[i - 1] != ' ' && i + 1 < t.size()) continue; return false; }
    return true;
  }
  static bool sqOk(const string &t) { for(unsigned char ch : t) if(ch < 32 || ch == 127) return false; return true; }
  static string sq(const string &t) { string r = "'"; for(char ch : t) { r += ch; if(ch == '\'') r += '\''; } return r + "'"; }
  string dq(const string &t) { string r = "\""; char b[8];
    for(unsigned char ch : t) {
      if(ch == '"' || ch == '\\') { r += '\\'; r += (char) ch; } else if(ch == '\n') r += "\\n"; else if(ch == '\t') r += s.coin() ? "\\t" : "\\x09";
      else if(ch < 32 || ch == 127) { snprintf(b, sizeof b, "\\x%02x", ch); r += b; } else r += (char) ch; }
    return r + "\""; }
  string inl(const string &t) {
    uint64_t k = plainstyle ? 0 : s.draw(4);
    if(k < 2 && plainOk(t)) return t;
    if(k != 3 && sqOk(t)) return sq(t);
    return dq(t);
  }
  static bool literalOk(const string &t) {
    if(t.empty() || t[0] == ' ' || t[0] == '\n' || t[0] == '\t' || t[0] == '#') return false;
    bool content = false;
    for(size_t i = 0; i < t.size(); i++) { unsigned char ch = t[i]; if(ch == '\n') { if(i + 1 < t.size() && (t[i + 1] == ' ' || t[i + 1] == '\t' )) return false; continue; } if(ch < 32 || ch == 127) return false; content = true; }
    return content;
  }
  string pre(N &n) { if(n.refs > 0) { n.anchor = ++anchors; return "&a" + std::to_string(n.anchor) + " "; } return ""; }
  string flow(N &n) {
    if(n.kind == N::NUL) return s.coin() ? "~" : "null";
    if(n.anchor) return "*a" + std::to_string(n.anchor) + " ";
    string p, r; int saveRefs = n.refs; bool tag = n.kind == N::SCALAR && s.chance(1, 16);
    if(n.kind == N::SCALAR) { p = pre(n); return p + (tag ? "!!str " : "") + inl(n.text); }
    (void) saveRefs;
    string nl = s.chance(1, 4) ? "\n  " : " "; bool first = true;
    // the anchor comes before its content, and is defined for what follows
    p = n.refs > 0 ? "&a" + std::to_string(++anchors) + " " : ""; int myanchor = anchors;
    if(n.kind == N::MAP) { r = "{"; for(auto &k : n.kids) { if(!first) r += "," + nl; first = false; r += inl(k.first) + ": " + flow(*k.second); } r += "}"; }
    else { r = "["; for(auto &k : n.items) { if(!first) r += "," + nl; first = false; r += flow(*k); } r += "]"; }
    if(n.refs > 0) n.anchor = myanchor;
    return p + r;
  }
  void eol() { if(s.chance(1, 12)) out += " # a comment: [x"; out += "\n"; literal = false; }
  void gap(int ind) { if(literal) return; if(s.chance(1, 12)) out += "\n"; if(s.chance(1, 16)) out += string(s.coin() ? ind : 0, ' ') + "# comment - x: y\n"; }
  // what follows "key:" or "-"
  void after(N &n, int ind, bool inSeq) {
    if(n.kind == N::NUL) { if(s.coin()) out += s.coin() ? " ~" : " null"; eol(); return; }
    if(n.anchor) { out += " *a" + std::to_string(n.anchor); eol(); return; }
    if(n.kind == N::SCALAR) {
      string p = pre(n);
      if(!plainstyle && n.refs == 0 && literalOk(n.text) && s.chance(1, 3)) {
        size_t tr = 0; while(tr < n.text.size() && n.text[n.text.size() - 1 - tr] == '\n') tr++;
        int w = ind + 1 + (int) s.draw(3);
        out += " " + p + "|" + (tr == 0 ? "-" : tr == 1 ? "" : "+") + "\n";
        string body = n.text; if(tr) body.pop_back(); size_t a = 0;
        for(;;) { size_t b = body.find('\n', a); string line = body.substr(a, b == string::npos ? string::npos : b - a); out += (line.empty() ? "" : string(w, ' ') + line) + "\n"; if(b == string::npos) break; a = b + 1; }
        literal = true; return;
      }
      out += " " + p + (s.chance(1, 16) ? "!!str " : "") + inl(n.text); eol(); return;
    }
    bool empty = n.kind == N::MAP ? n.kids.empty() : n.items.empty();
    if(empty || s.chance(1, plainstyle ? 20 : 5)) { out += " " + flow(n); eol(); return; }
    if(n.refs > 0) out += " &a" + std::to_string(++anchors);
    int myanchor = anchors;
    eol();
    int step = 1 + (int) s.draw(4);
    if(n.kind == N::MAP) blockMap(n, ind + step);
    else blockSeq(n, (!inSeq && s.chance(1, 3)) ? ind : ind + step);
    if(n.refs > 0) n.anchor = myanchor;
  }
  void blockMap(N &n, int ind) {
    for(auto &k : n.kids) {
      gap(ind);
      string key = inl(k.first);
      if(k.second->kind == N::SCALAR && !plainstyle && s.chance(1, 16)) { out += string(ind, ' ') + "? " + key + "\n" + string(ind, ' ') + ":"; }
      else out += string(ind, ' ') + key + (s.chance(1, 16) ? " :" : ":");
      after(*k.second, ind, false);
    }
  }
  void blockSeq(N &n, int ind) { for(auto &k : n.items) { gap(ind); out += string(ind, ' ') + "-"; after(*k, ind, true); } }
  static void clear(N &n) { n.anchor = 0; for(auto &k : n.kids) clear(*k.second); for(auto &k : n.items) clear(*k); }
  string document(N &n) {
    out.clear(); anchors = 0; literal = false; clear(n);
    if(s.chance(1, 16)) out += "\xef\xbb\xbf";
    if(s.chance(1, 8)) out += "# first line\n";
    if(s.chance(1, 6)) out += "---\n";
    bool empty = n.kind == N::MAP ? n.kids.empty() : n.items.empty();
    if(empty || s.chance(1, 6)) { out += flow(n) + "\n"; }
    else if(n.kind == N::MAP) blockMap(n, 0); else blockSeq(n, 0);
    if(!literal && s.chance(1, 8)) out += "...\n";
    if(!literal && s.chance(1, 8) && out.back() == '\n') out.pop_back();
    return out;
  }
};

// ------------------------------------------------------------ files

static string scratch; static unsigned fileno_;
static string newName() { return scratch + "/f" + std::to_string(fileno_++ % 8) + ".yaml"; }
static bool watch, tampered; static string putName, putContent;   // S01: a file that is read stays as it is
static string put(const string &content) {
  string f = newName(); if(watch) { putName = f; putContent = content; } FILE *fp = fopen(f.c_str(), "wb");
  if(!fp || (!content.empty() && fwrite(content.data(), 1, content.size(), fp) != content.size()) || fclose(fp) != 0) { fprintf(stderr, "cannot write %s\n", f.c_str()); _exit(3); }
  return f;
}
// a message is finished: no placeholder is left in it (unless the names in it have one)
static bool holes(const string &msg, const string &names) { if(names.find('%') != string::npos) return false; for(size_t p = 0; (p = msg.find('%', p)) != string::npos; p++) if(p + 1 < msg.size() && isdigit((unsigned char) msg[p + 1])) return true; return false; }
static void drop(const string &f) {
  if(watch && f == putName) { std::ifstream i(f, std::ios::binary); std::ostringstream o; if(i.peek() != EOF) o << i.rdbuf(); if(!i || o.str() != putContent) tampered = true; }
  unlink(f.c_str());
}

// ------------------------------------------------------------ the model of a loaded document

struct M { bool scalar = false; string text; std::map<string, M> kids; std::vector<string> list;
  bool operator==(const M &o) const { return scalar == o.scalar && text == o.text && kids == o.kids && list == o.list; } };
static void flat(const N &n, std::vector<string> &l) { if(n.kind == N::SCALAR) l.push_back(n.text); for(auto &k : n.items) flat(*k, l); }
static M model(const N &n) {
  M m;
  if(n.kind == N::SCALAR) { m.scalar = true; m.text = n.text; return m; }
  if(n.kind == N::SEQ) flat(n, m.list);
  for(auto &k : n.kids) {
    if(k.second->kind == N::SEQ) flat(*k.second, m.list);
    else if(k.second->kind != N::NUL) m.kids[k.first] = model(*k.second);
  }
  return m;
}
// what the public interface shows of a node
static string showList(const std::vector<string> &v) { string r = "["; for(auto &x : v) { if(r.size() > 1) r += ", "; r += quote(x, 40); if(r.size() > 600) { r += "..."; break; } } return r + "]"; }
template<typename P> static std::vector<string> listOf(P n) { std::vector<string> r; for(auto i : n->getList()) { string t = "<not readable>"; i->get(t); r.push_back(t); } return r; }
template<typename P> static std::vector<string> keysOf(P n) { std::vector<string> r; for(auto &k : n->getKeys()) r.push_back(k); return r; }
template<typename P> static M observe(P n) {
  M m; string t;
  for(auto &k : n->getKeys()) { auto x = n->getProp(k); if(x) m.kids[k] = observe(x); else { m.kids[k].text = "<not found>"; } }
  m.list = listOf(n);
  if(m.kids.empty() && m.list.empty() && n->get(t)) { m.scalar = true; m.text = t; }
  return m;
}
static string join(const std::vector<string> &p, size_t a = 0, size_t b = string::npos) { string r; for(size_t i = a; i < p.size() && i < b; i++) { if(i > a) r += ":"; r += p[i]; } return r; }
typedef std::vector<string> Path;
static void paths(const M &m, Path &cur, std::vector<std::pair<Path, const M *>> &out) { for(auto &k : m.kids) { cur.push_back(k.first); out.push_back({cur, &k.second}); paths(k.second, cur, out); cur.pop_back(); } }
static string diff(const M &a, const M &b, const string &at) {
  if(a.scalar != b.scalar || a.text != b.text) return "at " + quote(at) + ": value " + quote(a.text, 80) + (a.scalar ? "" : " (none)") + ", expected " + quote(b.text, 80) + (b.scalar ? "" : " (none)");
  if(a.list != b.list) return "at " + quote(at) + ": list " + showList(a.list) + ", expected " + showList(b.list);
  for(auto &k : b.kids) { auto i = a.kids.find(k.first); if(i == a.kids.end()) return "at " + quote(at) + ": key " + quote(k.first) + " is missing"; string d = diff(i->second, k.second, at + ":" + k.first); if(!d.empty()) return d; }
  for(auto &k : a.kids) if(!b.kids.count(k.first)) return "at " + quote(at) + ": key " + quote(k.first) + " was not in the file";
  return "";
}

// ------------------------------------------------------------ numbers

static bool isInt(const string &t) { size_t i = (t[0] == '-') ? 1 : 0; if(i >= t.size() || t.size() - i > 60) return false; for(; i < t.size(); i++) if(!isdigit((unsigned char) t[i])) return false; return true; }
static bool isDec(const string &t) { if(t.empty()) return false; char *e; size_t i = (t[0] == '-') ? 1 : 0; if(i >= t.size() || !isdigit((unsigned char) t[i]) || t.find_first_of("xXpP_ \t\n") != string::npos || t.find('\0') != string::npos) return false; strtod(t.c_str(), &e); return *e == 0 && e != t.c_str(); }
// does the text read as a T, and as which? 0 no, 1 yes, -1 unspecified
template<typename T> struct Ref;
template<> struct Ref<long> { static int get(const string &t, long &v) { if(!isInt(t)) return -1; errno = 0; v = strtol(t.c_str(), 0, 10); return errno ? 0 : 1; } };
template<> struct Ref<int> { static int get(const string &t, int &v) { long l; int r = Ref<long>::get(t, l); if(r != 1) return r; v = (int) l; return l == (long) v; } };
template<> struct Ref<short> { static int get(const string &t, short &v) { long l; int r = Ref<long>::get(t, l); if(r != 1) return r; v = (short) l; return l == (long) v; } };
template<> struct Ref<unsigned long> { static int get(const string &t, unsigned long &v) { if(!isInt(t) || t[0] == '-') return -1; errno = 0; v = strtoul(t.c_str(), 0, 10); return errno ? 0 : 1; } };
template<> struct Ref<unsigned> { static int get(const string &t, unsigned &v) { unsigned long l; int r = Ref<unsigned long>::get(t, l); if(r != 1) return r; v = (unsigned) l; return l == (unsigned long) v; } };
template<> struct Ref<double> { static int get(const string &t, double &v) { if(!isDec(t)) return -1; v = strtod(t.c_str(), 0); return std::isinf(v) ? -1 : 1; } };
template<> struct Ref<float> { static int get(const string &t, float &v) { if(!isDec(t)) return -1; v = strtof(t.c_str(), 0); double d = strtod(t.c_str(), 0); return std::isinf(v) || (v == 0 && d != 0) || (v != 0 && std::fabs(v) < 1.2e-38) ? -1 : 1; } };
// texts that are no number at all
static bool noNumber(const string &t) { size_t i = t.find_first_not_of(" \t\n\r\v\f"); return i == string::npos || (isalpha((unsigned char) t[i]) && !strchr("iInN", t[i])) || strchr("_/#:[]{},&*?|>'\"%@`!=<~\\", t[i]); }

template<typename T, typename F> static void checkNum(const char *name, const string &text, const string &where, F get, int &numbers) {
  T want = T(), got = T(7); int r = Ref<T>::get(text, want);
  if(r < 0) return;
  bool ok = get(got); numbers++;
  if(r == 1) CHECK(ok && got == want, "value " << quote(text) << " at " << quote(where) << " read as " << name << " gives " << (ok ? "" : "failure, left ") << got << ", expected " << want);
  else CHECK(!ok, "value " << quote(text) << " at " << quote(where) << " does not fit into " << name << " but was read as " << got);
}

// ------------------------------------------------------------ the properties

static string docDesc(const string &y) { return "file " + quote(y, 500); }

static void P01(Src &s, Ctx &c) {
  Gen g(s, false, false, true); NP doc = g.document(); Render r(s); string y = r.document(*doc); M m = model(*doc);
  DESC(docDesc(y));
  string f = put(y); Tree t; bool ctor = s.coin(); std::unique_ptr<Tree> tp;
  try { if(ctor) tp.reset(new Tree(f)); else { tp.reset(new Tree()); tp->readFile(f); } }
  catch(SoDa::Exception &e) { drop(f); CHECK(false, "loading a good file throws " << e.what()); }
  drop(f);
  // another tree in the same program
  std::unique_ptr<Tree> other; M m2;
  if(s.chance(1, 4)) {
    Gen g2(s, true, false, true); NP d2 = g2.map(3); if(d2->kind == N::MAP && doc->kind == N::MAP && !doc->kids.empty()) for(auto &k : d2->kids) { string nk = doc->kids[s.draw(doc->kids.size())].first; bool dup = false; for(auto &k2 : d2->kids) dup = dup || k2.first == nk; if(!dup && s.coin()) k.first = nk; }
    Render r2(s); string y2 = r2.document(*d2); m2 = model(*d2); DESC("; other tree, " << docDesc(y2)); f = put(y2);
    try { other.reset(new Tree()); other->readFile(f); } catch(SoDa::Exception &e) { drop(f); CHECK(false, "loading a good file throws " << e.what()); }
    drop(f); if(s.coin()) { string d = diff(observe(other->top()), m2, ""); CHECK(d.empty(), "in the other tree, " << d); }
  }
  std::vector<std::pair<Path, const M *>> ps; Path cur; paths(m, cur, ps);
  int scalars = 0, numbers = 0, deep = 0;
  SoDa::PropertyTree &tree = *tp;
  for(auto &p : ps) {
    string where = join(p.first); const M &v = *p.second;
    auto direct = tp->top()->getProp(where); CHECK(direct != nullptr, "path " << quote(where) << " is not found");
    for(size_t k = 1; k < p.first.size(); k++) {
      if(p.first.size() > 6 && !s.chance(1, 4)) continue;
      auto mid = tp->top()->getProp(join(p.first, 0, k)); CHECK(mid != nullptr, "path " << quote(join(p.first, 0, k)) << " is not found");
      auto x = mid->getProp(join(p.first, k)); CHECK(x == direct, "from the node " << quote(join(p.first, 0, k)) << " the rest of the path " << quote(where) << " leads to another node");
      auto x2 = mid->getProp(join(p.first, k), true); CHECK(x2 == direct, "from the node " << quote(join(p.first, 0, k)) << " the rest of the path " << quote(where) << " leads to another node");
    }
    if(!v.scalar) continue;
    scalars++; deep = std::max(deep, (int) p.first.size()); bool thr = s.coin();
    string got = "before"; bool ok = tree.get(got, where, thr);
    CHECK(ok && got == v.text, "value at " << quote(where) << " is " << (ok ? quote(got) : "not found") << ", expected " << quote(v.text));
    got = "before"; ok = direct->get(got, thr); CHECK(ok && got == v.text, "the node at " << quote(where) << " gives " << (ok ? quote(got) : "nothing") << ", expected " << quote(v.text));
#define NUM(T) checkNum<T>(#T, v.text, where, [&](T &x) { T x2 = x; bool a = tree.get(x, where), b = direct->get(x2); if(a != b || (a && x != x2)) return false; return a; }, numbers)
    NUM(int); NUM(long); NUM(short); NUM(unsigned); NUM(unsigned long); NUM(double); NUM(float);
#undef NUM
    if(v.text == "0" || v.text == "1") { bool b = v.text == "0"; CHECK(tree.get(b, where) && b == (v.text == "1"), "value " << v.text << " at " << quote(where) << " read as bool"); }
    if(v.text.size() == 1 && !isspace((unsigned char) v.text[0])) { char ch = 0; CHECK(tree.get(ch, where) && ch == v.text[0], "value " << quote(v.text) << " at " << quote(where) << " read as char"); }
  }
  if(other) { string d = diff(observe(other->top()), m2, ""); CHECK(d.empty(), "in the other tree, " << d); }
  c.label("two trees", other != nullptr);
  c.nontrivial(scalars > 0); c.label("nested", deep > 1); c.label("deeper than 10", deep > 10); c.label("aliases", y.find(": *a") != string::npos || y.find("[*a") != string::npos); c.label("flow", y.find('{') != string::npos); c.label("literal block", y.find("|-\n") != string::npos || y.find("|\n") != string::npos); c.label("numbers read", numbers > 0); c.label("no scalars", scalars == 0); c.label("more than 20 scalars", scalars > 20);
}

static void P02(Src &s, Ctx &c) {
  Gen g(s, s.chance(1, 4), true, false); NP doc = g.document(); Render r(s); string y = r.document(*doc); M m = model(*doc);
  DESC(docDesc(y));
  string f = put(y); Tree t;
  try { t.readFile(f); } catch(SoDa::Exception &e) { drop(f); CHECK(false, "loading a good file throws " << e.what()); }
  drop(f);
  SoDa::PropertyTree &tree = t;
  std::vector<std::pair<Path, const M *>> ps; Path cur; paths(m, cur, ps);
  int absent = 0, unread = 0, n = s.size(8, 20, 40, 1);
  for(int i = 0; i < n; i++) {
    // pick a base node, then leave the tree
    Path p; const M *node = &m;
    if(!ps.empty() && s.chance(3, 4)) { auto &x = ps[s.draw(ps.size())]; p = x.first; node = x.second; }
    bool thr = s.coin();
    if(s.chance(2, 3) || p.empty()) {
      size_t from = 0;
      switch(s.draw(6)) {
      case 0: if(!p.empty()) { size_t j = s.draw(p.size()); p[j] += "x"; } else p.push_back("nokey"); break;
      case 1: p.push_back(genKey(s)); break;
      case 2: if(!p.empty()) { size_t j = s.draw(p.size()); p[j] = p[j].substr(0, p[j].size() - 1); if(p[j].empty() || p[j].back() == ' ') p[j] = "Q"; } else p.push_back("Q"); break;
      case 3: p.push_back("b"); p.insert(p.begin() + s.draw(p.size()), ""); break;
      case 4: if(!p.empty()) p.insert(p.begin() + s.draw(p.size()), ""); else p.push_back("zz"); break;   // an existing path with an empty step in it
      default: if(p.size() > 1) p.erase(p.begin()); else p.push_back("zz"); break;
      }
      // does it name something?
      const M *x = &m; for(auto &k : p) { auto it = x->kids.find(k); if(it == x->kids.end()) { x = nullptr; break; } x = &it->second; }
      string where = join(p);
      if(x || p.back().empty() || where.find("  ") != string::npos) continue;
      bool bad = where[0] == ' '; for(auto &k : p) if(!k.empty() && (k[0] == ' ' || k.back() == ' ')) bad = true;
      if(bad) continue;
      absent++;
      // from some existing node on the way, or from the tree
      const M *at = &m; while(from + 1 < p.size() && at->kids.count(p[from]) && s.coin()) { at = &at->kids.at(p[from]); from++; }
      string rest = join(p, from); if(rest.empty()) continue;
      auto base = from ? t.top()->getProp(join(p, 0, from)) : t.top();
      CHECK(base != nullptr, "path " << quote(join(p, 0, from)) << " is not found");
      string what; int kind = (int) s.draw(4);
      DESC(" absent " << quote(rest, 60) << " from " << quote(join(p, 0, from), 60) << (thr ? " throw" : ""));
      try {
        if(kind == 0 && from == 0) { int v = 77; bool ok = thr ? tree.get(v, rest, true) : s.coin() ? tree.get(v, rest) : tree.get(v, rest, false); CHECK(!ok && v == 77, "the absent path " << quote(rest) << " gives " << ok << ", target " << v); }
        else if(kind == 1 && from == 0) { string v = "keep"; bool ok = thr ? tree.get(v, rest, true) : tree.get(v, rest); CHECK(!ok && v == "keep", "the absent path " << quote(rest) << " gives " << ok << ", target " << quote(v)); }
        else { auto x2 = thr ? base->getProp(rest, true) : s.coin() ? base->getProp(rest) : base->getProp(rest, false); CHECK(x2 == nullptr, "the absent path " << quote(rest) << " leads to a node"); }
        CHECK(!thr, "the absent path " << quote(rest) << " does not throw although asked to");
      }
      catch(PN::PropertyNotFound &e) { SoDa::Exception &b = e; what = b.what(); CHECK(thr, "throws although not asked to: " << what); CHECK(what.find(rest) != string::npos, "the message " << quote(what) << " does not name " << quote(rest)); CHECK(!holes(what, rest), "the message " << quote(what) << " has placeholders"); }
      catch(SoDa::Exception &e) { CHECK(false, "the absent path " << quote(rest) << " throws another exception: " << e.what()); }
    } else {
      string where = join(p); if(where.find("  ") != string::npos) continue;
      int kind = (int) s.draw(3); bool viaNode = s.coin();
      if(node->scalar && !noNumber(node->text)) { int v; if(Ref<int>::get(node->text, v) != 0) continue; kind = 0; }
      unread++;
      DESC(" unreadable " << quote(where, 60) << (thr ? " throw" : ""));
      auto x = t.top()->getProp(where); CHECK(x != nullptr, "path " << quote(where) << " is not found");
      try {
        bool ok; int vi = 7; double vd = 7; unsigned vu = 7;
        if(kind == 0) ok = viaNode ? (thr ? x->get(vi, true) : x->get(vi)) : thr ? tree.get(vi, where, true) : tree.get(vi, where);
        else if(kind == 1) ok = viaNode ? x->get(vd, thr) : tree.get(vd, where, thr);
        else ok = viaNode ? x->get(vu, thr) : tree.get(vu, where, thr);
        CHECK(!ok, "the value " << quote(node->text) << " at " << quote(where) << " was read as a number");
        CHECK(!thr, "the unreadable value " << quote(node->text) << " at " << quote(where) << " does not throw although asked to");
      }
      catch(PN::BadPropertyType &e) { SoDa::Exception &b = e; string what = b.what(); CHECK(thr, "throws although not asked to: " << what);
        CHECK(what.find(node->text) != string::npos && what.find(where) != string::npos, "the message " << quote(what) << " does not name the value " << quote(node->text) << " at " << quote(where)); CHECK(!holes(what, node->text + where), "the message " << quote(what) << " has placeholders"); }
      catch(SoDa::Exception &e) { CHECK(false, "the unreadable value at " << quote(where) << " throws another exception: " << e.what()); }
    }
  }
  // asking does not change the tree
  string d = diff(observe(t.top()), m, ""); CHECK(d.empty(), "after the lookups, " << d);
  c.nontrivial(absent + unread > 0); c.label("absent path", absent > 0); c.label("unreadable value", unread > 0); c.label("empty tree", m.kids.empty());
}

static void checkNode(Tree &t, PN *n, const M &m, const string &at, int &nodes, int &lists) {
  nodes++;
  std::vector<string> ks = keysOf(n), want; for(auto &k : m.kids) want.push_back(k.first);
  CHECK(ks == want, "keys of " << quote(at) << " are " << showList(ks) << ", expected " << showList(want));
  std::vector<string> l = listOf(n); if(!l.empty()) lists++;
  CHECK(l == m.list, "the list of " << quote(at) << " is " << showList(l) << ", expected " << showList(m.list));
  string pn = n->getPathName();
  CHECK(t.top()->getProp(pn) == n, "the path name " << quote(pn) << " of the node at " << quote(at) << " does not lead back to it");
  if(m.scalar) { string v; CHECK(n->get(v) && v == m.text, "value at " << quote(at) << " is " << quote(v) << ", expected " << quote(m.text)); }
  for(auto &k : m.kids) { auto x = n->getProp(k.first); CHECK(x != nullptr, "key " << quote(k.first) << " of " << quote(at) << " is not found"); checkNode(t, x, k.second, at.empty() ? k.first : at + ":" + k.first, nodes, lists); }
}
static NP anyDoc(Src &s, Gen &g) { return s.chance(1, 10) ? g.seq(4) : g.document(); }
static void P03(Src &s, Ctx &c) {
  Gen g(s, true, false, true); NP doc = anyDoc(s, g); Render r(s); string y = r.document(*doc); M m = model(*doc);
  DESC(docDesc(y));
  string f = put(y); Tree t;
  try { t.readFile(f); } catch(SoDa::Exception &e) { drop(f); CHECK(false, "loading a good file throws " << e.what()); }
  drop(f);
  int nodes = 0, lists = 0;
  auto top = t.top();
  checkNode(t, top, m, "", nodes, lists);
  checkNode(t, top, m, "", nodes, lists);
  c.nontrivial(nodes > 4 || lists > 0); c.label("lists", lists > 0); c.label("several lists", lists > 2); c.label("top level sequence", doc->kind == N::SEQ); c.label("more than 40 nodes", nodes > 80);
}

static void P04(Src &s, Ctx &c) {
  Tree t; M all; std::map<string, bool> fuzzy;   // top level keys whose old content may or may not be there
  int good = 0, bad = 0, n = s.range(1, 6); bool conflict = false; std::vector<string> names; PN *top0 = t.top(); int early = 0;
  std::vector<std::tuple<PN *, Path, string>> held;   // nodes that the caller keeps while further files are read
  for(int i = 0; i < n; i++) {
    if(s.chance(1, 3)) {
      M before = observe(t.top()); string f, y; bool missing = s.chance(1, 3), threw = false;
      if(missing) f = scratch + "/does-not-exist-" + std::to_string(s.draw(100)) + ".yaml";
      else {
        static const char *tails[] = { "zzz: [1, 2\n", "a: b: c\n", "zz: *nowhere\n", "{x: 1}: 2\n", "[a, b]: c\n", "]\n", "zz: {a: 1\n", "? {q: r}\n: v\n", "zz: @x\n" };
        Gen g(s, true, true, true); NP doc = g.map(3); Render r(s); r.plainstyle = true; std::string save;
        r.clear(*doc); r.blockMap(*doc, 0); y = r.out; if(y.empty()) y = "k: v\n";
        y += tails[s.draw(sizeof tails / sizeof *tails)];
        f = put(y);
      }
      DESC("read " << (missing ? "missing file" : docDesc(y)) << "; ");
      try { t.readFile(f); }
      catch(SoDa::PropertyTree::FileNotFound &e) { threw = true; SoDa::Exception &b = e; CHECK(missing, "a malformed file gives file-not-found: " << b.what()); CHECK(string(b.what()).find(f) != string::npos, "the message " << quote(b.what()) << " does not name " << f); }
      catch(SoDa::PropertyTree::BadSyntax &e) { threw = true; SoDa::Exception &b = e; string what = b.what(); CHECK(!missing, "a missing file gives bad-syntax: " << what); CHECK(what.find(f) != string::npos, "the message " << quote(what) << " does not name the file " << f); }
      if(!missing) drop(f);
      CHECK(threw, "no exception for the " << (missing ? "missing" : "malformed") << " file " << quote(y));
      string d = diff(observe(t.top()), before, ""); CHECK(d.empty(), "the " << (missing ? "missing" : "malformed") << " file changed the tree: " << d);
      bad++; continue;
    }
    Gen g(s, true, false, true); NP doc = s.chance(1, 10) ? g.seq(2) : g.map(s.range(1, 4));
    // keys that are there already
    if(doc->kind == N::MAP) for(auto &k : doc->kids) if(!names.empty() && s.chance(1, 3)) { string nk = names[s.draw(names.size())]; bool dup = false; for(auto &k2 : doc->kids) dup = dup || k2.first == nk; if(!dup) k.first = nk; }
    Render r(s); string y = r.document(*doc); M m = model(*doc);
    DESC("read " << docDesc(y) << "; ");
    std::vector<std::pair<Path, const M *>> ps; Path cur; paths(m, cur, ps);
    // paths that this file brings are asked for before it is read
    if(s.coin()) for(auto &p : ps) {
      if(!s.chance(1, 2) || fuzzy.count(p.first[0])) continue;
      const M *x = &all; for(auto &k : p.first) { auto it = x->kids.find(k); if(it == x->kids.end()) { x = nullptr; break; } x = &it->second; }
      string v = "?", where = join(p.first); bool ok = s.coin() ? t.get(v, where) : top0->getProp(where) != nullptr && top0->getProp(where)->get(v);
      if(!x) { early++; CHECK(!ok, "the path " << quote(where) << " gives " << quote(v) << " before its file is read"); }
      else if(x->scalar) CHECK(ok && v == x->text, "before the next file, the value at " << quote(where) << " is " << (ok ? quote(v) : "not found") << ", expected " << quote(x->text));
    }
    string f = put(y);
    try { t.readFile(f); } catch(SoDa::Exception &e) { drop(f); CHECK(false, "loading a good file throws " << e.what()); }
    drop(f); good++;
    std::set<string> inFile; if(doc->kind == N::MAP) for(auto &k : doc->kids) inFile.insert(k.first);
    for(auto &k : inFile) { names.push_back(k); if(all.kids.count(k) || fuzzy.count(k)) { conflict = true; fuzzy[k] = true; all.kids.erase(k); } }
    for(auto &k : m.kids) if(!fuzzy.count(k.first)) all.kids[k.first] = k.second;
    all.list.insert(all.list.end(), m.list.begin(), m.list.end());
    // the last file
    for(auto &p : ps) if(p.second->scalar) { string v = "?"; string where = join(p.first); bool ok = t.get(v, where); CHECK(ok && v == p.second->text, "after reading, the value at " << quote(where) << " is " << (ok ? quote(v) : "not found") << ", expected " << quote(p.second->text) << " from the last file"); }
    // everything else that is certain
    M now = observe(t.top());
    for(auto &k : fuzzy) now.kids.erase(k.first);
    string d = diff(now, all, ""); CHECK(d.empty(), "after " << good << " files, " << d);
    for(auto &h : held) { if(fuzzy.count(std::get<1>(h)[0])) continue; string v; CHECK(std::get<0>(h)->get(v) && v == std::get<2>(h), "the node of " << quote(join(std::get<1>(h))) << " kept by the caller gives " << quote(v) << " after the next file, expected " << quote(std::get<2>(h))); }
    for(auto &p : ps) if(p.second->scalar && held.size() < 20 && s.chance(1, 3)) { PN *x = top0->getProp(join(p.first)); CHECK(x != nullptr, "from the top node, " << quote(join(p.first)) << " is not found"); held.push_back(std::make_tuple(x, p.first, p.second->text)); }
  }
  c.nontrivial(good > 1 || bad > 0); c.label("several files", good > 1); c.label("path asked for before its file is read", early > 0); c.label("refused file", bad > 0); c.label("same top level key twice", conflict);
}

template<typename P> static void walk(P n, int depth, int &left) {
  if(left-- <= 0) return;
  int i = 0; double d = 0; string t; char ch; n->get(i); n->get(d); n->get(ch); n->get(t);
  try { n->get(i, true); } catch(SoDa::Exception &) {}
  (void) n->getPathName();
  for(auto x : n->getList()) { if(left-- <= 0) break; string v; CHECK(x->get(v), "a list item has no value"); (void) x->getPathName(); }
  auto ks = n->getKeys(); std::vector<string> v(ks.begin(), ks.end()), so = v; std::sort(so.begin(), so.end()); CHECK(v == so, "keys are not sorted");
  for(auto &k : v) { try { n->getProp(k, true); } catch(SoDa::Exception &) {} auto x = n->getProp(k); if(x && x != n) walk(x, depth + 1, left); }
}
static void P05(Src &s, Ctx &c) {
  string y; const char *kind = "";
  switch(s.draw(7)) {
  case 5: { kind = "odd keys and values"; bool flow = s.coin();
    static const char *ks[] = { "~", "null", "", "\"\"", "''", "!!null x", "? ", "[a, b]", "[]", "{}", "{a: b}", "&k k", "*k", "1", "true", "!t x", "\"a:b\"", "\":\"", "a", "<<", "-1", "[~]", "[[x]]" };
    static const char *vs[] = { "~", "", "1", "''", "\"\"", "[]", "{}", "[~]", "[a, ~, '']", "{~: 1}", "{: 1}", "[{a: 1}]", "!!null ''", "!!str", "!t", "&v w", "*v", "*k", "[*v]", "|", "{a: {b: }}", "\"\\0\"", "\"\\u0000\\xff\"" };
    int n = s.size(4, 12, 40, 1), depth = 0; if(flow) y = "{";
    for(int i = 0; i < n; i++) {
      string k = ks[s.draw(sizeof ks / sizeof *ks)], v = vs[s.draw(sizeof vs / sizeof *vs)]; if(k[0] == '*' && s.chance(3, 4)) k = "a"; if(v.find('*') != string::npos && s.chance(3, 4)) v = "~"; bool cplx = s.chance(1, 3); if(s.coin()) k += std::to_string(i) == "0" || k.empty() || !isalpha((unsigned char) k[0]) ? "" : std::to_string(i);
      if(flow) { if(i) y += ", "; y += (cplx ? "? " : "") + k + " : " + v; if(s.chance(1, 5)) { y += ", m" + std::to_string(i) + ": {"; depth++; y += "z: 1"; } }
      else { string in(depth * 2, ' '); y += cplx ? in + "? " + k + "\n" + in + ": " + v + "\n" : in + k + ": " + v + "\n"; if(s.chance(1, 5)) { y += in + "m" + std::to_string(i) + ":\n"; depth++; if(i == n - 1) break; } else if(depth && s.chance(1, 4)) depth--; }
    }
    if(flow) y += string(depth + 1, '}');
    break; }
  case 0: { int n = s.size(30, 120, 400); kind = "bytes"; for(int i = 0; i < n; i++) y += (char) s.draw(256); break; }
  case 1: { int n = s.size(40, 200, 1500); kind = "yaml characters"; for(int i = 0; i < n; i++) y += s.pickc("ab:: \n\n- []{},?&*!|>'\"#%@~<.0\t"); break; }
  case 2: { kind = "yaml tokens"; static const char *tk[] = { "a", "b: ", ": ", "- ", "\n", "\n  ", "\n    ", "[", "]", "{", "}", ", ", "&x ", "*x", "? ", "'", "\"", "|\n", ">\n", "#", "---\n", "...\n", "~", "!!map ", "!!str ", "!t ", "<<: ", "%YAML 1.2\n", "null", "\\", "\xef\xbb\xbf", "\xff\xfe", "key: ", "1" };
    auto l = s.loop(20, 200); while(s.more(l)) y += tk[s.draw(sizeof tk / sizeof *tk)]; break; }
  case 3: { kind = "mutated document"; Gen g(s, true, false, true); NP d = anyDoc(s, g); Render r(s); y = r.document(*d); auto l = s.loop(3, 20);
    while(s.more(l) && !y.empty()) { size_t p = s.draw(y.size()); switch(s.draw(4)) { case 0: y.erase(p, 1 + s.draw(5)); break; case 1: y.insert(p, 1, s.pickc("\n :-[]{},&*'\"#|?")); break; case 2: y[p] = (char) s.draw(256); break; default: y.insert(p, y.substr(s.draw(y.size()), s.draw(30))); } } break; }
  case 4: { kind = "self reference"; static const char *f[] = { "a: &x {b: *x}\n", "&x [*x]\n", "&x {a: 1, b: [1, [*x]]}\n", "a: &x\n  b: &y\n    c: *x\n    d: *y\n", "&x\na: {b: {c: {d: *x}}}\n", "- &x [1, {k: *x}]\n", "a: &x [1, 2]\nb: *x\nc: [*x, *x]\n", "? &k a\n: *k\n", "&x ? *x\n: 1\n", "a: &x {? *x : 1}\n", "a: &x {k: &x {j: *x}, l: *x}\n" };
    y = f[s.draw(sizeof f / sizeof *f)]; if(s.coin()) y = "pre: 1\n" + (y[0] == '&' || y[0] == '-' ? "q:\n  " + y : y); if(s.chance(1, 4) && !y.empty()) y.erase(s.draw(y.size()), 1); break; }
  default: { kind = "deep nesting"; int n = s.size(40, 300, 3000, 1); char o = s.pickc("[{-:?"); for(int i = 0; i < n; i++) { if(o == '[') y += "["; else if(o == '{') y += "{a: "; else if(o == '-') y += "- "; else if(o == '?') y += "? "; else y += "\n" + string(i > 300 ? 300 : i, ' ') + "k:"; } if(s.coin() && (o == '[' || o == '{')) y += string(n, o == '[' ? ']' : '}'); break; }
  }
  DESC(kind << " " << docDesc(y));
  bool missing = s.chance(1, 40); string f = missing ? scratch + "/none/" + std::to_string(s.draw(1000)) : put(y); bool loaded = false; std::unique_ptr<Tree> t; bool ctor = s.coin();
  try { if(ctor) t.reset(new Tree(f)); else { t.reset(new Tree()); t->readFile(f); } loaded = true; CHECK(!missing, "a missing file was loaded"); }
  catch(SoDa::PropertyTree::FileNotFound &e) { CHECK(missing, "an existing file gives file-not-found"); SoDa::Exception &b = e; CHECK(string(b.what()).find(f) != string::npos, "the message " << quote(b.what()) << " does not name " << f); }
  catch(SoDa::PropertyTree::BadSyntax &e) { CHECK(!missing, "a missing file gives bad-syntax"); SoDa::Exception &b = e; CHECK(string(b.what()).find(f) != string::npos, "the message " << quote(b.what()) << " does not name " << f); DESC(" -> " << quote(e.what(), 200)); }
  catch(SoDa::Exception &e) { CHECK(!missing, "a missing file gives another exception: " << e.what()); DESC(" -> " << quote(e.what(), 200)); }
  if(!missing) drop(f);
  if(t) {   // also after a refused file the tree can be used
    int left = 3000; auto top = t->top(); walk(top, 0, left);
    std::ostringstream o; t->dump(o); int i; CHECK(!t->get(i, "there is no such key!"), "a key that cannot be there");
    if(loaded) DESC(" -> loaded, " << top->getKeys().size() << " keys, " << top->getList().size() << " list items");
  }
  c.nontrivial(!y.empty()); c.label(kind); c.label("loaded", loaded); c.label("refused", !loaded && !missing); c.label("missing file", missing);
}

static void expectLines(const M &m, std::multiset<string> &l) {
  for(auto &x : m.list) l.insert(trim(x));
  for(auto &k : m.kids) { string v = k.second.scalar ? trim(k.second.text) : ""; l.insert(trim(k.first) + ":" + v); expectLines(k.second, l); }
}
static void P06(Src &s, Ctx &c) {
  Gen g(s, true, true, true); NP doc = anyDoc(s, g); Render r(s); string y = r.document(*doc); M m = model(*doc);
  DESC(docDesc(y));
  string f = put(y); Tree t;
  try { t.readFile(f); } catch(SoDa::Exception &e) { drop(f); CHECK(false, "loading a good file throws " << e.what()); }
  drop(f);
  std::ostringstream o; std::ostream &back = t.dump(o); CHECK(&back == &o, "dump returns another stream");
  string text = o.str(); std::multiset<string> want, got; expectLines(m, want);
  DESC(" -> " << quote(text, 300));
  std::istringstream in(text); string line;
  // blank items and keys of mappings leave lines with nothing but blanks or key and colon
  while(std::getline(in, line)) { string x = trim(line); if(x == "<<<PROPLIST>>>" || x == "<<<DICTIONARY>>>") continue; got.insert(x); }
  // key, colon, blanks, value
  auto norm = [](const string &k, const string &v) { return k + ":  " + v; };
  std::multiset<string> want2; std::function<void(const M &)> fill = [&](const M &n) {
    for(auto &x : n.list) want2.insert(trim(x));
    for(auto &k : n.kids) { want2.insert(trim(norm(k.first, k.second.scalar ? k.second.text : ""))); fill(k.second); } };
  fill(m);
  for(auto &x : want2) CHECK(got.count(x) == want2.count(x), "the line " << quote(x) << " is in the dump " << got.count(x) << " times, expected " << want2.count(x) << ": " << quote(text));
  CHECK(got.size() == want2.size(), "the dump has " << got.size() << " lines, expected " << want2.size() << ": " << quote(text));
  // the part of one node, from anywhere in the tree
  auto oneLine = [](string x) { if(!x.empty() && x.back() == '\n') x.pop_back(); return trim(x); };
  int parts = 0; std::function<void(PN *, const M &, int)> part = [&](PN *n, const M &w, int depth) {
    if(n == nullptr || parts > 60) return;
    parts++; string ind = string(parts % 3 * 2, ' ');
    std::ostringstream po; std::ostream &pb = n->dump(po, ind); CHECK(&pb == &po, "dumping a node returns another stream");
    if(w.scalar) { CHECK(oneLine(po.str()) == trim(w.text), "the dump of a node with value " << quote(w.text) << " is " << quote(po.str())); }
    else {
      std::multiset<string> pw, pg; want2.swap(pw); fill(w); want2.swap(pw);
      std::istringstream pin(po.str()); string ln; while(std::getline(pin, ln)) { string x = trim(ln); if(x == "<<<PROPLIST>>>" || x == "<<<DICTIONARY>>>") continue; pg.insert(x); }
      CHECK(pg == pw, "the dump of a node is " << quote(po.str()) << ", which has " << pg.size() << " lines of its " << pw.size());
    }
    size_t li = 0; for(auto x : n->getList()) { if(li >= w.list.size() || li > 5) break; std::ostringstream lo; x->dump(lo, ind); CHECK(oneLine(lo.str()) == trim(w.list[li]), "the dump of the list item " << quote(w.list[li]) << " is " << quote(lo.str())); li++; }
    for(auto &k : w.kids) part(n->getProp(k.first), k.second, depth + 1);
  };
  part(t.top(), m, 0);
  std::ostringstream o2; t.dump(o2); CHECK(o2.str() == text, "a second dump differs");
  string d = diff(observe(t.top()), m, ""); CHECK(d.empty(), "after the dump, " << d);
  c.nontrivial(want2.size() > 1); c.label("lists", text.find("PROPLIST") != string::npos); c.label("nested", m.kids.size() + m.list.size() < want2.size());
}

static std::set<string> known;
static void P07(Src &s, Ctx &c) {
  Gen g(s, true, false, true); NP doc = anyDoc(s, g); Render r(s); string y = r.document(*doc); M m = model(*doc);
  DESC("tree of " << docDesc(y));
  string f = put(y); Tree t;
  try { t.readFile(f); } catch(SoDa::Exception &e) { drop(f); CHECK(false, "loading a good file throws " << e.what()); }
  drop(f);
  string w = newName(); drop(w); struct stat st;
  try { t.writeFile(w); } catch(SoDa::Exception &e) { drop(w); CHECK(false, "writeFile throws " << e.what()); }
  string d = diff(observe(t.top()), m, ""); CHECK(d.empty(), "after writing, " << d);
  c.nontrivial(!m.kids.empty() || !m.list.empty());
  if(stat(w.c_str(), &st) != 0) {
    if(known.count("writeFile-is-a-stub")) { c.findings.insert("writeFile-is-a-stub"); c.label("no file was written (known finding)"); return; }
    CHECK(false, "writeFile wrote no file");
  }
  Tree t2;
  try { t2.readFile(w); } catch(SoDa::Exception &e) { drop(w); CHECK(false, "reading the written file throws " << e.what()); }
  drop(w);
  d = diff(observe(t2.top()), m, ""); CHECK(d.empty(), "read back, " << d);
  c.label("read back");
}

namespace pbt {
const std::vector<Prop> props = { {"P01", P01}, {"P02", P02}, {"P03", P03}, {"P04", P04}, {"P05", P05}, {"P06", P06}, {"P07", P07} };
void harnessInit() {
  const char *d = getenv("PBT_SCRATCH"); string base = d ? d : "/tmp/w/scratch"; mkdir(base.c_str(), 0755);
  scratch = base + "/" + std::to_string(getpid()); mkdir(scratch.c_str(), 0755);
  std::istringstream k(getenv("PBT_KNOWN") ? getenv("PBT_KNOWN") : ""); string x; while(k >> x) known.insert(x);
}
}
