// Property of the exceptions of all components (E01)
#include "pbt.hpp"
#include "Format.hxx"
#include "Barrier.hxx"
#include "MailBox.hxx"
#include "PropertyTree.hxx"
#include "PropertyTreeYAML.hxx"
#include "Options.hxx"
#include <fstream>
#include <functional>
#include <list>
#include <sstream>
#include <vector>
#include <exception>
#include <memory>
#include <thread>
#include <type_traits>
#include <unistd.h>
#include <sys/stat.h>
using namespace pbt;
using std::string;

static string scratch;
typedef std::exception_ptr EP;
typedef std::vector<string> Names;

// a name as people might choose it, and worse
static string genName(Src &s, bool file, int max) {
  static const char *f[] = { "%0", "%1", "%2", "%", "%%", "%0%1", "100%1", "a b", "\"", "\\", "[x]", "...", "%1 %0", "%00", "%9", "{}", "%s%n", "\xc3\xa9", "null" };
  string r; int n = s.size(6, 20, max, 1); uint64_t style = s.draw(4);
  while((int) r.size() < n) switch(style) {
    case 0: r += (char)('a' + s.draw(26)); break;
    case 1: r += f[s.draw(sizeof f / sizeof *f)]; break;
    case 2: r += s.coin() ? s.pickc("%019 abc") : (char)(33 + s.draw(94)); break;
    default: r += (char)(1 + s.draw(255)); break; }
  if((int) r.size() > max) r.resize(max);
  if(file) { for(auto &ch : r) if(ch == '/') ch = '_'; if(r == "." || r == "..") r = "dots"; }
  return r;
}
// a key: printable, no ':', no outer or double blanks
static string genKey(Src &s) { string t = genName(s, false, 100), r; for(char ch : t) { if(ch < 32 || ch > 126 || ch == ':') ch = '_'; if(ch == ' ' && (r.empty() || r.back() == ' ')) continue; r += ch; } while(!r.empty() && r.back() == ' ') r.pop_back(); return r.empty() ? "k" : r; }
static string dq(const string &t) { string r = "\""; for(char ch : t) { if(ch == '"' || ch == '\\') r += '\\'; r += ch; } return r + "\""; }

struct Tree : public SoDa::PropertyTreeYAML { auto top() -> decltype(this->root->getProp("", false)) { return this->root->getProp("", false); } };
struct Msg { int v; };
typedef SoDa::MailBox<int> MI; typedef SoDa::MailBox<Msg> MM;

// what an exception says, by everything it can be caught as
struct Seen { Names as; int classes = 0; };
template<typename X> static void catchAs(EP ep, Seen &r) { try { std::rethrow_exception(ep); } catch(X &x) { r.as.push_back(static_cast<const std::exception &>(x).what()); r.classes++; } catch(...) { r.as.push_back("<not caught>"); } }
template<typename X> static void copies(EP ep, Seen &r) {
  std::unique_ptr<X> c; std::unique_ptr<SoDa::Exception> base;
  try { std::rethrow_exception(ep); } catch(X &x) { c.reset(new X(x)); base.reset(new SoDa::Exception(x)); } catch(...) { r.as.push_back("<not caught>"); return; }
  r.as.push_back(c->what()); X d(*c); c.reset(); r.as.push_back(d.what()); r.as.push_back(base->what());
  try { throw d; } catch(SoDa::Exception &x) { r.as.push_back(x.what()); } catch(...) { r.as.push_back("<not caught>"); }
}
template<typename X> static void nested(EP ep, Seen &r) {   // caught, rethrown, caught again
  try { try { std::rethrow_exception(ep); } catch(SoDa::Exception &) { throw; } } catch(X &x) { r.as.push_back(x.what()); r.as.push_back(x.what()); } catch(...) { r.as.push_back("<not caught>"); }
}
template<typename X, typename Base> static Seen look(EP ep) {
  static_assert(std::is_base_of<SoDa::Exception, X>::value, "a library exception");
  Seen r; catchAs<X>(ep, r); catchAs<Base>(ep, r); catchAs<SoDa::Exception>(ep, r); catchAs<std::runtime_error>(ep, r); catchAs<std::exception>(ep, r); copies<X>(ep, r); nested<X>(ep, r); return r;
}
static void stomp(Src &s) { std::vector<std::unique_ptr<char[]>> v; for(size_t n = 8; n < 1500; n += n / 2) for(int i = 0; i < 3; i++) { v.emplace_back(new char[n]); memset(v.back().get(), '#' + (int) (i & 3), n); } (void) s; }

template<typename F> static EP catchIn(F f) { try { f(); } catch(...) { return std::current_exception(); } return nullptr; }

enum Kind { STRICT, TIMEOUT, CORRUPT, ENDED, WRONG, CONVERT, NOFILE, SYNTAX, NOPATH, TYPE, NKINDS };
static const char *kname[] = { "strict read", "barrier timeout", "corrupt barrier", "ended subscription", "wrong mailbox", "wrong conversion", "missing file", "malformed file", "missing path", "unreadable value" };
static string put(const string &dir, const string &name, const string &content) {
  string f = dir + "/" + name; FILE *fp = fopen(f.c_str(), "wb"); if(!fp || (!content.empty() && fwrite(content.data(), 1, content.size(), fp) != content.size()) || fclose(fp) != 0) { fprintf(stderr, "cannot write %s\n", f.c_str()); _exit(3); } return f;
}
// how: details that must not matter for the text of the message
static int endedId;
static EP provoke(Kind k, const Names &n, unsigned how, unsigned param) {
  switch(k) {
  case STRICT: { std::unique_ptr<SoDa::Format> f(new SoDa::Format(n[0] + "%" + std::to_string(param % 10))); return catchIn([&] { f->str(true); }); }
  case TIMEOUT: { SoDa::BarrierPtr b = SoDa::makeBarrier(n[0], 2 + how % 5); return catchIn([&] { if(how & 8) b->wait(1ul); else b->wait(std::chrono::milliseconds(1)); }); }
  case CORRUPT: { SoDa::BarrierPtr b = SoDa::makeBarrier(n[0], 2 + how % 5); catchIn([&] { b->wait(1ul); }); return catchIn([&] { if(how & 8) b->wait(0ul); else b->wait(5ul); }); }
  case ENDED: { auto m = SoDa::makeMailBox<Msg>(n[0]); for(unsigned k = param; k > 0; k--) m->subscribe(); auto a = m->subscribe(), b = m->subscribe(); int id = endedId = b->getIndex(m.get()); m->unsubscribe(id); return catchIn([&] { switch(how % 3) { case 0: m->get(b); break; case 1: m->readyCount(b); break; default: m->clear(b); break; } }); }
  case WRONG: { auto m = SoDa::makeMailBox<Msg>(n[0]), o = SoDa::makeMailBox<Msg>(n[1]); auto a = o->subscribe(); return catchIn([&] { switch(how % 4) { case 0: m->get(a); break; case 1: m->readyCount(a); break; case 2: m->clear(a); break; default: m->put(std::make_shared<Msg>(), a); break; } }); }
  case CONVERT: { std::shared_ptr<SoDa::MailBoxBase> m = SoDa::makeMailBox<Msg>(n[0]); return catchIn([&] { SoDa::MailBoxBase::convert<MI>(m); }); }
  case NOFILE: { string f = scratch + "/no-such-directory/" + n[0]; return catchIn([&] { if(how & 1) { SoDa::PropertyTreeYAML t(f); } else { SoDa::PropertyTreeYAML t; t.readFile(f); } }); }
  case SYNTAX: { string f = put(scratch, n[0], "[ a, b }\n"); EP e = catchIn([&] { if(how & 1) { SoDa::PropertyTreeYAML t(f); } else { SoDa::PropertyTreeYAML t; t.readFile(f); } }); unlink(f.c_str()); return e; }
  case NOPATH: { string f = put(scratch, "np.yaml", "a:\n  b: 1\n"); std::unique_ptr<Tree> t(new Tree); t->readFile(f); unlink(f.c_str()); SoDa::PropertyTree &pt = *t; return catchIn([&] { int v; if(how & 1) pt.get(v, n[0], true); else t->top()->getProp(n[0], true); }); }
  default: { string f = put(scratch, "ty.yaml", dq(n[0]) + ":\n  " + dq(n[1]) + ": " + dq(n[2]) + "\n"); std::unique_ptr<Tree> t(new Tree); t->readFile(f); unlink(f.c_str()); SoDa::PropertyTree &pt = *t; string p = n[0] + ":" + n[1];
    return catchIn([&] { if(how & 1) { int v; pt.get(v, p, true); } else { int v; auto x = t->top()->getProp(p); if(x) x->get(v, true); } }); }
  }
}
static Seen lookAt(Kind k, EP e) {
  switch(k) {
  case STRICT: return look<SoDa::Format::BadFormat, SoDa::Exception>(e);
  case TIMEOUT: return look<SoDa::Barrier::Timeout, SoDa::Barrier::Exception>(e);
  case CORRUPT: return look<SoDa::Barrier::Corrupt, SoDa::Barrier::Exception>(e);
  case ENDED: return look<SoDa::MailBoxBase::MissingSubscriber, SoDa::MailBoxBase::Exception>(e);
  case WRONG: return look<SoDa::MailBoxBase::SubscriptionMismatch, SoDa::MailBoxBase::Exception>(e);
  case CONVERT: return look<SoDa::MailBoxBase::BadConversion, SoDa::MailBoxBase::Exception>(e);
  case NOFILE: return look<SoDa::PropertyTree::FileNotFound, SoDa::Exception>(e);
  case SYNTAX: return look<SoDa::PropertyTree::BadSyntax, SoDa::Exception>(e);
  case NOPATH: return look<SoDa::PropertyTree::PropNode::PropertyNotFound, SoDa::Exception>(e);
  default: return look<SoDa::PropertyTree::PropNode::BadPropertyType, SoDa::Exception>(e);
  }
}
static size_t countNames(Kind k) { return k == WRONG ? 2 : k == TYPE ? 3 : 1; }
// names that occur nowhere else
static Names plainNames(Kind k) { Names r; for(size_t i = 0; i < countNames(k); i++) r.push_back("qZ" + std::to_string(i) + "Zq"); return r; }
static string subst(string t, const Names &from, const Names &to) { string r; for(size_t p = 0; p < t.size(); ) { bool hit = false; for(size_t i = 0; i < from.size() && !hit; i++) if(t.compare(p, from[i].size(), from[i]) == 0) { r += to[i]; p += from[i].size(); hit = true; } if(!hit) r += t[p++]; } return r; }

static bool hasNumber(const string &t, const string &id) { for(size_t p = 0; (p = t.find(id, p)) != string::npos; p++) if((p == 0 || !isdigit((unsigned char) t[p - 1])) && (p + id.size() >= t.size() || !isdigit((unsigned char) t[p + id.size()]))) return true; return false; }
static void E01(Src &s, Ctx &c) {
  struct One { Kind k; Names n; unsigned how, param; EP e; string first; };
  std::vector<One> v; int n = s.range(1, 3); bool percent = false;
  for(int i = 0; i < n; i++) {
    One o; o.k = (Kind) s.draw(NKINDS); if((o.k == TIMEOUT || o.k == CORRUPT) && !s.chance(1, 6)) o.k = (Kind) s.draw(NKINDS); o.how = (unsigned) s.draw(16); o.param = (unsigned) s.draw(10); if(o.k == ENDED && s.coin()) o.param = (unsigned) s.draw(s.chance(1, 300) ? 70000 : 300);
    bool file = o.k == NOFILE || o.k == SYNTAX;
    for(size_t j = 0; j < countNames(o.k); j++) o.n.push_back(o.k == TYPE ? genKey(s) : o.k == NOPATH ? genKey(s) : genName(s, file, file ? 150 : s.chance(1, 20) ? 5000 : 300));
    if(o.k == TYPE) { if(!isalpha((unsigned char) o.n[2][0])) o.n[2] = "x" + o.n[2]; }
    if(o.k == NOPATH && (o.n[0] == "a" || o.n[0] == "a:b")) o.n[0] = "aa";
    if(o.k == STRICT) { o.n[0] += ' '; }   // (the field after it is open in any case)
    for(auto &x : o.n) percent = percent || x.find('%') != string::npos;
    DESC(kname[o.k] << " of"); for(auto &x : o.n) DESC(" " << quote(x, 80)); DESC("; ");
    EP ref = provoke(o.k, plainNames(o.k), o.how, o.param); CHECK(ref, "no exception: " << kname[o.k]);
    o.e = provoke(o.k, o.n, o.how, o.param); CHECK(o.e, "no exception: " << kname[o.k] << " of " << quote(o.n[0], 200));
    if(s.coin()) stomp(s);
    Seen a = lookAt(o.k, o.e), b = lookAt(o.k, ref);
    CHECK(a.classes == 5, "the exception for a " << kname[o.k] << " cannot be caught as all of its classes");
    for(auto &x : a.as) CHECK(x == a.as[0], "the message of the exception for a " << kname[o.k] << " is " << quote(a.as[0], 300) << " and then " << quote(x, 300));
    o.first = a.as[0]; string r = b.as[0]; Names pl = plainNames(o.k);
    size_t must = o.k == WRONG ? 1 : o.n.size();
    for(size_t j = 0; j < must; j++) CHECK(o.first.find(o.k == TYPE && j < 2 ? o.n[0] + ":" + o.n[1] : o.n[j]) != string::npos, "the message " << quote(o.first, 400) << " for a " << kname[o.k] << " does not name " << quote(o.n[j], 300));
    if(o.k == ENDED) { string id = std::to_string(endedId); CHECK(hasNumber(r, id), "the message " << quote(r, 300) << " does not name the subscriber " << id); }
    if(o.k != STRICT) {
      string want = subst(r, pl, o.n);
      CHECK(o.first == want, "the message for a " << kname[o.k] << " of " << quote(o.n[0], 200) << " is " << quote(o.first, 500) << "; by that for a plain name it is " << quote(want, 500));
      for(size_t p = 0; (p = r.find('%', p)) != string::npos; p++) CHECK(p + 1 >= r.size() || !isdigit((unsigned char) r[p + 1]), "the message " << quote(r, 300) << " has a placeholder left");
    }
    // the same again: the same message
    if(o.k != STRICT || s.coin()) { EP again = provoke(o.k, o.n, o.how, o.param); CHECK(again && lookAt(o.k, again).as[0] == o.first, "the same " << kname[o.k] << " again gives another message: " << quote(again ? lookAt(o.k, again).as[0] : "none", 300) << ", before " << quote(o.first, 300)); }
    v.push_back(o);
  }
  // they are kept, perhaps handed to another thread
  stomp(s);
  auto check = [&] { for(auto &o : v) { Seen a = lookAt(o.k, o.e); for(auto &x : a.as) if(x != o.first) return false; } return true; };
  bool good = true; if(s.chance(1, 8)) { std::thread t([&] { good = check(); }); t.join(); c.label("in another thread"); } else good = check();
  CHECK(good, "the message of a kept exception changed");
  c.nontrivial(); for(auto &o : v) c.label(kname[o.k]); c.label("several kept", v.size() > 1); c.label("names with %", percent);
}

// What the caller's functions throw (X02): it passes through unchanged, and the objects stay usable.
struct Mine { int id; string what; std::shared_ptr<int> held; }; // not a std::exception
struct MineStd : std::runtime_error { int id; MineStd(int i, const string &w) : std::runtime_error(w), id(i) { } };
struct MineSoDa : SoDa::Exception { int id; MineSoDa(int i, const string &w) : SoDa::Exception(w), id(i) { } };
static int throwKind, thrownId; static string thrownText; static std::weak_ptr<int> thrownHeld;
[[noreturn]] static void raise(const string &why) {
  thrownId++; thrownText = "thrown: " + why;
  switch(throwKind) {
  case 0: { auto h = std::make_shared<int>(thrownId); thrownHeld = h; throw Mine{ thrownId, thrownText, h }; }
  case 1: throw MineStd(thrownId, thrownText);
  case 2: throw MineSoDa(thrownId, thrownText);
  case 3: throw thrownId;
  default: throw (const char *) thrownText.c_str();
  }
}
static const char *throwName[] = { "a class of the caller's", "a std::runtime_error", "a SoDa::Exception", "a number", "a string" };
// runs f: 0 ended, 1 by what raise() threw last, unchanged; anything else is described in how
template<typename F> static int passes(F f, string &how) {
  int before = thrownId; how.clear();
  try { f(); if(thrownId != before) { how = "nothing arrives"; return 2; } return 0; }
  catch(::pbt::Failure &) { throw; }
  catch(Mine &m) { if(throwKind == 0 && m.id == thrownId && m.what == thrownText && m.held && *m.held == m.id && thrownId != before) return 1; how = "another object arrives"; }
  catch(MineSoDa &m) { if(throwKind == 2 && typeid(m) == typeid(MineSoDa) && m.id == thrownId && m.what() == thrownText && thrownId != before) return 1; how = "another object arrives"; }
  catch(MineStd &m) { if(throwKind == 1 && typeid(m) == typeid(MineStd) && m.id == thrownId && m.what() == thrownText && thrownId != before) return 1; how = "another object arrives"; }
  catch(int i) { if(throwKind == 3 && i == thrownId && thrownId != before) return 1; how = "another number arrives"; }
  catch(const char *c) { if(throwKind == 4 && c == thrownText && thrownId != before) return 1; how = "another string arrives"; }
  catch(std::exception &e) { how = string("an exception ") + typeid(e).name() + " arrives: " + e.what(); }
  return 2;
}
// a value whose >> throws when it reads '!'
struct Val { string t; bool operator==(const Val &o) const { return t == o.t; } };
static std::istream &operator>>(std::istream &is, Val &v) { is >> v.t; if(!v.t.empty() && v.t[0] == '!') raise("reading " + v.t); return is; }
// a stream buffer that throws after some characters
struct Full : std::streambuf {
  string got; size_t room; Full(size_t r) : room(r) { }
  int overflow(int c) override { if(c == EOF) return 0; if(got.size() >= room) raise("no room"); got.push_back((char) c); return c; }
  std::streamsize xsputn(const char *p, std::streamsize n) override { for(std::streamsize i = 0; i < n; i++) overflow((unsigned char) p[i]); return n; }
};
static string okWord(Src &s) { static const char *w[] = { "alpha", "b", "some_longer_word_that_does_not_fit", "x1" }; return w[s.draw(4)]; }

static void throwingParser(Src &s, Ctx &c) {
  bool kvp = s.draw(4) == 3, dflt = s.coin(); int i = 0; Val u; string t; std::vector<int> v; std::vector<Val> uv; bool p = false; int bad = 0;
  SoDa::Options o(kvp); std::function<bool(int)> ti = [](int x) { if(x < 0) raise("testing " + std::to_string(x)); return true; };
  std::function<bool(string)> tt = [](string x) { if(x[0] == '!') raise("testing " + x); return true; };
  if(dflt) o.add<int>(&i, "int", 'i', 7, "an int", ti).add<string>(&t, "str", 's', string("d"), "a string", tt).add<Val>(&u, "usr", 'u', Val{ "d" }, "of a class");
  else o.add<int>(&i, "int", 'i', "an int", ti).add<string>(&t, "str", 's', "a string", tt).add<Val>(&u, "usr", 'u', "of a class");
  o.addV<int>(&v, "vec", 'v', "ints", ti).addV<Val>(&uv, "many", 'm', "of a class").addP(&p, "pres", 'p', "present"); DESC((kvp ? "key=value parser" : "parser") << (dflt ? " with" : " without") << " defaults, throws " << throwName[throwKind] << ":");
  int lines = 1 + (int) s.draw(4);
  for(int l = 0; l <= lines; l++) {
    bool good = l == lines; int n = (int) s.draw(7); std::vector<std::pair<string, string>> it; bool any = false; size_t nv = v.size(), nu = uv.size();
    for(int j = 0; j < n; j++) {
      bool th = !good && s.draw(4) == 3;
      switch(s.draw(6)) { case 0: it.push_back({ "int", th ? "-5" : std::to_string(s.draw(1000)) }); break; case 1: it.push_back({ "str", (th ? "!" : "") + okWord(s) }); break; case 2: it.push_back({ "usr", (th ? "!" : "") + okWord(s) }); break;
        case 3: it.push_back({ "vec", th ? "-17" : std::to_string(s.draw(1000)) }); break; case 4: it.push_back({ "many", (th ? "!" : "") + okWord(s) }); break; default: it.push_back({ "pres", "" }); }
    }
    std::list<string> tk; string line;
    for(auto &x : it) {
      if(x.second[0] == '-' || x.second[0] == '!') any = true;
      if(kvp) { tk.push_back(x.first + "=" + (x.first == "pres" ? "1" : x.second)); line += (line.empty() ? "" : ",") + tk.back(); continue; }
      string sw = s.coin() ? "--" + x.first : string("-") + x.first[0]; tk.push_back(sw); line += " " + sw; if(x.first != "pres") { tk.push_back(x.second); line += " " + x.second; }
    }
    if(!kvp && s.coin()) { tk.push_back("here"); line += " here"; }
    DESC(" " << quote(line)); bool r = false; string how; int way = (int) s.draw(3);
    int got = passes([&]() {
      if(kvp) r = way && !line.empty() ? o.parseKeyValue(line) : o.parseKeyValue(tk);
      else if(way == 0) r = o.parse(tk);
      else if(way == 1) r = o.parse(line);
      else { std::vector<string> st(tk.begin(), tk.end()); st.insert(st.begin(), "prog"); std::vector<char *> av; for(auto &x : st) av.push_back(&x[0]); av.push_back(nullptr); r = o.parse((int) st.size(), av.data()); } }, how);
    CHECK(got != 2, "a function of the caller throws " << throwName[throwKind] << " for the line " << quote(line) << ": " << how << (r ? ", the line is accepted" : ""));
    CHECK((got == 1) == any, "for the line " << quote(line) << " the functions of the caller throw " << (any ? "" : "nothing, but something") << (any ? ", but nothing arrives" : " arrives")); bad += any;
    if(any) continue;
    if(kvp && it.empty()) continue;
    CHECK(r, "the line " << quote(line) << " is refused"); int wi = -1; string ws, wu; bool wp = false; std::vector<int> wv; std::vector<Val> wm;
    for(auto &x : it) { if(x.first == "int") wi = std::stoi(x.second); else if(x.first == "str") ws = x.second; else if(x.first == "usr") wu = x.second; else if(x.first == "vec") wv.push_back(std::stoi(x.second)); else if(x.first == "many") wm.push_back(Val{ x.second }); else wp = true; }
    CHECK((wi < 0 || i == wi) && (ws.empty() || t == ws) && (wu.empty() || u.t == wu) && (!wp || p), "the line " << quote(line) << " sets " << i << ", " << quote(t) << ", " << quote(u.t) << ", " << p);
    CHECK(v.size() == nv + wv.size() && std::equal(wv.begin(), wv.end(), v.begin() + nv) && uv.size() == nu + wm.size() && std::equal(wm.begin(), wm.end(), uv.begin() + nu), "the line " << quote(line) << " adds " << v.size() - nv << " and " << uv.size() - nu << " values to the vectors, expected " << wv.size() << " and " << wm.size());
    for(auto &x : it) CHECK(o.isPresent(x.first) && o.isPresent(x.first[0]), "after the line " << quote(line) << " " << x.first << " is not present");
  }
  c.label(kvp ? "key=value" : "options"); c.nontrivial(bad > 0);
}

static void throwingTree(Src &s, Ctx &c) {
  string file = scratch + "/x02.yaml", text; int n = 1 + (int) s.draw(6); std::vector<string> vals; bool deep = s.coin();
  for(int j = 0; j < n; j++) vals.push_back((s.draw(3) == 2 ? "!" : "") + okWord(s) + std::to_string(j));
  { if(deep) text = "top:\n"; for(int j = 0; j < n; j++) text += string(deep ? "  " : "") + "k" + std::to_string(j) + ": \"" + vals[j] + "\"\n"; std::ofstream f(file); f << text; }
  struct Open : SoDa::PropertyTreeYAML { SoDa::PropertyTree::PropNode *top() { return root; } } tree; tree.readFile(file); unlink(file.c_str()); string ref; { std::ostringstream q; tree.dump(q); ref = q.str(); } int bad = 0; DESC("tree " << quote(text) << ", throws " << throwName[throwKind] << ":");
  int asks = 1 + (int) s.draw(8);
  for(int a = 0; a < asks; a++) {
    int j = (int) s.draw(n); bool ex = s.coin(), node = s.coin(); string path = (deep ? "top:k" : "k") + std::to_string(j), how; Val v{ "before" }; bool r = false; DESC(" " << path << (ex ? "!" : ""));
    int got = passes([&]() { if(node) r = tree.top()->getProp(path)->get<Val>(v, ex); else r = tree.get<Val>(v, path, ex); }, how); bool want = vals[j][0] == '!';
    CHECK(got != 2 && (got == 1) == want, "reading " << quote(vals[j]) << " as a class whose >> throws " << throwName[throwKind] << ": " << how); bad += want;
    CHECK(want || (r && v.t == vals[j]), "reading " << quote(vals[j]) << " gives " << r << ", " << quote(v.t));
  }
  std::ostringstream q; tree.dump(q); CHECK(q.str() == ref, "the tree has changed: " << quote(q.str(), 300));
  c.label("tree"); c.nontrivial(bad > 0);
}

static void throwingStream(Src &s, Ctx &c) {
  int kind = (int) s.draw(3), n = (int) s.draw(6); std::function<void(std::ostream &)> put; std::vector<int> iv(8); std::unique_ptr<SoDa::Options> o; std::unique_ptr<SoDa::PropertyTreeYAML> tree; std::unique_ptr<SoDa::Format> f;
  if(kind == 0) { o.reset(new SoDa::Options(s.coin())); for(int j = 0; j < n; j++) o->add<int>(&iv[j], okWord(s) + std::to_string(j), 'a' + j, 1, "what it is for: " + okWord(s)); if(s.coin()) o->addInfo("About this program " + okWord(s)); put = [&](std::ostream &os) { o->printHelp(os); }; }
  else if(kind == 1) {
    string file = scratch + "/x02d.yaml"; { std::ofstream g(file); for(int j = 0; j <= n; j++) { g << "k" << j << ":\n"; for(int k = 0; k <= (int) s.draw(3); k++) g << "  s" << k << ": " << okWord(s) << "\n"; if(s.coin()) g << "  list: [ a, b, " << okWord(s) << " ]\n"; } }
    tree.reset(new SoDa::PropertyTreeYAML(file)); unlink(file.c_str()); put = [&](std::ostream &os) { tree->dump(os); };
  } else { string t = "["; for(int j = 0; j < n; j++) t += " %" + std::to_string(j) + " " + okWord(s); f.reset(new SoDa::Format(t + "]")); for(int j = 0; j < n; j++) f->addS(okWord(s), (int) s.draw(30)); put = [&](std::ostream &os) { os << *f; }; }
  std::ostringstream q; put(q); string full = q.str(); int bad = 0; DESC((kind == 0 ? "help" : kind == 1 ? "dump" : "format") << " of " << full.size() << " characters, a stream that throws " << throwName[throwKind] << " after");
  int turns = 1 + (int) s.draw(4);
  for(int j = 0; j < turns; j++) {
    size_t room = s.draw(full.size() + 2); bool mask = s.coin(); string how; Full b(room); std::ostream os(&b); if(mask) os.exceptions(std::ios::badbit); DESC(" " << room << (mask ? "!" : ""));
    int before = thrownId; bool fails = room < full.size(); int got;
    if(mask) { got = passes([&]() { put(os); }, how); CHECK(got != 2 && (got == 1) == fails, "the stream throws " << throwName[throwKind] << " after " << room << " of " << full.size() << " characters: " << (how.empty() ? string(got ? "it arrives" : "nothing arrives") : how)); }
    else { bool any = false; try { put(os); } catch(...) { any = true; } CHECK(!any, "an exception arrives, although the stream keeps it"); CHECK(os.bad() == fails && (thrownId != before) == fails, "the state of the stream after " << b.got.size() << " of " << full.size() << " characters is " << os.rdstate()); }
    CHECK(b.got == full.substr(0, room), "a stream with room for " << room << " characters gets " << quote(b.got, 300) << ", the whole is " << quote(full, 300)); bad += fails;
    std::ostringstream q2; put(q2); CHECK(q2.str() == full, "after a stream threw, the text is " << quote(q2.str(), 300) << ", before " << quote(full, 300));
  }
  c.label("output"); c.nontrivial(bad > 0);
}

static void X02(Src &s, Ctx &c) {
  throwKind = (int) s.draw(5);
  { switch(s.draw(5)) { case 0: case 1: throwingParser(s, c); break; case 2: throwingTree(s, c); break; default: throwingStream(s, c); } }
  CHECK(thrownHeld.expired(), "what was thrown is still held somewhere"); c.label(throwName[throwKind]);
}
namespace pbt {
const std::vector<Prop> props = { {"E01", E01}, {"X02", X02} };
void harnessInit() { const char *d = getenv("PBT_SCRATCH"); string base = d ? d : "/tmp"; mkdir(base.c_str(), 0755); scratch = base + "/exc" + std::to_string(getpid()); mkdir(scratch.c_str(), 0755); }
}
