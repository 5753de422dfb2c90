// Properties about programs that use the library: a case is a generated
// program (N02) or a generated client project (N01), and running it means
// compiling it.
#include "pbt.hpp"
#include <spawn.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
using namespace pbt;
using std::string;
extern char **environ;

static string scratch, include_dir, inst_dir;
static int serial;

static void mkdirs(const string &d) { for(size_t i = 1; i <= d.size(); i++) if(i == d.size() || d[i] == '/') mkdir(d.substr(0, i).c_str(), 0755); }
static void removeTree(const string &d) {
  if(d.compare(0, scratch.size() + 1, scratch + "/") != 0) return;      // only ever inside the scratch directory
  DIR *dp = opendir(d.c_str());
  if(!dp) { unlink(d.c_str()); return; }
  while(dirent *e = readdir(dp)) { string n = e->d_name; if(n == "." || n == "..") continue;
    string p = d + "/" + n; struct stat st; if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(p); else unlink(p.c_str()); }
  closedir(dp); rmdir(d.c_str());
}
static void put(const string &f, const string &t) { std::ofstream o(f, std::ios::binary); o << t; }
static string slurp(const string &f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

// exit status, with everything the program wrote
static int runCmd(const std::vector<string> &a, string &out, const string &dir, int cpu_s = 200) {
  string f = dir + "/out.txt"; std::vector<char *> v; for(auto &x : a) v.push_back((char *) x.c_str()); v.push_back(nullptr);
  pid_t p = fork();
  if(p == 0) {
    struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, nullptr); setitimer(ITIMER_REAL, &z, nullptr);
    signal(SIGPROF, SIG_DFL); signal(SIGALRM, SIG_DFL);
    struct rlimit rl = {(rlim_t) cpu_s, (rlim_t) cpu_s}; setrlimit(RLIMIT_CPU, &rl);
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), nul = open("/dev/null", O_RDONLY);
    dup2(nul, 0); dup2(fd, 1); dup2(fd, 2); if(chdir(dir.c_str())) _exit(127);
    execvp(v[0], v.data()); _exit(127);
  }
  int st = 0; while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  out = slurp(f);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

struct Dir { string d; Dir() { d = scratch + "/p" + std::to_string(getpid()) + "." + std::to_string(serial++); mkdirs(d); } ~Dir() { removeTree(d); } };

void pbt::harnessInit() {
  const char *r = getenv("PBT_SCRATCH"), *i = getenv("PBT_INCLUDE"), *p = getenv("PBT_INST");
  scratch = r ? r : "/tmp/pbt-comp"; include_dir = i ? i : "/repo/include"; inst_dir = p ? p : "/repo/_build/_install";
  mkdirs(scratch);
}

// ---------------------------------------------------------------- N02

// the program is made of numbered snippets, each in its own namespace and, by
// #line, in a file of its own name. The compiler must complain about exactly
// those that copy or assign.
struct Type { string decl, name, make; bool holder, plainMail; };   // make: constructor arguments in braces-free form

static Type genType(Src &s, int id) {
  static const char *msg[] = { "int", "std::string", "std::vector<int>", "std::unique_ptr<int>", "Msg", "double" };
  Type t; t.holder = false; t.plainMail = false; string base, args;
  if(s.coin()) { base = "SoDa::Barrier"; args = "\"b\", " + std::to_string(1 + s.draw(9)); }
  else { base = string("SoDa::MailBox<") + msg[s.draw(6)] + ">"; args = "\"m\""; t.plainMail = true; }
  string n = std::to_string(id);
  switch(s.draw(8)) {
  default: t.name = base; t.make = args; break;
  case 3: t.decl = "struct D : public " + base + " { D() : " + base.substr(0) + "(" + args + ") { } int extra = 0; };"; t.name = "D"; t.holder = true; break;
  case 4: t.decl = "struct H { H() : m(" + args + ") { } int a = 1; " + base + " m; };"; t.name = "H"; t.holder = true; break;
  case 5: t.decl = "struct I { I() : m(" + args + ") { } " + base + " m; }; struct H { std::string x; I i; };"; t.name = "H"; t.holder = true; break;
  case 6: t.decl = "struct D0 : public " + base + " { D0() : " + base + "(" + args + ") { } }; struct D : public D0 { D() = default; D(const D &) = default; };"; t.name = "D"; t.holder = true; break;
  case 7: t.decl = "template<typename T> struct W { W() : v(" + args + ") { } T v; }; struct Tag { };"; t.name = "W<" + base + ">"; t.holder = true; break;
  }
  // for derived classes inherit the name of the base constructor
  if(t.decl.find(": SoDa::Barrier(") == string::npos && t.decl.find(": SoDa::MailBox<") != string::npos) {
    size_t p; string full = ": " + base + "("; while((p = t.decl.find(full)) != string::npos) t.decl.replace(p, full.size(), ": Base("); 
    t.decl = "typedef " + base + " Base; " + t.decl;
  }
  return t;
}
static string obj(const Type &t, const char *v) { return t.name + " " + v + (t.make.empty() ? "" : "(" + t.make + ")") + "; "; }

struct Op { const char *name; const char *body; bool tmpl; int needs_std; };
// T is the type, a and b are two objects of it, c a const reference to b, p and q pointers to them
static const Op BAD[] = {
  { "copy initialisation", "T x = a;", false, 11 }, { "direct initialisation", "T x(a);", false, 11 }, { "list initialisation", "T x{c};", false, 11 }, { "copy of a const object", "T x = c;", false, 11 },
  { "copy by auto", "auto x = a;", false, 11 }, { "copy through a pointer", "auto x = *p;", false, 11 }, { "static_cast", "static_cast<T>(a);", false, 11 }, { "functional cast", "T x = T(c);", false, 11 },
  { "argument by value", "struct F { static void f(T) { } }; F::f(a);", false, 11 }, { "return by value", "struct F { static T f(T & r) { return r; } }; F::f(a);", false, 11 },
  { "capture by value", "auto f = [a]() { (void) a; }; f();", false, 11 }, { "capture of all by value", "auto f = [=]() { return &a; }; f();", false, 11 }, { "new", "T * x = new T(c); delete x;", false, 11 },
  { "thrown", "throw a;", false, 11 }, { "caught by value", "try { } catch(T e) { }", false, 11 }, { "conditional", "T x = (p == q) ? a : b;", false, 11 }, { "array element", "T x[2] = { a, b };", false, 11 },
  { "member copy", "struct G { T m; G(T & r) : m(r) { } }; G g(a);", false, 11 }, { "range for by value", "T * ar[1] = { p }; for(auto x : *(T (*)[1]) ar[0]) { (void) x; }", false, 11 },
  { "move construction", "T x(std::move(a));", false, 11 },
  { "assignment", "a = b;", false, 11 }, { "assignment of a const object", "a = c;", false, 11 }, { "assignment through pointers", "*p = *q;", false, 11 }, { "assignment of a temporary reference", "a = std::move(b);", false, 11 },
  { "assignment in an expression", "T & r = (a = b); (void) r;", false, 11 }, { "explicit operator", "a.operator=(c);", false, 11 }, { "explicit operator on a non-const object", "p->operator=(*q);", false, 11 },
  { "make_shared of an object", "auto x = std::make_shared<T>(a);", true, 11 }, { "push_back", "std::vector<T> x; x.push_back(c);", true, 11 }, { "vector of copies", "std::vector<T> x(2, c);", true, 11 },
  { "pair", "std::pair<int, T> x(1, a);", true, 11 }, { "tuple", "std::tuple<int, T> x(1, c);", true, 11 }, { "map insertion", "std::map<int, T> x; x.insert(std::make_pair(1, c));", true, 11 }, { "list push_back", "std::list<T> x; x.push_back(a);", true, 11 },
  { "std::copy", "std::copy(p, p + 1, q);", true, 11 }, { "std::fill", "std::fill(p, p + 1, c);", true, 11 }, { "std::swap", "std::swap(a, b);", true, 11 }, { "function argument bound by value", "auto x = std::bind([](T &) { }, a);", true, 11 },
  { "make_unique of an object", "auto x = std::make_unique<T>(c);", true, 14 }, { "init capture", "auto f = [x = a]() { (void) x; };", false, 14 }, { "optional", "std::optional<T> x(a);", true, 17 }, { "trait", "static_assert(std::is_copy_constructible<T>::value, \"copy\");", false, 11 },
  { "assignability trait", "static_assert(std::is_copy_assignable<T>::value, \"assign\");", false, 11 }, { "assignability from non-const", "static_assert(std::is_assignable<T &, T &>::value, \"assign\");", false, 11 }, { "constructibility trait", "static_assert(std::is_constructible<T, T &>::value, \"copy\");", false, 11 },
};
static const Op GOOD[] = {
  { "reference", "T & x = a; (void) x;", false, 11 }, { "const reference", "const T & x = a; (void) x;", false, 11 }, { "pointer", "T * x = p; x = q; (void) x;", false, 11 },
  { "argument by reference", "struct F { static void f(T &) { } static void g(const T &) { } }; F::f(a); F::g(c);", false, 11 }, { "return by reference", "struct F { static T & f(T & r) { return r; } }; F::f(a);", false, 11 },
  { "capture by reference", "auto f = [&a]() { (void) a; }; f();", false, 11 }, { "capture of all by reference", "auto f = [&]() { return &a; }; f();", false, 11 }, { "shared pointer", "std::shared_ptr<T> x(p, [](T *) { }), y = x; y = x;", false, 11 },
  { "vector of pointers", "std::vector<T *> x; x.push_back(p); auto y = x;", false, 11 }, { "reference wrapper", "std::vector<std::reference_wrapper<T>> x; x.push_back(a); x[0] = b;", false, 11 },
  { "traits", "static_assert(!std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value && std::is_destructible<T>::value, \"copy\");", false, 11 },
  { "tuple of references", "std::tuple<T &> x(a);", false, 11 }, { "std::bind by reference", "auto x = std::bind([](T &) { }, std::ref(a)); x();", false, 11 }, { "member reference", "struct G { T & m; G(T & r) : m(r) { } }; G g(a), h(g);", false, 11 },
  { "thrown pointer", "try { throw &a; } catch(T * e) { }", false, 11 },
};

static void N02(Src &s, Ctx &c) {
  int std_ = (int[]){ 11, 14, 17, 20 }[s.draw(4)]; bool clang = s.chance(1, 5); int n = s.range(1, 14);
  bool onlyOne = s.coin();   // one header only, where that is possible
  string body; std::vector<bool> bad(n, false); std::vector<string> text(n); std::set<string> templ; int nbad = 0, derived = 0, ntempl = 0; bool useB = false, useM = false;
  for(int i = 0; i < n; i++) {
    Type t = genType(s, i); bool b = s.chance(2, 3); const Op &o = b ? BAD[s.draw(sizeof BAD / sizeof *BAD)] : GOOD[s.draw(sizeof GOOD / sizeof *GOOD)];
    if(o.needs_std > std_) { text[i] = "(none)"; continue; }
    if(o.tmpl && !t.holder && !templ.insert(t.name).second) { text[i] = "(none)"; continue; }   // an instantiation that is reported once only
    (t.decl + t.name).find("Barrier") != string::npos ? useB = true : useM = true;
    string fn = "namespace n" + std::to_string(i) + " { " + t.decl + " typedef " + t.name + " T; void use() { " + obj(t, "a") + obj(t, "b") + "const T & c = b; T * p = &a, * q = &b; (void) c; (void) p; (void) q; " + o.body + " } }";
    text[i] = string(o.name) + " of " + (t.decl.empty() ? t.name : t.decl); bad[i] = b; nbad += b; derived += t.holder; ntempl += o.tmpl;
    body += "#line 1 \"snip" + std::to_string(i) + "-\"\n" + fn + "\n";
    DESC((i ? "; " : "") << (b ? "" : "control: ") << text[i]);
  }
  bool both = !onlyOne; string src; const char *hs[] = { "Barrier.hxx", "MailBox.hxx", "NoCopy.hxx" };
  if(s.coin()) std::swap(hs[0], hs[1]);
  for(auto h : hs) { if(!both && ((h[0] == 'B' && !useB) || (h[0] == 'M' && !useM))) continue; if(h[0] == 'N' && !s.coin()) continue; src += string("#include <") + h + ">\n"; }
  // before or after the headers of the library
  string stds = "#include <functional>\n#include <vector>\n#include <list>\n#include <map>\n#include <tuple>\n#include <memory>\n#include <string>\n#include <algorithm>\n#include <utility>\n#include <type_traits>\n"; if(std_ >= 17) stds += "#include <optional>\n";
  src = s.coin() ? stds + src : src + stds; src += "struct Msg { int a; std::string b; };\n" + body;
  Dir d; put(d.d + "/t.cpp", src); string out, so = "-std=" + string(s.coin() ? "c++" : "gnu++") + std::to_string(std_);
  int rc = runCmd({ clang ? "clang++" : "g++", so, "-w", "-fsyntax-only", clang ? "-ferror-limit=0" : "-fmax-errors=0", "-I" + include_dir, "t.cpp" }, out, d.d);
  CHECK(rc == 0 || rc == 1, "the compiler ended with " << rc << ": " << out.substr(0, 500));
  DESC("; " << (clang ? "clang " : "gcc ") << so);
  // headers must be fine in themselves
  CHECK(nbad || rc == 0, "a program that copies nothing is rejected: " << out.substr(0, 600));
  for(int i = 0; i < n; i++) {
    if(text[i] == "(none)") continue;
    bool said = out.find("snip" + std::to_string(i) + "-:") != string::npos;
    CHECK(said == bad[i], (bad[i] ? "accepted: " : "rejected, though nothing is copied: ") << text[i] << " (" << (clang ? "clang " : "gcc ") << so << ")" << (bad[i] ? "" : " " + out.substr(0, 600)));
  }
  CHECK(rc != 0 || nbad == 0, "the program is accepted");
  c.nontrivial(nbad > 0); c.label("derived class or member", derived > 0); c.label("through a standard template", ntempl > 0); c.label("clang", clang); c.label("controls only", nbad == 0);
}

// ---------------------------------------------------------------- N01

static const char *HEADERS[] = { "Barrier", "Exception", "Format", "MailBox", "NoCopy", "Options", "Utils", "UtilsBase", "UtilsVersion", "PropertyTree", "PropertyTreeYAML" };
enum { hBarrier, hException, hFormat, hMailBox, hNoCopy, hOptions, hUtils, hUtilsBase, hUtilsVersion, hPT, hPTY, NH };

// a function body that uses the header and returns true if the result is right
static string useOf(Src &s, int h) {
  int x = s.range(-1000000, 1000000); string X = std::to_string(x); unsigned u = (unsigned) s.draw(1u << 31); string U = std::to_string(u);
  switch(h) {
  case hBarrier: if(s.coin()) return "SoDa::Barrier b(\"bar\", 1); b.wait(); b.wait(" + std::to_string(1 + s.draw(1000)) + "); return true;";
    if(s.coin()) return "auto b = SoDa::makeBarrier(\"bar\", 2); try { b->wait(1); } catch(SoDa::Barrier::Timeout & e) { return std::string(e.what()).find(\"bar\") != std::string::npos; } return false;";
    return "auto b = SoDa::makeBarrier(\"bar\", 2); int n = 0; std::thread t([b, &n]() { n = 1; b->wait(); }); b->wait(); bool ok = n == 1; t.join(); return ok;";
  case hException: return "try { throw SoDa::Exception(\"e" + X + "\"); } catch(std::runtime_error & e) { return std::string(e.what()) == \"e" + X + "\"; } return false;";
  case hFormat: switch(s.draw(5)) {
    case 3: return "class L : public SoDa::Format_ext<L> { public: L(const std::string & f) : SoDa::Format_ext<L>(f, this) { } L & addX(int v) { return addU(v, 'x', 2).addC('!'); } }; L l(\"%0%1 %2 %3\"); l.addX(255).addI(" + X + ").addB(true); return l.str(true) == \"0xff! " + X + " T\";";
    case 2: return "std::ostringstream o; SoDa::Format f(\"%1-%0-%%\"); f.addF(1.5, 'f', 0, 2).addC('c'); SoDa::Format g = f; f.reset().addI(" + X + ", 12, ',').addB(false); o << g; return o.str().find(\"c-1.50\") == 0 && f.str().find(\"F-\") == 0;"; }
    if(s.coin()) return "return SoDa::Format(\"<%0|%1|%2>\").addI(" + X + ").addS(\"s\").addU(" + U + "UL).str() == \"<" + X + "|s|" + U + ">\";";
    return "try { SoDa::Format(\"%0 %1\").addI(" + X + ").str(true); } catch(SoDa::Exception & e) { return true; } return false;";
  case hMailBox: switch(s.draw(4)) {
    case 3: return "auto m = SoDa::makeMailBox<std::vector<double>>(\"mb\"); std::shared_ptr<SoDa::MailBoxBase> b = m; auto c = SoDa::MailBoxBase::convert<SoDa::MailBox<std::vector<double>>>(b); if(c != m) return false; try { SoDa::MailBoxBase::convert<SoDa::MailBox<int>>(b); } catch(SoDa::Exception & e) { return true; } return false;";
    case 2: return "auto m = SoDa::makeMailBox<std::unique_ptr<int>>(\"mb\"); auto a = m->subscribe(); { auto b = m->subscribe(); m->put(std::make_shared<std::unique_ptr<int>>(new int(" + X + ")), a); auto g = m->get(b); if(!g || **g != " + X + ") return false; m->unsubscribe(b->getIndex(m.get())); try { m->get(b); return false; } catch(SoDa::Exception & e) { } } return m->subscriberCount() == 1 && !m->get(a);"; }
    if(s.coin()) return "SoDa::MailBox<std::string> m(\"mb\"); auto a = m.subscribe(); m.put(std::make_shared<std::string>(\"t" + X + "\")); auto g = m.get(a); return g && *g == \"t" + X + "\" && !m.get(a);";
    return "auto m = SoDa::makeMailBox<int>(\"mb\"); auto a = m->subscribe(), b = m->subscribe(); m->put(std::make_shared<int>(" + X + ")); m->clear(a); auto g = m->get(b); return g && *g == " + X + " && m->readyCount(a) == 0;";
  case hNoCopy: return "struct N : public SoDa::NoCopy { int v = " + X + "; }; N n; return n.v == " + X + " && !std::is_copy_constructible<N>::value;";
  case hOptions: switch(s.draw(4)) {
    case 3: return "SoDa::Options o(true); int i; std::string t; std::vector<double> w; o.add<int>(&i, \"int\", 'i', 7).add<std::string>(&t, \"text\", 't', std::string(\"d\"), \"a text\").addV<double>(&w, \"num\", 'n'); bool r = o.parse(std::string(\"int=" + X + ", num=1.5 ,num=-2, text=a=b\")); return r && i == " + X + " && t == \"a=b\" && w.size() == 2 && w[1] == -2 && o.isPresent(\"int\") && o.isPresent('n');";
    case 2: return "SoDa::Options o; unsigned u; long l; unsigned long ul; double d; bool b; char c; short h; float f; std::vector<bool> vb; std::vector<char> vc; std::vector<std::string> vs; o.add<unsigned>(&u, \"u\", 'u').add<long>(&l, \"l\", 'l', 1).add<unsigned long>(&ul, \"ul\", 'U').add<double>(&d, \"d\", 'd', 2.5).add<bool>(&b, \"b\", 'b').add<char>(&c, \"c\", 'c', 'x').add<short>(&h, \"sh\", 'H', 3, \"short\", [](short v) { return v > 0; }, \"no\").add<float>(&f, \"f\", 'f').addV<bool>(&vb, \"vb\", 'B').addV<char>(&vc, \"vc\", 'C').addV<std::string>(&vs, \"vs\", 's'); "
      "const char * a[] = { \"prog\", \"-u\", \"" + U + "\", \"-l\", \"" + X + "\", \"-B\", \"true\", \"-B\", \"0\", \"-C\", \"q\", \"--b\", \"1\", \"-s\", \"\", 0 }; bool r = o.parse(15, (char **) a); std::ostringstream e; o.addInfo(\"about\").printHelp(e); return r && u == " + U + "u && l == " + X + " && d == 2.5 && c == 'x' && vb.size() == 2 && vb[0] && !vb[1] && vc[0] == 'q' && b && vs.size() == 1 && vs[0].empty() && !o.isPresent(\"d\") && e.str().find(\"about\") == 0;"; }
    return "SoDa::Options o; int v; std::vector<std::string> w; bool p; o.add<int>(&v, \"val\", 'v', 5, \"a value\").addV<std::string>(&w, \"word\", 'w', \"words\").addP(&p, \"flag\", 'f', \"a flag\"); "
      "bool r = o.parse(std::string(\"--val " + X + " -w one --flag -w two rest\")); return r && v == " + X + " && w.size() == 2 && w[1] == \"two\" && p && o.numPosArgs() == 1 && o.getPosArg(0) == \"rest\";";
  case hUtils: if(s.coin()) return "auto v = SoDa::splitVec(\"a," + X + ",,b\", \",\"); return v.size() == 4 && v[1] == \"" + X + "\" && v[2].empty() && v[3] == \"b\";";
    return "auto l = SoDa::split(\"a  " + X + " b\", \" \", true); return l.size() == 3 && SoDa::squashSpaces(\"  a  b \") == \"a b\";";
  case hUtilsBase: return "SoDa::UtilsBase b; return b.getVersion() == FOUND_VERSION && !b.getGitID().empty();";
  case hUtilsVersion: return "std::string v(SoDaUtils_VERSION); std::ostringstream w; w << SoDaUtils_VERSION_MAJOR << '.' << SoDaUtils_VERSION_MINOR << '.' << SoDaUtils_VERSION_PATCH; return v == w.str() && v == FOUND_VERSION;";
  case hPT: if(s.chance(1, 3)) return "struct PT : public SoDa::PropertyTree { void readFile(const std::string &) { } void writeFile(const std::string &) { } PropNode * top() { return root; } } t; std::string v = \"k\"; double d = 2; bool thrown = false; if(t.get(v, \"a:" + X + "\") || v != \"k\" || t.get<double>(d, \"b\") || d != 2) return false; try { t.get(d, \"a:" + X + "\", true); } catch(SoDa::PropertyTree::PropNode::PropertyNotFound & e) { thrown = std::string(e.what()).find(\"a:" + X + "\") != std::string::npos; } std::ostringstream o; t.dump(o); return thrown && t.top()->getProp(\"a\") == nullptr && t.top()->getKeys().empty();";
    return "try { throw SoDa::PropertyTree::PropNode::PropertyNotFound(\"name" + X + "\"); } catch(SoDa::Exception & e) { return std::string(e.what()).find(\"name" + X + "\") != std::string::npos; } return false;";
  default: if(s.coin()) return "{ std::ofstream f(\"w" + U + ".yaml\"); f << \"top: {b: " + X + ", t: some text, c: q}\\nother: {d: 2.5, l: [one, two]}\\n\"; } struct PT : public SoDa::PropertyTreeYAML { PT(const std::string & f) : SoDa::PropertyTreeYAML(f) { } PropNode * top() { return root; } } t(\"w" + U + ".yaml\"); std::string w; double d = 0; char c = 0; int i = 0; SoDa::PropertyTree & pt = t; bool thrown = false; "
    "auto n = t.top()->getProp(\"top\"); if(!n || n->getKeys().size() != 3 || n->get(w)) return false; if(!pt.get(w, \"top:t\") || w != \"some text\" || !pt.get(d, \"other:d\") || d != 2.5 || !pt.get(c, \"top:c\") || c != 'q' || !n->getProp(\"b\")->get(i) || i != " + X + ") return false; "
    "auto l = t.top()->getProp(\"other\")->getList(); if(l.size() != 2 || !l.back()->get(w) || w != \"two\" || t.top()->getProp(\"top:b\")->getPathName() != \"top:b\") return false; try { pt.get(i, \"top:t\", true); } catch(SoDa::PropertyTree::PropNode::BadPropertyType & e) { thrown = true; } return thrown;";
    return "{ std::ofstream f(\"t" + U + ".yaml\"); f << \"a:\\n  b: " + X + "\\n  l: [x, y]\\n\"; } SoDa::PropertyTreeYAML t; t.readFile(\"t" + U + ".yaml\"); long v = 0; if(!t.get<long>(v, \"a:b\", true) || v != " + X + ") return false; std::ostringstream o; t.dump(o); return o.str().find(\"" + X + "\") != std::string::npos;";
  }
}

static void N01(Src &s, Ctx &c) {
  std::vector<string> prefixes; { std::istringstream i(inst_dir); string p; while(std::getline(i, p, ':')) prefixes.push_back(p); }
  string prefix = prefixes[s.draw(prefixes.size())], libdir = "lib"; { size_t b = prefix.find('|'); if(b != string::npos) { libdir = prefix.substr(b + 1); prefix.erase(b); } } bool clang = s.chance(1, 6);
  static const char *types[] = { "", "Debug", "Release", "RelWithDebInfo", "MinSizeRel" }; string bt = types[s.draw(5)]; int std_ = (int[]){ 11, 14, 17, 20 }[s.draw(4)];
  // what version is asked for; 3.0.0 is installed, newer ones are refused
  static const char *ok[] = { "", "3.0.0", "3", "2.5", "1", "3.0", "0.1", "2" }, *no[] = { "3.0.1", "4", "3.1", "10.0.0" };
  bool refuse = s.chance(1, 10); string ver = refuse ? no[s.draw(4)] : s.coin() ? "" : ok[s.draw(8)];
  int nt = s.range(1, 4); bool props = false; std::vector<std::set<int>> used(nt); std::vector<std::vector<int>> order(nt);
  bool wantProps = s.coin();
  for(int t = 0; t < nt; t++) {
    int n = s.size(3, 6, NH, 1); if(s.chance(1, 8)) n = NH;
    for(int k = 0; k < n; k++) { int h = (int) s.draw(wantProps ? NH : hPT); if(used[t].insert(h).second) order[t].push_back(h); if(s.chance(1, 10)) order[t].push_back(h); }
    for(int h : order[t]) props = props || h >= hPT;
  }
  bool propsOnly = props && s.chance(1, 3);   // asks for SoDaProps alone; it needs the other library itself
  bool direct = s.chance(1, 4), viaDir = s.chance(1, 5), utilsFirst = s.coin(); string std_h = "#include <fstream>\n#include <thread>\n#include <sstream>\n#include <iostream>\n#include <type_traits>\n";
  Dir d; string src = d.d + "/client"; mkdirs(src); string main_ = "#include <cstdio>\n#include <exception>\n", calls, all;
  for(int t = 0; t < nt; t++) {
    string inc; for(int h : order[t]) inc += string("#include <SoDa/") + HEADERS[h] + ".hxx>\n";
    bool stdFirst = s.chance(1, 3); string f = (stdFirst ? std_h + inc : inc + std_h), T = std::to_string(t); int k = 0; string names; f += "\n";
    for(int h : used[t]) {
      if(!s.chance(3, 4) || (propsOnly && h != hPT && h != hPTY && h != hException && h != hNoCopy && h != hUtilsVersion)) continue;
      string fn = "use_" + T + "_" + HEADERS[h]; f += "bool " + fn + "() { " + useOf(s, h) + " }\n"; names += (k++ ? "," : "") + string(HEADERS[h]);
      main_ += "bool " + fn + "();\n"; calls += "  try { if(!" + fn + "()) { printf(\"WRONG " + fn + "\\n\"); r = 1; } } catch(std::exception & e) { printf(\"EXCEPTION " + fn + " %s\\n\", e.what()); r = 1; }\n";
    }
    put(src + "/t" + T + ".cpp", f); all += " t" + T + ".cpp";
    DESC((t ? "; " : "") << "unit " << t << " includes"); for(int h : order[t]) DESC(" " << HEADERS[h]); DESC((stdFirst ? " after" : " before") << " the standard headers, uses " << names);
  }
  put(src + "/main.cpp", main_ + "int main() { int r = 0;\n" + calls + "  printf(\"END\\n\"); return r; }\n");
  string libs = direct ? "sodautils" : "${SoDaUtils_LIBRARIES}", plibs = direct ? "sodaprops" : "${SoDaProps_LIBRARIES}", cm;
  cm = "cmake_minimum_required(VERSION 3.6)\nset(CMAKE_CXX_STANDARD " + std::to_string(std_) + ")\nproject(client CXX)\n";
  string fu = "find_package(SoDaUtils " + ver + " REQUIRED)\n", fp = "find_package(SoDaProps " + (propsOnly || s.coin() ? ver : string()) + " REQUIRED)\n";
  if(!props) cm += fu; else if(propsOnly) cm += fp; else cm += s.coin() ? fu + fp : fp + fu;
  cm += "add_executable(client main.cpp" + all + ")\ntarget_compile_definitions(client PRIVATE FOUND_VERSION=\"${" + (propsOnly ? "SoDaProps" : "SoDaUtils") + "_VERSION}\")\ntarget_include_directories(client PUBLIC" + (propsOnly ? "" : " ${SoDaUtils_INCLUDE_DIR}") + (props && (propsOnly || s.coin()) ? " ${SoDaProps_INCLUDE_DIR}" : "") + ")\n";
  cm += "target_link_libraries(client " + (propsOnly ? plibs : props ? (utilsFirst ? libs + " " + plibs : plibs + " " + libs) : libs) + ")\n";
  put(src + "/CMakeLists.txt", cm);
  DESC("; version " << (ver.empty() ? "any" : ver) << ", C++" << std_ << ", " << (clang ? "clang" : "gcc") << ", " << (bt.empty() ? "no build type" : bt) << (propsOnly ? ", only props" : props ? utilsFirst ? ", utils before props" : ", props before utils" : "") << ", prefix " << prefix.substr(prefix.rfind('/') + 1));
  std::vector<string> conf{ "cmake", "-S", src, "-B", d.d + "/b", "-G", "Ninja", string("-DCMAKE_CXX_COMPILER=") + (clang ? "clang++" : "g++"), "-DCMAKE_BUILD_TYPE=" + bt, "-Wno-dev" };
  if(viaDir) { string l = libdir; if(!propsOnly) conf.push_back("-DSoDaUtils_DIR=" + prefix + "/" + l + "/cmake/SoDaUtils"); if(props) conf.push_back("-DSoDaProps_DIR=" + prefix + "/" + l + "/cmake/SoDaProps"); }
  else conf.push_back("-DCMAKE_PREFIX_PATH=" + prefix);
  string out; int rc = runCmd(conf, out, d.d);
  auto tail = [](const string &o, size_t n = 900) { return o.size() > n ? "..." + o.substr(o.size() - n) : o; };
  auto firstError = [&](const string &o) { size_t p = o.find("error"); if(p == string::npos) p = o.find("undefined"); return p == string::npos ? tail(o) : o.substr(p > 200 ? p - 200 : 0, 900); };
  if(refuse) { CHECK(rc != 0, "a request for version " << ver << " is satisfied by the installed 3.0.0"); }
  else {
    CHECK(rc == 0, "the package is not found: " << tail(out));
    rc = runCmd({ "cmake", "--build", d.d + "/b", "-j", "2" }, out, d.d); CHECK(rc == 0, "the client does not build: " << firstError(out));
    rc = runCmd({ d.d + "/b/client" }, out, d.d); CHECK(rc == 0 && out.find("END") != string::npos, "the client ends with " << rc << " and " << tail(out));
  }
  c.nontrivial(!calls.empty() && !refuse); c.label("several units", nt > 1); c.label("props", props); c.label("props alone", propsOnly); c.label("utils before props", props && !propsOnly && utilsFirst); c.label("clang", clang); c.label("unsatisfiable version", refuse); c.label("by package directory", viaDir);
}

const std::vector<Prop> pbt::props = { {"N01", N01}, {"N02", N02} };
