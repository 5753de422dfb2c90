// What the library does beyond its results (S01): nothing. The cases of the other
// harnesses are run, and the state of the process is compared before and after.
#include <fstream>
#include <set>
#include <map>
#include <sstream>
#include <thread>
#include "pbt.hpp"
#include "Format.hxx"
#include "Exception.hxx"
#include "Utils.hxx"
#include "Options.hxx"
#include "PropertyTree.hxx"
#include "PropertyTreeYAML.hxx"
#include "MailBox.hxx"
#include "Barrier.hxx"
#include <cmath>
#include <cfloat>
#include <cfenv>
#include <clocale>
#include <deque>
#include <exception>
#include <limits>
#include <locale>
#include <memory>
#include <new>
#include <thread>
#include <type_traits>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
namespace hf {
#include "h_fmt.cpp"
}
namespace hu {
#include "h_utils.cpp"
}
namespace ho {
#include "h_opts.cpp"
}
namespace hp {
#include "h_ptree.cpp"
}
namespace hm {
#include "h_mbox.cpp"
}
namespace he {
#include "h_exc.cpp"
}
using namespace ::pbt;
using std::string;

static int devFd = -1, outFd[2] = { -1, -1 }, keepFd[2] = { -1, -1 }, cwdFd = -1, homeFd = -1; static string cwdName, scratchDir;
extern "C" __attribute__((weak)) void __sanitizer_set_report_fd(void *);
extern char **environ;

static string listing(const string &d) { string r; std::set<string> n; DIR *p = opendir(d.c_str()); if(!p) return "?"; while(dirent *e = readdir(p)) if(e->d_name[0] != '.') n.insert(e->d_name); closedir(p); for(auto &x : n) r += x + " "; return r; }
// open descriptors and what they refer to (but for the one that lists them, and for what the
// address sanitizer's own thread opens for a moment, to watch the limit of memory)
static string descriptors() {
  string r; std::map<int, string> m; DIR *p = opendir("/proc/self/fd"); if(!p) return "?"; int own = dirfd(p); char b[300];
  while(dirent *e = readdir(p)) { int n = atoi(e->d_name); if(e->d_name[0] == '.' || n == own) continue; ssize_t z = readlink(("/proc/self/fd/" + string(e->d_name)).c_str(), b, sizeof b); if(z <= 0) continue; string w(b, z); if(w.size() > 6 && w.compare(w.size() - 6, 6, "/statm") == 0) continue; m[n] = w; }
  closedir(p); for(auto &x : m) r += std::to_string(x.first) + "=" + x.second + " "; return r;
}
static int threads() { int n = 0; DIR *p = opendir("/proc/self/task"); if(!p) return 1; while(dirent *e = readdir(p)) n += e->d_name[0] != '.'; closedir(p); return n; }
static string streamState(const std::ios &o) { std::ostringstream r; r << "flags " << (long) o.flags() << ", precision " << o.precision() << ", width " << o.width() << ", fill " << quote(string(1, o.fill())) << ", exceptions " << (int) o.exceptions() << ", locale " << o.getloc().name(); return r.str(); }

typedef std::vector<std::pair<const char *, string>> Snap;
static Snap snap(bool files) {
  Snap r; auto put = [&](const char *n, const string &v) { r.push_back({ n, v }); };
  put("the open file descriptors", descriptors());
  char b[4096]; put("the working directory", getcwd(b, sizeof b) ? b : "?");
  { string e; unsigned h = 0; int n = 0; for(char **p = environ; p && *p; p++, n++) for(char *q = *p; ; q++) { h = h * 33 + (unsigned char) *q; if(!*q) break; } put("the environment", std::to_string(n) + " variables, hash " + std::to_string(h)); }
  { string g; for(int i = 1; i < 65; i++) { struct sigaction a; memset(&a, 0, sizeof a); if(sigaction(i, nullptr, &a) == 0) { char t[60]; snprintf(t, sizeof t, "%d:%p/%x ", i, (void *) a.sa_handler, (unsigned) a.sa_flags); if(a.sa_handler != SIG_DFL) g += t; } } sigset_t m; sigemptyset(&m); pthread_sigmask(SIG_BLOCK, nullptr, &m); for(int i = 1; i < 65; i++) if(sigismember(&m, i) == 1) g += "blocked " + std::to_string(i) + " "; put("the signal handlers", g); }
  { const char *l = setlocale(LC_ALL, nullptr); put("the C locale", l ? l : "?"); put("the C++ locale", std::locale().name()); }
  put("the rounding mode", std::to_string(fegetround()));
  { mode_t m = umask(022); umask(m); put("the file mode mask", std::to_string(m)); }
  { struct itimerval t; memset(&t, 0, sizeof t); getitimer(ITIMER_REAL, &t); put("the interval timer", t.it_value.tv_sec || t.it_value.tv_usec ? "set" : "not set"); }
  put("std::cout", streamState(std::cout)); put("std::cerr", streamState(std::cerr)); put("std::clog", streamState(std::clog)); put("std::cin", streamState(std::cin));
  { char t[80]; snprintf(t, sizeof t, "%p %p", (void *) std::get_terminate(), (void *) std::get_new_handler()); put("the terminate and new handlers", t); }
  put("what the working directory contains", listing(cwdName)); if(files) put("what the directory of the files contains", listing(hp::scratch) + "; " + listing(he::scratch));
  return r;
}

// what goes to the standard output and error, by whatever way
struct Outputs {
  std::ostringstream out, err, log; std::streambuf *o, *e, *l;
  Outputs() { fflush(stdout); fflush(stderr); for(int i = 0; i < 2; i++) { if(ftruncate(outFd[i], 0) != 0 || lseek(outFd[i], 0, SEEK_SET) != 0) _exit(3); dup2(outFd[i], 1 + i); } o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); l = std::clog.rdbuf(log.rdbuf()); }
  void end() { if(!o) return; std::cout.rdbuf(o); std::cerr.rdbuf(e); std::clog.rdbuf(l); o = nullptr; fflush(stdout); fflush(stderr); for(int i = 0; i < 2; i++) dup2(keepFd[i], 1 + i); }
  ~Outputs() { end(); }
  string raw(int i) { char b[500]; ssize_t z = pread(outFd[i], b, sizeof b, 0); return string(b, z > 0 ? z : 0); }
};

static const std::vector<Prop> &cases() {
  static std::vector<Prop> r;
  if(r.empty()) for(auto *v : { &hf::pbt::props, &hu::pbt::props, &ho::pbt::props, &hp::pbt::props, &hm::pbt::props, &he::pbt::props }) for(auto &p : *v) if(string(p.id) != "P07") r.push_back(p);
  return r;
}

// a stream of the caller's, with settings of its own
static void settings(Src &s, std::ostream &o) {
  static const std::ios::fmtflags f[] = { std::ios::hex, std::ios::oct, std::ios::showbase, std::ios::left, std::ios::internal, std::ios::boolalpha, std::ios::uppercase, std::ios::showpos, std::ios::scientific, std::ios::fixed, std::ios::showpoint, std::ios::unitbuf };
  int n = (int) s.draw(5); for(int i = 0; i < n; i++) { auto x = f[s.draw(12)]; if(x == std::ios::hex || x == std::ios::oct) o.setf(x, std::ios::basefield); else if(x == std::ios::left || x == std::ios::internal) o.setf(x, std::ios::adjustfield); else if(x == std::ios::scientific || x == std::ios::fixed) o.setf(x, std::ios::floatfield); else o.setf(x); }
  if(s.coin()) o.fill(s.pickc("*0_ ")); if(s.coin()) o.precision(1 + (int) s.draw(20));
  if(s.chance(1, 4)) o.exceptions(std::ios::badbit);
}
static void streams(Src &s, Ctx &c) {
  std::ostringstream plain, own; settings(s, own); string before = streamState(own); const char *what;
  DESC("a stream with " << before << "; ");
  switch(s.draw(3)) {
  case 0: { what = "a format"; string t = "<"; int n = 1 + (int) s.draw(6); for(int i = 0; i < n; i++) t += "%" + std::to_string(i) + (s.coin() ? "|" : ""); SoDa::Format f(t); DESC(quote(t));
    for(int i = (int) s.draw(n + 1); i > 0; i--) switch(s.draw(6)) { case 0: f.addI(s.i32(), (unsigned) s.draw(20)); break; case 1: f.addU(s.u64(), s.pickc("dxo"), (unsigned) s.draw(24)); break; case 2: f.addF(s.i32() / 7.0, s.pickc("fsge"), (unsigned) s.draw(24), 1 + (unsigned) s.draw(10)); break; case 3: f.addS("str\xc3\xa9", (int) s.draw(20) - 10); break; case 4: f.addC('c'); break; default: f.addB(s.coin()); }
    plain << f; own << f; break; }
  case 1: { what = "a help text"; bool kvp = s.coin(); ho::Decls ds = ho::genDecls(s, c); if(s.coin()) ds.info.push_back("information"); ho::Parser p(ds, kvp); p.o.printHelp(plain); p.o.printHelp(own); break; }
  default: { what = "a tree"; hp::Gen g(s, true, false, true); hp::NP doc = g.document(); hp::Render r(s); string y = r.document(*doc), f = hp::put(y); hp::Tree t; DESC(quote(y, 200)); try { t.readFile(f); } catch(SoDa::Exception &) { } hp::drop(f); SoDa::PropertyTree &pt = t; if(s.coin()) { pt.dump(plain); pt.dump(own); } else { t.top()->dump(plain, "  "); t.top()->dump(own, "  "); } break; }
  }
  CHECK(own.str() == plain.str(), what << " is written as " << quote(own.str(), 300) << " to a stream with settings of its own, else as " << quote(plain.str(), 300));
  CHECK(streamState(own) == before, "the stream to which " << what << " was written now has " << streamState(own) << ", before " << before);
  c.label(what); c.nontrivial();
}

static void S01(Src &s, Ctx &c) {
  size_t n = cases().size(), k = s.draw(n + 6); bool failed = false; string id = k < n ? cases()[k].id : "streams"; Ctx sub; sub.want = c.want; string why;
  hp::watch = true; hp::tampered = false; if(fchdir(cwdFd) != 0) _exit(3);
  bool count = s.chance(1, 8); int before = count ? threads() : 0; srand(4711);
  Snap a = snap(true); Outputs out;
  DESC(id << ": ");
  try { if(k < n) cases()[k].fn(s, sub); else streams(s, sub); } catch(::pbt::Failure &f) { failed = true; why = f.msg; } catch(...) { out.end(); if(fchdir(homeFd) != 0) _exit(3); throw; }
  out.end(); Snap b = snap(!failed); if(fchdir(homeFd) != 0) _exit(3);
  if(c.want) c.desc << sub.desc.str();
  if(failed && k >= n) throw ::pbt::Failure{ why };
  for(int i = 0; i < 20 && a[0].second != b[0].second; i++) { usleep(1000); b[0].second = descriptors(); }
  for(size_t i = 0; i < b.size(); i++) CHECK(a[i].second == b[i].second, "in a case of " << id << " " << a[i].first << " changed: " << quote(a[i].second, 400) << " became " << quote(b[i].second, 400));
  { static int first; if(!first) { srand(4711); first = rand(); srand(4711); } int r = rand(); CHECK(r == first, "in a case of " << id << " the random numbers of the program were used"); }
  CHECK(out.out.str().empty() && out.raw(0).empty(), "in a case of " << id << " the standard output got " << quote(out.out.str() + out.raw(0), 300));
  CHECK(out.err.str().empty() && out.log.str().empty() && out.raw(1).empty(), "in a case of " << id << " the standard error got " << quote(out.err.str() + out.log.str() + out.raw(1), 300));
  CHECK(!hp::tampered, "in a case of " << id << " a file that was read was changed");
  if(count) { int now = threads(); for(int i = 0; i < 200 && now > before; i++) { usleep(5000); now = threads(); } CHECK(now <= before, "in a case of " << id << " " << now - before << " threads were left"); }
  c.label(id.c_str()); if(sub.nontriv || k >= n) c.nontrivial();
}

namespace pbt {
const std::vector<Prop> props = { {"S01", S01} };
void harnessInit() {
  for(auto f : { hf::pbt::harnessInit, hu::pbt::harnessInit, ho::pbt::harnessInit, hp::pbt::harnessInit, hm::pbt::harnessInit, he::pbt::harnessInit }) f();
  const char *d = getenv("PBT_SCRATCH"); scratchDir = d ? d : "/tmp"; cwdName = scratchDir + "/cwd" + std::to_string(getpid()); mkdir(cwdName.c_str(), 0755);
  homeFd = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC); cwdFd = open(cwdName.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  for(int i = 0; i < 2; i++) { string f = scratchDir + "/out" + std::to_string(getpid()) + "." + std::to_string(i); outFd[i] = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC | O_APPEND, 0600); unlink(f.c_str()); keepFd[i] = fcntl(1 + i, F_DUPFD_CLOEXEC, 50); }
  if(homeFd < 0 || cwdFd < 0 || outFd[0] < 0 || outFd[1] < 0 || keepFd[0] < 0 || keepFd[1] < 0) { fprintf(stderr, "cannot open the files of S01\n"); _exit(3); }
  if(__sanitizer_set_report_fd) __sanitizer_set_report_fd((void *) (long) keepFd[1]);
  threads();
}
}
