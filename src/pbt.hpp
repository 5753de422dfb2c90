// A small property-based testing engine.
//
// Every random decision of a case is a draw from a Src.  A case is therefore
// fully described by its sequence of draws: it can be replayed, shrunk
// (shorter sequences, smaller draws) and produced by a coverage-guided fuzzer.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>

namespace pbt {

struct Failure { std::string msg; };

// progress block, shared with the driver through a file so that the draws of
// a case that kills or hangs the process can be recovered.
struct Progress {
  uint64_t magic;
  volatile uint64_t index;     // running case
  volatile uint64_t ndraws;
  volatile uint64_t state;     // 0 idle, 1 running a case, 2 finished
  uint64_t draws[1];
};
static const uint64_t MAX_DRAWS = 1u << 20;

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct TooManyDraws {};

class Src {
public:
  enum Mode { RANDOM, REPLAY, BYTES };
  Mode mode = RANDOM;
  uint64_t rng[4];
  std::vector<uint64_t> in;     // REPLAY
  size_t in_pos = 0;
  const uint8_t *bytes = nullptr; size_t nbytes = 0, bpos = 0;
  uint64_t ndraws = 0;
  uint64_t hash = 1469598103934665603ULL;
  std::vector<uint64_t> rec;
  Progress *prog = nullptr;

  void seedRandom(uint64_t s) {
    mode = RANDOM;
    for(int i = 0; i < 4; i++) rng[i] = splitmix(s);
    start();
  }
  void seedReplay(const std::vector<uint64_t> &v) { mode = REPLAY; in = v; in_pos = 0; start(); }
  void seedBytes(const uint8_t *d, size_t n) { mode = BYTES; bytes = d; nbytes = n; bpos = 0; start(); }
  void start() { ndraws = 0; hash = 1469598103934665603ULL; rec.clear(); if(prog) prog->ndraws = 0; }

  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t r = rotl(rng[1] * 5, 7) * 9, t = rng[1] << 17;
    rng[2] ^= rng[0]; rng[3] ^= rng[1]; rng[1] ^= rng[2]; rng[0] ^= rng[3];
    rng[2] ^= t; rng[3] = rotl(rng[3], 45);
    return r;
  }

  // a value in [0, n); n == 0 stands for the full 64 bit range
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if(n == 1) return 0;
    switch(mode) {
    case RANDOM: v = next(); if(n) v = (uint64_t)(((unsigned __int128) v * n) >> 64); break;
    case REPLAY: v = (in_pos < in.size()) ? in[in_pos++] : 0; if(n && v >= n) v = v % n; break;
    default: {
      int k = (n && n <= 256) ? 1 : (n && n <= 65536) ? 2 : (n && n <= (1ULL << 32)) ? 4 : 8;
      v = 0;
      for(int i = 0; i < k; i++) v |= (uint64_t)(bpos < nbytes ? bytes[bpos++] : 0) << (8 * i);
      if(n) v %= n;
    }
    }
    if(ndraws >= MAX_DRAWS) throw TooManyDraws();
    if(prog) { prog->draws[ndraws] = v; prog->ndraws = ndraws + 1; }
    else rec.push_back(v);
    ndraws++;
    hash = (hash ^ (v + 0x9e37)) * 1099511628211ULL; hash ^= hash >> 29;
    return v;
  }
  int range(int lo, int hi) { return lo + (int) draw((uint64_t)((int64_t) hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }  // 0 = no
  bool coin() { return draw(2) == 1; }
  template<typename T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  char pickc(const char *s) { return s[draw(strlen(s))]; }

  // sizes: mostly small, sometimes medium, now and then near max. 0 shrinks to lo.
  int size(int small, int medium, int max, int lo = 0) {
    uint64_t t = draw(32);
    if(t < 22 || medium <= small) return range(lo, std::max(lo, small));
    if(t < 30 || max <= medium) return range(lo, std::max(lo, medium));
    return range(lo, std::max(lo, max));
  }
  // a random number of iterations with a deletable marker for each one
  struct Loop { Src &s; uint64_t den; int left; };
  Loop loop(int avg, int max) { return Loop{*this, (uint64_t) avg + 1, max}; }
  bool more(Loop &l) { if(l.left <= 0) return false; l.left--; return draw(l.den) != 0; }

  uint64_t u64() {
    switch(draw(8)) {
    case 0: return draw(10);
    case 1: return draw(2000);
    case 2: { uint64_t b = draw(64); return (1ULL << b) + draw(5) - 2; }
    case 3: { uint64_t p = 1; for(uint64_t k = draw(20); k > 0; k--) p *= 10; return p + draw(5) - 2; }
    case 4: { uint64_t b = draw(64); return draw(0) >> b; }
    case 5: return ~0ULL - draw(4);
    case 6: { uint64_t p = 1; for(uint64_t k = draw(20); k > 0; k--) p *= 10; return p * (1 + draw(9)); }
    default: return draw(0);
    }
  }
  int i32() {
    switch(draw(8)) {
    case 0: return (int) draw(10);
    case 1: return -(int) draw(2000);
    case 2: return (int) 0x80000000 + (int) draw(4);
    case 3: return 0x7fffffff - (int) draw(4);
    case 4: { int64_t p = 1; for(uint64_t k = draw(10); k > 0; k--) p *= 10; p += (int64_t) draw(5) - 2; return (int)(coin() ? -p : p); }
    case 5: { uint64_t b = draw(31); int v = (int)(draw(1ULL << 31) >> b); return coin() ? -v : v; }
    case 6: { int64_t b = 1LL << draw(31); b += (int64_t) draw(5) - 2; return (int)(coin() ? -b : b); }
    default: return (int) draw(1ULL << 32);
    }
  }
};

inline std::string quote(const std::string &s, size_t maxlen = 400) {
  std::string r = "\"";
  size_t n = 0;
  for(unsigned char c : s) {
    if(n++ >= maxlen) { r += "\"...(" + std::to_string(s.size()) + " chars)"; return r; }
    char b[8];
    if(c == '"' || c == '\\') { r += '\\'; r += (char) c; }
    else if(c == '\n') r += "\\n";
    else if(c == '\t') r += "\\t";
    else if(c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += (char) c;
  }
  return r + "\"";
}

struct Ctx {
  bool want = false;             // is a description wanted?
  std::ostringstream desc;
  bool nontriv = false;
  std::map<std::string, uint64_t> labels;
  std::set<std::string> findings;     // known findings seen
  void nontrivial(bool b = true) { if(b) nontriv = true; }
  void label(const char *l, bool b = true) { if(b) labels[l]++; }
  [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }
};

#define CHECK(cond, msg) do { if(!(cond)) { std::ostringstream pbt_o; pbt_o << "line " << __LINE__ << ": " << msg; throw ::pbt::Failure{pbt_o.str()}; } } while(0)
#define DESC(x) do { if(c.want) c.desc << x; } while(0)

struct Prop { const char *id; void (*fn)(Src &, Ctx &); };

// a harness defines these
extern const std::vector<Prop> props;
void harnessInit();

inline const Prop *findProp(const std::string &id) {
  for(auto &p : props) if(id == p.id) return &p;
  return nullptr;
}

// returns "" or the failure message
inline std::string runCase(const Prop &p, Src &s, Ctx &c) {
  try { p.fn(s, c); }
  catch(Failure &f) { return f.msg.empty() ? std::string("failed") : f.msg; }
  catch(TooManyDraws &) { c.label("too-many-draws"); return ""; }
  catch(std::exception &e) { return std::string("unexpected exception: ") + e.what(); }
  catch(...) { return "unexpected exception of unknown type"; }
  return "";
}

} // namespace pbt

#ifdef PBT_FUZZ
// coverage-guided variant: bytes -> draws -> the same property
namespace pbt { static const Prop *fuzz_prop; static uint64_t fuzz_cases, fuzz_nontriv; }
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  const char *id = getenv("PBT_PROP");
  pbt::fuzz_prop = id ? pbt::findProp(id) : nullptr;
  if(!pbt::fuzz_prop) { fprintf(stderr, "PBT_PROP?\n"); exit(3); }
  pbt::harnessInit();
  atexit([]() { fprintf(stderr, "PBT-FUZZ cases=%lu nontrivial=%lu\n", (unsigned long) pbt::fuzz_cases, (unsigned long) pbt::fuzz_nontriv); });
  return 0;
}
static pbt::Progress *pbt_fuzz_prog;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  using namespace pbt;
  if(!pbt_fuzz_prog) {
    size_t sz = sizeof(Progress) + MAX_DRAWS * 8;
    const char *f = getenv("PBT_PROGRESS");
    int fd = f ? open(f, O_RDWR | O_CREAT | O_TRUNC, 0644) : -1;
    if(fd >= 0 && ftruncate(fd, sz) == 0) pbt_fuzz_prog = (Progress *) mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    else pbt_fuzz_prog = (Progress *) mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  Src s; s.prog = pbt_fuzz_prog; s.seedBytes(d, n);
  Ctx c;
  pbt_fuzz_prog->index = fuzz_cases; pbt_fuzz_prog->state = 1;
  std::string m = runCase(*fuzz_prop, s, c);
  fuzz_cases++; if(c.nontriv) fuzz_nontriv++;
  if(!m.empty()) { fprintf(stderr, "PBT-FUZZ-FAILURE %s\n", m.c_str()); abort(); }
  pbt_fuzz_prog->state = 0;
  return 0;
}
#endif

#ifdef PBT_MAIN
namespace pbt {
static Progress *g_prog;
static volatile uint64_t g_wd_index = ~0ULL; static volatile int g_wd_prof, g_wd_real;
static int g_prof_limit = 4, g_real_limit = 6;   // ticks of 5 s cpu, 20 s wall

static void onTick(int sig) {
  if(!g_prog || g_prog->state != 1) { g_wd_prof = g_wd_real = 0; return; }
  if(g_prog->index != g_wd_index) { g_wd_index = g_prog->index; g_wd_prof = g_wd_real = 0; return; }
  volatile int &n = (sig == SIGPROF) ? g_wd_prof : g_wd_real;
  n = n + 1;
  if(sig == SIGPROF ? n >= g_prof_limit : n >= g_real_limit) {
    const char m[] = "PBT-HANG: the case does not terminate\n";
    if(write(2, m, sizeof m - 1)) {}
    _exit(97);
  }
}
static void watchdog() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onTick; sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr); sigaction(SIGALRM, &sa, nullptr);
  struct itimerval p = {{5, 0}, {5, 0}}, r = {{20, 0}, {20, 0}};
  setitimer(ITIMER_PROF, &p, nullptr); setitimer(ITIMER_REAL, &r, nullptr);
}

static std::vector<uint64_t> readDraws(const char *f) {
  std::vector<uint64_t> v; FILE *fp = fopen(f, "r");
  if(!fp) { fprintf(stderr, "cannot read %s\n", f); exit(3); }
  char line[256];
  while(fgets(line, sizeof line, fp)) {
    if(line[0] == '#') { while(!strchr(line, '\n') && fgets(line, sizeof line, fp)) {} continue; }
    unsigned long long x; if(sscanf(line, "%llu", &x) == 1) v.push_back(x);
  }
  fclose(fp); return v;
}
static void writeDraws(const std::string &f, const std::vector<uint64_t> &v, const std::string &head) {
  FILE *fp = fopen(f.c_str(), "w"); if(!fp) return;
  fputs(head.c_str(), fp);
  for(auto x : v) fprintf(fp, "%llu\n", (unsigned long long) x);
  fclose(fp);
}
static std::string jsonStr(const std::string &s) {
  std::string r = "\"";
  for(unsigned char ch : s) {
    char b[8];
    if(ch == '"' || ch == '\\') { r += '\\'; r += (char) ch; }
    else if(ch == '\n') r += "\\n";
    else if(ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += (char) ch;
  }
  return r + "\"";
}

// run one candidate in a child; true if it still fails
static bool failsInChild(const Prop &p, const std::vector<uint64_t> &v) {
  pid_t pid = fork();
  if(pid == 0) {
    int fd = open("/dev/null", O_WRONLY); if(fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    struct rlimit rl = {4, 4}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    signal(SIGPROF, SIG_DFL); signal(SIGALRM, SIG_DFL);
    struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, nullptr);
    z.it_value.tv_sec = getenv("PBT_SLOW") ? 150 : 15; setitimer(ITIMER_REAL, &z, nullptr);
    Src s; s.seedReplay(v); Ctx c;
    std::string m = runCase(p, s, c);
    _exit(m.empty() ? 0 : 1);
  }
  int st = 0; waitpid(pid, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> v, int attempts, double max_s) {
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  auto out_of_budget = [&]() {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return attempts <= 0 || (t.tv_sec - t0.tv_sec) > max_s;
  };
  auto tryit = [&](const std::vector<uint64_t> &cand) {
    if(out_of_budget() || cand == v) return false;
    attempts--;
    if(failsInChild(p, cand)) { v = cand; return true; }
    return false;
  };
  bool progress = true;
  while(progress && !out_of_budget()) {
    progress = false;
    // drop the tail
    for(size_t n = v.size() / 2; n >= 1 && !out_of_budget(); n /= 2)
      while(v.size() > n) { std::vector<uint64_t> c2(v.begin(), v.end() - n); if(!tryit(c2)) break; progress = true; }
    // delete blocks
    for(size_t n : {64, 32, 16, 8, 4, 3, 2, 1})
      for(size_t i = 0; i + n <= v.size() && !out_of_budget(); ) {
        std::vector<uint64_t> c2(v); c2.erase(c2.begin() + i, c2.begin() + i + n);
        if(tryit(c2)) progress = true; else i += (n > 4 ? n / 2 : 1);
      }
    // zero blocks, then lower single values
    for(size_t n : {8, 2})
      for(size_t i = 0; i + n <= v.size() && !out_of_budget(); i += n) {
        std::vector<uint64_t> c2(v); std::fill(c2.begin() + i, c2.begin() + i + n, 0);
        if(tryit(c2)) progress = true;
      }
    for(size_t i = 0; i < v.size() && !out_of_budget(); i++) {
      if(v[i] == 0) continue;
      std::vector<uint64_t> c2(v); c2[i] = 0;
      if(tryit(c2)) { progress = true; continue; }
      uint64_t lo = 0, hi = v[i];
      while(hi - lo > 1 && !out_of_budget()) {
        uint64_t mid = lo + (hi - lo) / 2; c2 = v; c2[i] = mid;
        if(tryit(c2)) { hi = mid; progress = true; } else lo = mid;
      }
    }
  }
  return v;
}
}

int main(int argc, char **argv) {
  using namespace pbt;
  std::map<std::string, std::string> a;
  for(int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  const Prop *p = findProp(a["--prop"]);
  if(!p) { fprintf(stderr, "no property %s here\n", a["--prop"].c_str()); return 3; }
  harnessInit();
  size_t sz = sizeof(Progress) + MAX_DRAWS * 8;
  if(a.count("--progress")) {
    int fd = open(a["--progress"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if(fd < 0 || ftruncate(fd, sz) != 0) { perror("progress"); return 3; }
    g_prog = (Progress *) mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  } else g_prog = (Progress *) mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if(g_prog == MAP_FAILED) { perror("mmap"); return 3; }
  g_prog->magic = 0x706274;

  if(a.count("--shrink")) {
    auto v = readDraws(a["--shrink"].c_str());
    v = shrink(*p, v, atoi(a["--attempts"].c_str()), atof(a["--max-s"].c_str()));
    writeDraws(a["--out"], v, "");
    return 0;
  }
  if(a.count("--replay")) {
    watchdog();
    Src s; s.prog = g_prog; s.seedReplay(readDraws(a["--replay"].c_str()));
    Ctx c; c.want = true;
    g_prog->index = 0; g_prog->state = 1;
    std::string m = runCase(*p, s, c);
    g_prog->state = 2;
    printf("CASE %s\n", c.desc.str().c_str());
    if(!m.empty()) { printf("FAILURE %s\n", m.c_str()); return 1; }
    printf("HELD\n");
    return 0;
  }

  uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10), start = strtoull(a["--start"].c_str(), 0, 10),
    stride = strtoull(a["--stride"].c_str(), 0, 10), count = strtoull(a["--count"].c_str(), 0, 10);
  if(!stride) stride = 1;
  std::string out = a["--out"];
  watchdog();
  Src s; s.prog = g_prog;
  std::vector<uint64_t> hashes; std::map<std::string, uint64_t> labels; std::set<std::string> findings;
  std::vector<std::string> samples;
  uint64_t done = 0, nontriv = 0, draws = 0, next_sample = 0; 
  std::string msg; uint64_t fail_index = 0;
  uint64_t idh = 7; for(const char *q = p->id; *q; q++) idh = idh * 31 + (unsigned char) *q;
  for(uint64_t k = 0; k < count; k++) {
    uint64_t idx = start + k * stride;
    uint64_t x = seed * 0x9e3779b97f4a7c15ULL + idh; uint64_t cs = splitmix(x) ^ (idx * 0xd6e8feb86659fd93ULL);
    s.seedRandom(cs);
    Ctx c; c.want = nontriv >= next_sample && samples.size() < 8;
    g_prog->index = idx; g_prog->state = 1;
    msg = runCase(*p, s, c);
    g_prog->state = 0;
    done++; draws += s.ndraws;
    if(c.nontriv) { nontriv++; hashes.push_back(s.hash); if(c.want) { samples.push_back(c.desc.str()); next_sample = nontriv * 4 + 1; } }
    for(auto &l : c.labels) labels[l.first] += l.second ? 1 : 0;
    for(auto &f : c.findings) findings.insert(f);
    if(!msg.empty()) { fail_index = idx; break; }
  }
  g_prog->state = 2;
  FILE *fp = fopen((out + ".hashes").c_str(), "wb");
  if(fp) { if(!hashes.empty()) fwrite(hashes.data(), 8, hashes.size(), fp); fclose(fp); }
  fp = fopen((out + ".json").c_str(), "w");
  if(!fp) { perror("out"); return 3; }
  fprintf(fp, "{\"done\":%llu,\"nontrivial\":%llu,\"draws\":%llu,\"labels\":{", (unsigned long long) done, (unsigned long long) nontriv, (unsigned long long) draws);
  bool first = true;
  for(auto &l : labels) { fprintf(fp, "%s%s:%llu", first ? "" : ",", jsonStr(l.first).c_str(), (unsigned long long) l.second); first = false; }
  fprintf(fp, "},\"samples\":["); first = true;
  for(auto &l : samples) { fprintf(fp, "%s%s", first ? "" : ",", jsonStr(l.size() > 1500 ? l.substr(0, 1500) + "..." : l).c_str()); first = false; }
  fprintf(fp, "],\"findings\":["); first = true;
  for(auto &l : findings) { fprintf(fp, "%s%s", first ? "" : ",", jsonStr(l).c_str()); first = false; }
  fprintf(fp, "],\"failure\":%s,\"fail_index\":%llu}\n", msg.empty() ? "null" : jsonStr(msg).c_str(), (unsigned long long) fail_index);
  fclose(fp);
  return msg.empty() ? 0 : 1;
}
#endif
