// What is over gives back its memory (R01): generated work, repeated. The live
// memory of the process is the same after the second and after the last time.
#include "jobs.hpp"
#if defined(__SANITIZE_ADDRESS__)
#define WITH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_ASAN 1
#endif
#endif

#ifdef WITH_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long live() { return (long) __sanitizer_get_current_allocated_bytes(); }
#else
// count what malloc has given out, for whomever
#include <malloc.h>
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *); extern "C" void *__libc_realloc(void *, size_t); extern "C" void *__libc_calloc(size_t, size_t); extern "C" void *__libc_memalign(size_t, size_t);
static long liveBytes;
static void *in(void *p) { if(p) __atomic_fetch_add(&liveBytes, (long) malloc_usable_size(p), __ATOMIC_RELAXED); return p; }
static void out(void *p) { if(p) __atomic_fetch_sub(&liveBytes, (long) malloc_usable_size(p), __ATOMIC_RELAXED); }
extern "C" {
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t n, size_t z) { return in(__libc_calloc(n, z)); }
void free(void *p) { out(p); __libc_free(p); }
void *realloc(void *p, size_t n) { out(p); void *q = __libc_realloc(p, n); if(q) in(q); else if(n) in(p); return q; }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) { *r = in(__libc_memalign(a, n)); return *r ? 0 : 12; }
}
static long live() { return __atomic_load_n(&liveBytes, __ATOMIC_RELAXED); }
#endif

static Script script(Src &s, int len) { Script r; int n = 1 + (int) s.draw(len); for(int i = 0; i < n; i++) r.push_back(s.draw(4) ? s.draw(1000) : s.draw(0)); return r; }

struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };

// one object, used again and again: a turn leaves it as it was before
struct Turns {
  std::unique_ptr<SoDa::Format> f; std::unique_ptr<Ext> e; std::shared_ptr<SoDa::MailBox<string>> b; SoDa::MailBox<string>::Subscription sub, other; SoDa::BarrierPtr bar; std::unique_ptr<Opts> o; int kind;
  Turns(int kind, Src &s) : kind(kind) {
    switch(kind) {
    case 0: f.reset(new SoDa::Format(fmtText(s))); break;
    case 1: e.reset(new Ext(fmtText(s))); break;
    case 2: b = SoDa::makeMailBox<string>(word(s)); sub = b->subscribe(); if(s.coin()) other = b->subscribe(); break;
    case 3: bar = SoDa::makeBarrier(word(s), 1); break;
    default: o.reset(new Opts(true)); }
  }
  void turn(const Script &sc) {
    Src s; s.seedReplay(sc); int n = 1 + (int) s.draw(6);
    switch(kind) {
    case 0: for(int i = 0; i < n; i++) addValue(s, *f); try { f->str(s.coin()); } catch(SoDa::Exception &) { } f->reset(); break;
    case 1: e->addTwice(n).addF(n * 1.5, 'e').addB(true); e->str(); e->reset(); break;
    case 2: {
      int how = (int) s.draw(4); SoDa::MailBox<string>::Subscription more; if(how & 1) more = b->subscribe();
      for(int i = 0; i < n; i++) { auto m = std::make_shared<string>(word(s)); if(s.draw(4) == 3) b->put(m, sub); else b->put(m); }
      if(other) b->clear(other);
      if(how & 2) b->clear(sub); else while(b->get(sub)) { }
      if(how == 3) b->unsubscribe(more->getIndex(b.get()));
      break; }
    case 3: for(int i = 0; i < n; i++) if(s.coin()) bar->wait(); else bar->wait(1000); break;
    default: for(int i = 0; i < n; i++) { string l; for(int k = (int) s.draw(3); k >= 0; k--) switch(s.draw(5)) { case 0: l += "int=" + number(s) + ","; break; case 1: l += "str=" + word(s) + ","; break; case 2: l += "dbl=,"; break; case 3: l += "pres,"; break; default: l += s.draw(3) ? "uns=5" : "none=1"; }
        o->o.parse(l); std::ostringstream h; o->o.printHelp(h); o->o.isPresent("none"); o->o.isPresent(word(s)); } }
  }
};
static const char *turnName[] = { "format", "extended format", "mailbox", "barrier", "key=value parser" };

static void R01(Src &s, Ctx &c) {
  static NullBuf &nul = *new NullBuf; std::cerr.rdbuf(&nul); std::cout.rdbuf(&nul);
  bool fresh = s.coin(); nonce = 0; auto next = [&]() { if(fresh) nonce++; }; // every turn with words of its own?
  struct Zero { ~Zero() { nonce = 0; } } zero;
  int how = (int) s.draw(4);
  if(how == 3) {      // one object, many turns
    int kind = (int) s.draw(5); Script mk = script(s, 12), sc = script(s, 30); Src m; m.seedReplay(mk); Turns t(kind, m);
    const int N = 150; for(int i = 0; i < 20; i++) { next(); t.turn(sc); }
    long a = live(); for(int i = 0; i < N; i++) { next(); t.turn(sc); } long b = live();
    DESC(turnName[kind] << " used over and over: " << a << " bytes live before, " << b << " after " << N << " turns" << (fresh ? ", each with words of its own" : ""));
    bool grows = b - a > 1500; int total = N + 20; for(int k = 0; k < 4 && grows; k++, total *= 2) { long c = live(); for(int i = 0; i < total + 10; i++) { next(); t.turn(sc); } grows = live() > c; }
    CHECK(!grows, "a " << turnName[kind] << " grows: " << b - a << " bytes more after " << N << " equal turns that leave it as it was");
    c.nontrivial(); c.label(turnName[kind]); return;
  }
  std::vector<std::pair<int, Script>> jobs; World w; int n = 1 + (int) s.draw(3);
  static const std::vector<int> ks = { FORMAT, SPLIT, OPTIONS, BOXES, ASK_FORMAT, ASK_OPTIONS, ASK_TREE, ASK_BOX, BARRIER };
  for(int i = 0; i < n; i++) { int k = s.pick(ks); if(k == BARRIER && s.draw(8) != 7) k = FORMAT; jobs.push_back({ k, script(s, 60) }); }
  auto uses = [&](int k) { for(auto &j : jobs) if(j.first == k) return true; return false; };
  static std::unique_ptr<Tree> tree; // nodes are never freed: one tree for all
  if(uses(ASK_FORMAT)) { Src r; r.seedReplay(script(s, 12)); w.fmt.reset(new SoDa::Format(fmtText(r))); int n = (int) r.draw(7); for(int i = 0; i < n; i++) addValue(r, *w.fmt); }
  if(uses(ASK_OPTIONS)) { Src r; r.seedReplay(script(s, 20)); bool kvp = r.draw(4) == 3; w.opts.reset(new Opts(kvp)); doOptions(r, *w.opts, kvp); }
  if(uses(ASK_TREE)) {
    if(!tree) { tree.reset(new Tree); for(int i : { 0, 1, 4, 6 }) tree->readFile(fileName(i)); }
    w.tree = std::move(tree); for(int i = 0; i < NPATHS; i++) if(Node *x = w.tree->top()->getProp(paths[i])) w.nodes.push_back(x); w.nodes.push_back(w.tree->top());
  }
  struct Back { World &w; ~Back() { if(w.tree) tree = std::move(w.tree); } } back{w};
  if(uses(ASK_BOX)) w.box = SoDa::makeMailBox<string>("shared");
  auto all = [&]() { next(); size_t z = 0; for(auto &j : jobs) z += run(j.first, j.second, w).size(); return z; };
  size_t z = all(); all(); long a = live(); int turns = uses(BARRIER) ? 3 : 6; for(int i = 0; i < turns; i++) all(); long b = live();
  DESC("work that is repeated:"); for(auto &j : jobs) DESC(" " << kindName[j.first] << "#" << j.second.size()); DESC(" (" << z << " characters of results), " << a << " bytes live" << (fresh ? ", each time with words of its own" : ""));
  // a buffer that is kept may grow once or twice: what is lost each time grows for ever
  // (in steps that double, when a vector holds it)
  bool grows = b > a; int total = turns + 2; for(int k = 0; k < 4 && grows; k++, total *= 2) { long c = live(); for(int i = 0; i < total; i++) all(); grows = live() > c; }
  CHECK(!grows, "the same work done " << turns << " more times leaves " << b - a << " more bytes behind");
  c.nontrivial(z > 40); if(fresh) c.label("new words each time"); for(auto &j : jobs) c.label(kindName[j.first]);
}

namespace pbt {
const std::vector<Prop> props = { {"R01", R01} };
void harnessInit() {
  const char *d = getenv("PBT_SCRATCH"); scratch = string(d ? d : "/tmp") + "/mem"; mkdir(scratch.c_str(), 0755);
  for(int i = 0; i < NFILES; i++) { string n = fileName(i), m = n + "." + std::to_string(getpid()); { std::ofstream o(m); o << files[i]; } rename(m.c_str(), n.c_str()); }
}
}
