// Running out of memory (X01): an allocation fails, or all from some point on do,
// anywhere inside an operation. Nothing ends the program, stays locked, or leaks.
#include <new>
#include <cstdlib>
#include <malloc.h>
#include <pthread.h>
#include <unistd.h>
#include <deque>
#include "jobs.hpp"

// the allocations of this thread: live ones, and the one that fails
static thread_local long liveBlocks, countdown, failures; static thread_local bool armed, forever;
static void *take(size_t n, size_t al) {
  if(armed && (countdown <= 0 ? forever : --countdown == 0)) { failures++; return nullptr; }
  void *p = nullptr; if(al) { if(posix_memalign(&p, al, n) != 0) p = nullptr; } else p = malloc(n ? n : 1);
  if(p) liveBlocks++;
  return p;
}
static void *must(size_t n, size_t al = 0) { void *p = take(n, al); if(!p) throw std::bad_alloc(); return p; }
static void give(void *p) { if(p) { liveBlocks--; free(p); } }
void *operator new(size_t n) { return must(n); }
void *operator new[](size_t n) { return must(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take(n, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return must(n, (size_t) a); }
void *operator new[](size_t n, std::align_val_t a) { return must(n, (size_t) a); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return take(n, (size_t) a); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return take(n, (size_t) a); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { give(p); }
void operator delete(void *p, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, std::align_val_t) noexcept { give(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { give(p); }

// a lock that nobody gives back: with one thread there is no other reason to wait
static bool watchLocks;
extern "C" int __pthread_mutex_lock(pthread_mutex_t *);
#ifndef PBT_FUZZ
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  for(int i = 0; ; i++) {
    int r = pthread_mutex_trylock(m); if(r != EBUSY) return r;
    if(watchLocks && i > 3000) { static const char t[] = "FAILURE a lock stays held after an operation that ran out of memory\n"; if(write(2, t, sizeof t - 1) < 0) { } abort(); }
    usleep(1000);
  }
}
#endif

struct Arm { Arm(long k, bool all) { countdown = k; forever = all; failures = 0; armed = true; } ~Arm() { armed = false; } };
// runs f with the k-th allocation failing; true if it ended without an exception
template<typename F> static bool armedRun(long k, bool all, F f) {
  bool ok = false;
  try { Arm a(k, all); f(); ok = true; } catch(::pbt::Failure &) { throw; } catch(std::exception &) { }
  return ok;
}

static Script script(Src &s, int len) { Script r; int n = 1 + (int) s.draw(len); for(int i = 0; i < n; i++) r.push_back(s.draw(4) ? s.draw(1000) : s.draw(0)); return r; }
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };

// work of T01 and R01, repeated with another allocation failing each time
static void jobsCase(Src &s, Ctx &c) {
  static const std::vector<int> ks = { FORMAT, FORMAT, SPLIT, OPTIONS, OPTIONS, BOXES, BOXES, ASK_FORMAT, ASK_OPTIONS, ASK_TREE, ASK_BOX, BARRIER, TREE, TREE };
  int kind = s.pick(ks); if(kind == BARRIER && s.draw(8) != 7) kind = BOXES; Script sc = script(s, 60); World w;
  if(kind == ASK_FORMAT) { Src r; r.seedReplay(script(s, 12)); w.fmt.reset(new SoDa::Format(fmtText(r))); int n = (int) r.draw(7); for(int i = 0; i < n; i++) addValue(r, *w.fmt); }
  if(kind == ASK_OPTIONS) { Src r; r.seedReplay(script(s, 20)); bool kvp = r.draw(4) == 3; w.opts.reset(new Opts(kvp)); doOptions(r, *w.opts, kvp); }
  static std::unique_ptr<Tree> tree; // nodes are never freed: one tree for all
  if(kind == ASK_TREE) {
    if(!tree) { tree.reset(new Tree); for(int i : { 0, 1, 4, 6 }) tree->readFile(fileName(i)); }
    w.tree = std::move(tree); for(int i = 0; i < NPATHS; i++) if(Node *x = w.tree->top()->getProp(paths[i])) w.nodes.push_back(x); w.nodes.push_back(w.tree->top());
  }
  struct Back { World &w; ~Back() { if(w.tree) tree = std::move(w.tree); } } back{w};
  if(kind == ASK_BOX) w.box = SoDa::makeMailBox<string>("shared");
  run(kind, sc, w); string want = run(kind, sc, w);
  { Arm a(1L << 40, false); string again = run(kind, sc, w); armed = false; countdown = (1L << 40) - countdown; }
  long n = countdown; int turns = kind == BARRIER ? 3 : (int) std::min(n, 24L), ended = 0, hit = 0;
  DESC(kindName[kind] << "#" << sc.size() << ", " << n << " allocations, failing:");
  for(int i = 0; i < turns; i++) {
    long k = n <= 24 && kind != BARRIER ? i + 1 : 1 + (long) s.draw(n); bool all = s.draw(3) == 2; DESC(" " << k << (all ? "+" : ""));
    long before = liveBlocks; ended += !armedRun(k, all, [&]() { run(kind, sc, w); }); hit += failures > 0;
    if(kind != TREE) CHECK(liveBlocks <= before, kindName[kind] << " leaves " << liveBlocks - before << " blocks of memory behind when allocation " << k << " of " << n << (all ? " and all later ones fail" : " fails"));
    string now = run(kind, sc, w);
    CHECK(now == want, kindName[kind] << " gives " << quote(now, 300) << ", before an allocation failed in it, " << quote(want, 300));
  }
  c.label(kindName[kind]); c.nontrivial(hit > 0); c.label("ended by an exception", ended > 0);
}

// one mailbox with a history, in which operations run out of memory
static void boxCase(Src &s, Ctx &c) {
  typedef SoDa::MailBox<int> B; long before = liveBlocks; int failed = 0;
  { struct Sub { B::Subscription s; std::deque<int> q; bool ended = false; };
    std::shared_ptr<B> b; string name = word(s); std::deque<Sub> subs; int next = 0; bool sure = true; string log;
    while(!b) { long k = s.draw(4); if(k) armedRun(k, false, [&]() { b = SoDa::makeMailBox<int>(name); }); else b = SoDa::makeMailBox<int>(name); }
    auto l = s.loop(14, 80);
    while(s.more(l)) {
      long k = s.coin() ? 1 + (long) s.draw(s.coin() ? 3 : 12) : 0; bool all = s.draw(3) == 2; if(!k) k = 1L << 40;
      auto tell = [&](const char *w, int i) { DESC(" " << w << (i >= 0 ? " " + std::to_string(i) : string()) << (k < 100 ? "!" + std::to_string(k) + (all ? "+" : "") : string())); };
      uint64_t op = s.draw(16); int i = subs.empty() ? -1 : (int) s.draw(subs.size()); if(i < 0 && op > 4) op = 0;
      switch(op) {
      case 0: case 1: { tell("subscribe", -1); Sub x; bool ok = armedRun(k, all, [&]() { x.s = b->subscribe(); }); if(ok) subs.push_back(std::move(x)); else { failed++; sure = false; } break; }
      case 2: case 3: case 4: case 5: case 6: case 7: case 8: {
        bool ex = op > 6 && !subs[i].ended; int id = next++; tell(ex ? "put-except" : "put", ex ? i : -1); auto m = std::make_shared<int>(id);
        bool ok = armedRun(k, all, [&]() { if(ex) b->put(m, subs[i].s); else b->put(m); }); failed += !ok;
        for(auto &x : subs) if(!x.ended) { bool mine = !(ex && &x == &subs[i]); size_t n = b->readyCount(x.s), was = x.q.size();
          CHECK(n == was + mine || (!ok && n == was), "after a put " << (ok ? "" : "that failed ") << "a subscriber has " << n << " messages, before " << was); if(n > was) x.q.push_back(id); }
        break; }
      case 9: case 10: case 11: {
        if(subs[i].ended) break;
        tell("get", i); Sub &x = subs[i]; std::shared_ptr<int> m; bool ok = armedRun(k, all, [&]() { m = b->get(x.s); }); failed += !ok; if(!ok) break;
        CHECK(x.q.empty() ? !m : m && *m == x.q.front(), "subscriber " << i << " receives " << (m ? std::to_string(*m) : string("nothing")) << ", expected " << (x.q.empty() ? string("nothing") : std::to_string(x.q.front()))); if(m) x.q.pop_front();
        break; }
      case 12: { tell("counts", i); Sub &x = subs[i]; unsigned r = 0; bool ok = armedRun(k, all, [&]() { b->minReadyCount(); b->subscriberCount(); r = b->readyCount(x.s); });
        failed += !ok; CHECK(!ok || (!x.ended && r == x.q.size()), "subscriber " << i << " has " << r << " messages, expected " << x.q.size()); break; }
      case 13: { if(subs[i].ended) break; tell("clear", i); Sub &x = subs[i]; bool ok = armedRun(k, all, [&]() { b->clear(x.s); }); failed += !ok; if(ok) x.q.clear(); else { size_t n = b->readyCount(x.s); while(x.q.size() > n) x.q.pop_front(); } break; }
      case 14: { tell("end", i); Sub &x = subs[i]; bool ok = armedRun(k, all, [&]() { b->unsubscribe(x.s->getIndex(b.get())); }); failed += !ok; if(ok) { x.ended = true; x.q.clear(); } else if(!x.ended) { try { b->readyCount(x.s); } catch(SoDa::Exception &) { x.ended = true; x.q.clear(); } } break; }
      default: { tell("leave", i); { Arm a(k, all); subs[i].s.reset(); } subs.erase(subs.begin() + i); break; }
      }
      int n = 0; for(auto &x : subs) n += !x.ended; int is = (int) b->subscriberCount();
      CHECK(sure ? is == n : is >= n, "the mailbox has " << is << " subscribers, expected " << n);
    }
    for(size_t i = 0; i < subs.size(); i++) if(!subs[i].ended) { Sub &x = subs[i]; while(auto m = b->get(x.s)) { CHECK(!x.q.empty() && *m == x.q.front(), "in the end subscriber " << i << " receives " << *m << ", expected " << (x.q.empty() ? string("nothing") : std::to_string(x.q.front()))); x.q.pop_front(); } CHECK(x.q.empty(), "subscriber " << i << " has lost " << x.q.size() << " messages"); }
    subs.clear(); b.reset(); }
  static bool warm; if(warm && !c.want) CHECK(liveBlocks <= before, "the mailbox leaves " << liveBlocks - before << " blocks of memory behind"); warm = true;
  c.label("mailbox history"); c.nontrivial(failed > 0);
}

static void formatCase(Src &s, Ctx &c) {
  string text = fmtText(s), other = fmtText(s); int failed = 0; bool swapped = false; std::unique_ptr<SoDa::Format> f(new SoDa::Format(text)); SoDa::Format o(other); DESC("format " << quote(text) << ":");
  auto l = s.loop(6, 40);
  while(s.more(l)) {
    long k = 1 + (long) s.draw(s.coin() ? 4 : 40); bool all = s.draw(3) == 2; int op = (int) s.draw(7); DESC(" " << op << "!" << k << (all ? "+" : ""));
    bool ok = armedRun(k, all, [&]() { switch(op) {
      case 0: case 1: case 2: addValue(s, *f); break;
      case 3: f->str(s.coin()); break;
      case 4: { SoDa::Format g(*f); g.addI(1); g.str(); break; }
      case 5: f->reset(); break;
      default: { std::ostringstream q; q << *f; } } });
    failed += !ok;
    if(s.chance(1, 10)) { DESC(" assign"); bool k2 = armedRun(1 + (long) s.draw(6), false, [&]() { *f = o; }); failed += !k2; if(!k2) swapped = true; else { text = other; swapped = false; } }
  }
  Script sc = script(s, 30); auto fill = [&](SoDa::Format &x) { Src r; r.seedReplay(sc); int n = (int) r.draw(8); for(int i = 0; i < n; i++) addValue(r, x); return x.str(); };
  SoDa::Format a(text); string got, w1 = fill(a); f->reset(); got = fill(*f);
  CHECK(swapped || got == w1, "a format that was reset after an operation ran out of memory gives " << quote(got) << ", a new one " << quote(w1));
  c.label("format history"); c.nontrivial(failed > 0);
}

static void optionsCase(Src &s, Ctx &c) {
  SoDa::Options o; int i = 0; string t; std::vector<int> v; bool p = false; int failed = 0; DESC("a parser:");
  for(int d = 0; d < 4; d++) for(int tries = (int) s.draw(3); ; tries--) {
    long k = tries > 0 ? 1 + (long) s.draw(20) : 1L << 40; bool all = s.draw(3) == 2; DESC(" declare " << d << (tries > 0 ? "!" + std::to_string(k) : string()));
    bool ok = armedRun(k, all, [&]() { switch(d) { case 0: o.add<int>(&i, "int", 'i', 7, "an int", [](int x) { return x < 1000; }, "too big"); break; case 1: o.add<string>(&t, "str", 's', string("dflt"), "a string of some length, which does not fit"); break; case 2: o.addV<int>(&v, "vec", 'v', "ints"); break; default: o.addP(&p, "pres", 'p', "present"); o.addInfo("what this is for"); } });
    failed += !ok; if(ok) break;
  }
  auto l = s.loop(3, 12);
  while(s.more(l)) {
    std::list<string> tk; int n = (int) s.draw(6); for(int j = 0; j < n; j++) switch(s.draw(6)) { case 0: tk.push_back("--int"); tk.push_back(number(s)); break; case 1: tk.push_back("-s"); tk.push_back(word(s)); break; case 2: tk.push_back("-v"); tk.push_back(number(s)); break; case 3: tk.push_back("--pres"); break; case 4: tk.push_back("a positional argument of some length"); break; default: if(s.draw(5) == 4) tk.push_back("--none"); }
    string line; for(auto &x : tk) line += " " + (x.find(' ') == string::npos ? x : '"' + x + '"');
    long k = 1 + (long) s.draw(s.coin() ? 6 : 60); bool all = s.draw(3) == 2, str = s.coin(); DESC(" parse" << quote(line) << "!" << k << (all ? "+" : ""));
    failed += !armedRun(k, all, [&]() { if(str) o.parse(line); else o.parse(std::list<string>(tk)); });
    if(s.chance(1, 3)) failed += !armedRun(1 + (long) s.draw(20), all, [&]() { std::ostringstream h; o.printHelp(h); o.isPresent("int"); o.getPosArg(0); });
  }
  int want = (int) s.draw(1000); string ws = "w" + word(s); size_t nv = v.size(), np = o.numPosArgs();
  bool ok = o.parse(std::list<string>{ "--int", std::to_string(want), "here", "-s", ws, "-v", "5", "--vec", "6", "-p", "there" });
  CHECK(ok, "a good line is refused after an operation ran out of memory");
  CHECK(i == want && t == ws && p, "after an operation ran out of memory a good line sets " << i << ", " << quote(t) << ", " << p << ", not " << want << ", " << quote(ws) << ", 1");
  CHECK(v.size() == nv + 2 && v[nv] == 5 && v[nv + 1] == 6, "after an operation ran out of memory a vector gets " << v.size() - nv << " values, expected 2");
  size_t n2 = o.numPosArgs(); CHECK(n2 >= 2 && n2 <= np + 2 && o.getPosArg((int) n2 - 1) == "there" && o.getPosArg((int) n2 - 2) == "here", "after an operation ran out of memory the positional arguments of a good line are wrong");
  CHECK(o.isPresent("int") && o.isPresent('s') && o.isPresent("vec") && o.isPresent("pres") && !o.isPresent("none"), "after an operation ran out of memory presence is wrong");
  c.label("parser history"); c.nontrivial(failed > 0);
}

static void X01(Src &s, Ctx &c) {
  static NullBuf &nul = *new NullBuf; static std::ios &cerrState = std::cerr; std::cerr.rdbuf(&nul); std::cout.rdbuf(&nul); cerrState.clear(); nonce = 0; watchLocks = true;
  switch(s.draw(8)) { case 0: case 1: case 2: case 3: jobsCase(s, c); break; case 4: case 5: boxCase(s, c); break; case 6: formatCase(s, c); break; default: optionsCase(s, c); }
}

namespace pbt {
const std::vector<Prop> props = { {"X01", X01} };
void harnessInit() {
  const char *d = getenv("PBT_SCRATCH"); scratch = string(d ? d : "/tmp") + "/mem"; mkdir(scratch.c_str(), 0755);
  for(int i = 0; i < NFILES; i++) { string n = fileName(i), m = n + "." + std::to_string(getpid()); { std::ofstream o(m); o << files[i]; } rename(m.c_str(), n.c_str()); }
}
}
