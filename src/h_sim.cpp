// Properties of SoDa::Barrier and SoDa::MailBox under generated schedules
// (B01-B04, M02). The threads are real, but run one at a time as the scheduler
// in sim_rt.cpp decides, in virtual time.
#include "pbt.hpp"
#include "sim.hpp"
#include "Barrier.hxx"
#include "MailBox.hxx"
#include <memory>
#include <deque>
#include <unordered_set>
#include <sched.h>
using namespace pbt;
using std::string;

static const int64_t MS = 1000000LL, SEC = 1000 * MS, DAY = 86400 * SEC, YEAR = 365 * DAY;

static sim::Config config(Src &s) {
  sim::Config k;
  Src *p = &s;
  k.draw = [p](uint64_t n) { return p->ndraws + 2000 > MAX_DRAWS ? (uint64_t) 0 : p->draw(n); };
  return k;
}
// jobs stop the run when a check fails
template<typename F> static int job(F f) {
  return sim::spawn([f]() {
    try { f(); }
    catch(Failure &e) { sim::stop(e.msg); }
    catch(std::exception &e) { sim::stop(string("unexpected exception: ") + e.what()); }
    catch(...) { sim::stop("unexpected exception of unknown type"); }
  });
}
static void clean(sim::Status st) {
  if(!sim::race().empty()) throw Failure{sim::race()};
  if(!sim::misuse().empty()) throw Failure{sim::misuse()};
  if(st == sim::STOPPED) throw Failure{sim::stopReason()};
  if(st == sim::RUNAWAY) throw Failure{"the threads are still busy after " + std::to_string(sim::steps()) + " steps"};
}
static string dur(int64_t ns) { std::ostringstream o; if(ns >= DAY) o << ns / DAY << "d"; else if(ns >= SEC) o << ns / SEC << "s"; else if(ns >= MS) o << ns / MS << "ms"; else o << ns << "ns"; return o.str(); }

// ------------------------------------------------------------ barriers

enum Out { WAITING, NORMAL, TIMEOUT, CORRUPT, OTHER };
struct Call { int th, bar; uint64_t ms; bool form; int seqCall, seqRet = -1; int64_t tCall, tRet = -1; Out out = WAITING; string what; };

struct Arena {
  std::vector<SoDa::BarrierPtr> b; std::vector<string> names; std::vector<int> n; std::vector<Call> calls; int seq = 0; int64_t sleeps = 0;
  std::vector<int> called, returned;
  void add(Src &s, int N) {
    static const std::vector<string> nm = { "b", "barrier 1", "%0", "a%1b %", "", "the name of the barrier is long, and it has a comma" };
    string name = s.pick(nm); names.push_back(name); n.push_back(N); called.push_back(0); returned.push_back(0);
    b.push_back(s.coin() ? SoDa::makeBarrier(name, N) : std::make_shared<SoDa::Barrier>(name, N));
  }
  // a wait by the running thread
  Call wait(int th, int bar, uint64_t ms, int form) {
    size_t i = calls.size(); { Call k; k.th = th; k.bar = bar; k.ms = ms; k.form = form; k.seqCall = seq++; k.tCall = sim::now(); calls.push_back(k); }
    called[bar]++;
    Out o = OTHER; string what; bool lib = true;
    try {
      sim::Visible v;
      SoDa::Barrier &br = *b[bar];
      if(form == 0) br.wait((unsigned long) ms); else if(form == 1) br.wait(std::chrono::duration<long, std::milli>((long) ms)); else if(ms == 0) br.wait(); else br.wait(ms);
      o = NORMAL;
    }
    catch(SoDa::Barrier::Timeout &e) { o = TIMEOUT; what = e.what(); SoDa::Barrier::Exception &x = e; SoDa::Exception &y = x; std::exception &z = y; (void) z; }
    catch(SoDa::Barrier::Corrupt &e) { o = CORRUPT; what = e.what(); SoDa::Barrier::Exception &x = e; SoDa::Exception &y = x; (void) y; }
    catch(std::exception &e) { what = e.what(); }
    catch(...) { what = "of unknown type"; }
    Call &k = calls[i]; k.out = o; k.what = what; k.seqRet = seq++; k.tRet = sim::now(); (void) lib;
    CHECK(o != OTHER, "wait throws something that is neither Timeout nor Corrupt: " << what);
    if(o == NORMAL) {
      returned[bar]++; int N = n[bar];
      CHECK(returned[bar] <= N * (called[bar] / N), "barrier for " << N << ": " << returned[bar] << " calls of wait have returned, but only " << called[bar] << " were made");
    } else CHECK(what.find(names[bar]) != string::npos, "the exception does not name the barrier " << quote(names[bar]) << ": " << quote(what));
    return k;
  }
  string log() {
    std::ostringstream o; static const char *on[] = { "waiting", "normal", "TIMEOUT", "CORRUPT", "OTHER" };
    for(auto &k : calls) { o << " t" << k.th << ":wait" << (n.size() > 1 ? std::to_string(k.bar) : "") << "(" << k.ms << (k.form ? "ms" : "") << ")@" << dur(k.tCall) << "#" << k.seqCall << "->" << on[k.out]; if(k.seqRet >= 0) o << "@" << dur(k.tRet) << "#" << k.seqRet; }
    return o.str();
  }
};
struct Step { int bar; uint64_t ms; int form; int64_t before; };
typedef std::vector<Step> Prog;

static uint64_t longTime(Src &s) {     // beyond anything that happens in a run; 0 or 120 days to 95 years
  switch(s.draw(4)) { case 0: case 1: return 0; case 2: return 10368000000ULL + s.draw(1000000); default: return 10368000000ULL + s.draw(3000000000000ULL - 10368000000ULL); }
}
static int64_t nap(Src &s) { switch(s.draw(6)) { case 0: case 1: case 2: return 0; case 3: return 1; case 4: return (int64_t) s.draw(3 * MS); default: return (int64_t) s.draw(60 * MS); } }

static string progs(const std::vector<Prog> &p) {
  std::ostringstream o;
  for(size_t i = 0; i < p.size(); i++) { o << " t" << i << "["; for(auto &k : p[i]) { if(k.before) o << "+" << dur(k.before) << " "; o << "w" << k.bar << "(" << k.ms << ") "; } o << "]"; }
  return o.str();
}
#define RESULT(a) DESC(" steps=" << sim::steps() << " switches=" << sim::switches() << " preemptions=" << sim::preemptions() << " log:" << (a)->log())

static void B01(Src &s, Ctx &c) {
  Arena *a = new Arena; bool longRun = s.chance(1, 400), crowd = !longRun && s.chance(1, 3000); bool ages = !longRun && !crowd && s.chance(1, 40000); longRun = longRun || ages; int N = ages ? 2 : longRun ? s.range(1, 4) : crowd ? s.range(200, 300) : s.chance(1, 10) ? s.range(1, 16) : s.range(1, 6), R = ages ? s.range(65530, 65600) : longRun ? s.range(100, 700) : crowd ? s.range(1, 2) : s.size(4, 8, 20, 1), nb = s.chance(1, 4) ? 2 : 1;
  for(int i = 0; i < nb; i++) a->add(s, N);
  std::vector<int> order; for(int r = 0; r < R; r++) order.push_back(nb == 1 ? 0 : (int) s.draw(2));
  auto *p = new std::vector<Prog>(N);
  for(int t = 0; t < N; t++) for(int r = 0; r < R; r++) { Step k; k.bar = order[r]; k.ms = longTime(s); k.form = (int) s.draw(3); k.before = longRun || crowd ? 0 : nap(s); (*p)[t].push_back(k); }
  sim::Config k = config(s); k.jumps = s.coin() && !longRun; k.maxJump = SEC; k.horizon = 60 * DAY; k.stepLimit = 4000000;
  DESC(N << " threads, " << R << " rounds, " << nb << " barriers:" << progs(*p));
  sim::begin(k);
  auto *round = new std::vector<int>(N, 0);          // calls made
  for(int t = 0; t < N; t++) job([=]() {
    for(int r = 0; r < R; r++) {
      const Step &st = (*p)[t][r]; if(st.before) sim::sleep(st.before);
      (*round)[t]++;
      Call d = a->wait(t, st.bar, st.ms, st.form);
      CHECK(d.out == NORMAL, "thread " << t << ", wait " << r + 1 << ": " << d.what << " although no timeout has elapsed");
      for(int u = 0; u < N; u++) CHECK((*round)[u] > r, "thread " << t << " returns from its wait number " << r + 1 << " before thread " << u << " has called its own");
    }
  });
  sim::Status st = sim::go();
  RESULT(a);
  clean(st);
  for(int t = 0; t < N; t++) CHECK(sim::finished(t), "thread " << t << " hangs in its wait number " << (*round)[t] << " of " << R);
  c.nontrivial(N > 1 && sim::switches() > (uint64_t) N);
  c.label("preempted", sim::preemptions() > 0); c.label("more-than-one-round", R > 1); c.label("more-than-6-threads", N > 6); c.label("more-than-255-threads", N > 255); c.label("two-barriers", nb > 1); c.label("more-than-255-rounds", R > 255);
  delete round; delete p; delete a;
}

// what must hold of a barrier that all threads have left
static void timeoutRules(Arena *a, int bar, const std::vector<std::pair<int, std::vector<int>>> &snaps) {
  int N = a->n[bar], nt = 0, nc = 0, nn = 0; const Call *to = nullptr;
  for(auto &k : a->calls) if(k.bar == bar) {
    if(k.out == TIMEOUT) { nt++; to = &k; } else if(k.out == CORRUPT) nc++; else if(k.out == NORMAL) nn++; else CHECK(false, "thread " << k.th << " never returns from wait");
  }
  CHECK(nt <= 1, nt << " waiters get Timeout");
  CHECK(nc == 0 || nt == 1, nc << " waiters get Corrupt, but none got Timeout");
  CHECK(nn % N == 0, "barrier for " << N << ": " << nn << " calls returned normally, " << nt << " with Timeout, " << nc << " with Corrupt");
  for(auto &x : a->calls) if(x.bar == bar && x.out == NORMAL) {
    if(to) CHECK(x.seqCall < to->seqRet, "thread " << x.th << " calls wait after the Timeout, and returns normally");
    for(auto &y : a->calls) if(y.bar == bar && y.out != NORMAL) CHECK(y.seqRet > x.seqCall, "thread " << x.th << " calls wait after thread " << y.th << " got an exception, and returns normally");
  }
  for(auto &y : a->calls) if(y.bar == bar && to && y.out == TIMEOUT && &y != to) CHECK(y.seqCall < to->seqRet, "a call after the Timeout gets Timeout");
  // calls that were waiting in the same incomplete round
  for(auto &sn : snaps) {
    int good = 0; for(int i : sn.second) if(a->calls[i].out == NORMAL) good++;
    CHECK(good == 0 || good == (int) sn.second.size(), "of " << sn.second.size() << " calls waiting together in one round " << good << " returned normally and the others got an exception");
    if(good == 0 && !sn.second.empty()) for(auto &x : a->calls) if(x.bar == bar && x.seqCall > sn.first) CHECK(x.out != NORMAL, "thread " << x.th << " called wait while " << sn.second.size() << " calls were waiting, and returned normally although these got exceptions");
  }
}

static void B02(Src &s, Ctx &c) {
  Arena *a = new Arena; int N = s.chance(1, 12) ? s.range(2, 12) : s.range(2, 5); a->add(s, N);
  int T = s.chance(1, 4) ? s.range(1, N + 3) : s.coin() ? N : N - 1; if(T < 1) T = 1;
  int pre = (T == N) ? (s.chance(1, 4) ? s.range(1, 3) : s.chance(1, 300) ? s.range(200, 300) : 0) : 0;
  auto *p = new std::vector<Prog>(T); bool shortOne = false;
  for(int t = 0; t < T; t++) {
    int K = s.size(2, 4, 6, 1);
    for(int i = 0; i < pre; i++) { Step k; k.bar = 0; k.form = 0; k.before = pre > 3 ? 0 : nap(s); k.ms = longTime(s); (*p)[t].push_back(k); }
    for(int i = 0; i < K; i++) {
      Step k; k.bar = 0; k.form = (int) s.draw(3); k.before = nap(s);
      switch(s.draw(5)) { case 0: k.ms = longTime(s); break; case 1: k.ms = 1 + s.draw(3); break; case 2: k.ms = 1 + s.draw(60); break; case 3: k.ms = 20; break; default: k.ms = 1 + s.draw(2000); }
      if(k.ms && k.ms < 10000) shortOne = true;
      (*p)[t].push_back(k);
    }
  }
  if(!shortOne) (*p)[0][0].ms = 1 + s.draw(40);
  bool *closing = new bool(false);
  auto *snaps = new std::vector<std::pair<int, std::vector<int>>>;
  sim::Config k = config(s); k.jumps = s.coin(); k.maxJump = SEC; k.horizon = 60 * DAY;
  k.idle = [a, snaps]() { std::vector<int> w; for(size_t i = 0; i < a->calls.size(); i++) if(a->calls[i].out == WAITING) w.push_back((int) i); if(!w.empty() && snaps->size() < 200 && (int) w.size() < a->n[0]) snaps->push_back({a->seq - 1, w}); };
  DESC("barrier for " << N << ":" << progs(*p));
  sim::begin(k);
  for(int t = 0; t < T; t++) job([=]() { for(auto &st : (*p)[t]) { if(st.before) sim::sleep(st.before); a->wait(t, 0, st.ms, st.form); if(*closing) break; } });
  sim::Status st = sim::go();
  bool filled = false;
  if(st == sim::QUIESCENT) {
    // somebody waits without (practical) limit, and nobody else comes
    bool broken = false; for(auto &k : a->calls) if(k.out == TIMEOUT || k.out == CORRUPT) broken = true;
    if(broken) { RESULT(a); clean(st); for(auto &k : a->calls) CHECK(k.out != WAITING, "thread " << k.th << " hangs in wait after a Timeout"); }
    for(auto &k : a->calls) if(k.out == WAITING && k.ms && k.ms < 10000) { RESULT(a); CHECK(false, "thread " << k.th << " hangs in wait although its timeout has passed"); }
    filled = *closing = true;     // a late caller completes the round, or times out
    job([=]() { a->wait(T, 0, 5, 0); });
    st = sim::go();
  }
  RESULT(a);
  clean(st);
  for(auto &k : a->calls) {
    CHECK(k.out != WAITING, "thread " << k.th << " hangs in wait");
    if(k.out != NORMAL && (k.ms == 0 || k.ms > 1000000)) { CHECK(k.out != TIMEOUT, "thread " << k.th << " gets Timeout long before its time"); }
  }
  timeoutRules(a, 0, *snaps);
  int nt = 0, nc = 0, nn = 0, after = 0; int sq = 1 << 30; for(auto &k : a->calls) { nt += k.out == TIMEOUT; nc += k.out == CORRUPT; nn += k.out == NORMAL; if(k.out == TIMEOUT) sq = k.seqRet; }
  for(auto &k : a->calls) after += k.seqCall > sq;
  c.nontrivial(nt == 1); c.label("timeout", nt); c.label("corrupt", nc); c.label("rounds-before-the-timeout", nn && nt); c.label("calls-after-the-timeout", after); c.label("ended-by-a-late-caller", filled); c.label("all-rounds-complete", !nt); c.label("preempted", sim::preemptions() > 0);
  delete closing; delete snaps; delete p; delete a;
}

static void B03(Src &s, Ctx &c) {
  bool many = s.chance(1, 400); Arena *a = new Arena; int N = many ? 2 : s.chance(1, 10) ? s.range(1, 9) : s.range(1, 4); a->add(s, N);
  int T = many ? 3 : s.range(1, std::min(11, 2 * N + 2)), total = 0;
  auto *p = new std::vector<Prog>(T);
  for(int t = 0; t < T && !many; t++) { int K = s.size(3, 6, 12); for(int i = 0; i < K; i++) { Step k; k.bar = 0; k.ms = longTime(s); k.form = (int) s.draw(3); k.before = s.chance(1, 8) ? 10 * SEC : nap(s); (*p)[t].push_back(k); total++; } }
  int slow = -1; if(many) { // many rounds, which one thread may sleep through
    int r = s.coin() ? 255 + (int) s.draw(2) : s.range(250, 260), who = (int) s.draw(3); if(s.coin()) slow = who; uint64_t ms = longTime(s); int form = (int) s.draw(3);
    for(int t = 0; t < 3; t++) { Prog g; int K = t == who ? 1 : r + (t == (who + 1) % 3); for(int i = 0; i < K; i++) { Step st; st.bar = 0; st.ms = ms; st.form = form; st.before = i == 0 && t != who ? MS : 0; g.push_back(st); total++; } (*p)[t] = g; }
  }
  sim::Config k = config(s); bool jumps = s.coin(); k.jumps = jumps; k.maxJump = SEC; k.horizon = 60 * DAY; k.slow = slow;
  DESC("barrier for " << N << ":" << (many ? " " + std::to_string(total) + " calls of 3 threads" : progs(*p)));
  sim::begin(k);
  bool *closing = new bool(false);
  auto normal = [=](const Call &d) { CHECK(d.out == NORMAL, "thread " << d.th << " gets an exception although no timeout has elapsed: " << d.what); };
  auto settled = [=](int called) { CHECK(a->returned[0] >= N * (called / N), "barrier for " << N << ": long after " << called << " calls of wait only " << a->returned[0] << " have returned"); };
  for(int t = 0; t < T; t++) job([=]() {
    for(auto &st : (*p)[t]) {
      if(st.before) { int called = a->called[0]; sim::sleep(st.before); if(!jumps && st.before >= 10 * SEC) settled(called); }
      normal(a->wait(t, 0, st.ms, st.form));
      if(*closing) break;
    }
  });
  auto exact = [=](sim::Status st) { clean(st); CHECK(a->returned[0] == N * (a->called[0] / N), "barrier for " << N << ": when all threads are blocked or done, " << a->called[0] << " calls of wait were made and " << a->returned[0] << " have returned"); };
  sim::Status st = sim::go();
  bool later = false;
  if(st == sim::QUIESCENT && a->called[0] % N) {
    if(sim::race().empty() && a->returned[0] == N * (a->called[0] / N)) {
      later = true; *closing = true;
      int need = N - a->called[0] % N;
      for(int i = 0; i < need; i++) { uint64_t ms = longTime(s); int form = (int) s.draw(3); job([=]() { normal(a->wait(T + i, 0, ms, form)); }); }
      st = sim::go();
    }
  }
  RESULT(a);
  exact(st);
  CHECK(st == sim::DONE, "calls hang");
  c.nontrivial(total > N && N > 1 && T > 1); c.label("some-had-to-wait-for-later-calls", later); c.label("more-threads-than-expected", T > N); c.label("more than 255 rounds", many); c.label("preempted", sim::preemptions() > 0);
  delete closing; delete p; delete a;
}

// a timeout between 1 ms and 100 years
static uint64_t anyTime(Src &s, bool upTo1Year) {
  uint64_t m = upTo1Year ? 31536000000ULL : 3153600000000ULL, v;
  switch(s.draw(6)) { case 0: v = 1 + s.draw(5); break; case 1: v = 1 + s.draw(1000); break; case 2: { v = 1; for(uint64_t k = s.draw(13); k > 0; k--) v *= 10; break; }
    case 3: { static const uint64_t e[] = { 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 4294968ULL, 2147484ULL, 9223372037ULL, 18446744074ULL, 86400000ULL, 1000, 60000 }; v = e[s.draw(12)]; break; }
    case 4: v = 1ULL << s.draw(42); break; default: v = 1 + s.draw(m); }
  return v > m ? m : v;
}
static void B04(Src &s, Ctx &c) {
  Arena *a = new Arena; int N = s.chance(1, 10) ? s.range(2, 9) : s.range(2, 4), R = s.chance(1, 3) ? s.range(1, 3) : 0; a->add(s, N); a->add(s, 1);
  int T = s.range(1, N - 1);                     // so many come to the last round
  int kind = (int) s.draw(4);                    // 0: no limit for anybody; 1: some without limit; else all limited
  bool jumps = s.chance(1, 3); int64_t slack = 5 * MS;
  auto *p = new std::vector<Prog>(N);
  for(int t = 0; t < N; t++) {
    for(int r = 0; r < R; r++) { Step k; k.bar = 0; k.ms = 3600000ULL * (24 + s.draw(1000)); k.form = (int) s.draw(3); k.before = nap(s); (*p)[t].push_back(k); }
    if(t < T) { Step k; k.bar = 0; k.form = (int) s.draw(3); k.before = s.chance(1, 4) ? (int64_t) s.draw(10 * SEC) : nap(s); k.ms = (kind == 0 || (kind == 1 && t > 0 && s.coin())) ? 0 : anyTime(s, kind == 1); (*p)[t].push_back(k); }
  }
  int noise = s.chance(1, 3) ? s.range(1, 12) : 0; std::vector<int64_t> rest; for(int i = 0; i < noise; i++) rest.push_back(s.coin() ? (int64_t) s.draw(20 * MS) : (int64_t) s.draw(10 * SEC));
  sim::Config k = config(s); k.jumps = jumps; k.maxJump = SEC; k.horizon = (kind == 0) ? 2 * YEAR : INT64_MAX;
  DESC("barrier for " << N << ", " << R << " complete rounds and one of " << T << (jumps ? ", time jumps" : "") << (noise ? ", another thread wakes the waiters" : "") << ":" << progs(*p));
  sim::begin(k);
  for(int t = 0; t < N; t++) job([=]() {
    for(size_t i = 0; i < (*p)[t].size(); i++) {
      const Step &st = (*p)[t][i]; if(st.before) sim::sleep(st.before);
      Call d = a->wait(t, 0, st.ms, st.form);
      if((int) i < R) CHECK(d.out == NORMAL, "thread " << t << " gets an exception in a complete round: " << d.what);
      else if(st.ms == 0 && kind == 0 && sim::now() < 2 * YEAR) CHECK(d.out == NORMAL, "a wait without limit ends after " << dur(d.tRet - d.tCall) << ": " << d.what);
    }
  });
  if(noise) job([=]() { for(auto r : rest) { sim::sleep(r); a->wait(N, 1, 0, 0); } });
  sim::Status st = sim::go();
  bool held = false;
  if(kind == 0) {
    bool all = st == sim::QUIESCENT; for(auto &k : a->calls) if(k.bar == 0 && k.out != NORMAL && k.out != WAITING) all = false;
    if(all) { held = true; sim::setHorizon(INT64_MAX); for(int i = T; i < N; i++) { int id = N + 1 + i; job([=]() { Call d = a->wait(id, 0, 0, 0); CHECK(d.out == NORMAL, "after a long wait the last round fails: " << d.what); }); } st = sim::go(); }
  }
  RESULT(a);
  clean(st);
  int nt = 0; int64_t first = INT64_MAX, came = -1;
  for(auto &k : a->calls) if(k.bar == 0) {
    CHECK(k.out != WAITING, "a wait of " << k.ms << " ms in a round that never completes does not end");
    if(k.ms) { int64_t due = k.tCall + (int64_t) k.ms * MS; if(k.out != NORMAL && due < first) first = due; }
    if(k.out == TIMEOUT) {
      nt++; came = k.tRet;
      if(k.ms) CHECK(k.tRet - k.tCall >= (int64_t) k.ms * MS, "a wait of " << k.ms << " ms gets Timeout after " << (k.tRet - k.tCall) << " ns");
      else CHECK(k.tRet - k.tCall >= 2 * YEAR, "a wait without limit gets Timeout after " << dur(k.tRet - k.tCall));
    }
  }
  if(kind == 0) CHECK(st == sim::DONE && nt == 0 && held, "waits without limit do not last");
  else {
    CHECK(nt == 1, nt << " waits get Timeout in a round that never completes");
    if(!jumps) CHECK(came <= first + slack, "the first timeout elapsed at " << first << " ns, but Timeout comes at " << came << " ns");
  }
  c.nontrivial(true); c.label("no-limit", kind == 0); c.label("some-without-limit", kind == 1); c.label("timeout", nt); c.label("complete-rounds-before", R > 0); c.label("woken-by-others", noise); c.label("time-jumps", jumps); c.label("years", came > YEAR);
  delete p; delete a;
}

// ------------------------------------------------------------ mailboxes

struct Letter { int id; Letter(int i) : id(i) {} };
typedef SoDa::MailBox<Letter> MB;
enum Kind { SUBSCRIBE, DROP, END, PUT, PUTBUT, GET, CLEAR, READY, MINREADY, COUNT };
static const char *kindName[] = { "subscribe", "drop", "end", "put", "put-but", "get", "clear", "readyCount", "minReadyCount", "subscriberCount" };
static const int MISSING = -2, NOTHING = -1, OK = 0;
struct Op { int th; Kind k; int sub; int arg; int seqCall, seqRet; int64_t res; };   // sub: number of the subscription
struct Todo { Kind k; int slot; int64_t before; };

// the specification, executed one operation at a time
struct Model {
  std::map<int, std::deque<int>> q; int more = 0; // subscriptions not listed, which nobody uses: their queues are like that of one in the list
  // is this result right?
  bool apply(const Op &o) {
    auto it = q.find(o.sub);
    switch(o.k) {
    case SUBSCRIBE: q[o.sub]; return true;
    case DROP: q.erase(o.sub); return true;
    case END: if(it == q.end()) return o.res == MISSING || o.res == OK; q.erase(it); return o.res == OK;
    case PUT: for(auto &x : q) x.second.push_back(o.arg); return true;
    case PUTBUT: for(auto &x : q) if(x.first != o.sub) x.second.push_back(o.arg); return true;
    case GET: if(it == q.end()) return o.res == MISSING; if(it->second.empty()) return o.res == NOTHING; if(o.res != it->second.front()) return false; it->second.pop_front(); return true;
    case CLEAR: if(it == q.end()) return true; it->second.clear(); return o.res == OK;
    case READY: if(it == q.end()) return o.res == MISSING; return o.res == (int64_t) it->second.size();
    case MINREADY: { if(q.empty()) return true; size_t m = SIZE_MAX; for(auto &x : q) m = std::min(m, x.second.size()); return o.res == (int64_t) m; }
    case COUNT: return o.res == (int64_t) q.size() + more;
    }
    return false;
  }
  string key() const { string r; for(auto &x : q) { r += (char) x.first; for(int v : x.second) r += (char)(v + 1); r += '\xff'; } return r; }
};
// 1: there is an order, 0: there is none, -1: too many to try
static int linearizable(const std::vector<Op> &h, int more) {
  size_t n = h.size(); std::unordered_set<string> seen; long nodes = 0; 
  std::vector<int> ord(n); for(size_t i = 0; i < n; i++) ord[i] = (int) i;
  std::sort(ord.begin(), ord.end(), [&](int a, int b) { return h[a].seqRet < h[b].seqRet; });
  std::function<int(uint64_t, const Model &)> rec = [&](uint64_t done, const Model &m) -> int {
    if(done == (n == 64 ? ~0ULL : (1ULL << n) - 1)) return 1;
    if(++nodes > 300000) return -1;
    int minRet = 1 << 30; for(size_t i = 0; i < n; i++) if(!(done >> i & 1)) minRet = std::min(minRet, h[i].seqRet);
    for(int i : ord) {
      if(done >> i & 1) continue;
      if(h[i].seqCall > minRet) continue;       // something else ended before this began
      Model t(m); if(!t.apply(h[i])) continue;
      uint64_t d = done | 1ULL << i; string key((const char *) &d, 8); key += t.key();
      if(!seen.insert(key).second) continue;
      int r = rec(d, t); if(r) return r;
    }
    return 0;
  };
  Model start; start.more = more; return rec(0, start);
}
static string opText(const Op &o) {
  std::ostringstream t; t << "t" << o.th << ":" << kindName[o.k]; if(o.k != PUT && o.k != MINREADY && o.k != COUNT) t << " s" << o.sub; if(o.k == PUT || o.k == PUTBUT) t << " m" << o.arg;
  if(o.k == GET) { if(o.res >= 0) t << " = m" << o.res; else t << (o.res == NOTHING ? " = none" : " = missing"); } else if(o.k >= CLEAR || o.k == END) t << " = " << o.res;
  t << " #" << o.seqCall << "-" << o.seqRet; return t.str();
}

static void M02(Src &s, Ctx &c) {
  struct World { std::shared_ptr<MB> mb; std::vector<MB::Subscription> shared, crowd; std::vector<std::vector<MB::Subscription>> own; std::vector<Op> h; std::vector<std::vector<Todo>> prog; int seq = 0, subs = 0, msgs = 0; std::vector<std::vector<int>> ownNo; };
  World *w = new World; int T = s.chance(1, 5) ? s.range(2, 5) : s.range(2, 3);
  w->mb = s.coin() ? SoDa::makeMailBox<Letter>("box") : std::make_shared<MB>("box");
  int ns = s.range(0, 3);
  for(int i = 0; i < ns; i++) { w->shared.push_back(w->mb->subscribe()); Op o{ -1, SUBSCRIBE, w->subs++, 0, w->seq, w->seq + 1, 0 }; w->seq += 2; w->h.push_back(o); }
  // many who do not read: one of them stands for all in the history
  int nc = s.chance(1, 10) ? (s.coin() ? s.range(1, 20) : s.range(20, 90)) : 0, cno = -1; for(int i = 0; i < nc; i++) w->crowd.push_back(w->mb->subscribe());
  if(nc) { cno = w->subs++; Op o{ -1, SUBSCRIBE, cno, 0, w->seq, w->seq + 1, 0 }; w->seq += 2; w->h.push_back(o); }
  int pre = (int) s.draw(4);
  for(int i = 0; i < pre; i++) { w->mb->put(std::make_shared<Letter>(w->msgs)); Op o{ -1, PUT, 0, w->msgs++, w->seq, w->seq + 1, 0 }; w->seq += 2; w->h.push_back(o); }
  w->prog.resize(T); w->own.resize(T); w->ownNo.resize(T);
  int budget = 26;
  for(int t = 0; t < T; t++) {
    w->own[t].resize(2); w->ownNo[t].assign(2, -1);
    int n = s.size(4, 6, 9, 1);
    for(int i = 0; i < n && budget > 0; i++, budget--) {
      static const Kind ks[] = { GET, GET, GET, PUT, PUT, PUT, PUTBUT, SUBSCRIBE, SUBSCRIBE, DROP, READY, MINREADY, CLEAR, COUNT, END };
      Todo d; d.k = ks[s.draw(15)]; d.slot = (int) s.draw(2 + ns); d.before = s.chance(1, 8) ? (int64_t) s.draw(2000) : 0; w->prog[t].push_back(d);
    }
  }
  sim::Config k = config(s); k.jumps = false; k.horizon = 60 * DAY;
  sim::begin(k);
  for(int t = 0; t < T; t++) job([=]() {
    for(auto &d : w->prog[t]) {
      if(d.before) sim::sleep(d.before);
      Kind k = d.k; int slot = d.slot; bool mine = slot < 2; MB::Subscription *sub = mine ? &w->own[t][slot] : &w->shared[slot - 2]; int no = mine ? w->ownNo[t][slot] : slot - 2;
      if(!mine && (k == SUBSCRIBE || k == DROP)) { mine = true; slot &= 1; sub = &w->own[t][slot]; no = w->ownNo[t][slot]; }
      if(k == DROP && no < 0) k = SUBSCRIBE;
      if(no < 0 && (k == GET || k == CLEAR || k == READY || k == END)) k = (k == END || k == CLEAR) ? COUNT : SUBSCRIBE;
      if(no < 0 && k == PUTBUT) k = PUT;
      if(k == SUBSCRIBE && no >= 0) k = DROP;
      Op o; o.th = t; o.k = k; o.sub = no; o.arg = 0; o.res = OK;
      if(k == PUT || k == PUTBUT) o.arg = w->msgs++;
      if(k == SUBSCRIBE) o.sub = w->subs++;
      MB &mb = *w->mb; MB::Subscription got;
      o.seqCall = w->seq++;
      try {
        sim::Visible v;
        switch(k) {
        case SUBSCRIBE: got = mb.subscribe(); break;
        case DROP: sub->reset(); break;
        case END: { int idx = (*sub)->getIndex(&mb); mb.unsubscribe(idx); break; }
        case PUT: mb.put(std::make_shared<Letter>(o.arg)); break;
        case PUTBUT: mb.put(std::make_shared<Letter>(o.arg), *sub); break;
        case GET: { std::shared_ptr<Letter> m = mb.get(*sub); o.res = m ? m->id : NOTHING; break; }
        case CLEAR: mb.clear(*sub); break;
        case READY: o.res = mb.readyCount(*sub); break;
        case MINREADY: o.res = mb.minReadyCount(); break;
        case COUNT: o.res = mb.subscriberCount(); break;
        }
      } catch(SoDa::MailBoxBase::MissingSubscriber &e) { o.res = MISSING; CHECK(k == GET || k == CLEAR || k == READY || k == END, kindName[k] << " throws " << e.what()); }
      o.seqRet = w->seq++;
      if(k == SUBSCRIBE) { CHECK(got != nullptr, "no subscription"); *sub = std::move(got); w->ownNo[t][slot] = o.sub; }
      if(k == DROP) w->ownNo[t][slot] = -1;
      w->h.push_back(o);
    }
  });
  sim::Status st = sim::go();
  DESC(T << " threads, " << ns << " shared subscriptions" << (nc ? ", " + std::to_string(nc) + " subscribers who do not read" : string()) << ", steps=" << sim::steps() << " preemptions=" << sim::preemptions() << " history:"); for(auto &o : w->h) DESC(" [" << opText(o) << "]");
  clean(st);
  for(int t = 0; t < T; t++) CHECK(sim::finished(t), "thread " << t << " hangs");
  // what is left, read one after the other
  auto final = [&](Kind k, int sub, int64_t res) { Op o{ -1, k, sub, 0, w->seq, w->seq + 1, res }; w->seq += 2; w->h.push_back(o); };
  final(COUNT, 0, w->mb->subscriberCount());
  auto drain = [&](MB::Subscription &x, int no) { for(;;) { int64_t r; try { auto m = w->mb->get(x); r = m ? m->id : NOTHING; } catch(SoDa::MailBoxBase::MissingSubscriber &) { r = MISSING; } if(w->h.size() < 63) final(GET, no, r); if(r < 0) break; } };
  for(int i = 0; i < ns; i++) drain(w->shared[i], i);
  for(int t = 0; t < T; t++) for(int i = 0; i < 2; i++) if(w->ownNo[t][i] >= 0) drain(w->own[t][i], w->ownNo[t][i]);
  std::vector<int> heard; for(int i = 0; i < nc; i++) {
    if(!i) { size_t at = w->h.size(); drain(w->crowd[0], cno); for(; at < w->h.size(); at++) if(w->h[at].res >= 0) heard.push_back((int) w->h[at].res); continue; }
    std::vector<int> x; while(auto m = w->mb->get(w->crowd[i])) x.push_back(m->id);
    auto list = [](const std::vector<int> &v) { string r; for(int k : v) r += " m" + std::to_string(k); return r; };
    CHECK(w->h.size() >= 63 || x == heard, "two who were subscribed all the time got" << list(heard) << " and" << list(x));
  }
  DESC(" then:"); for(size_t i = 0; i < w->h.size(); i++) if(w->h[i].th < 0 && w->h[i].k >= GET) DESC(" [" << opText(w->h[i]) << "]");
  int r = linearizable(w->h, nc ? nc - 1 : 0);
  CHECK(r != 0, "no order of the operations one at a time gives these results");
  bool overlap = false; for(auto &x : w->h) for(auto &y : w->h) if(x.th >= 0 && y.th >= 0 && x.th != y.th && x.seqCall < y.seqRet && y.seqCall < x.seqRet) overlap = true;
  c.nontrivial(overlap); c.label("overlapping-operations", overlap); c.label("undecided", r < 0); c.label("preempted", sim::preemptions() > 0);
  bool got = false, gone = false; for(auto &o : w->h) { got |= o.th >= 0 && o.k == GET && o.res >= 0; gone |= o.th >= 0 && (o.k == DROP || o.k == END); }
  c.label("received-in-a-thread", got); c.label("a-subscription-ended", gone); c.label("many-subscribers", nc > 20);
  w->own.clear(); w->shared.clear(); w->crowd.clear(); delete w;
}

namespace pbt {
const std::vector<Prop> props = { {"B01", B01}, {"B02", B02}, {"B03", B03}, {"B04", B04}, {"M02", M02} };
void harnessInit() {   // the threads take turns: they are fastest on one processor
  const char *w = getenv("PBT_WORKER"); cpu_set_t all, one; CPU_ZERO(&all); CPU_ZERO(&one);
  if(!w || sched_getaffinity(0, sizeof all, &all) != 0 || CPU_COUNT(&all) == 0) return;
  int k = atoi(w) % CPU_COUNT(&all);
  for(int i = 0; i < CPU_SETSIZE; i++) if(CPU_ISSET(i, &all) && k-- == 0) { CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; }
}
}
