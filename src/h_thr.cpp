// Several threads that use the library at the same time (T01), under generated
// schedules (see sim_rt.cpp). Each thread works with objects of its own, or
// asks objects that all of them read and none of them changes. What a thread
// sees must be what it sees when it is alone.
#include "jobs.hpp"
#include "sim.hpp"
#include <sched.h>

static Script script(Src &s, int len) { Script r; int n = 1 + (int) s.draw(len); for(int i = 0; i < n; i++) r.push_back(s.draw(4) ? s.draw(1000) : s.draw(0)); return r; }

struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };

static void T01(Src &s, Ctx &c) {
  static NullBuf &nul = *new NullBuf; std::cerr.rdbuf(&nul); std::cout.rdbuf(&nul);
  SoDa::Format::separator = s.draw(4) == 3 ? ',' : '.';
  World w; int T = 2 + (int) s.draw(s.draw(6) == 5 ? 7 : 3);
  int mono = s.draw(3) == 2 ? (int) s.draw(KINDS) : -1;      // all threads do the same kind of thing
  bool before = s.draw(3) == 2;                              // the answers of one thread alone: before or afterwards
  std::vector<std::vector<std::pair<int, Script>>> jobs(T); std::vector<int> used(KINDS, 0), threadsOf(KINDS, 0);
  for(int t = 0; t < T; t++) {
    if(t && s.draw(4) == 3) { jobs[t] = jobs[t - 1]; continue; }   // exactly the same
    int n = 1 + (int) s.draw(3);
    for(int i = 0; i < n; i++) { int k = mono >= 0 ? mono : (int) s.draw(KINDS); jobs[t].push_back({ k, script(s, k == ASK_OPTIONS || k == BARRIER ? 2 : 40) }); }
  }
  for(auto &j : jobs) { std::set<int> ks; for(auto &x : j) { used[x.first]++; ks.insert(x.first); } for(int k : ks) threadsOf[k]++; }
  if(used[ASK_FORMAT]) { Src r; r.seedReplay(script(s, 12)); w.fmt.reset(new SoDa::Format(fmtText(r))); int n = (int) r.draw(7); for(int i = 0; i < n; i++) addValue(r, *w.fmt); }
  if(used[ASK_OPTIONS]) { Src r; r.seedReplay(script(s, 20)); bool kvp = r.draw(4) == 3; w.opts.reset(new Opts(kvp)); doOptions(r, *w.opts, kvp); }
  if(used[ASK_TREE]) {
    w.tree.reset(new Tree); int n = 1 + (int) s.draw(3);
    for(int i = 0; i < n; i++) try { w.tree->readFile(fileName((int) s.draw(NFILES))); } catch(SoDa::PropertyTree::BadSyntax &) { }
    for(int i = 0; i < NPATHS; i++) if(Node *x = w.tree->top()->getProp(paths[i])) w.nodes.push_back(x);
    w.nodes.push_back(w.tree->top());
  }
  if(used[ASK_BOX]) w.box = SoDa::makeMailBox<string>("shared");
  std::vector<std::vector<string>> alone(T), got(T);
  sim::Config cfg; Src *p = &s; cfg.draw = [p](uint64_t n) { return p->ndraws + 20000 > MAX_DRAWS ? (uint64_t) 0 : p->draw(n); }; cfg.stackPoints = true; cfg.stepLimit = 40000000;
  auto allAlone = [&]() {
    auto work = [&]() { for(int t = 0; t < T; t++) for(auto &j : jobs[t]) alone[t].push_back(run(j.first, j.second, w)); };
    if(!used[BARRIER]) { work(); return; }
    string bad; sim::begin(cfg);      // in virtual time
    sim::spawn([&]() { try { work(); } catch(std::exception &e) { bad = e.what(); } catch(...) { bad = "an exception of unknown type"; } });
    CHECK(sim::go() == sim::DONE, "one thread alone hangs"); CHECK(bad.empty(), "one thread alone gets an unexpected exception: " << bad);
  };
  auto describe = [&]() { if(!c.want) return; DESC(T << " threads:"); for(int t = 0; t < T; t++) { DESC(" t" << t << "["); for(auto &j : jobs[t]) DESC(kindName[j.first] << "#" << j.second.size() << " "); DESC("]"); } };
  if(before) { describe(); allAlone(); }
  sim::begin(cfg);
  for(int t = 0; t < T; t++) sim::spawn([&, t]() {
    try { for(auto &j : jobs[t]) { string r; { sim::Visible v; r = run(j.first, j.second, w); } got[t].push_back(r); } }
    catch(std::exception &e) { sim::stop(string("a thread gets an unexpected exception: ") + e.what()); }
    catch(...) { sim::stop("a thread gets an unexpected exception of unknown type"); }
  });
  sim::Status st = sim::go();
  if(!before) describe();
  uint64_t npre = sim::preemptions(); DESC(" steps=" << sim::steps() << " preemptions=" << npre);
  if(!sim::race().empty()) throw Failure{sim::race()};
  if(!sim::misuse().empty()) throw Failure{sim::misuse()};
  if(st == sim::STOPPED) throw Failure{sim::stopReason()};
  CHECK(st != sim::RUNAWAY, "the threads are still busy after " << sim::steps() << " steps");
  for(int t = 0; t < T; t++) CHECK(sim::finished(t), "thread " << t << " hangs");
  if(!before) allAlone();
  for(int t = 0; t < T; t++) {
    CHECK(got[t].size() == jobs[t].size(), "thread " << t << " did not finish its work");
    for(size_t i = 0; i < jobs[t].size(); i++) {
      CHECK(got[t][i] == alone[t][i], "thread " << t << ", " << kindName[jobs[t][i].first] << ": with other threads at work the results are " << quote(got[t][i], 2000) << ", alone they are " << quote(alone[t][i], 2000));
      if(i == 0 && !got[t][i].empty()) DESC(" t" << t << ":" << quote(got[t][i], 60));
    }
  }
  bool same = false; for(int k = 0; k < KINDS; k++) { if(threadsOf[k] > 1) { same = true; c.label(kindName[k]); } }
  c.nontrivial(same && npre > 0); c.label("preempted", npre > 0);
}

namespace pbt {
const std::vector<Prop> props = { {"T01", T01} };
void harnessInit() {
  { // the C++ library builds some tables when they are needed first
    std::stringstream o; o << std::hex << std::setw(30) << std::setfill('0') << 17 << std::dec << ' ' << 1.5 << ' ' << std::fixed << 2.5 << ' ' << std::scientific << 1e9L << true << 'c' << string("s") << -3L << 4ul << std::endl;
    int i; double d; string t; bool b; o >> std::hex >> i >> std::dec >> d >> t; o.clear(); std::stringstream("1") >> b; std::stringstream("17") >> i; unsigned u; std::stringstream("17") >> u; long l; std::stringstream("17") >> l; std::stringstream("7.5") >> d; for(int c = 0; c < 256; c++) { o.widen((char) c); o.narrow((char) c, '?'); }
  }
  const char *d = getenv("PBT_SCRATCH"); const char *w = getenv("PBT_WORKER");
  scratch = string(d ? d : "/tmp") + "/thr"; mkdir(scratch.c_str(), 0755);
  for(int i = 0; i < NFILES; i++) { string n = fileName(i), m = n + "." + std::to_string(getpid()); { std::ofstream o(m); o << files[i]; } rename(m.c_str(), n.c_str()); }
  cpu_set_t all, one; CPU_ZERO(&all); CPU_ZERO(&one);
  if(!w || sched_getaffinity(0, sizeof all, &all) != 0 || CPU_COUNT(&all) == 0) return;
  int k = atoi(w) % CPU_COUNT(&all);
  for(int i = 0; i < CPU_SETSIZE; i++) if(CPU_ISSET(i, &all) && k-- == 0) { CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; }
}
}
