// Sequential properties of SoDa::MailBox (M01, M03, M04)
#include "pbt.hpp"
#include "MailBox.hxx"
#include <memory>
#include <deque>
using namespace pbt;
using std::string;

// messages that keep a record of their life
static std::vector<signed char> life;      // per message: 1 alive, 0 gone; -1 never
static long twice;
struct Msg {
  int id; string body;
  Msg(int id) : id(id), body("m" + std::to_string(id)) { if((int) life.size() <= id) life.resize(id + 1, -1); life[id] = 1; }
  ~Msg() { if(life[id] != 1) twice++; life[id] = 0; }
  Msg(const Msg &) = delete; Msg &operator=(const Msg &) = delete;
};
typedef SoDa::MailBox<Msg> MB;
typedef std::shared_ptr<Msg> MP;

struct Sub { MB::Subscription s; int idx = -1; bool ended = false; std::deque<int> q; };
struct Box { std::shared_ptr<MB> mb; std::vector<std::unique_ptr<Sub>> subs; };

struct World {
  Src &s; Ctx &c; std::vector<Box> boxes; std::vector<std::pair<int, MP>> held; int next = 0; std::map<int, int> refs; size_t steps = 0;
  int delivered = 0, excluded = 0, late = 0, cleared = 0, left = 0, misuse = 0, retained = 0, maxq = 0;
  bool lives;                      // check lifetimes
  World(Src &s, Ctx &c, int n, bool lives) : s(s), c(c), lives(lives) {
    life.clear(); twice = 0;
    for(int i = 0; i < n; i++) addBox();
  }
  void addBox() { Box b; string name = s.coin() ? "box" : "mailbox " + std::to_string(boxes.size()) + " %0"; b.mb = s.coin() ? SoDa::makeMailBox<Msg>(name) : std::make_shared<MB>(name); CHECK(b.mb->getName() == name, "the name is " << quote(b.mb->getName())); boxes.push_back(std::move(b)); }
  // the subscriptions end before the mailbox does
  ~World() { for(auto &b : boxes) b.subs.clear(); }
  void drop(int id) { if(--refs[id] == 0) refs.erase(id); }
  bool live(const Box &b) { for(auto &x : b.subs) if(!x->ended) return true; return false; }

  void subscribe(int bi) {
    Box &b = boxes[bi]; std::unique_ptr<Sub> x(new Sub); x->s = b.mb->subscribe();
    if(next > 0) late++;
    CHECK(x->s != nullptr, "subscribe gives no subscription");
    if(s.chance(1, 8)) { MB::Subscription t = std::move(x->s); x->s = std::move(t); }
    b.subs.push_back(std::move(x));
  }
  void finish(Sub &x) { for(int id : x.q) drop(id); x.q.clear(); }
  void leave(int bi, int si) {
    Box &b = boxes[bi]; finish(*b.subs[si]); left++;
    b.subs.erase(b.subs.begin() + si);     // destroys the subscription
  }
  void resubscribe(int bi, int si) {       // sub = box->subscribe(): the new one starts before the old one ends
    Sub &x = *boxes[bi].subs[si]; x.s = boxes[bi].mb->subscribe(); finish(x); x.ended = false; left++;
  }
  void end(int bi, int si) {
    Sub &x = *boxes[bi].subs[si]; MB &mb = *boxes[bi].mb; int idx = x.s->getIndex(&mb);
    if(!x.ended) { try { mb.unsubscribe(idx); } catch(SoDa::Exception &e) { CHECK(false, "ending a subscription throws " << e.what()); } finish(x); x.ended = true; left++; }
    else { misuse++; try { mb.unsubscribe(idx); } catch(SoDa::MailBoxBase::MissingSubscriber &) {} catch(SoDa::Exception &e) { CHECK(false, "ending an ended subscription throws " << e.what()); } }
  }
  void put(int bi, int si, bool keep) {    // si < 0: to everybody
    Box &b = boxes[bi]; int id = next++; MP m = s.coin() ? std::make_shared<Msg>(id) : MP(new Msg(id)); refs[id]++;
    if(si < 0) { if(s.coin()) b.mb->put(m); else { MB::Subscription none; b.mb->put(m, none); } }
    else b.mb->put(m, b.subs[si]->s);
    for(size_t k = 0; k < b.subs.size(); k++) { Sub &x = *b.subs[k]; if(x.ended || (int) k == si) continue; x.q.push_back(id); refs[id]++; maxq = std::max(maxq, (int) x.q.size()); }
    if(si >= 0) excluded++;
    if(refs[id] == 1) retained++;
    if(keep) held.push_back({id, m}); else { m.reset(); drop(id); }
  }
  void get(int bi, int si) {
    Box &b = boxes[bi]; Sub &x = *b.subs[si];
    if(x.ended) { misuse++; try { MP m = b.mb->get(x.s); CHECK(false, "receiving from an ended subscription does not throw"); } catch(SoDa::MailBoxBase::MissingSubscriber &e) { SoDa::Exception &g = e; (void) g; } return; }
    MP m = b.mb->get(x.s);
    if(x.q.empty()) { CHECK(m == nullptr, "subscriber " << si << " of box " << bi << " receives message " << m->id << " but none is left"); return; }
    int id = x.q.front(); CHECK(m != nullptr, "subscriber " << si << " of box " << bi << " receives nothing, expected message " << id);
    CHECK(m->id == id && m->body == "m" + std::to_string(id), "subscriber " << si << " of box " << bi << " receives message " << m->id << ", expected " << id);
    x.q.pop_front(); delivered++;
    if(s.chance(1, 4)) held.push_back({id, m}); else { m.reset(); drop(id); }
  }
  void clear(int bi, int si) {
    Box &b = boxes[bi]; Sub &x = *b.subs[si];
    if(x.ended) { misuse++; try { b.mb->clear(x.s); } catch(SoDa::MailBoxBase::MissingSubscriber &) {} return; }
    b.mb->clear(x.s); if(!x.q.empty()) cleared++; finish(x);
  }
  void letGo() { if(held.empty()) return; size_t k = s.draw(held.size()); int id = held[k].first; held.erase(held.begin() + k); drop(id); }
  // a subscription of another box
  void mismatch(int bi, int bj, int sj) {
    Box &b = boxes[bi]; MB::Subscription &su = boxes[bj].subs[sj]->s; bool threw = false; misuse++; int k = (int) s.draw(4);
    MP m; if(k == 3) m = std::make_shared<Msg>(next++);
    try { switch(k) { case 0: { MP x = b.mb->get(su); break; } case 1: b.mb->readyCount(su); break; case 2: b.mb->clear(su); break; default: b.mb->put(m, su); } }
    catch(SoDa::MailBoxBase::SubscriptionMismatch &e) { SoDa::Exception &g = e; (void) g; threw = true; }
    CHECK(threw, (k == 0 ? "get" : k == 1 ? "readyCount" : k == 2 ? "clear" : "put") << " with a subscription of another mailbox does not throw the mismatch exception");
    if(m) CHECK(m.use_count() == 1, "the refused message was kept by somebody");
  }
  void check(bool full) {
    for(size_t bi = 0; bi < boxes.size(); bi++) {
      Box &b = boxes[bi]; unsigned n = 0, mn = ~0u;
      for(size_t k = 0; k < b.subs.size(); k++) {
        Sub &x = *b.subs[k];
        if(x.ended) { if(full) { bool threw = false; try { b.mb->readyCount(x.s); } catch(SoDa::MailBoxBase::MissingSubscriber &e) { SoDa::Exception &g = e; (void) g; threw = true; } CHECK(threw, "counting for an ended subscription does not throw"); } continue; }
        n++; mn = std::min(mn, (unsigned) x.q.size());
        if(full) { unsigned r = b.mb->readyCount(x.s); CHECK(r == x.q.size(), "ready count of subscriber " << k << " of box " << bi << " is " << r << ", expected " << x.q.size()); }
      }
      unsigned g = b.mb->subscriberCount(); CHECK(g == n, "subscriber count of box " << bi << " is " << g << ", expected " << n);
      if(n && full) { unsigned r = b.mb->minReadyCount(); CHECK(r == mn, "smallest ready count of box " << bi << " is " << r << ", expected " << mn); }
    }
    if(lives) {
      CHECK(twice == 0, "a message was destroyed twice");
      for(int id = 0; id < (int) life.size(); id++) { bool want = refs.count(id); CHECK((life[id] == 1) == want, "message " << id << (want ? " is gone but is still pending or held" : " still lives but nobody can receive it or holds it")); }
    }
  }
  void drainAll() { for(size_t bi = 0; bi < boxes.size(); bi++) for(size_t k = 0; k < boxes[bi].subs.size(); k++) { Sub &x = *boxes[bi].subs[k]; if(x.ended) continue; while(!x.q.empty()) get(bi, k); get(bi, k); } }
};

static void history(Src &s, Ctx &c, World &w, bool misuse, int avg, int maxlen) {
  auto l = s.loop(avg, maxlen); int big = s.chance(1, 300) ? 3000 : 300; bool huge = s.chance(1, 800);
  DESC(w.boxes.size() << " box(es):");
  while(s.more(l)) {
    w.steps++;
    int bi = (int) s.draw(w.boxes.size()); Box &b = w.boxes[bi]; uint64_t op = s.draw(misuse ? 30 : 24);
    int si = b.subs.empty() ? -1 : (int) s.draw(b.subs.size());
    if(w.boxes.size() > 1) DESC(" [" << bi << "]");
    if(si < 0 && op < 22 && op >= 3) op = s.chance(1, 3) ? 3 : 0;
    switch(op) {
    case 0: case 1: DESC(" subscribe"); w.subscribe(bi); break;
    case 2: { bool hu = huge && s.chance(1, 4); int k = hu ? 65530 + (int) s.draw(70) : s.chance(1, 10) ? s.range(1, big) : 1; if(hu) huge = false; DESC(" subscribe*" << k); bool stay = k < 40 && s.coin(); for(int i = 0; i < k; i++) { w.subscribe(bi); if(!stay) w.leave(bi, (int) b.subs.size() - 1); } break; }
    case 3: case 4: case 5: case 6: DESC(" put"); w.put(bi, -1, s.chance(1, 6)); break;
    case 7: case 8: DESC(" put-except " << si); w.put(bi, si, s.chance(1, 6)); break;
    case 9: case 10: case 11: case 12: case 13: DESC(" get " << si); w.get(bi, si); break;
    case 14: { int k = s.range(1, 10); DESC(" get " << si << "*" << k); while(k--) w.get(bi, si); break; }
    case 15: DESC(" clear " << si); w.clear(bi, si); break;
    case 16: DESC(" leave " << si); w.leave(bi, si); break;
    case 17: DESC(" end " << si); w.end(bi, si); break;
    case 18: DESC(" resubscribe " << si); w.resubscribe(bi, si); break;
    case 19: { int k = huge ? 65530 + (int) s.draw(70) : s.range(1, s.chance(1, 10) ? big : 10); huge = false; DESC(" put*" << k); bool ex = s.chance(1, 4); for(int i = 0; i < k; i++) w.put(bi, ex ? si : -1, false); break; }
    case 20: { DESC(" drain " << si); Sub &x = *b.subs[si]; if(x.ended) break; size_t k = x.q.size() + 1; while(k--) w.get(bi, si); break; }
    case 21: DESC(" move"); { MB::Subscription t = std::move(b.subs[si]->s); b.subs[si]->s = std::move(t); } break;
    case 22: case 23: DESC(" let-go"); w.letGo(); break;
    default: { if(w.boxes.size() < 2) break; int bj = (int) s.draw(w.boxes.size()); if(bj == bi || w.boxes[bj].subs.empty()) break; int sj = (int) s.draw(w.boxes[bj].subs.size()); DESC(" misuse of [" << bj << "] " << sj); w.mismatch(bi, bj, sj); break; }
    }
    w.check(w.next < 2000 || s.chance(1, 8));
  }
}

static void M01(Src &s, Ctx &c) {
  World w(s, c, 1, false); history(s, c, w, false, 25, 400);
  w.drainAll(); w.check(true);
  c.nontrivial(w.delivered > 0); c.label("put with exclusion", w.excluded > 0); c.label("late subscriber", w.late > 0); c.label("pending messages cleared", w.cleared > 0); c.label("a subscriber left", w.left > 0); c.label("queue longer than 255", w.maxq > 255); c.label("more than 20 received", w.delivered > 20);
}
static void M03(Src &s, Ctx &c) {
  bool pending = false, open = false; size_t alive = 0;
  { std::vector<std::pair<int, MP>> keep; std::set<int> keepIds;
    { World w(s, c, s.chance(1, 4) ? 2 : 1, true); history(s, c, w, false, 20, 200);
      if(s.chance(1, 3)) { DESC(" drain all"); w.drainAll(); w.check(true); }
      for(auto &b : w.boxes) for(auto &x : b.subs) { pending = pending || !x->q.empty(); }
      c.nontrivial(w.next > 0 && (w.delivered > 0 || w.cleared > 0 || w.left > 0 || w.retained > 0)); c.label("sent to nobody", w.retained > 0); c.label("pending messages cleared", w.cleared > 0); c.label("a subscriber left", w.left > 0); c.label("received", w.delivered > 0);
      keep = w.held; for(auto &k : keep) keepIds.insert(k.first); w.held.clear();
      if(s.coin()) {   // the mailbox goes away while messages are pending: the subscriptions are never ended
        open = true; DESC(" mailbox destroyed first");
        static std::vector<void *> leaked; leaked.clear();
        for(auto &b : w.boxes) { for(auto &x : b.subs) x->s.release(); std::weak_ptr<MB> wk = b.mb; b.mb.reset(); CHECK(wk.expired(), "the mailbox is kept alive"); }
      } else DESC(" subscriptions end, then the mailbox");
    }
    CHECK(twice == 0, "a message was destroyed twice");
    for(int id = 0; id < (int) life.size(); id++) { bool want = keepIds.count(id) > 0; alive += want; CHECK((life[id] == 1) == want, "after the mailbox is gone, message " << id << (want ? " is gone but still held" : " still lives")); }
  }
  for(int id = 0; id < (int) life.size(); id++) CHECK(life[id] != 1, "message " << id << " still lives after everybody let go");
  CHECK(twice == 0, "a message was destroyed twice");
  c.label("mailbox destroyed with messages pending", pending && open); c.label("held after the mailbox is gone", alive > 0);
}
struct Derived : public MB { Derived(string n) : MB(n) {} };
static void M04(Src &s, Ctx &c) {
  World w(s, c, s.range(2, 4), false);
  auto other = SoDa::makeMailBox<int>("box"); auto third = SoDa::makeMailBox<string>("strings"); auto der = std::make_shared<Derived>("derived");
  history(s, c, w, true, 30, 200);
  // generic pointers
  auto osub = other->subscribe(); other->put(std::make_shared<int>(4)); int conv = 0, good = 0;
  std::vector<std::shared_ptr<SoDa::MailBoxBase>> all; for(auto &b : w.boxes) all.push_back(b.mb);
  size_t nb = w.boxes.size(); all.push_back(other); all.push_back(third); all.push_back(der);
  auto l = s.loop(5, 30);
  while(s.more(l)) {
    size_t k = s.draw(all.size()); int to = (int) s.draw(4); long uses = all[k].use_count(); bool threw = false; conv++;
    bool right = to == 0 ? (k < nb || k == nb + 2) : to == 1 ? k == nb : to == 2 ? k == nb + 1 : k == nb + 2;
    DESC(" convert " << k << "->" << to);
    try {
      SoDa::MailBoxBase *got = nullptr;
      if(to == 0) got = SoDa::MailBoxBase::convert<MB>(all[k]).get();
      else if(to == 1) { auto x = SoDa::MailBoxBase::convert<SoDa::MailBox<int>>(all[k]); got = x.get(); if(right) CHECK(x == other && x->readyCount(osub) == 1, "the converted mailbox is another one"); }
      else if(to == 2) got = SoDa::MailBoxBase::convert<SoDa::MailBox<string>>(all[k]).get();
      else got = SoDa::MailBoxBase::convert<Derived>(all[k]).get();
      CHECK(right, "converting to the wrong type does not throw");
      CHECK(got == all[k].get(), "converting gives another mailbox"); good++;
    } catch(SoDa::MailBoxBase::BadConversion &e) { SoDa::Exception &g = e; (void) g; threw = true; CHECK(!right, "converting to the right type throws " << e.what()); }
    CHECK(threw == !right, "conversion"); CHECK(all[k].use_count() == uses, "converting keeps the mailbox alive for ever");
    w.check(true);
  }
  CHECK(other->readyCount(osub) == 1 && *other->get(osub) == 4, "the other mailbox has changed");
  w.drainAll(); w.check(true);
  c.nontrivial(w.misuse > 0 || conv > good); c.label("misdirected or ended subscription", w.misuse > 0); c.label("wrong conversion", conv > good); c.label("right conversion", good > 0);
}

namespace pbt {
const std::vector<Prop> props = { {"M01", M01}, {"M03", M03}, {"M04", M04} };
void harnessInit() {}
}
