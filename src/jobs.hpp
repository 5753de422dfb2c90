// Work with the library, made of numbers: what T01 runs on several threads at a
// time and R01 repeats.
#pragma once
#include "pbt.hpp"
#include "Format.hxx"
#include "Utils.hxx"
#include "UtilsBase.hxx"
#include "Options.hxx"
#include "PropertyTree.hxx"
#include "PropertyTreeYAML.hxx"
#include "MailBox.hxx"
#include "Barrier.hxx"
#include <memory>
#include <iomanip>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
using namespace pbt;
using std::string;
typedef SoDa::PropertyTree::PropNode Node;

static string scratch;

// a job is made of numbers only: the same numbers make the same job
typedef std::vector<uint64_t> Script;

// R01: what tells one repetition from the next (0: nothing). A word keeps its length
static unsigned nonce;
static string word(Src &s) {
  string r; if(nonce) for(unsigned k = 0, v = nonce; k < 4; k++, v /= 16) r += (char) ('k' + v % 16); int n = 1 + (int) s.draw(6); if(s.draw(8) == 7) n += (int) s.draw(60);
  for(int i = 0; i < n; i++) r += "abcdefgh0123.,%+-"[s.draw(s.draw(3) ? 8 : 17)];
  return r;
}
static string shown(const std::vector<string> &v) { string r = "["; for(auto &x : v) r += quote(x) + ","; return r + "]"; }

static void addValue(Src &s, SoDa::Format &f) {
  switch(s.draw(7)) {
  case 0: f.addI(s.i32() ^ (int) nonce, (unsigned) s.draw(20), ",_"[s.draw(2)], " 0"[s.draw(2)]); break;
  case 1: f.addU((unsigned long) s.u64(), "dxXob"[s.draw(4)], (unsigned) s.draw(24)); break;
  case 2: f.addF((double) s.i32() / (1 + (double) s.draw(1000)), "fgse"[s.draw(4)], (unsigned) s.draw(30), 1 + (unsigned) s.draw(12)); break;
  case 3: f.addS(word(s), (int) s.draw(40) - 20); break;
  case 4: f.addC((char) ('!' + s.draw(90))); break;
  case 5: f.addB(s.coin()); break;
  default: f.addI(s.i32()); }
}
static string fmtText(Src &s) {
  string r; int n = 1 + (int) s.draw(6);
  for(int i = 0; i < n; i++) { r += word(s); r += '%'; if(s.draw(5) == 4) r += '%'; else r += std::to_string(s.draw(6)); r += " |"; }
  return r;
}
struct Ext : SoDa::Format_ext<Ext> { Ext(const string &f) : SoDa::Format_ext<Ext>(f, this) { } Ext &addTwice(int v) { return addI(v).addS("x").addI(v); } };
static string doFormat(Src &s) {
  if(s.draw(8) == 7) { Ext e(fmtText(s)); string r = e.addTwice(s.i32()).addF(1.5).addU(s.u64(), 'x', 12).addC('c').addB(true).str(); e.reset(); return r + e.str(); }
  string r; int rounds = 1 + (int) s.draw(3);
  SoDa::Format f(fmtText(s));
  for(int i = 0; i < rounds; i++) {
    int n = (int) s.draw(8);
    try { for(int k = 0; k < n; k++) addValue(s, f); r += f.str(s.draw(3) == 2); }
    catch(SoDa::Exception &e) { r += string("!") + e.what(); }
    std::ostringstream o; o << f; r += "/" + o.str(); r += "\n";
    switch(s.draw(3)) { case 0: f.reset(); break; case 1: f = SoDa::Format(fmtText(s)); break; default: { SoDa::Format g(f); g.addS("copy"); r += g.str(); } }
  }
  return r;
}
static string text(Src &s) { string r; int n = (int) s.draw(12); for(int i = 0; i < n; i++) { r += word(s); r += " \t,;: "[s.draw(6)]; if(s.coin()) r += ' '; } return r; }
static string doSplit(Src &s) {
  string r; int rounds = 1 + (int) s.draw(3);
  for(int i = 0; i < rounds; i++) {
    string t = text(s), d = string(" ,;:").substr(s.draw(3), 1 + s.draw(3)); bool ne = s.coin();
    r += quote(SoDa::squashSpaces(t)); for(auto &x : SoDa::split(t, d, ne)) r += quote(x); r += shown(SoDa::splitVec(t, d, ne));
  }
  SoDa::UtilsBase u; r += u.getVersion(); r += u.getGitID();
  return r;
}
struct Opts {
  SoDa::Options o; int i = 0; double d = 0; string s; bool p = false; std::vector<int> v; std::vector<string> w; unsigned u = 0;
  Opts(bool kvp) : o(kvp) {
    o.addInfo("what this is for").add<int>(&i, "int", 'i', 7, "an int", [](int x) { return x < 1000000; }, "too big").add<double>(&d, "dbl", 'd', "a double").add<string>(&s, "str", 's', string("dflt"), "a string")
      .add<unsigned>(&u, "uns", 'u', 3u, "unsigned").addP(&p, "pres", 'p', "presence").addV<int>(&v, "vint", 'v', "ints").addV<string>(&w, "vstr", 'w', "strings");
  }
  string ask() {
    std::ostringstream q; q << i << ' ' << d << ' ' << quote(s) << ' ' << u << ' ' << p << ' '; for(int x : v) q << x << ','; q << shown(w);
    return q.str() + queries();
  }
  string queries() {
    std::ostringstream q;
    for(const char *n : { "int", "dbl", "str", "uns", "pres", "vint", "vstr", "none" }) q << o.isPresent(string(n));
    for(char c : string("idsupvwz")) q << o.isPresent(c);
    q << o.numPosArgs() << shown(o.getPosArgs()) << quote(o.getPosArg(0)) << quote(o.getPosArg(99));
    o.printHelp(q);
    return q.str();
  }
};
static string number(Src &s) { return s.draw(4) == 3 ? "-" + std::to_string(s.draw(100000)) : s.draw(5) == 4 ? std::to_string(s.draw(1000)) + ".5" : std::to_string(s.draw(2000000)); }
static string doOptions(Src &s, Opts &x, bool kvp) {
  string r; int lines = 1 + (int) s.draw(2);
  for(int k = 0; k < lines; k++) {
    std::vector<string> t; int n = (int) s.draw(7);
    for(int i = 0; i < n; i++) switch(s.draw(9)) {
      case 0: t.push_back(kvp ? "int=" + number(s) : "--int"); if(!kvp) t.push_back(number(s)); break;
      case 1: t.push_back(kvp ? "dbl=" + number(s) : "-d"); if(!kvp) t.push_back(number(s)); break;
      case 2: t.push_back(kvp ? "str=" + word(s) : "--str"); if(!kvp) t.push_back(word(s)); break;
      case 3: t.push_back(kvp ? "vint=" + number(s) : "-v"); if(!kvp) t.push_back(number(s)); break;
      case 4: t.push_back(kvp ? "vstr = " + word(s) : "--vstr"); if(!kvp) t.push_back(word(s)); break;
      case 5: t.push_back(kvp ? "pres" : "-p"); break;
      case 6: t.push_back(kvp ? "" : word(s)); break;
      case 7: if(s.draw(4) == 3) t.push_back(kvp ? "help" : s.coin() ? "--help" : "-h"); break;
      default: if(s.draw(4) == 3) t.push_back(kvp ? "none=1" : "--none"); }
    bool ok;
    if(kvp) { string l; for(auto &e : t) l += (l.empty() ? "" : ",") + e; ok = x.o.parse(l); }
    else if(s.coin()) { string l; for(auto &e : t) l += " " + e; ok = x.o.parse(l); }
    else ok = x.o.parse(std::list<string>(t.begin(), t.end()));
    r += ok ? "ok " : "refused "; r += x.ask();
  }
  return r;
}
static string doOptions(Src &s) { bool kvp = s.draw(4) == 3; Opts x(kvp); return doOptions(s, x, kvp); }

// files of trees: written before the threads start
static const char *files[] = {
  "a: 1\nb:\n  c: two words\n  d: 3.5\n  e:\n    f: -7\nl: [x, y, {k: v}]\n", "top:\n  - 1\n  - [2, 3]\n  - {a: b, c: [d]}\nz: 'quoted \"text\"'\n", "a: [1, 2\nb: }\n", "&x {p: 1, q: *x}\n", "b: 99\nb2:\n  a: 0x1f\n  b: true\n  c: ~\n  d: ''\n", "just a scalar\n", "anchors:\n  one: &o {v: 1, w: text}\n  two: *o\nblock: |\n  line 1\n  line 2\n" };
static const int NFILES = sizeof files / sizeof *files;
static string fileName(int i) { return scratch + "/t" + std::to_string(i) + ".yaml"; }
static const char *paths[] = { "a", "b", "b:c", "b:d", "b:e:f", "z", "b2:a", "b2:b", "b2:d", "anchors:one:v", "anchors:two:w", "block", "none", "b:none:c", "b:e", "l" };
static const int NPATHS = sizeof paths / sizeof *paths;
static string nodeText(Node *n, int depth = 0) {
  if(!n) return "-";
  string r = quote(n->getPathName()) + "{"; string v; if(n->get(v)) r += quote(v);
  for(auto &k : n->getKeys()) r += k + "=" + (depth < 4 ? nodeText(n->getProp(k), depth + 1) : "..");
  for(auto *e : n->getList()) r += "/" + (depth < 4 ? nodeText(e, depth + 1) : "..");
  return r + "}";
}
static string treeQueries(Src &s, SoDa::PropertyTree &t) {
  std::ostringstream r; int n = 1 + (int) s.draw(6);
  for(int k = 0; k < n; k++) {
    string p = paths[s.draw(NPATHS)]; bool ex = s.coin();
    try {
      switch(s.draw(5)) {
      case 0: { string v = "?"; r << t.get<string>(v, p, ex) << quote(v); break; }
      case 1: { int v = -1; r << t.get<int>(v, p, ex) << v; break; }
      case 2: { double v = -1; r << t.get<double>(v, p, ex) << v; break; }
      case 3: { t.dump(r); break; }
      default: { bool v = false; r << t.get<bool>(v, p, ex) << v; } }
    } catch(SoDa::Exception &e) { r << "!" << e.what(); }
    r << "\n";
  }
  return r.str();
}
static string nodeQueries(Src &s, Node *n) {
  std::ostringstream r; r << nodeText(n); string p = paths[s.draw(NPATHS)];
  try { Node *m = n->getProp(p, s.coin()); r << nodeText(m); if(m) { int v = 3; r << m->get<int>(v, s.coin()) << v; m->dump(r, "  "); } } catch(SoDa::Exception &e) { r << "!" << e.what(); }
  return r.str();
}
struct Tree : SoDa::PropertyTreeYAML { Node *top() { return root; } };
static string doTree(Src &s) {
  std::ostringstream r; int n = 1 + (int) s.draw(3); Tree t;
  for(int k = 0; k < n; k++) {
    int f = (int) s.draw(NFILES + 1);
    try { t.readFile(fileName(f)); r << "read " << f; }
    catch(SoDa::PropertyTree::FileNotFound &e) { r << "not found " << e.what(); }
    catch(SoDa::PropertyTree::BadSyntax &e) { r << "bad " << e.what(); }
    r << "\n" << treeQueries(s, t);
  }
  r << nodeQueries(s, t.top());
  return r.str();
}
static string doBoxes(Src &s) {
  std::ostringstream r; typedef SoDa::MailBox<string> B; typedef SoDa::MailBox<int> I;
  auto b = SoDa::makeMailBox<string>(word(s)); std::shared_ptr<I> i = std::make_shared<I>(word(s));
  auto x = b->subscribe(), y = b->subscribe(); auto z = i->subscribe(); int n = 1 + (int) s.draw(12);
  auto got = [&](const std::shared_ptr<string> &p) { r << (p ? *p : string("-")) << ' '; };
  for(int k = 0; k < n; k++) try {
    switch(s.draw(9)) {
    case 0: b->put(std::make_shared<string>(word(s))); break;
    case 1: b->put(std::make_shared<string>(word(s)), x); break;
    case 2: got(b->get(x)); break;
    case 3: got(b->get(y)); break;
    case 4: i->put(std::make_shared<int>((int) s.draw(100))); break;
    case 5: { auto m = i->get(z); r << (m ? *m : -1) << ' '; break; }
    case 6: r << b->readyCount(x) << b->minReadyCount() << b->subscriberCount() << b->getName(); break;
    case 7: b->clear(y); y = b->subscribe(); break;
    default: { std::shared_ptr<SoDa::MailBoxBase> base = b; r << (SoDa::MailBoxBase::convert<B>(base) == b); SoDa::MailBoxBase::convert<I>(base); } }
  } catch(SoDa::Exception &e) { r << "!" << e.what(); }
  return r.str();
}
static string doBarrier(Src &s) {
  auto b = SoDa::makeBarrier(word(s), 1); auto c = std::make_shared<SoDa::Barrier>(word(s), 2); string r;
  b->wait(); b->wait(10);
  try { c->wait(5); r = "?"; } catch(SoDa::Barrier::Timeout &e) { r = e.what(); }
  try { c->wait(5); r += "?"; } catch(SoDa::Barrier::Corrupt &e) { r += e.what(); } catch(SoDa::Barrier::Timeout &e) { r += e.what(); }
  return r;
}

// objects that everybody reads
struct World {
  std::unique_ptr<SoDa::Format> fmt; std::unique_ptr<Opts> opts; std::unique_ptr<Tree> tree; std::vector<Node *> nodes; std::shared_ptr<SoDa::MailBoxBase> box;
};
static string askFormat(Src &s, World &w) {
  string r; int n = 1 + (int) s.draw(3);
  for(int k = 0; k < n; k++) {
    const SoDa::Format &f = *w.fmt;
    try { switch(s.draw(4)) { case 0: r += f.str(); break; case 1: r += f.str(true); break; case 2: { std::ostringstream o; o << *w.fmt; r += o.str(); break; }
      default: { SoDa::Format g(f); addValue(s, g); r += g.str(); } } } catch(SoDa::Exception &e) { r += string("!") + e.what(); }
  }
  return r;
}
static string askTree(Src &s, World &w) { return s.coin() ? treeQueries(s, *w.tree) : w.nodes.empty() ? string() : nodeQueries(s, w.nodes[s.draw(w.nodes.size())]); }
static string askBox(Src &s, World &w) {
  string r = w.box->getName();
  try { r += SoDa::MailBoxBase::convert<SoDa::MailBox<string>>(w.box)->getName(); if(s.coin()) SoDa::MailBoxBase::convert<SoDa::MailBox<double>>(w.box); } catch(SoDa::Exception &e) { r += e.what(); }
  return r;
}

enum { FORMAT, SPLIT, OPTIONS, TREE, BOXES, BARRIER, ASK_FORMAT, ASK_OPTIONS, ASK_TREE, ASK_BOX, KINDS };
static const char *kindName[] = { "format", "split", "options", "load-a-tree", "mailboxes", "barrier", "read-a-shared-format", "ask-shared-options", "ask-a-shared-tree", "ask-a-shared-mailbox" };
static string run(int kind, const Script &sc, World &w) {
  Src s; s.seedReplay(sc);
  switch(kind) {
  case FORMAT: return doFormat(s); case SPLIT: return doSplit(s); case OPTIONS: return doOptions(s); case TREE: return doTree(s); case BOXES: return doBoxes(s); case BARRIER: return doBarrier(s);
  case ASK_FORMAT: return askFormat(s, w); case ASK_OPTIONS: return w.opts->queries(); case ASK_TREE: return askTree(s, w); default: return askBox(s, w); }
}

