// Properties of SoDa::squashSpaces and SoDa::split (U01, U02)
#include "pbt.hpp"
#include "Utils.hxx"
using namespace pbt;
using std::string;

static string spacey(Src &s, int small, int medium, int max, const string &extra) {
  string r; int n = s.size(small, medium, max);
  uint64_t style = s.draw(5); if(!extra.empty() && s.chance(2, 3)) style = 3; int maxrun = s.size(3, 20, 300, 1);
  while((int) r.size() < n) {
    switch(style) {
    case 0: r += s.pickc(" ab"); break;
    case 1: r += string(1 + s.draw(maxrun), ' '); if(s.chance(3, 4)) r += s.pickc("abc\t\n"); break;
    case 2: r += s.coin() ? ' ' : (char) s.draw(256); break;
    case 3: r += extra.empty() ? s.pickc(" x") : s.coin() ? extra[s.draw(extra.size())] : s.pickc(" xy\t"); break;
    default: r += ' '; break;
    }
  }
  return r;
}
// word by word: the blank separated pieces, joined by single blanks
static string model(const string &t) {
  string r; size_t i = 0, n = t.size(); bool first = true;
  while(i < n) {
    if(t[i] == ' ') { i++; continue; }
    size_t j = t.find(' ', i); if(j == string::npos) j = n;
    if(!first) r += ' ';
    r.append(t, i, j - i); first = false; i = j;
  }
  return r;
}
static void U01(Src &s, Ctx &c) {
  string t = spacey(s, 14, 200, s.chance(1, 600) ? 80000 : 20000, "");
  DESC("squashSpaces(" << quote(t, 120) << ")");
  const string keep = t; string want = model(t), got = SoDa::squashSpaces(t);
  DESC(" -> " << quote(got, 120));
  CHECK(got == want, "squashSpaces(" << quote(t) << ") gives " << quote(got) << ", expected " << quote(want));
  CHECK(t == keep, "the argument was changed");
  CHECK(SoDa::squashSpaces(got) == got, "squashing twice differs: " << quote(SoDa::squashSpaces(got)));
  c.nontrivial(want != t || t.empty());
  c.label("all blank", !t.empty() && want.empty()); c.label("empty", t.empty()); c.label("leading", !t.empty() && t[0] == ' '); c.label("trailing", !t.empty() && t.back() == ' ');
  c.label("inner run", keep.find("  ") != string::npos); c.label("long", t.size() > 1000); c.label("control characters", t.find_first_of("\t\n") != string::npos);
}
static void U02(Src &s, Ctx &c) {
  string delims; int nd = s.chance(1, 25) ? 0 : 1 + (int) s.draw(3);
  for(int i = 0; i < nd; i++) delims += s.chance(1, 6) ? (char) s.draw(256) : s.pickc(",:;=|. \tx");
  string t = spacey(s, 20, 150, s.chance(1, 600) ? 140000 : 5000, delims + ","); bool no_empty = s.coin();
  DESC("split(" << quote(t, 120) << ", " << quote(delims) << ", " << no_empty << ")");
  string w = model(t); std::vector<string> all, want; std::vector<char> seps; string cur;
  for(char ch : w) {
    if(delims.find(ch) != string::npos) { all.push_back(cur); cur.clear(); seps.push_back(ch); } else cur += ch;
  }
  if(!cur.empty()) all.push_back(cur);
  for(auto &x : all) if(!(no_empty && x.empty())) want.push_back(x);
  std::list<string> gl = SoDa::split(t, delims, no_empty); std::vector<string> got(gl.begin(), gl.end()), gv = SoDa::splitVec(t, delims, no_empty);
  auto show = [](const std::vector<string> &v) { string r = "["; for(auto &x : v) { if(r.size() > 1) r += ", "; r += quote(x, 40); if(r.size() > 600) { r += "..."; break; } } return r + "]"; };
  DESC(" -> " << show(got));
  CHECK(got == want, "split(" << quote(t) << ", " << quote(delims) << ", " << no_empty << ") gives " << show(got) << ", expected " << show(want));
  CHECK(gv == got, "splitVec gives " << show(gv) << ", split gives " << show(got));
  if(!no_empty) {
    string j; for(size_t i = 0; i < got.size(); i++) { j += got[i]; if(i < seps.size()) j += seps[i]; }
    CHECK(j == w, "joined pieces give " << quote(j) << ", expected " << quote(w));
    std::list<string> dl = SoDa::split(t, delims); CHECK(dl == gl, "the default is not to keep empty pieces");
    CHECK(SoDa::splitVec(t, delims) == got, "the default of splitVec is not to keep empty pieces");
  }
  c.nontrivial(seps.size() > 0);
  bool emp = false; for(auto &x : all) emp = emp || x.empty();
  c.label("empty piece", emp); c.label("no_empty", no_empty); c.label("trailing delimiter", !seps.empty() && cur.empty()); c.label("blank is a delimiter", delims.find(' ') != string::npos); c.label("long", t.size() > 1000);
}
namespace pbt {
const std::vector<Prop> props = { {"U01", U01}, {"U02", U02} };
void harnessInit() {}
}
