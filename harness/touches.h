// touches.h - searches for touches of one method, done by trying everything
#ifndef TOUCHES_H
#define TOUCHES_H
#include "methods.h"
#include <set>
#include <map>
#include <algorithm>
namespace touches {
using std::string; using std::vector; using namespace model; using pbt::Src; using model::perm;
typedef vector<int> word;
struct problem {
  int n; gen::changes m; vector<perm> ends;  // the lead end changes, the plain one first
  vector<perm> parts;                        // group of part ends
  size_t lo, hi;                             // leads
  bool mutual, open;                         // need not join up; need not come round
  std::set<word> found; size_t nodes; bool too_big;
  // search state
  std::set<perm> rows; word w; size_t budget;

  bool add_lead(perm& r, perm const& end, vector<perm>& added) {
    for (size_t i=0; i<m.size(); ++i) {
      for (auto const& p : parts) { perm q = mul(p, r); if (!rows.insert(q).second) return false; added.push_back(q); }
      r = model::apply(r, i + 1 == m.size() ? end : m[i]);
    }
    return true;
  }
  void go(perm const& r) {
    if (++nodes > budget) { too_big = true; return; }
    // The touch so far is true.  Is it complete?
    bool home = std::find(parts.begin(), parts.end(), r) != parts.end();
    if (!w.empty() && home) {
      if (w.size() >= lo && w.size() <= hi && (mutual || parts.size() == 1 || (size_t)order(r) == parts.size())) found.insert(w);
      return; // whatever comes next repeats
    }
    if (w.size() >= hi) return;
    for (size_t c=0; c<ends.size() && !too_big; ++c) {
      perm q = r; vector<perm> added; w.push_back(c);
      if (add_lead(q, ends[c], added)) go(q);
      w.pop_back(); for (auto const& x : added) rows.erase(x);
    }
  }
  void solve(size_t limit) { budget = limit; nodes = 0; too_big = false; go(rounds(n)); }
};
inline word least_rotation(word w) { word b = w; for (size_t i=0; i<w.size(); ++i) { std::rotate(w.begin(), w.begin()+1, w.end()); b = std::min(b, w); } return b; }
inline string txt(word const& w) { string s; for (int c : w) s += c ? char('a' + c - 1) : 'p'; return s.empty() ? "(nothing)" : s; }

inline problem gen_problem(Src& s, bool table) {
  problem p; p.n = s.range(3, 6); string kind; p.mutual = p.open = false;
  for (int t=0; t<12; ++t) { // mostly with leads that are true
    do p.m = gen::gen_method(s, p.n, &kind, s.chance(1,4) ? 2 : 8); while (p.m.size() > 12);
    vector<perm> r = gen::rows(p.m, rounds(p.n)); r.pop_back(); if (std::set<perm>(r.begin(), r.end()).size() == r.size() || s.chance(1,20)) break; }
  perm plain = p.m.back(); p.ends.push_back(plain);
  bool treble = s.chance(2,3); int k = s.chance(1,8) ? 0 : s.range(1, 3);
  for (int i=0; i<k; ++i) { perm c; for (int t=0; t<5; ++t) { c = gen_change(s, p.n); if (treble && plain[0] == 0 && p.n > 2) c = gen::change_through(s, p.n, 0, 0, s.below(2)); if (std::find(p.ends.begin(), p.ends.end(), c) == p.ends.end()) break; } if (std::find(p.ends.begin(), p.ends.end(), c) == p.ends.end()) p.ends.push_back(c); }
  p.parts.push_back(rounds(p.n)); s.label(kind);
  (void)table;
  p.lo = 0; p.hi = (size_t)-1;
  return p;
}
inline bool treble_stays(problem const& p) { perm h = course_head(p.n, p.m); if (h[0] != 0) return false; for (auto const& e : p.ends) if (e[0] != 0) return false; return true; }
inline string describe(problem const& p) { std::ostringstream os; os << p.n << ": " << gen::spell_plain(p.m) << " calls"; for (size_t i=1; i<p.ends.size(); ++i) os << " " << full_pn(p.ends[i]); if (p.parts.size() > 1) { os << " parts"; for (auto const& r : p.parts) os << " " << text(r); } if (p.lo || p.hi != (size_t)-1) os << " leads " << p.lo << "-" << (long)p.hi; return os.str(); }
}
#endif
