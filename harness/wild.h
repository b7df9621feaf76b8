// wild.h - an independent matcher and generator of row patterns such as *[56]?78
#ifndef WILD_H
#define WILD_H
#include "model.h"
namespace wild {
using std::string; using std::vector; using model::perm; using pbt::Src;
struct item { bool star = false, any = false; std::set<int> set; bool bell = false; };
typedef vector<item> pat;
inline string text(pat const& p, Src* s = 0) {
  string r; for (auto const& i : p) {
    if (i.star) r += '*'; else if (i.any) r += '?';
    else { auto c = [&](int b) { char x = model::symbols[b]; if (s && s->chance(1,12)) x = tolower(x); return string(1, x); };
      if (i.bell) r += c(*i.set.begin()); else { r += '['; vector<int> v(i.set.begin(), i.set.end()); if (s) for (size_t k=0; k+1<v.size(); ++k) std::swap(v[k], v[k + s->below(v.size()-k)]); for (int b : v) { r += c(b); if (s && s->chance(1,20)) r += c(b); } r += ']'; } } }
  return r;
}
// All the ways in which a row matches, as lists of the bells on wildcards
inline void match(pat const& p, perm const& r, size_t i, size_t j, bool star, vector<int>& w, std::set<vector<int>>& out) {
  if (i == p.size()) { if (star ? j == r.size() : true) { vector<int> v(w); v.insert(v.end(), r.begin() + j, r.end()); out.insert(v); } return; }
  if (p[i].star) { size_t n = w.size(); for (size_t k=j; k<=r.size(); ++k) { match(p, r, i+1, k, star, w, out); if (k < r.size()) w.push_back(r[k]); } w.resize(n); return; }
  if (j == r.size()) return;
  if (p[i].any) { w.push_back(r[j]); match(p, r, i+1, j+1, star, w, out); w.pop_back(); }
  else if (p[i].set.count(r[j])) match(p, r, i+1, j+1, star, w, out);
}
inline bool has_star(pat const& p) { for (auto const& i : p) if (i.star) return true; return false; }
inline std::set<vector<int>> matches(pat const& p, perm const& r) { std::set<vector<int>> o; vector<int> w; match(p, r, 0, 0, has_star(p), w, o); return o; }
inline bool matches_one(pat const& p, perm const& r) { // without the wildcards, by sets of reachable places
  vector<bool> at(p.size()+1); at[0] = true; bool star = has_star(p);
  auto close = [&] { for (size_t i=0; i<p.size(); ++i) if (at[i] && p[i].star) at[i+1] = true; }; close();
  for (int b : r) { if (!star && at[p.size()]) return true; vector<bool> n(p.size()+1); for (size_t i=0; i<p.size(); ++i) if (at[i]) { if (p[i].star) n[i] = true; else if (p[i].any || p[i].set.count(b)) n[i+1] = true; } at = n; close(); }
  return at[p.size()];
}
// Patterns on n bells: made of a row, or at random
inline pat gen(Src& s, int n, int max_stars = 3) {
  pat p; auto bell = [&](int b) { item i; i.bell = true; i.set.insert(b); return i; };
  int how = s.below(4); int stars = 0;
  if (how == 0) { int len = s.range(0, n+1); for (int k=0; k<len; ++k) { item i; switch (s.below(4)) { case 0: i.any = true; break; case 1: if (stars < max_stars) { i.star = true; ++stars; } else i.any = true; break; case 2: i = bell(s.below(n)); break;
        default: { int c = s.range(s.chance(1,10) ? 0 : 1, std::min(n, 4)); for (int t=0; t<c; ++t) i.set.insert(s.below(n)); } } p.push_back(i); } }
  else { perm r = model::gen_perm(s, n); if (s.chance(1,4)) r = model::rounds(n);
    size_t j = 0; while (j < r.size()) { int k = s.below(8);
      if (k == 0 && stars < max_stars) { item i; i.star = true; ++stars; p.push_back(i); j += s.below(n - j + 1); }
      else if (k == 1) { item i; i.any = true; p.push_back(i); ++j; }
      else if (k == 2) { item i; i.set.insert(r[j]); int c = s.below(4); for (int t=0; t<c; ++t) i.set.insert(s.below(n)); p.push_back(i); ++j; }
      else p.push_back(bell(r[j++])); }
    if (how == 2 && stars < max_stars && s.coin()) { item i; i.star = true; p.insert(p.begin() + s.below(p.size()+1), i); ++stars; }
    if (how == 3 && p.size() > 2) { size_t a = s.below(p.size()), b = s.below(p.size()); if (a > b) std::swap(a, b); p = pat(p.begin()+a, p.begin()+b+1); stars = 0; for (auto& i : p) stars += i.star;
      item st; st.star = true; if (s.coin() && stars < max_stars) { p.insert(p.begin(), st); ++stars; } if (s.coin() && stars < max_stars) p.push_back(st); } }
  return p;
}
}
#endif
