// musicmodel.h - music patterns with scores, as -M of methsearch and musgrep take them, and what they score
#ifndef MUSICMODEL_H
#define MUSICMODEL_H
#include "wild.h"
namespace mus {
using std::string; using std::vector; using model::perm; using pbt::Src;
inline int runs(perm const& r, int len, int from, int to) {
  int c = 0; for (int a=from; a+len<=to; ++a) for (int d=-1; d<=1; d+=2) { bool ok = true; for (int i=1; i<len; ++i) ok = ok && r[a+i] == r[a+i-1] + d; c += ok; } return c;
}
inline perm queens(int n) { perm q; for (int i=0; i<n; i+=2) q.push_back(i); for (int i=1; i<n; i+=2) q.push_back(i); return q; }
inline perm kings(int n) { perm q; for (int i=(n-1)/2*2; i>=0; i-=2) q.push_back(i); for (int i=1; i<n; i+=2) q.push_back(i); return q; }
inline perm tittums(int n) { perm q; int h = (n+1)/2; for (int i=0; i<h; ++i) { q.push_back(i); if (h + i < n) q.push_back(h + i); } return q; }
inline perm backrounds(int n) { perm q; for (int i=n-1; i>=0; --i) q.push_back(i); return q; }
struct pattern {
  int what = 9, len = 0; wild::pat p; string name, pre; int sh = 1, sb = 1;
  string text() const { return pre + (what < 9 ? "<" + name + ">" : name); }
  int times(perm const& r) const { int n = r.size(); switch (what) { case 0: return r == model::rounds(n); case 1: return r == queens(n); case 2: return r == kings(n); case 3: return r == tittums(n); case 4: return r == backrounds(n);
      case 5: { if (n < 6) return 0; for (int i=6; i<n; ++i) if (r[i] != i) return 0; for (int i=4; i<6; ++i) if (r[i] < 3 || r[i] > 5) return 0; return 1; }
      case 6: return runs(r, len, 0, len); case 7: return runs(r, len, n - len, n); case 8: return runs(r, len, 0, n); default: return wild::matches_one(p, r); } }
  int score(perm const& r, bool back) const { return times(r) * (back ? sb : sh); }
};
inline pattern gen(Src& s, int n, bool scored = true) {
  pattern m; if (s.coin() && n >= 4) { m.what = s.below(9); m.len = s.range(3, std::min(n, 6)); string l = std::to_string(m.len);
    switch (m.what) { case 0: m.name = "rounds"; break; case 1: m.name = "queens"; break; case 2: m.name = "kings"; break; case 3: m.name = "tittums"; break; case 4: m.name = "reverse-rounds"; break; case 5: m.name = "CRUs"; break; case 6: m.name = "front-" + l + "-runs"; break; case 7: m.name = "back-" + l + "-runs"; break; default: m.name = l + "-runs"; } }
  else do { m.p = wild::gen(s, n); m.name = wild::text(m.p, &s); } while (m.name.empty() || (int) m.p.size() > n);
  if (scored) switch (s.below(4)) { case 0: m.sh = m.sb = s.range(-20, 50); m.pre = std::to_string(m.sh) + ":"; break; case 1: m.sh = s.range(-20, 50); m.sb = s.range(-20, 50); m.pre = std::to_string(m.sh) + "," + std::to_string(m.sb) + ":"; break; default: ; }
  return m;
}
// Rows with music in them
inline perm gen_row(Src& s, int n) {
  perm r = model::rounds(n); switch (s.below(6)) { case 0: switch (s.below(5)) { case 0: return r; case 1: return queens(n); case 2: return kings(n); case 3: return tittums(n); default: return backrounds(n); }
    case 1: if (n > 5) { perm q = model::gen_perm(s, 6); for (int i=0; i<6; ++i) r[i] = q[i]; return r; } // fall through
    case 2: { if (s.coin()) r = backrounds(n); int a = s.below(n), l = s.range(1, n - a); perm run(r.begin()+a, r.begin()+a+l), rest(r.begin(), r.begin()+a); rest.insert(rest.end(), r.begin()+a+l, r.end()); for (size_t x=0; x+1<rest.size(); ++x) std::swap(rest[x], rest[x + s.below(rest.size()-x)]); int at = s.below(3); rest.insert(rest.begin() + (at == 0 ? 0 : at == 1 ? (int) rest.size() : s.below(rest.size()+1)), run.begin(), run.end()); return rest; }
    case 3: { int a = s.below(n), b = s.below(n); std::swap(r[a], r[b]); return r; } default: return model::gen_perm(s, n); }
}
}
#endif
