// model.h - an independent model of bells, rows, changes and place notation.
// Nothing here uses the code under test: rows are plain vectors of numbers,
// and a change is the permutation of places that it makes.
#ifndef MODEL_H
#define MODEL_H

#include "pbt.h"
#include <algorithm>
#include <set>
#include <map>
#include <numeric>

namespace model {

using std::string;
using std::vector;
typedef vector<int> perm;             // 0-based

static char const symbols[] = "1234567890ETABCDFGHJKLMNPQRSUVWYZ";
enum { num_symbols = 33 };

inline string sym(int b) {
  if (b < num_symbols) return string(1, symbols[b]);
  return "{" + std::to_string(b + 1) + "}";
}

inline perm rounds(int n) { perm p(n); std::iota(p.begin(), p.end(), 0); return p; }
inline bool is_perm(perm const& p) {
  vector<bool> f(p.size());
  for (int x : p) { if (x < 0 || x >= (int)p.size() || f[x]) return false; f[x] = true; }
  return true;
}
// Rows of different lengths: the shorter has its missing bells in their own places
inline perm pad(perm p, int n) { while ((int)p.size() < n) p.push_back(p.size()); return p; }
// Transposition: place i of a*b holds the bell which a has in place b[i]
inline perm mul(perm a, perm b) {
  int n = std::max(a.size(), b.size()); a = pad(a, n); b = pad(b, n);
  perm r(n);
  for (int i=0; i<n; ++i) r[i] = a[b[i]];
  return r;
}
inline perm inv(perm const& a) {
  perm r(a.size());
  for (size_t i=0; i<a.size(); ++i) r[a[i]] = i;
  return r;
}
inline perm power(perm const& a, long k) {
  perm base = k < 0 ? inv(a) : a, r = rounds(a.size());
  unsigned long e = k < 0 ? -(unsigned long)k : k;
  while (e) { if (e & 1) r = mul(r, base); base = mul(base, base); e >>= 1; }
  return r;
}
inline vector<vector<int>> cycles(perm const& p) {
  vector<vector<int>> r; vector<bool> done(p.size());
  for (size_t i=0; i<p.size(); ++i) if (!done[i]) {
    r.push_back(vector<int>());
    for (int j=i; !done[j]; j=p[j]) { done[j] = true; r.back().push_back(j); }
  }
  return r;
}
inline int sign(perm const& p) {
  int s = 1;
  for (size_t i=0; i<p.size(); ++i) for (size_t j=i+1; j<p.size(); ++j)
    if (p[i] > p[j]) s = -s;
  return s;
}
inline long gcd(long a, long b) { while (b) { long t = a % b; a = b; b = t; } return a; }
inline long order(perm const& p) {
  long o = 1;
  for (auto const& c : cycles(p)) o = o / gcd(o, c.size()) * (long)c.size();
  return o;
}
inline string text(perm const& p) { string s; for (int x : p) s += sym(x); return s; }

// ---------------------------------------------------------------------
// Changes: c[i] is the place that the bell in place i moves to.

inline perm change_of(int n, vector<int> const& swaps)
  { perm c = rounds(n); for (int s : swaps) std::swap(c[s], c[s+1]); return c; }
inline vector<int> places(perm const& c)
  { vector<int> p; for (size_t i=0; i<c.size(); ++i) if (c[i] == (int)i) p.push_back(i); return p; }
inline perm apply(perm r, perm const& c) {
  r = pad(r, c.size()); perm q(r);
  for (size_t i=0; i<c.size(); ++i) q[c[i]] = r[i];
  return q;
}
inline perm reverse_change(perm const& c) {
  int n = c.size(); perm r(n);
  for (int i=0; i<n; ++i) r[n-1-i] = n-1-c[i];
  return r;
}
// Full place notation: every place made, or x
inline string full_pn(perm const& c, char x = 'X') {
  string s; for (int p : places(c)) s += sym(p);
  return s.empty() && !c.empty() ? string(1, x) : s;
}
// The change for a list of written places, with the implied external places;
// false if they cannot be made together.
inline bool from_places(int n, vector<int> const& pl, perm& out) {
  out = rounds(n);
  int b = 0; bool first = true;
  for (int p : pl) {
    if (p < b || p >= n) return false;
    if ((p - b) % 2) { if (!first) return false; b = 1; }
    for (; b < p; b += 2) std::swap(out[b], out[b+1]);
    b = p + 1; first = false;
  }
  for (; b + 1 < n; b += 2) std::swap(out[b], out[b+1]);
  return true;
}

// ---------------------------------------------------------------------
// Generators

inline perm gen_perm(pbt::Src& s, int n) {
  perm p = rounds(n);
  for (int i=0; i+1<n; ++i) std::swap(p[i], p[i + s.below(n-i)]);
  return p;
}
// A change on n bells.  Shrinks towards few swaps.
inline perm gen_change(pbt::Src& s, int n) {
  vector<int> sw;
  int style = s.below(4);             // density of swaps
  for (int i=0; i+1<n; ) {
    bool sw_here = style == 0 ? s.coin() : s.chance(style == 1 ? 2 : 5, 6);
    if (sw_here) { sw.push_back(i); i += 2; } else ++i;
  }
  return change_of(n, sw);
}
// One of the accepted spellings of a change.  *is_x is set if it is a cross
// symbol (which needs no separator after it).
inline string gen_spelling(pbt::Src& s, perm const& c, bool* is_x = 0) {
  int n = c.size();
  vector<int> pl = places(c);
  if (is_x) *is_x = false;
  if (pl.empty() || (pl.size() == 1 && pl[0] == n-1 && n % 2 == 1 && s.chance(1,4))) {
    if (is_x) *is_x = true;
    return string(1, s.pickc("Xx-"));
  }
  // external places may be left out when they are implied
  perm d; vector<int> q(pl);
  auto attempt = [&](vector<int> t) {
    perm e;
    if (!t.empty() && from_places(n, t, e) && e == c) q = t;
  };
  if (s.coin() && q.size() > 1 && q[0] == 0) attempt(vector<int>(q.begin()+1, q.end()));
  if (s.coin() && q.size() > 1 && q.back() == n-1) attempt(vector<int>(q.begin(), q.end()-1));
  string r;
  bool lower = s.chance(1,4), braces = s.chance(1,8);
  for (int p : q) {
    string t = sym(p);
    if (braces && s.coin()) t = "{" + std::to_string(p+1) + "}";
    else if (lower && t.size() == 1) t[0] = tolower(t[0]);
    else if (t == "1" && s.chance(1,16)) t = "I";
    else if (t == "0" && s.chance(1,16)) t = "O";
    r += t;
  }
  return r;
}

inline perm course_head(int n, vector<perm> const& changes) {
  perm r = rounds(n);
  for (auto const& c : changes) r = apply(r, c);
  return r;
}

} // namespace model

#endif
