// methods.h - generators of methods, as lists of model changes
#ifndef METHODS_H
#define METHODS_H
#include "lib.h"

namespace gen {
using std::string; using std::vector; using model::perm; using pbt::Src;
typedef vector<perm> changes;
using ringing::method;

inline void fill(Src& s, perm& c, int from, int to, int style) {
  for (int i=from; i+1<to; ) {
    bool sw = style == 0 ? s.coin() : style == 1 ? s.chance(5,6) : true;
    if (sw) { std::swap(c[i], c[i+1]); i += 2; } else ++i;
  }
}
// A change which takes the bell in place p to place q
inline perm change_through(Src& s, int n, int p, int q, int style) {
  perm c = model::rounds(n);
  int lo = std::min(p, q), hi = std::max(p, q);
  if (p != q) std::swap(c[p], c[q]);
  // start the left part so that a dense change makes its place anywhere
  int skip = s.coin() ? (lo % 2) : 0;
  fill(s, c, skip, lo, style); fill(s, c, hi + 1, n, style);
  return c;
}
// The path of a hunt bell over a half lead
inline vector<int> hunt_path(Src& s, int n) {
  vector<int> p;
  int lo = 0, hi = n - 1;
  if (s.chance(1,5) && n > 3) hi = s.range(2, n-1);
  if (s.chance(1,8) && n > 3) lo = s.below(hi);
  switch (s.below(6)) {
    case 0: case 1: for (int i=lo; i<=hi; ++i) p.push_back(i); break;             // plain
    case 2: case 3: for (int i=lo; i<=hi; i+=2) { p.push_back(i); if (i+1 <= hi) { p.push_back(i+1); p.push_back(i); p.push_back(i+1); } } break; // treble bob
    case 4: for (int i=lo; i<=hi; ++i) { p.push_back(i); p.push_back(i); } break;  // treble place
    default: { int at = lo; p.push_back(at); int k = s.below(2*n);                 // alliance and so on
      for (int i=0; i<k; ++i) { int d = s.range(-1, 1); if (at + d < 0 || at + d >= n) d = 0; at += d; p.push_back(at); } }
  }
  if (s.chance(1,8)) for (int& x : p) x = n-1-x;
  return p;
}
// A list of changes with varied structure.  *kind describes it.
inline changes gen_method(Src& s, int n, string* kind = 0, int max_len = 40) {
  changes m; string k; int style = s.below(3);
  int what = n < 3 ? 0 : s.below(8);
  if (what == 0) { k = "random"; int len = s.range(1, max_len); for (int i=0; i<len; ++i) m.push_back(model::gen_change(s, n)); }
  else if (what == 1) { k = "palindrome"; int h = s.range(1, max_len/2); changes half; for (int i=0; i<h-1; ++i) half.push_back(model::gen_change(s, n));
    m = half; m.push_back(model::gen_change(s, n)); m.insert(m.end(), half.rbegin(), half.rend()); m.push_back(model::gen_change(s, n)); }
  else if (what == 2) { k = "double"; int h = s.range(1, max_len/2); for (int i=0; i<h; ++i) m.push_back(model::gen_change(s, n));
    if (s.coin()) for (int i=0; i<h-1-i; ++i) m[h-2-i < 0 ? 0 : h-2-i] = m[i];
    for (int i=0; i<h; ++i) m.push_back(model::reverse_change(m[i])); }
  else if (what == 3) { // few distinct changes
    k = "grid"; perm a = model::gen_change(s, n), b = model::gen_change(s, n); int len = s.range(2, max_len);
    for (int i=0; i<len; ++i) m.push_back(i % 2 ? a : b); if (s.coin()) m.back() = model::gen_change(s, n); }
  else {
    vector<int> p = hunt_path(s, n); bool pal = s.chance(3,4);
    changes half; for (size_t i=0; i+1<p.size(); ++i) half.push_back(change_through(s, n, p[i], p[i+1], style));
    m = half; m.push_back(change_through(s, n, p.back(), p.back(), style));
    if (pal) m.insert(m.end(), half.rbegin(), half.rend());
    else for (int i=(int)p.size()-1; i>0; --i) m.push_back(change_through(s, n, p[i], p[i-1], style));
    m.push_back(change_through(s, n, p[0], p[0], style));
    k = pal ? "symmetric with a hunt bell" : "asymmetric with a hunt bell";
    if (what == 4 && m.size() > 2) { k += ", rotated"; std::rotate(m.begin(), m.begin() + s.below(m.size()), m.end()); }
    if (what == 5) { // plain bob, grandsire and the like
      k = "plain hunting"; m.clear(); int h = s.below(3); bool odd = n % 2;
      perm a = model::rounds(n), b = model::rounds(n);
      for (int i=0; i+1<n; i+=2) std::swap(a[i], a[i+1]); for (int i=1; i+1<n; i+=2) std::swap(b[i], b[i+1]);
      for (int i=0; i<n; ++i) { m.push_back(a); m.push_back(b); }
      (void)odd; if (h && n > 3) { perm c = model::rounds(n); for (int i = h+1; i+1<n; i+=2) std::swap(c[i], c[i+1]); if (h == 1) m.back() = c; else m[0] = c; }
    }
  }
  if (kind) *kind = k;
  return m;
}
// The place notation of a list of changes, in one of the accepted forms,
// without & blocks
inline string spell(Src& s, changes const& m, size_t from, size_t to) {
  string r; bool prev_x = true, first = true, ws = s.chance(1,6);
  bool dots = s.chance(1,6);
  for (size_t i=from; i<to; ++i) {
    bool x; string t = model::gen_spelling(s, m[i], &x);
    bool need = !first && !x && !prev_x;
    if (need || (!first && dots)) { string sep = "."; if (ws) { if (need && s.coin()) sep = s.coin() ? " " : "\t "; else { if (s.coin()) sep = " " + sep; if (s.coin()) sep += " "; } } r += sep; }
    else if (!first && ws && s.chance(1,4)) r += " ";
    r += t; prev_x = x; first = false;
  }
  if (to > from && s.chance(1,20)) r += ".";
  return r;
}
inline string spell_plain(changes const& m) {
  string r; bool dot = false;
  for (auto const& c : m) { string t = model::full_pn(c, 'x'); if (t == "x") { r += t; dot = false; } else { if (dot) r += '.'; r += t; dot = true; } }
  return r;
}
inline method to_method(changes const& m, int n, string const& name = "Untitled") {
  method r(0, n, name.c_str()); for (auto const& c : m) r.push_back(lib::to_change(c)); return r;
}
inline changes from_method(method const& m) {
  changes r; for (auto const& c : m) r.push_back(lib::from_change(c)); return r;
}
// An independent reader of the place notation that programs write
inline bool read_pn(string const& text, int n, changes& out) {
  out.clear(); size_t i = 0; bool any = false;
  auto bell = [&](char c) { for (int b=0; b<33; ++b) if (model::sym(b).size() == 1 && model::sym(b)[0] == c) return b; return -1; };
  while (i < text.size()) {
    if (any) { if (text[i] != ',') return false; ++i; }
    bool symm = false; if (i < text.size() && (text[i] == '&' || text[i] == '+')) symm = text[i++] == '&';
    changes b; bool dot = true;
    while (i < text.size() && text[i] != ',') {
      char c = text[i];
      if (c == 'x' || c == 'X' || c == '-') { perm x; if (!model::from_places(n, vector<int>(), x)) return false; b.push_back(x); ++i; dot = true; }
      else if (c == '.') { if (dot && !b.empty() && i && text[i-1] == '.') return false; dot = true; ++i; }
      else { vector<int> pl; while (i < text.size() && bell(text[i]) >= 0) { int q = bell(text[i]); if (q >= n || (!pl.empty() && q <= pl.back())) return false; pl.push_back(q); ++i; } if (pl.empty() || !dot) return false; perm x; if (!model::from_places(n, pl, x)) return false; b.push_back(x); dot = false; } }
    if (b.empty()) return false;
    if (symm) for (int k=(int)b.size()-2; k>=0; --k) b.push_back(perm(b[k]));
    out.insert(out.end(), b.begin(), b.end()); any = true;
  }
  return any;
}
inline vector<perm> rows(changes const& m, perm r) {
  vector<perm> v(1, r); for (auto const& c : m) v.push_back(r = model::apply(r, c)); return v;
}
using ringing::method;
}
#endif
