// msearch.h - what methsearch is asked for, and by definition which methods
// answer it: an independent enumeration of all methods with the treble path
// and symmetry that are asked for, and a predicate on whole methods.
#ifndef MSEARCH_H
#define MSEARCH_H
#include "methods.h"
#include <functional>

namespace ms {
using std::string; using std::vector; using model::perm; using pbt::Src;
typedef vector<perm> changes;

inline vector<perm> all_changes(int n) {
  vector<perm> r; perm c = model::rounds(n);
  std::function<void(int)> go = [&](int i) { if (i + 1 >= n) { r.push_back(c); return; } go(i+1); std::swap(c[i], c[i+1]); go(i+2); std::swap(c[i], c[i+1]); };
  go(0); return r;
}
inline bool pl(perm const& c, int p) { return c[p] == p; }
inline bool internal(perm const& c) { for (int i=1; i+1<(int)c.size(); ++i) if (pl(c, i)) return true; return false; }

enum answer { no, yes, either };
enum cls_t { any, surprise, treble_bob, delight, strict_delight, thirds, fourths, exercise, strict_exercise, tria, tessera };
enum level_t { really_none, none, half, lead, course };

struct slot { bool given, split; vector<perm> a, b; bool qa, qb; slot() : given(false), split(false), qa(true), qb(true) {} };

struct query {
  int b, U, G, L, zf, zb;              // bells, hunts, dodges, lead length, treble's path (from 0)
  bool sym, skew, dbl, mirror, floating;
  int p, l, j; bool longle, w, f, y; cls_t cls;
  bool A, r, c, e, E, anyreg; int hl;  // hl: 1 cyclic hle, 2 cyclic hlh, 3 rev hle, 4 rev hlh, 5 regular
  bool offc, parity; int ext; string groups; bool cps; // ext: 1 -Fe, 2 -Fe+
  bool triv; level_t level; bool level_given; int N;
  perm start; bool have_start; vector<perm> avoid, pends_gen, pends;
  bool have_changes, excl; vector<perm> list;
  vector<slot> mask; bool have_mask; changes prefix;
  bool strict;                         // make no allowance for known findings
  int pts;                             // 1 no points, 2 has, 3 no unpaired, 4 has unpaired
  query() : b(4), U(1), G(0), L(0), zf(0), zb(0), sym(0), skew(0), dbl(0), mirror(0), floating(0), p(0), l(0), j(0), longle(0), w(0), f(0), y(0), cls(any), A(0), r(0), c(0), e(0), E(0), anyreg(0), hl(0), offc(0), parity(0), ext(0), cps(0), triv(true), level(lead), level_given(false), N(1), have_start(false), have_changes(false), excl(false), have_mask(false), strict(false), pts(0) {}
  vector<int> path;                    // of the treble
  vector<perm> all;

  int sections() const { return 2 * (1 + G); }
  int offset() const { return U && U % 2 == 0 ? 1 + G : 0; }
  void ready() {
    all = all_changes(b);
    if (U) { path.clear(); int n = zb - zf + 1;
      if (!G) for (int i=0; i<n; ++i) path.push_back(zf + i);
      else for (int i=0; i<n; i+=2) for (int g=0; g<=G; ++g) { path.push_back(zf + i); path.push_back(zf + i + 1); }
      vector<int> back(path.rbegin(), path.rend()); path.insert(path.end(), back.begin(), back.end()); L = path.size(); }
    mask.resize(L);
    if (pends_gen.empty()) pends.assign(1, model::rounds(b));
    else { std::set<perm> g; vector<perm> q(1, model::rounds(b)); g.insert(q[0]); while (!q.empty()) { perm x = q.back(); q.pop_back(); for (auto const& h : pends_gen) { perm y = model::mul(x, h); if (g.insert(y).second) q.push_back(y); } } pends.assign(g.begin(), g.end()); }
    if (!have_start) start = model::rounds(b);
  }
  // The place of hunt bell k (from 0) before change t
  int hunt(int k, int t) const { int d = k % 2 ? -(k + 1) / 2 : k / 2; t += d * sections(); t %= L; if (t < 0) t += L; return path[t]; }
  int high(int t) const { int m = -1; for (int k=0; k<U; ++k) m = std::max(m, std::max(hunt(k, t), hunt(k, t+1))); return m; }
  int low(int t) const { int m = b; for (int k=0; k<U; ++k) m = std::min(m, std::min(hunt(k, t), hunt(k, t+1))); return m; }
  bool follows(perm const& c, int t) const { for (int k=0; k<U; ++k) if (c[hunt(k, t)] != hunt(k, t+1)) return false; return true; }

  // May this change be at this point?
  bool fits(perm const& c, int t) const {
    if (!follows(c, t)) return false;
    int np = model::places(c).size();
    if (triv && np == b) return false;
    if (l && np > l) return false;
    if (j) { int run = 0; for (int i=0; i<b; ++i) { run = pl(c, i) ? run + 1 : 0; if (run > j) return false; } }
    if (mirror && model::reverse_change(c) != c) return false;
    if (have_changes && (std::find(list.begin(), list.end(), c) != list.end()) == excl) return false;
    if (t < (int)prefix.size() && c != prefix[t]) return false;
    slot const& s = mask[t];
    if (s.given && !s.split) { if (std::find(s.a.begin(), s.a.end(), c) == s.a.end()) return false; }
    if (s.given && s.split) {
      bool ok = s.qa; for (auto const& x : s.a) { bool same = true; for (int i=high(t)+1; i<b; ++i) if (x[i] != c[i]) same = false; ok = ok || same; } if (!ok) return false;
      ok = s.qb; for (auto const& x : s.b) { bool same = true; for (int i=0; i<low(t); ++i) if (x[i] != c[i]) same = false; ok = ok || same; } if (!ok) return false;
    }
    bool free_a = !s.given || (s.split && s.qa), free_b = !s.given || (s.split && s.qb);
    if (f && free_a && pl(c, b-2) && (!U || high(t) < b-2)) return false;
    if (w) {
      if (!U) { if (!s.given && t % 2 == 0 && np) return false; }
      else {
        if (free_b && t % 2 == 0) for (int i=0; i<low(t); ++i) if (pl(c, i)) return false;
        if (free_a && t % 2 == b % 2 && t != L-1) for (int i=high(t)+1; i<b; ++i) if (pl(c, i)) return false;
      }
    }
    if (U && t % sections() == sections() - 1 && t != L-1 && t != L/2 - 1) {
      int q = high(t) - 1; bool in = internal(c); int k = std::min(hunt(0, t), hunt(0, t+1)); (void)q;
      if (cls == surprise && !in) return false;
      if (cls == treble_bob && in) return false;
      if (cls == thirds && ((k == 3 && !in) || (k == 1 && in))) return false;
      if (cls == fourths && ((k == 1 && !in) || (k == 3 && in))) return false;
    }
    return true;
  }
  bool limited(perm const& c) const { vector<int> p = model::places(c); perm x; return (p.size() && (model::from_places(b, vector<int>(1, 0), x), c == x)) || (model::from_places(b, vector<int>{ 0, 1 }, x), c == x); }

  // Everything which is about more than one change
  answer accepts(changes const& m, bool falseness = true) const {
    answer a = yes;
    auto at = [&](int i) -> perm const& { return m[((i % L) + L) % L]; };
    if (triv) for (int i=0; i+1<L+(U ? 0 : 1); ++i) if (L > 1 && at(i) == at(i+1)) return no;
    if (p) { int cut = longle ? (offset() + L - 1) % L : -1;
      for (int q=0; q<b; ++q) for (int i=0; i<L; ++i) { int run = 0; while (run < L && i + run != cut && (i + run) % L != cut && pl(at(i + run), q)) ++run; if (run + 1 > p && run > 0) return no; if (run == L) a = either; } }
    // (with rotational symmetry -y does not look at the section which holds the
    // symmetry point: a known finding, which the sub sections pins)
    if (y && G) for (int d=0; d<L; d+=sections()) for (int k=0; k<sections()-1; ++k) if (m[d+k] != m[d+sections()-2-k]) { int t = (L/4 - 1) / sections() * sections(); if (!strict && (skew || (sym && dbl)) && !floating && (d == t || d == (t + L/2) % L || U % 2 == 0)) a = either; else return no; }
    bool counted = cls == delight || cls == strict_delight || cls >= exercise;
    if (counted && !floating && ((U % 2 == 0 && (sym || skew || dbl)) || (zf % 2 && (skew || dbl)))) a = either; else if (counted) { int ext = 0, tot = 0; for (int t=sections()-1; t<L; t+=sections()) if (t != L-1 && t != L/2-1) { ++tot; ext += !internal(m[t]); } if (tot == 0) a = either; else if (ext == 0 || ext == tot) return no; if (tot && cls == strict_delight && ext != 2) return no; if (tot && cls == exercise && ext < 4) return no; if (tot && cls > exercise && ext != 4 + 2*(cls - strict_exercise)) return no; }
    // the lead head
    perm lh = model::course_head(b, m);
    auto hunt_bell = [&](int x) { return x >= zf && x < zf + U; };
    if (!A) for (auto const& cy : model::cycles(lh)) if (!(cy.size() == 1 && hunt_bell(cy[0])) && (int)cy.size() != b - U) return no;
    if (r && !regular(lh, U)) return no;
    if (c && !cyclic(lh, U)) return no;
    if (anyreg) { int h = 0; while (h < b && lh[h] == h) ++h; if (h < b && !regular(lh, h)) return no; if (h == b) a = either; }
    if (e && !limited(m[L-1])) return no;
    if (parity) for (int d=0; d<L; d+=sections()) { perm x = model::rounds(b); int n[2][2] = { { 0, 0 }, { 0, 0 } }; for (int k=0; k<sections(); ++k) { ++n[k%2][(model::sign(x) < 0)]; x = model::mul(x, m[d+k]); } if (n[0][0] != n[0][1] || n[1][0] != n[1][1]) return no; }
    if (offc) { answer x = offset_cyclic(m, lh); if (x == no) return no; if (x == either) a = either; }
    if (hl == 5) { for (int k=0; k<2; ++k) { changes h(m.begin(), m.begin() + L/2 - k); perm x = model::course_head(b, h); std::reverse(x.begin(), x.end()); if (!dihedral(x)) return no; } }
    else if (hl) { changes h(m.begin(), m.begin() + (hl % 2 ? L/2 - 1 : L/2)); perm x = model::course_head(b, h); bool up = hl <= 2, ok = x[b-1] == 0; for (int i=0; ok && i+1<b-1; ++i) { int d = (x[i+1] - x[i] + (b-1)) % (b-1); if (d != (up ? 1 : b-2) % (b-1)) ok = false; } if (!ok) return no; }
    if (floating) {
      auto palin = [&](int from, int step) { for (int c=from; c<L; c+=step) { bool ok = true; for (int i=0; ok && i<L; ++i) ok = at(i) == at(c - i); if (ok) return true; } return false; };
      auto rot = [&] { for (int c=0; c<L; ++c) { bool ok = true; for (int i=0; ok && i<L; ++i) ok = at(i) == model::reverse_change(at(c - i)); if (ok) return true; } return false; };
      auto gl = [&] { if (L % 2) return false; for (int i=0; i<L; ++i) if (at(i) != model::reverse_change(at(i + L/2))) return false; return true; };
      bool S = sym, K = skew, D = dbl; if (S + K + D >= 2) S = K = D = true;
      if (S && !palin(0, 1)) return no; if (S && L % 2 == 0 && !palin(0, 2)) a = either; if (K && !rot()) return no; if (D && !gl()) return no;
    }
    if (pts) { bool unp = pts > 2; bool has = points(m, unp); if (has != (pts % 2 == 0)) return no; }
    if (cps || !groups.empty()) { bool xyz = groups.find_first_of("XYZ") != string::npos, all = groups.find('X') != string::npos && groups.find('Y') != string::npos && groups.find('Z') != string::npos; for (char x : this->falseness(m)) if (x != 'A') { if (cps) { if (isupper(x)) return no; } else if (x == '?') { if (!xyz) return no; if (!all) a = either; } else if (groups.find(x) == string::npos) return no; } }
    if (ext && !viable(m, ext == 2)) return no;
    if (falseness) { answer x = truth(m, lh); if (x == no) return no; if (x == either) a = either; }
    if (E && !limited(m[L-1])) {
      for (int k=0; k<2; ++k) { perm x; model::from_places(b, k ? vector<int>{ 0, 1 } : vector<int>(1, 0), x); changes v(m); v[L-1] = x; query q(*this); q.E = false; if (fits(x, L-1) && q.accepts(v, false) != no) return no; q.pts = 0; if (floating) q.floating = q.sym = q.skew = q.dbl = false; if ((pts || floating) && fits(x, L-1) && q.accepts(v, false) != no) a = either; }
    }
    return a;
  }
  static bool regular(perm const& lh, int h) {
    // a lead head of plain bob, or of its like with h hunt bells
    int n = lh.size(); for (int i=0; i<h; ++i) if (lh[i] != i) return false;
    // working bells in coursing order: from each lead head to the next it shifts round
    vector<int> order; for (int i=h; i<n; i+=2) order.push_back(i); vector<int> dn; for (int i=h+1; i<n; i+=2) dn.push_back(i); order.insert(order.end(), dn.rbegin(), dn.rend());
    int k = order.size(); for (int s=1; s<k; ++s) { bool ok = true; for (int i=0; ok && i<k; ++i) ok = lh[order[i]] == order[(i + s) % k]; if (ok) return true; }
    return false;
  }
  static bool cyclic(perm const& lh, int h) {
    int n = lh.size(), k = n - h; for (int i=0; i<h; ++i) if (lh[i] != i) return false;
    for (int s=1; s<k; ++s) { bool ok = true; for (int i=0; ok && i<k; ++i) ok = lh[h+i] == h + (i + s) % k; if (ok) return true; }
    return false;
  }
  // A pair of bells in adjacent places swap an even number of times in a row
  // (or, for unpaired points, stay together an even number of changes)
  bool points(changes const& m, bool paired) const {
    for (int q=0; q+1<b; ++q) {
      vector<bool> on(L); bool full = true;
      for (int i=0; i<L; ++i) { on[i] = m[i][q] == q+1 || (paired && pl(m[i], q) && pl(m[i], q+1)); full = full && on[i]; }
      if (full) continue;
      for (int i=0; i<L; ++i) if (on[i] && !on[(i+L-1)%L]) { int run = 0; while (on[(i+run)%L]) ++run; if (run % 2 == 0) return true; }
    }
    return false;
  }
  // A row of the plain course of plain bob with the treble leading
  static bool dihedral(perm const& x) {
    int n = x.size(); if (x[0] != 0) return false; vector<int> order; for (int i=1; i<n; i+=2) order.push_back(i); vector<int> dn; for (int i=2; i<n; i+=2) dn.push_back(i); order.insert(order.end(), dn.rbegin(), dn.rend());
    int k = order.size(); for (int s=0; s<k; ++s) for (int d=1; d>=-1; d-=2) { bool ok = true; for (int i=0; ok && i<k; ++i) ok = x[order[i]] == order[((d*i + s) % k + k) % k]; if (ok) return true; }
    return false;
  }
  // Cyclic when rung from the treble's last backstroke snap (principles, from anywhere)
  answer offset_cyclic(changes const& m, perm const& lh) const {
    if (!U) { for (int o=0; o<L; ++o) { changes v(m.begin() + o, m.end()); v.insert(v.end(), m.begin(), m.begin() + o); if (cyclic(model::course_head(b, v), 0)) return yes; } return no; }
    if (std::is_sorted(lh.begin(), lh.end())) return either;
    changes v(m.begin() + sections() - 2, m.end()); v.insert(v.end(), m.begin(), m.begin() + sections() - 2);
    return cyclic(model::course_head(b, v), 1) ? yes : no;
  }
  // The false lead heads with the treble fixed, and whether half the leads (or of
  // those in course) can be had: whether the graph of false pairs is bipartite
  bool viable(changes const& m, bool in_course) const {
    vector<perm> rows = gen::rows(m, model::rounds(b)); rows.pop_back(); std::set<perm> f;
    for (auto const& x : rows) for (auto const& y : rows) { perm z = model::mul(x, model::inv(y)); if (z[0] == 0 && !(in_course && model::sign(z) < 0) && !std::is_sorted(z.begin(), z.end())) f.insert(z); }
    std::map<perm, int> side; vector<perm> q(1, model::rounds(b)); side[q[0]] = 0;
    while (!q.empty()) { perm x = q.back(); q.pop_back(); int k = side[x]; for (auto const& g : f) { perm y = model::mul(x, g); auto i = side.find(y); if (i == side.end()) { side[y] = !k; q.push_back(y); } else if (i->second == k) return false; } }
    return true;
  }
  // The falseness groups of regular symmetrical major
  static std::map<perm, char> const& group_table() {
    static std::map<perm, char> t; if (!t.empty()) return t;
    static char const* rep[] = { "A23456", "B24365", "C25634", "D32546", "E24635", "F32654", "G63542", "H53462", "I54632", "K53624", "L26543", "M23564", "N34562", "O36524", "P54326", "R35642", "S34625", "T24536", "U35426", "a23465", "b25643", "c42536", "d34652", "e52463", "f54623" };
    vector<perm> d; perm x = model::rounds(8); do if (dihedral(x)) d.push_back(x); while (std::next_permutation(x.begin() + 1, x.end()));
    for (auto r : rep) { perm h = model::rounds(8); for (int i=0; i<5; ++i) h[i+1] = r[i+1] - '1'; for (auto const& g : { h, model::inv(h) }) for (auto const& y : d) for (auto const& z : d) t[model::mul(model::mul(y, g), z)] = r[0]; }
    return t;
  }
  // All the letters, with ? for those of the groups with no tenors together
  std::set<char> falseness(changes const& m) const {
    vector<perm> rows = gen::rows(m, model::rounds(b)); std::set<char> r; auto const& t = group_table();
    for (int i=0; i<L/2; ++i) for (int k=0; k<L/2; ++k) { perm z = model::mul(rows[i], model::inv(rows[k])); if (z[0] == 0) { auto f = t.find(z); r.insert(f == t.end() ? '?' : f->second); } }
    return r;
  }
  mutable std::map<perm, perm> labels;
  perm label(perm const& x) const { if (pends.size() == 1) return x; auto at = labels.find(x); if (at != labels.end()) return at->second; perm best; for (auto const& g : pends) { perm y = model::mul(g, x); if (best.empty() || y < best) best = y; } return labels[x] = best; }
  answer truth(changes const& m, perm const& lh) const {
    std::set<perm> av; for (auto const& x : avoid) av.insert(label(x));
    // With no falseness level, it is not said where the rows are to be avoided
    if (level == none || level == really_none) { for (auto const& x : gen::rows(m, start)) if (av.count(label(x))) return either; return yes; }
    auto prove = [&](vector<perm> const& rows) { std::map<perm, int> n; for (auto const& x : av) n[x] = 1; for (auto const& x : rows) if (++n[label(x)] > N) return false; return true; };
    // Without -Fs or -FP the recurrence of the start row itself goes unnoticed
    // (a known finding, which the sub start-row pins)
    bool lax = !strict && !have_start && pends.size() == 1;
    auto truth_of = [&](vector<perm> const& rows) { if (prove(rows)) return yes; if (lax && prove(vector<perm>(rows.begin() + 1, rows.end()))) return either; return no; };
    vector<perm> rows = gen::rows(m, start); perm end = rows.back(); rows.pop_back();
    // (the lead head is not part of the lead, so may be a row to avoid)
    if (level == lead) { answer a = truth_of(rows); if (a == no) return no; if (label(end) != label(start) && !av.count(label(end))) { rows.push_back(end); answer z = truth_of(rows); if (z != yes) return z; } return a; }
    if (level == course) { vector<perm> all_rows; perm at = start; do { vector<perm> l = gen::rows(m, at); at = l.back(); l.pop_back(); all_rows.insert(all_rows.end(), l.begin(), l.end()); } while (at != start); (void)lh; return truth_of(all_rows); }
    vector<perm> first(rows.begin(), rows.begin() + L/2), second(rows.begin() + L/2, rows.end());
    answer a = truth_of(first);
    if (a != yes) return a;
    if (avoid.empty() && !prove(second)) { if (pends.size() > 1 && (sym || dbl || skew)) return either; return no; }
    // the half-lead head and the lead head
    vector<perm> x(first); x.push_back(second.empty() ? end : second[0]); if (!prove(x) && label(x.back()) != label(first.back())) return either;
    x.push_back(end); if (!prove(x)) return either; x = first; x.push_back(end); if (!prove(x)) return either; x = second; x.push_back(end); if (!prove(x)) return either;
    return yes;
  }

  // Positions which the symmetry ties together
  struct orbits { vector<int> rep; vector<bool> rev; vector<bool> selfrev; };
  orbits tie() const {
    orbits o; o.rep.assign(L, -1); o.rev.assign(L, false); o.selfrev.assign(L, false);
    bool S = sym, K = skew, D = dbl; if (floating) S = K = D = false; else if (S + K + D >= 2) S = K = D = true;
    for (int i=0; i<L; ++i) if (o.rep[i] < 0) {
      vector<int> q(1, i); o.rep[i] = i;
      while (!q.empty()) { int k = q.back(); q.pop_back(); auto go = [&](int t, bool r) { t = ((t % L) + L) % L; bool rv = o.rev[k] != r; if (o.rep[t] < 0) { o.rep[t] = i; o.rev[t] = rv; q.push_back(t); } else if (o.rev[t] != rv) o.selfrev[i] = true; };
        if (S) go(2 * (offset() - 1) - k, false); if (D) go(k + L/2, true); if (K) go(L/2 - 2 + 2*offset() - k, true); }
    }
    return o;
  }
  // For each position, the changes that may be there, whatever is elsewhere
  vector<vector<perm>> options(orbits const& o) const {
    vector<vector<perm>> r(L);
    for (int i=0; i<L; ++i) if (o.rep[i] == i) for (auto const& c : all) {
      bool ok = !(o.selfrev[i] && model::reverse_change(c) != c);
      for (int t=0; ok && t<L; ++t) if (o.rep[t] == i) ok = fits(o.rev[t] ? model::reverse_change(c) : c, t);
      if (ok) r[i].push_back(c);
    }
    return r;
  }
  double size() const { orbits o = tie(); vector<vector<perm>> v = options(o); double n = 1; for (int i=0; i<L; ++i) if (o.rep[i] == i) n *= v[i].empty() ? 3 : v[i].size(); return n; }
  // Roughly how many the program has to look at: it applies masks to the changes
  // it chooses, not to those copied from them
  double effort() const { orbits o = tie(); query q(*this); for (int i=0; i<L; ++i) if (o.rep[i] != i) q.mask[i] = slot(); return q.size(); }
  // All methods with their answers
  template <class F> void each(F f) const {
    orbits o = tie(); vector<vector<perm>> v = options(o); changes m(L);
    std::function<void(int)> go = [&](int i) {
      while (i < L && o.rep[i] != i) { m[i] = o.rev[i] ? model::reverse_change(m[o.rep[i]]) : m[o.rep[i]]; ++i; }
      if (i == L) { f(m); return; }
      for (auto const& c : v[i]) { m[i] = c; if (triv && i && m[i-1] == c) continue; go(i+1); }
    };
    go(0);
  }

  // Is this one of them, but for what accepts() looks at?
  bool fits(changes const& m) const {
    if ((int)m.size() != L) return false;
    orbits o = tie();
    for (int i=0; i<L; ++i) { perm c = m[o.rep[i]]; if (o.rev[i]) c = model::reverse_change(c); if (m[i] != c || (o.selfrev[i] && model::reverse_change(c) != c) || !fits(m[i], i)) return false; }
    return true;
  }
  answer answer_to(changes const& m) const { return fits(m) ? accepts(m) : no; }
  // A method that mostly is what is wanted
  bool some(Src& s, changes& m) const {
    orbits o = tie(); vector<vector<perm>> v = options(o); m.assign(L, perm());
    for (int i=0; i<L; ++i) { if (o.rep[i] != i) m[i] = o.rev[i] ? model::reverse_change(m[o.rep[i]]) : m[o.rep[i]]; else { if (v[i].empty()) return false; m[i] = s.pick(v[i]); if (i && m[i] == m[i-1]) m[i] = s.pick(v[i]); } }
    return true;
  }

  static string expr(vector<perm> const& v) { if (v.size() == 1) return model::text(v[0]); string s = "{"; for (size_t i=0; i<v.size(); ++i) s += (i ? "," : "") + model::text(v[i]); return s + "}"; }
  string mask_text(Src& s) const {
    // Runs of given changes, ?, and one *; above and below parts as blocks
    vector<string> blocks; bool star = false; string cur; auto one = [&](vector<perm> const& v) { if (v.size() == 1) return model::full_pn(v[0], s.pickc("xX-")); string t = "("; for (size_t i=0; i<v.size(); ++i) t += (i ? "|" : "") + model::full_pn(v[i], s.pickc("xX-")); return t + ")"; };
    for (int i=0; i<L; ) {
      if (mask[i].given && mask[i].split) {
        int k = i; string a, c; while (k < L && mask[k].given && mask[k].split) { if (k > i) { a += "."; c += "."; } a += mask[k].qa ? string("?") : one(mask[k].a); c += mask[k].qb ? string("?") : one(mask[k].b); ++k; }
        if (!cur.empty()) blocks.push_back(cur); cur.clear(); blocks.push_back(a + "/" + c); i = k; continue;
      }
      int k = i; while (k < L && !mask[k].given) ++k;
      if (k > i) { if (!cur.empty()) cur += "."; if (!star && s.coin()) { cur += "*"; star = true; } else for (int q=i; q<k; ++q) cur += q > i ? s.coin() ? ".?" : "?" : "?"; i = k; }
      else { if (!cur.empty()) cur += "."; cur += one(mask[i].a); ++i; }
      if (s.chance(1,6)) { blocks.push_back(cur); cur.clear(); }
    }
    if (!cur.empty()) blocks.push_back(cur);
    string r; for (size_t i=0; i<blocks.size(); ++i) r += (i ? "," : "") + string(s.chance(1,6) && blocks[i].find('/') == string::npos ? "+" : "") + blocks[i];
    return r;
  }
  vector<string> args(Src& s) const {
    vector<string> v; auto add = [&](string const& x) { v.push_back(x); }; auto num = [&](string const& sh, string const& lg, int n) { if (sh.empty() || s.chance(1,3)) add("--" + lg + "=" + std::to_string(n)); else add("-" + sh + std::to_string(n)); };
    auto flag = [&](bool on, string const& sh, string const& lg) { if (on) { if (sh.empty() || s.chance(1,3)) add("--" + lg); else add("-" + sh); } };
    num("b", "bells", b); if (U != 1 || s.chance(1,6)) { if (U) num("U", "hunts", U); else { if (s.coin()) add("-U0"); else add("-U"); } } if (!U) num("n", "changes-per-lead", L);
    if (G) num("G", "treble-dodges", G); if (U && (zf != 0 || zb != b-1)) add("-Z" + (zf == 0 && s.coin() ? "" : model::sym(zf)) + "-" + (zb == b-1 && s.coin() ? "" : model::sym(zb)));
    flag(sym, "s", "symmetric"); flag(skew, "k", "rotational"); flag(dbl, "d", "double"); flag(mirror, "", "mirror"); flag(floating, "", "floating-sym");
    if (p) { if (p == 2 && s.coin()) add("-p"); else num("p", "blows-per-place", p); } if (l) { if (l == 2 && s.coin()) add("-l"); else num("l", "places-per-change", l); } if (j) { if (j == 1 && s.coin()) add("-j"); else num("j", "max-adj-places", j); }
    flag(longle, "", "long-le-place"); flag(w, "w", "right-place"); flag(f, "f", "no-78s"); flag(y, "y", "symmetric-sections");
    flag(cls == surprise, "S", "surprise"); flag(cls == treble_bob, "T", "treble-bob"); flag(cls == delight, "", "delight"); flag(cls == strict_delight, "", "strict-delight"); flag(cls == thirds, "", "3rds-place-delight"); flag(cls == fourths, "", "4ths-place-delight");
    flag(A, "A", "all-methods"); flag(r, "r", "regular"); flag(c, "c", "cyclic"); flag(e, "e", "restricted-le"); flag(E, "E", "prefer-restricted-le"); flag(anyreg, "", "any-regular-hl");
    flag(hl == 1, "", "cyclic-hle"); flag(hl == 2, "", "cyclic-hlh"); flag(hl == 3, "", "rev-cyclic-hle"); flag(hl == 4, "", "rev-cyclic-hlh"); flag(hl == 5, "", "regular-hls"); flag(offc, "", "offset-cyclic"); flag(parity, "P", "parity-hack");
    flag(cls == exercise, "", "exercise"); flag(cls == strict_exercise, "", "strict-exercise"); flag(cls == tria, "", "pas-alla-tria"); flag(cls == tessera, "", "pas-alla-tessera");
    flag(pts == 1, "", "no-points"); flag(pts == 2, "", "has-points"); flag(pts == 3, "", "no-unpaired-points"); flag(pts == 4, "", "has-unpaired-points");
    if (!triv && s.coin()) add("-Fx");
    if (level_given) { static char const* sh[] = { "", "n", "h", "l", "c" }; static char const* lg[] = { "", "none", "half-lead", "lead", "course" }; add(string("-F") + (s.chance(1,3) ? lg[level] : sh[level])); }
    if (!triv && std::find(v.begin(), v.end(), "-Fx") == v.end()) add("-Fx");
    if (cps) add("-FCPS"); if (!groups.empty()) { string t; for (size_t i=0; i<groups.size(); ++i) { size_t k = i; auto can = [&](char c) { return isalpha(c) && groups[i] < c && (isupper(groups[i]) != 0) == (isupper(c) != 0); }; while (k+1 < groups.size() && groups[k+1] == groups[k] + 1 && can(groups[k+1])) ++k; t += groups[i]; if (k > i && s.coin()) { t += "-"; t += groups[k]; i = k; } } add("-F:" + t); }
    if (ext) add(ext == 1 ? s.coin() ? "-Fe" : "-Fextent" : s.coin() ? "-Fe+" : "-Fpositive-extent");
    if (N != 1) add("-FN=" + std::to_string(N)); if (have_start) add("-Fs=" + model::text(start));
    if (!avoid.empty()) { if (s.coin()) add("-Fr=" + expr(avoid)); else for (auto const& x : avoid) add("-Fr=" + model::text(x)); } if (!pends_gen.empty()) { if (s.coin()) add("-FP=" + expr(pends_gen)); else for (auto const& x : pends_gen) add("-FP=" + model::text(x)); }
    if (have_changes) { string t = excl ? "!" : ""; for (size_t i=0; i<list.size(); ++i) t += (i ? "," : "") + model::full_pn(list[i], s.pickc("xX-")); add("--changes=" + t); }
    if (have_mask) add("-m" + mask_text(s));
    if (!prefix.empty()) add("--prefix=" + gen::spell_plain(prefix));
    for (size_t i=0; i+1<v.size(); ++i) if (v[i].compare(0, 2, "-F") && v[i].compare(0, 2, "--")) { size_t k = i + s.below(v.size()-i); if (v[k].compare(0, 2, "-F")) std::swap(v[i], v[k]); }
    return v;
  }
};

// A query whose methods can all be enumerated
inline query gen_query(Src& s, double limit = 6000) {
  query q; q.b = s.chance(1,10) ? 3 : s.range(4, 6); q.zb = q.b - 1;
  int u = s.below(8); q.U = u < 5 ? 1 : u < 6 ? 2 : u < 7 ? 0 : s.coin() ? 3 : 0; if (q.U * 2 > q.b) q.U = 1;
  if (!q.U) q.L = s.chance(1,6) ? s.range(2, 9) : 2 * s.range(1, 5);
  if (q.U && q.b % 2 == 0 && s.chance(2,5)) q.G = q.b == 4 && s.chance(1,4) ? 2 : 1;
  if (q.U == 1 && s.chance(1,8)) { q.zf = s.below(q.b - 1); q.zb = s.range(q.zf + 1, q.b - 1); if (q.G && (q.zb - q.zf) % 2 == 0) q.G = 0; }
  q.ready(); bool little = q.U && (q.zf || q.zb != q.b-1); bool inv = !q.U || q.zf == q.b-1-q.zb;
  if (q.L % 2 == 0) { switch (s.below(8)) { case 0: case 1: case 2: q.sym = true; break; case 3: if (inv) q.dbl = true; break; case 4: if (inv) q.skew = true; break; case 5: if (inv) { int k = s.below(4); q.sym = k != 0; q.skew = k != 1; q.dbl = k != 2; } break; default:; } }
  if (inv && s.chance(1,12)) q.mirror = true;
  if ((q.sym || q.skew || q.dbl) && s.chance(1,8)) q.floating = true;
  if (s.chance(2,5)) q.p = s.range(1, 4) + (s.chance(4,5) && 1 ? 1 : 0); if (q.p == 1) q.p = 2;
  if (s.chance(1,4)) q.l = s.range(2, 4); if (s.chance(1,6)) q.j = s.range(1, 3);
  if (q.p && s.chance(1,6)) q.longle = true;
  if (!little && q.U <= 1 && (q.U || q.b % 2 == 0) && s.chance(1,8)) q.w = true;
  if (q.U <= 1 && !q.mirror && s.chance(1,8)) q.f = true;
  if (q.G && s.chance(1,6)) q.y = true;
  if ((q.G || s.chance(1,4)) && q.U && (q.zb - q.zf) % 2 && s.chance(1,3)) { q.cls = (cls_t)s.range(1, 3); if (q.cls == delight && q.sym && !q.floating && s.chance(1,3)) q.cls = strict_delight; if (q.b == 6 && !little && q.U == 1 && !q.skew && !q.dbl && s.chance(1,3)) q.cls = s.coin() ? thirds : fourths; }
  q.A = s.coin(); if (!q.zf) { int k = s.below(8); if (k == 0 && q.U) q.r = true; if (k == 1) q.c = true; if (k == 2) q.anyreg = true; if (k < 3 && s.chance(1,6)) { if (q.U && s.coin()) q.r = true; if (s.coin()) q.c = true; if (s.coin()) q.anyreg = true; } } if (q.U == 1 && !q.zf && s.chance(1,8)) q.e = true;
  if (q.U == 1 && !little && s.chance(1,12)) q.hl = s.range(1, 4);
  if (s.chance(1,10)) q.pts = s.range(1, 4);
  if (q.r && q.U == 1 && !little && !q.hl && s.chance(1,3)) q.hl = 5;
  if (q.G % 2 && q.sym && !q.floating && !q.skew && !q.dbl && q.U == 1 && s.chance(1,5)) q.parity = true;
  if (!q.zf && (!q.U || (q.U == 1 && q.G)) && !q.floating && s.chance(1,10)) q.offc = true;
  // falseness
  if (s.chance(1,8)) { q.triv = false; q.level = really_none; }
  if (s.coin()) { q.level_given = true; q.level = (level_t)s.range(none, course); if (q.level == half && q.L % 2) q.level = lead; }
  if (q.U == 1 && !q.zf && (q.level == lead || q.level == course) && s.chance(1,8)) q.ext = q.G ? 2 : s.range(1, 2);
  if (s.chance(1,10) && !q.ext) q.N = s.range(2, 3);
  if (s.chance(1,8) && q.N == 1) { int k = s.range(1, 5); while (k--) { perm x = model::gen_perm(s, q.b); if (s.coin()) { changes m; for (int i=0; i<q.L/2; ++i) { vector<perm> o; for (auto const& c : q.all) if (q.follows(c, i)) o.push_back(c); if (o.empty()) break; m.push_back(s.pick(o)); } x = model::course_head(q.b, m); } q.avoid.push_back(x); } }
  if (s.chance(1,10)) { q.have_start = true; q.start = model::gen_perm(s, q.b); }
  if (s.chance(1,8)) { int k = s.range(1, 2); while (k--) { perm x = model::gen_perm(s, q.b); if (s.coin() && q.zf == 0) { perm y = model::gen_perm(s, q.b - 1); x = perm(1, 0); for (int v : y) x.push_back(v + 1); } q.pends_gen.push_back(x); } }
  // (with an even number of hunts, treble dodging, the rotational symmetry point
  // is taken to be in the wrong place: a known finding, which the sub symmetry-point pins)
  if (q.U && q.U % 2 == 0 && q.G && !q.floating && (q.skew || (q.sym && q.dbl))) { q.skew = false; if (q.sym) q.dbl = false; }
  q.ready(); for (size_t i=0; i<q.avoid.size(); ) if (q.label(q.avoid[i]) == q.label(q.start)) q.avoid.erase(q.avoid.begin() + i); else ++i;
  // changes, masks
  if (s.chance(1,6)) { q.have_changes = true; q.excl = s.coin(); int k = s.range(1, q.excl ? 4 : 7); while (k--) q.list.push_back(s.pick(q.all)); }
  if (q.U == 1 && !little && !q.mirror && !q.j && !(q.l && q.l < 3) && !q.have_changes && !q.w && !q.skew && !q.dbl && !q.hl && !q.e && s.chance(1,8)) q.E = true;
  bool masks = !q.E && !(q.U == 0 && (q.l || q.j || q.have_changes || q.mirror || q.w || q.f || !q.triv || true) && (q.l || q.j || q.have_changes || q.mirror || q.w || q.f)) && !((q.w || q.f) && (q.sym || q.skew || q.dbl));
  auto legal = [&](int t) { vector<perm> o; query x(q); x.mask[t] = slot(); for (auto const& c : q.all) if (x.fits(c, t)) o.push_back(c); return o; };
  auto give = [&](int t) { vector<perm> o = legal(t); if (o.empty()) return; slot m; m.given = true; m.split = q.U == 1 && s.chance(1,4); int k = s.chance(1,4) ? s.range(2, 3) : 1; while (k--) m.a.push_back(q.U && s.chance(1,15) && !m.split ? s.pick(q.all) : s.pick(o)); m.qa = false; if (m.split) { k = s.range(0, 2); m.qb = k == 0; while (k--) m.b.push_back(s.pick(o)); if (s.chance(1,4) && !m.qb) { m.qa = true; m.a.clear(); } } q.mask[t] = m; q.have_mask = true; };
  if (masks && s.chance(1,5)) { int k = s.range(1, 4); while (k--) give(s.below(q.L)); }
  if (!q.E && s.chance(1,12)) { int k = s.range(1, q.L); for (int i=0; i<k; ++i) { vector<perm> o = legal(i); if (o.empty()) break; q.prefix.push_back(s.pick(o)); } }
  // cut it down to size
  int tries = 40;
  while (q.size() > limit || q.effort() > 30 * limit) {
    if (!tries--) { s.discard(); }
    if (masks && s.chance(2,3)) { query::orbits o = q.tie(); int t = s.below(q.L); if (s.coin()) t = o.rep[t]; if (q.mask[o.rep[t]].given) continue; vector<perm> c = q.options(o)[o.rep[t]]; if (c.empty()) continue; slot m; m.given = true; m.qa = m.qb = false; perm x = s.pick(c); m.a.push_back(o.rev[t] ? model::reverse_change(x) : x); if (!q.mask[t].given) { q.mask[t] = m; q.have_mask = true; } }
    else if (!q.E && !q.have_changes && (q.U || !q.have_mask)) { q.have_changes = true; q.excl = false; int k = s.range(4, 7); while (k--) q.list.push_back(s.pick(q.all)); }
    else if (!q.l && !q.E && (q.U || !q.have_mask)) q.l = 2; else if (!q.E && q.prefix.size() < (size_t)q.L) { vector<perm> o = legal(q.prefix.size()); if (!o.empty()) q.prefix.push_back(s.pick(o)); }
  }
  // (with sections above and below the treble anywhere, alternatives elsewhere are
  // applied above and below it independently)
  bool split = false; for (auto const& m : q.mask) split = split || (m.given && m.split);
  if (split) for (int t=0; t<q.L; ++t) { slot& m = q.mask[t]; if (m.given && !m.split && !q.follows(m.a[0], t)) m = slot(); }
  if (split) for (auto& m : q.mask) if (m.given && !m.split && m.a.size() > 1) m.a.resize(1);
  return q;
}

// Symmetrical treble dodging methods on 6 to 12 bells, with a mask which leaves
// but a few of the changes open, and restrictions which mostly suit one of them
inline query gen_major(Src& s, double limit = 400) {
  query q; q.b = s.pick(vector<int>{ 6, 8, 8, 8, 8, 10, 12 }); q.zb = q.b - 1; q.U = 1; q.G = q.b < 8 && s.chance(1,4) ? 3 : 1; q.sym = true; q.A = true; q.level = none; q.ready();
  if (s.chance(1,6)) q.dbl = true;
  query::orbits o = q.tie(); vector<vector<perm>> v = q.options(o);
  vector<int> cross, free; for (int i=0; i<q.L; ++i) if (o.rep[i] == i) { if (i % q.sections() == q.sections() - 1) cross.push_back(i); free.push_back(i); }
  for (int i : free) {
    if (v[i].empty()) return q;
    slot m; m.given = true; m.qa = m.qb = false; m.a.push_back(s.pick(v[i])); perm x; model::from_places(q.b, vector<int>(), x); if (i % 2 == 0 && s.coin() && std::find(v[i].begin(), v[i].end(), x) != v[i].end()) m.a[0] = x;
    if (i && q.mask[i-1].given && q.mask[i-1].a[0] == m.a[0]) m.a[0] = s.pick(v[i]);
    if (i % q.sections() == q.sections() - 1 && i != q.L-1 && i != q.L/2-1 && s.chance(2,5)) { vector<perm> o; for (auto const& c : v[i]) if (!internal(c)) o.push_back(c); if (!o.empty()) m.a[0] = s.pick(o); }
    if ((i == q.L-1 || i == q.L/2-1) && s.chance(4,5)) { vector<perm> o; for (auto const& c : v[i]) if (model::places(c).size() == 2 && (i != q.L-1 || q.limited(c))) o.push_back(c); if (!o.empty()) m.a[0] = s.pick(o); }
    q.mask[i] = m; }
  q.have_mask = true; double size = 1; bool counts = s.chance(2,3), regular_only = s.chance(2,3);
  for (int k=0; k<200 && size < limit / 2; ++k) {
    int i = counts && s.coin() ? s.pick(cross) : s.pick(free); slot& m = q.mask[i]; if (!m.given) continue;
    double w = size / m.a.size(); if (s.coin() && w * v[i].size() <= limit) { m = slot(); size = w * v[i].size(); continue; }
    if (w * (m.a.size() + 1) > limit) continue; perm x = s.pick(v[i]); if (std::find(m.a.begin(), m.a.end(), x) == m.a.end()) { m.a.push_back(x); size = w * m.a.size(); }
  }
  // one of them, and what is true of it
  vector<changes> ms, reg, off; q.each([&](changes const& m) { ms.push_back(m); if (query::regular(model::course_head(q.b, m), 1)) reg.push_back(m); if (q.offset_cyclic(m, model::course_head(q.b, m)) == yes) off.push_back(m); });
  changes one; bool offset = s.chance(1,5) && !off.empty(); if (offset) { one = s.pick(off); regular_only = false; }
  else if (regular_only && !reg.empty()) { one = s.pick(reg); if (q.b == 8 && s.chance(1,3)) { size_t least = 99; for (auto const& m : reg) { size_t n = 0; for (char x : q.falseness(m)) n += isupper(x) || x == '?'; if (n < least) { least = n; one = m; } } } } else if (!ms.empty()) one = s.pick(ms);
  auto suit = [&](std::function<void()> f) { query was(q); f(); if (!one.empty() && (!q.fits(one) || q.accepts(one) == no) && !s.chance(1,20)) q = was; };
  if (s.coin()) suit([&] { q.A = false; });
  if (regular_only || s.chance(1,4)) suit([&] { q.r = true; });
  if (s.coin()) { q.level_given = true; suit([&] { q.level = half; }); suit([&] { q.level = lead; }); if (q.b <= 8) suit([&] { q.level = course; }); } else { suit([&] { q.level = lead; }); if (q.level == none) q.level_given = true; }
  if (counts) { vector<cls_t> cs = { surprise, treble_bob, delight, strict_delight, exercise, strict_exercise, tria, tessera }; for (int k=0; k<16 && q.cls == any; ++k) suit([&] { q.cls = s.pick(cs); }); }
  if (q.r && q.b == 8 && s.chance(3,4)) { if (s.chance(1,4)) suit([&] { q.cps = true; }); if (!q.cps) { std::set<char> f; if (!one.empty()) f = q.falseness(one); f.erase('A'); static string const all = "BCDEFGHIKLMNOPRSTUabcdefXYZ"; int d = s.range(0, 3); bool xyz = s.coin() || f.count('?'); for (char x : all) if ((x >= 'X' && x <= 'Z') ? xyz : (f.count(x) && !s.chance(1,20)) || s.chance(d, 6)) q.groups += x; if (q.groups.empty()) q.groups = "A"; } }
  if (q.r && s.chance(1,3)) suit([&] { q.hl = 5; });
  if (offset || s.chance(1,8)) suit([&] { q.offc = true; }); if (s.chance(1,3)) suit([&] { q.c = true; }); if (s.chance(1,3)) suit([&] { q.parity = true; });
  if (s.coin()) { int n = s.range(2, 4); suit([&] { q.p = n; }); } if (s.chance(1,4)) suit([&] { q.y = !q.dbl; }); if (s.chance(1,6)) suit([&] { q.e = true; });
  if (q.b == 6 && q.level >= lead && s.chance(1,3)) suit([&] { q.ext = 2; });
  return q;
}
}
#endif
