// C10 - groups of rows
#include "lib.h"
#include <ringing/group.h>
using namespace lib; using namespace model; using namespace pbt;
using model::perm;

static set<perm> closure(vector<perm> const& gens, int n) {
  set<perm> g; vector<perm> todo(1, rounds(n)); g.insert(todo[0]);
  while (!todo.empty()) { perm p = todo.back(); todo.pop_back(); for (auto const& x : gens) { perm q = mul(p, x); if (g.insert(q).second) todo.push_back(q); } }
  return g;
}
static set<perm> elements(group const& g) { set<perm> s; for (auto const& r : g) { perm p = from_row(r); CHECK_EQ(p.size(), g.bells(), "bells of an element"); CHECK(s.insert(p).second, text(p) << " is in the group twice"); } CHECK_EQ(s.size(), g.size(), "size"); return s; }
static string txt(set<perm> const& g) { string r = std::to_string(g.size()) + " rows:"; int k = 0; for (auto const& p : g) { if (++k > 8) break; r += " " + text(p); } return r; }
#define SAME(g, w, ...) do { group const& g_ = (g); set<perm> a_ = elements(g_), b_ = (w); CHECK(a_ == b_, __VA_ARGS__ << ": " << txt(a_) << " but expected " << txt(b_)); } while (0)

// Generators of a group that is not too large
static vector<perm> gen_gens(Src& s, int n, size_t limit, string& kind) {
  vector<perm> g; int what = s.below(7);
  if (what == 0) { kind = "one generator"; g.push_back(gen_perm(s, n)); }
  else if (what == 1) { kind = "two generators"; g.push_back(gen_perm(s, n)); g.push_back(gen_perm(s, n)); }
  else if (what == 2) { kind = "involutions"; for (int k = s.range(1, 3); k; --k) g.push_back(gen_change(s, n)); }
  else if (what == 3) { // products of symmetric groups on scattered bells
    kind = "product of symmetric groups"; perm p = gen_perm(s, n); int at = 0;
    while (at < n) { int k = std::min(n - at, s.range(1, 4)); if (k > 1) { perm c = rounds(n); for (int i=0; i<k; ++i) c[p[at+i]] = p[at+(i+1)%k]; g.push_back(c); c = rounds(n); std::swap(c[p[at]], c[p[at+1]]); g.push_back(c); } at += k; } if (g.empty()) g.push_back(rounds(n)); }
  else if (what == 4) { // like the last but not quite, two blocks being moved together
    kind = "blocks moved together"; int k = std::max(1, n / 2); perm p = gen_perm(s, n); for (int j=0; j<2; ++j) { perm w = gen_perm(s, k), c = rounds(n); for (int i=0; i<k && k+i<n; ++i) { c[p[i]] = p[w[i]]; c[p[k+i]] = p[k+w[i]]; } if (is_perm(c)) g.push_back(c); } if (g.empty()) g.push_back(rounds(n)); }
  else if (what == 5) { kind = "on the first bells"; int k = s.range(1, std::min(n, 6)); g.push_back(pad(gen_perm(s, k), n)); g.push_back(pad(gen_perm(s, k), n)); }
  else { kind = "powers"; perm p = gen_perm(s, n); g.push_back(power(p, s.range(1, 6))); g.push_back(power(p, s.range(1, 6))); }
  // keep it small
  while (g.size() > 1) { set<perm> c; vector<perm> todo; bool big = false; c.insert(rounds(n)); todo.push_back(rounds(n));
    while (!todo.empty() && !big) { perm p = todo.back(); todo.pop_back(); for (auto const& x : g) { perm q = mul(p, x); if (c.insert(q).second) { todo.push_back(q); big = c.size() > limit; } } }
    if (!big) break; g.pop_back(); }
  if (g.size() == 1 && order(g[0]) > (long)limit) g[0] = rounds(n);
  return g;
}

SUB(generated, 18000, 180000, "groups generated by up to 16 rows on up to 10 bells: elements, conjugates, even subgroups, fixed bells and order of groups, against a closure; non-trivial with 3 or more rows") {
  int n = s.range(1, 10); string kind; vector<perm> g = gen_gens(s, n, 800, kind);
  string note; for (auto const& p : g) note += " " + text(p); s.note(note); s.label(kind);
  set<perm> want = closure(g, n); s.nontrivial(want.size() >= 3);
  vector<row> gens; for (auto const& p : g) { perm q = p; if (s.chance(1,6)) while (q.size() > 1 && q.back() == (int)q.size()-1) q.pop_back(); gens.push_back(to_row(q)); }
  if (s.chance(1,4)) { gens.push_back(gens[0]); if (s.coin()) gens.push_back(row()); }
  size_t nb = 0; for (auto const& r : gens) nb = std::max(nb, (size_t)r.bells()); { set<perm> w; for (auto p : want) { w.insert(perm(p.begin(), p.begin() + nb)); } want = w; n = nb; }
  if (n == 0) s.discard();
  group G(gens); SAME(G, want, "generated group"); CHECK_EQ((int)G.bells(), n, "bells");
  if (g.size() == 1) { group H(to_row(g[0])); if ((int)g[0].size() == n) { SAME(H, want, "group generated by a row"); CHECK(G == H && !(G != H) && G <= H && G >= H && !(G < H) && !(G > H), "the same group"); } }
  if (g.size() == 2 && gens.size() == 2) { group H(gens[0], gens[1]); SAME(H, want, "group generated by two rows"); CHECK(G == H, "the same group"); }
  perm q = gen_perm(s, n); set<perm> conj, even; for (auto const& p : want) { conj.insert(mul(mul(inv(q), p), q)); if (sign(p) > 0) even.insert(p); }
  group C = G.conjugate(to_row(q)); SAME(C, conj, "conjugate by " << text(q)); group E = G.even_subgroup(); SAME(E, even, "even subgroup");
  CHECK_EQ(G == C, want == conj, "equality with the conjugate"); CHECK_EQ(G == E, want == even, "equality with the even subgroup"); CHECK((G < C) + (C < G) + (G == C) == 1 && (G > C) == (C < G) && (G <= C) == !(C < G), "order of groups");
  for (auto H : { &G, &C, &E }) { set<perm> el = elements(*H); vector<int> inv_want, got; for (int b=0; b<n; ++b) { bool f = true; for (auto const& p : el) if (p[b] != b) f = false; if (f) inv_want.push_back(b); } for (bell b : H->invariants()) got.push_back(b); CHECK_EQ(got, inv_want, "bells that the group fixes"); }
  group X(to_row(rounds(n))), Y(G); X.swap(Y); SAME(X, want, "swapped"); CHECK_EQ(Y.size(), 1u, "swapped");
}

SUB(cosets, 12000, 120000, "labels of cosets of groups on up to 9 bells, for rows on as many bells or on fewer or more: the least row of the coset, the same for all of it and for no other row; non-trivial with 3 or more rows in the group") {
  int n = s.range(1, 9); string kind; vector<perm> g = gen_gens(s, n, 300, kind); string note; for (auto const& p : g) note += " " + text(p); s.note(note); s.label(kind);
  set<perm> el = closure(g, n); s.nontrivial(el.size() >= 3); vector<row> gens; for (auto const& p : g) gens.push_back(to_row(p)); group G(gens);
  vector<perm> els(el.begin(), el.end());
  for (int k=0; k<4; ++k) {
    int rn = s.chance(1,4) ? s.range(1, n + 3) : n; perm r = gen_perm(s, rn); if (rn != n) s.label("row of another size"); int top = std::max(n, rn); r = pad(r, top); perm left = r, right = r; r.resize(rn); if (k) s.note(""); else s.note(text(r));
    for (auto const& p : els) { right = std::min(right, mul(p, r)); left = std::min(left, mul(r, p)); }
    CHECK_EQ(pad(from_row(G.rcoset_label(to_row(r))), top), right, "label of the right coset of " << text(r)); CHECK_EQ(pad(from_row(G.lcoset_label(to_row(r))), top), left, "label of the left coset of " << text(r));
    perm e = s.pick(els); CHECK_EQ(pad(from_row(G.rcoset_label(to_row(mul(e, r)))), top), right, "label of another row of the right coset"); CHECK_EQ(pad(from_row(G.lcoset_label(to_row(mul(r, e)))), top), left, "label of another row of the left coset");
  }
}

SUB(named, 7500, 75000, "symmetric, alternating, dihedral, cyclic and trivial groups with fixed bells, and direct products: elements against their definitions; non-trivial with 3 or more working bells") {
  int what = s.below(8), nw = s.range(1, what < 2 ? 6 : 9), nh = s.coin() ? s.below(4) : 0, nt = s.coin() ? 0 : nw + nh + s.below(4); int n = nt ? nt : nw + nh;
  static char const* const nm[] = { "symmetric", "alternating", "dihedral_c", "dihedral_r", "cyclic_c", "cyclic_r", "trivial", "direct product" };
  s.note(str() << nm[what] << " " << nw << " " << nh << " " << nt); s.label(nm[what]); s.nontrivial(nw >= 3);
  // rounds with the working bells replaced
  auto put = [&](perm const& w) { perm p = rounds(n); for (int i=0; i<nw; ++i) p[nh+i] = nh + w[i]; return p; };
  perm cyc(nw), pb(nw), rev(nw); for (int i=0; i<nw; ++i) { cyc[i] = (i+1) % nw; rev[i] = nw-1-i; }
  { // plain hunting moves the bells in a cycle 1,3,5,...,6,4,2
    vector<int> ring; for (int i=0; i<nw; i+=2) ring.push_back(i); for (int i = nw - 1 - (nw % 2); i > 0; i -= 2) ring.push_back(i);
    for (int i=0; i<nw; ++i) pb[ring[(i+nw-1)%nw]] = ring[i]; }
  perm refl = rounds(nw); for (int i=1; i+1<nw; i+=2) std::swap(refl[i], refl[i+1]);
  auto all = [&](int parity) { set<perm> a; perm w = rounds(nw); do { if (!parity || sign(w) == parity) a.insert(put(w)); } while (std::next_permutation(w.begin(), w.end())); return a; };
  switch (what) {
    case 0: SAME(group::symmetric_group(nw, nh, nt), all(0), "symmetric group"); CHECK(group::symmetric(nw, nh, nt) == group::symmetric_group(nw, nh, nt), "alias"); break;
    case 1: SAME(group::alternating_group(nw, nh, nt), all(1), "alternating group"); CHECK(group::alternating(nw, nh, nt) == group::symmetric(nw, nh, nt).even_subgroup(), "even permutations"); break;
    case 2: SAME(group::dihedral_c(nw, nh, nt), closure({ put(cyc), put(rev) }, n), "dihedral group"); break;
    case 3: SAME(group::dihedral_r(nw, nh, nt), closure({ put(pb), put(refl) }, n), "dihedral group"); if (nw > 2) CHECK_EQ((int)group::dihedral_r(nw, nh, nt).size(), 2*nw, "size"); break;
    case 4: SAME(group::cyclic_c(nw, nh, nt), closure({ put(cyc) }, n), "cyclic group"); CHECK_EQ((int)group::cyclic_c(nw, nh, nt).size(), nw, "size"); break;
    case 5: SAME(group::cyclic_r(nw, nh, nt), closure({ put(pb) }, n), "cyclic group"); CHECK_EQ((int)group::cyclic_r(nw, nh, nt).size(), nw, "size"); break;
    case 6: SAME(group::trivial(n), set<perm>({ rounds(n) }), "trivial group"); CHECK_EQ(group().size(), 1u, "default group"); break;
    default: { int a = s.range(1, 5), b = s.range(1, 5); string k; vector<perm> ga = gen_gens(s, a, 30, k), gb = gen_gens(s, b, 30, k); vector<row> ra, rb; for (auto const& p : ga) ra.push_back(to_row(p)); for (auto const& p : gb) rb.push_back(to_row(p));
      set<perm> ea = closure(ga, a), eb = closure(gb, b), prod; for (auto const& p : ea) for (auto const& q : eb) { perm r = p; for (int x : q) r.push_back(x + a); prod.insert(r); }
      for (auto const& p : ga) s.note(text(p)); for (auto const& p : gb) s.note(text(p));
      SAME(group::direct_product(group(ra), group(rb)), prod, "direct product"); }
  }
}
