// C16 - precomputed multiplication tables
#include "lib.h"
#include <ringing/multtab.h>
#include <ringing/group.h>
#include <ringing/extent.h>
using namespace lib; using namespace model; using namespace pbt;
using model::perm;

static vector<perm> closure(vector<perm> const& gens, int n, size_t limit) {
  std::set<perm> g; vector<perm> v(1, rounds(n)); g.insert(v[0]);
  for (size_t i=0; i<v.size() && v.size() <= limit; ++i) for (auto const& x : gens) { perm q = mul(v[i], x); if (g.insert(q).second) v.push_back(q); }
  if (v.size() > limit) return vector<perm>(); return vector<perm>(g.begin(), g.end());
}
static vector<row> to_rows(vector<perm> const& v) { vector<row> r; for (auto const& p : v) r.push_back(to_row(p)); return r; }
static string rowlist(vector<perm> const& v) { string r; for (auto const& p : v) r += " " + text(p); return r; }
// A group to make a table of: the extent, or something smaller
static vector<perm> gen_group(Src& s, int& n, string& kind) {
  int what = s.below(5);
  if (what == 0) { n = s.range(2, 5); kind = "extent"; vector<perm> v; perm p = rounds(n); do v.push_back(p); while (std::next_permutation(p.begin(), p.end())); return v; }
  if (what == 1) { n = s.range(3, 6); kind = "extent with fixed treble"; vector<perm> v; perm p = rounds(n); do v.push_back(p); while (std::next_permutation(p.begin() + 1, p.end())); return v; }
  for (;;) { n = s.range(2, 8); int k = s.range(1, 3); vector<perm> g; for (int i=0; i<k; ++i) g.push_back(what == 2 ? gen_change(s, n) : gen_perm(s, n)); kind = "generated"; vector<perm> v = closure(g, n, 360); if (!v.empty()) return v; if (k == 1 && s.chance(1,3)) s.discard(); }
}

SUB_CPU(tables, 12000, 150000, 60, "tables of groups of up to 360 rows on up to 8 bells, divided by groups of part ends and, where that makes sense, whole courses: rows and products of either kind against the cosets; non-trivial with 6 or more entries and a group to divide by") {
  int n; string kind; vector<perm> G = gen_group(s, n, kind); s.label(kind);
  vector<perm> P(1, rounds(n)), Q(1, rounds(n)), pg, qg; bool haveP = s.chance(3,4), haveQ = s.chance(1,3);
  if (haveP) { pg.push_back(s.pick(G)); if (s.chance(1,4)) pg.push_back(s.pick(G)); P = closure(pg, n, 400); }
  if (haveQ) { qg.push_back(s.pick(G)); Q = closure(qg, n, 400); std::set<perm> p(P.begin(), P.end()); for (auto const& g : G) for (auto const& q : Q) if (q != Q[0] && p.count(mul(mul(g, q), inv(g)))) { haveQ = false; break; } if (!haveQ) { Q = vector<perm>(1, rounds(n)); } }
  s.note(str() << kind << " of " << G.size() << " on " << n << ", part ends" << rowlist(pg) << (haveQ ? ", courses" + rowlist(qg) : "")); if (haveQ && Q.size() > 1) s.label("with a group on the right");
  // one of each coset gQ
  vector<perm> R; { std::set<perm> seen; for (auto const& g : G) if (!seen.count(g)) { vector<perm> c; for (auto const& q : Q) { c.push_back(mul(g, q)); seen.insert(c.back()); } std::sort(c.begin(), c.end()); R.push_back(s.coin() ? c[0] : s.pick(c)); } }
  std::sort(R.begin(), R.end());
  // the classes: the least row of R in P r Q
  std::map<perm, perm> rep; for (auto const& r : R) { if (rep.count(r)) continue; for (auto const& p : P) for (auto const& q : Q) rep[mul(mul(p, r), q)] = r; }
  std::set<perm> reps; for (auto const& x : rep) reps.insert(x.second);
  s.nontrivial(reps.size() >= 6 && P.size() * Q.size() > 1);
  vector<perm> given(R); if (s.coin()) { for (size_t i=0; i+1<given.size(); ++i) std::swap(given[i], given[i + s.below(given.size() - i)]); }
  vector<row> rows = to_rows(given); bool sorted = haveP || haveQ;
  auto make = [&]() -> multtab {
    if (haveQ) return multtab(rows.begin(), rows.end(), group(to_rows(P)), group(to_rows(Q)));
    if (haveP && pg.size() == 1 && s.coin()) return multtab(rows.begin(), rows.end(), to_row(pg[0]));
    if (haveP) return multtab(rows.begin(), rows.end(), group(to_rows(pg)));
    return multtab(rows.begin(), rows.end()); };
  multtab t = make();
  CHECK_EQ(t.size(), reps.size(), "size of the table"); CHECK_EQ(t.bells(), n, "bells"); CHECK_EQ(t.group_size(), P.size(), "number of part ends"); CHECK_EQ(t.partends().size(), P.size(), "part ends");
  std::map<size_t, perm> by; { std::set<perm> seen; size_t k = 0; for (multtab::row_iterator i = t.begin_rows(); i != t.end_rows(); ++i, ++k) { CHECK_EQ(i->index(), k, "index"); perm p = from_row(t.find(*i)); CHECK(reps.count(p), text(p) << " is in the table, but is not the first row of a coset"); CHECK(seen.insert(p).second, text(p) << " is in the table twice"); by[k] = p; CHECK(t.find(to_row(p)) == *i, "finding " << text(p)); CHECK(multtab::row_t::from_index(k) == *i, "from_index"); } CHECK_EQ(k, reps.size(), "rows iterated over"); }
  if (sorted && rep[rounds(n)] == rounds(n)) CHECK(t.find(row(n)).isrounds() && t.find(to_row(s.pick(P))).isrounds(), "rounds, and the part ends, are the first row");
  for (int k=0; k<20; ++k) { perm g = s.pick(G); auto i = t.find(to_row(g)); CHECK_EQ(text(by[i.index()]), text(rep[g]), "finding " << text(g)); }
  // columns, in any order, of either kind, sometimes again
  auto commutes = [&](perm const& x, vector<perm> const& H) { for (auto const& h : H) if (mul(x, h) != mul(h, x)) return false; return true; };
  struct colm { bool pre; perm x; multtab::pre_col_t a; multtab::post_col_t b; }; vector<colm> cols;
  int nc = s.range(1, 8);
  for (int k=0; k<nc; ++k) {
    colm c; c.pre = s.chance(1,3); if (!cols.empty() && s.chance(1,5)) { c.x = s.pick(cols).x; } else if (s.chance(1,4)) { c.x = s.pick(c.pre ? P : Q); } else c.x = s.pick(G);
    vector<perm> const& H = c.pre ? P : Q; if (!commutes(c.x, H) && s.chance(2,3)) { vector<perm> ok; for (auto const& g : G) if (commutes(g, H)) ok.push_back(g); c.x = s.pick(ok); }
    bool ok = commutes(c.x, H), threw = false; s.note(str() << (c.pre ? "pre " : "post ") << text(c.x));
    try { if (c.pre) c.a = t.compute_pre_mult(to_row(c.x)); else c.b = t.compute_post_mult(to_row(c.x)); } catch (std::logic_error const&) { threw = true; }
    CHECK_EQ(threw, !ok, (c.pre ? "premultiplying" : "postmultiplying") << " by " << text(c.x) << " which " << (ok ? "commutes" : "does not commute") << " with the group"); if (!ok) { s.label("does not commute"); continue; }
    CHECK(c.pre ? !c.a.null() : !c.b.null(), "column"); for (auto const& d : cols) { if (d.pre == c.pre) { CHECK_EQ(c.pre ? c.a == d.a : c.b == d.b, c.x == d.x, "columns are equal if their rows are: " << text(c.x) << ", " << text(d.x)); } }
    cols.push_back(c);
  }
  if (s.coin()) { perm ch = gen_change(s, n); perm x = mul(rounds(n), perm()); x = model::apply(rounds(n), ch); if (rep.count(x) && commutes(x, Q)) { colm c; c.pre = false; c.x = x; c.b = t.compute_post_mult(to_change(ch)); cols.push_back(c); s.label("column of a change"); } }
  auto look = [&](multtab const& T, vector<colm> const& C, string const& what) { for (auto const& c : C) for (auto i = T.begin_rows(); i != T.end_rows(); ++i) { perm r = by[i->index()]; perm w = rep[c.pre ? mul(c.x, r) : mul(r, c.x)]; auto got = c.pre ? c.a * *i : *i * c.b; CHECK(got.index() < T.size(), "index"); CHECK_EQ(text(by[got.index()]), text(w), what << (c.pre ? text(c.x) + " * " + text(r) : text(r) + " * " + text(c.x))); } };
  look(t, cols, "");
  { multtab u(t), v = make(); v = t; multtab w = make(); w.swap(u); vector<colm> d; for (auto const& c : cols) { colm e; e.pre = c.pre; e.x = c.x; if (c.pre) e.a = v.compute_pre_mult(to_row(c.x)); else e.b = v.compute_post_mult(to_row(c.x)); d.push_back(e); } look(v, d, "in an assigned table, ");
    for (auto& c : d) { if (c.pre) c.a = w.compute_pre_mult(to_row(c.x)); else c.b = w.compute_post_mult(to_row(c.x)); } look(w, d, "in a swapped table, "); look(t, cols, "in the table that was copied, "); CHECK_EQ(v.size(), t.size(), "size"); CHECK_EQ(w.group_size(), t.group_size(), "group"); }
  { std::ostringstream os; t.dump(os); string o = os.str(); size_t lines = std::count(o.begin(), o.end(), '\n'); CHECK_EQ(lines, t.size() + 2, "lines dumped"); for (auto const& b : by) CHECK(o.find(")  " + text(b.second) + " ") != string::npos, "row " << text(b.second) << " in " << o); }
}

SUB(square, 4000, 40000, "square tables of groups of up to 130 rows: every product of two rows; non-trivial with 6 or more rows") {
  int n = s.range(2, 8); vector<perm> g; int k = s.range(1, 2); for (int i=0; i<k; ++i) g.push_back(s.coin() ? gen_change(s, n) : gen_perm(s, n)); vector<perm> G = closure(g, n, 130); if (G.empty()) G = closure(vector<perm>(1, g[0]), n, 130); if (G.empty()) s.discard();
  s.note(str() << n << ":" << rowlist(g)); s.nontrivial(G.size() >= 6); if (s.coin()) for (size_t i=1; i+1<G.size(); ++i) std::swap(G[i], G[i + s.below(G.size() - i)]);
  vector<row> R = to_rows(G); sqmulttab t(R.begin(), R.end()); CHECK_EQ(t.size(), G.size(), "size"); sqmulttab u(t);
  for (sqmulttab const* T : { &t, &u }) for (size_t i=0; i<G.size(); ++i) { if (T == &u && i % 7) continue; auto a = T->find(R[i]); CHECK_EQ(text(from_row(T->find(a))), text(G[i]), "find"); for (size_t j=0; j<G.size(); ++j) { auto b = T->find(R[j]); auto c = a * b; CHECK_EQ(text(from_row(T->find(c))), text(mul(G[i], G[j])), text(G[i]) << " * " << text(G[j])); multtab::post_col_t col = b; multtab::row_t d = static_cast<multtab::row_t const&>(a) * col; CHECK(d == c, "product by a column"); } }
}
