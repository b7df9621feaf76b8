// C01 - rows are permutations and obey the group laws
#include "lib.h"
using namespace lib; using namespace model; using namespace pbt;
namespace ringing { bool have_same_places(const change&, const change&); }
using model::perm; using model::cycles; using model::order;

static int gen_stage(Src& s, int lo) {
  switch (s.below(8)) {
    case 0: return s.range(lo, 4);
    case 6: return s.range(17, 33);
    case 7: return s.range(34, 70);
    default: return s.range(5, 16);
  }
}
static perm gen_any(Src& s, int n) {
  switch (s.below(6)) {
    case 0: { perm p = rounds(n); if (n > 1) for (int k = s.below(3); k >= 0; --k) { int i = s.below(n), j = s.below(n); std::swap(p[i], p[j]); } return p; }
    case 1: { perm p = rounds(n); if (n) std::rotate(p.begin(), p.begin() + s.below(n), p.end()); return p; }
    case 2: { // a product of cycles of chosen lengths, for large orders
      perm p = rounds(n); int i = 0;
      while (i < n) { int k = std::min(n - i, s.range(1, 9)); std::rotate(p.begin()+i, p.begin()+i+1, p.begin()+i+k); i += k; }
      perm q = gen_perm(s, n); return mul(mul(inv(q), p), q); }
    default: return gen_perm(s, n);
  }
}

SUB(products, 60000, 600000, "three rows, often of different lengths, on 0 to 70 bells, and a power from -10^9 to 10^9; products, quotients, inverses, powers and conjugates against a vector model; non-trivial when no two are equal and none is rounds") {
  int n = gen_stage(s, 0);
  bool same = s.chance(2,3);
  perm a = gen_any(s, n), b = gen_any(s, same ? n : gen_stage(s, 0)), c = gen_any(s, same ? n : gen_stage(s, 0));
  s.note("a=" + text(a) + " b=" + text(b) + " c=" + text(c));
  s.nontrivial(a != b && b != c && a != rounds(a.size()) && b != rounds(b.size()) && c != rounds(c.size()));
  s.label(same ? "same length" : "mixed lengths"); if (n > 33) s.label("more than 33 bells");
  row A = to_row(a), B = to_row(b), C = to_row(c);
  CHECK_EQ(from_row(A * B), mul(a, b), "product");
  CHECK_EQ(from_row((A * B) * C), from_row(A * (B * C)), "associativity");
  CHECK_EQ(from_row(A.inverse()), inv(a), "inverse");
  CHECK((A * A.inverse()).isrounds() && (A.inverse() * A).isrounds(), "inverse law");
  int m = std::max(a.size(), b.size());
  CHECK_EQ(from_row(A / B), mul(pad(a, m), inv(pad(b, m))), "quotient");
  CHECK_EQ(from_row((A / B) * B), pad(a, m), "quotient undoes product");
  row t(A); t *= B; CHECK_EQ(from_row(t), mul(a, b), "in-place product");
  t = A; t /= B; CHECK_EQ(from_row(t), from_row(A / B), "in-place quotient");
  t = A; t *= t; CHECK_EQ(from_row(t), mul(a, a), "square in place");
  t = A; t /= t; CHECK(t.isrounds() && t.bells() == (int)a.size(), "quotient by itself in place");
  CHECK_EQ(from_row(A.conjugate(B)), mul(mul(inv(b), a), b), "conjugate");
  long k;
  switch (s.below(4)) { case 0: k = s.range(-5, 5); break; case 1: k = s.range(-400, 400); break;
    case 2: k = (long)s.below(2000000001u) - 1000000000; break; default: k = order(a) * s.range(-3, 3) + s.range(-1, 1); }
  s.note("k=" + std::to_string(k));
  CHECK_EQ(from_row(A.power(k)), model::power(a, k), "power " << k);
  CHECK_EQ(from_row(A.power(0)), rounds(a.size()), "zeroth power");
  // ordering and equality are those of the sequences of bells
  CHECK_EQ(A == B, a == b, "equality"); CHECK_EQ(A != B, a != b, "inequality");
  CHECK_EQ(A < B, a < b, "order"); CHECK_EQ(A > B, a > b, "order");
  CHECK_EQ(A <= B, a <= b, "order"); CHECK_EQ(A >= B, a >= b, "order");
  row A2 = to_row(a); CHECK_EQ(A.hash(), A2.hash(), "hash of equal rows");
  row x(A), y(B); x.swap(y);
  CHECK(x == B && y == A, "swap");
}

SUB(invariants, 60000, 600000, "one row on 0 to 70 bells: sign, order, cycles, cycle sizes, place of each bell, rounds test, resizing; non-trivial when the row has two or more non-trivial cycles") {
  int n = gen_stage(s, 0);
  perm a = gen_any(s, n); row A = to_row(a);
  s.note(text(a));
  auto cy = cycles(a); int big = 0; for (auto& c : cy) if (c.size() > 1) ++big;
  s.nontrivial(big >= 2);
  CHECK_EQ(A.bells(), n, "length");
  CHECK_EQ(A.sign(), sign(a), "sign");
  CHECK_EQ((long)A.order(), order(a), "order");
  CHECK(A.power(A.order()).isrounds(), "order gives rounds");
  CHECK_EQ(A.isrounds(), a == rounds(n), "rounds test");
  if (n) CHECK_EQ((int)A.num_cycles(), (int)cy.size(), "number of cycles");
  for (auto& c : cy) for (int b : c) CHECK_EQ((int)A.cycle_size(b), (int)c.size(), "cycle of bell " << b);
  for (int i=0; i<n; ++i) { CHECK_EQ(A.find(bell(a[i])), i, "place of a bell"); CHECK_EQ((int)A[i], a[i], "bell in a place"); }
  for (int i=n; i<n+5; ++i) CHECK_EQ(A.find(bell(i)), i, "place of a bell beyond the end");
  if (n <= 33) {
    string t; for (auto& c : cy) { if (!t.empty()) t += ','; for (int b : c) t += sym(b); }
    CHECK_EQ(A.cycles(), t, "cycles");
  }
  { int i = 0; for (row::const_iterator j = A.begin(); j != A.end(); ++j) CHECK_EQ((int)*j, a[i++], "iteration"); CHECK_EQ(i, n, "iteration"); }
  // resizing keeps the front and refuses to cut a row in the wrong place
  int m = gen_stage(s, 0);
  s.note("resize " + std::to_string(m));
  perm w = m >= n ? pad(a, m) : perm(a.begin(), a.begin() + m);
  row R(A); bool threw = false;
  try { R.resize(m); } catch (row::invalid const&) { threw = true; }
  CHECK_EQ(threw, !is_perm(w), "resize to " << m);
  CHECK_EQ(from_row(R), threw ? a : w, "resize to " << m);
}

SUB(conjugacy, 40000, 400000, "two rows of the same length, half of them conjugate by construction; non-trivial when they differ and are conjugate") {
  int n = gen_stage(s, 1);
  perm x = gen_any(s, n), y;
  if (s.chance(1,2)) { perm r = gen_perm(s, n); y = mul(mul(inv(r), x), r); } else y = gen_any(s, n);
  s.note("x=" + text(x) + " y=" + text(y));
  std::multiset<size_t> cx, cy; for (auto& c : cycles(x)) cx.insert(c.size()); for (auto& c : cycles(y)) cy.insert(c.size());
  s.nontrivial(x != y && cx == cy);
  if (n > 33) s.label("more than 33 bells");
  row X = to_row(x), Y = to_row(y);
  CHECK_EQ(are_conjugate(X, Y), cx == cy, "conjugacy test");
  row R = conjugator(X, Y);
  if (cx == cy) {
    CHECK_EQ(R.bells(), n, "conjugator");
    perm r = from_row(R); CHECK(is_perm(r), "conjugator is a row");
    CHECK_EQ(mul(mul(inv(r), x), r), y, "conjugator " << R);
  } else CHECK_EQ(R.bells(), 0, "no conjugator");
}

SUB(changes_on_rows, 40000, 400000, "a row and 0 to 30 changes, often on different numbers of bells; the rows produced by applying the changes one by one, by a block of rows, and by the permuting function objects; non-trivial with three or more changes") {
  int n = gen_stage(s, 1), nc = s.chance(3,4) ? n : gen_stage(s, 1), k = s.below(31);
  perm start = gen_any(s, n);
  vector<perm> ch; vector<change> CH;
  string d;
  for (int i=0; i<k; ++i) { ch.push_back(gen_change(s, nc)); CH.push_back(to_change(ch.back())); d += " " + full_pn(ch.back()); }
  s.note(text(start) + " on " + std::to_string(nc) + " bells:" + d);
  s.nontrivial(k >= 3);
  vector<perm> rows(1, start);
  row r = to_row(start), R0 = r;
  permuter pp(n); row pr(R0), po(R0); row_permuter rp(pr); row_post_permuter rpo(po); post_permuter ppo(n);
  perm fromrounds = rounds(n);
  for (int i=0; i<k; ++i) {
    perm before = rows.back();
    rows.push_back(model::apply(rows.back(), ch[i]));
    CHECK_EQ(from_row(r * CH[i]), rows.back(), "change " << i);
    CHECK_EQ(from_row(r), before, "applying a change to a copy");
    r *= CH[i]; CHECK_EQ(from_row(r), rows.back(), "change " << i << " in place");
    CHECK_EQ(from_row(rp(CH[i])), rows.back(), "permuter"); CHECK_EQ(from_row(pr), rows.back(), "permuter");
    CHECK_EQ(from_row(rpo(CH[i])), before, "post-permuter"); CHECK_EQ(from_row(po), rows.back(), "post-permuter");
    perm fb = fromrounds; fromrounds = model::apply(fromrounds, ch[i]);
    CHECK_EQ(from_row(pp(CH[i])), fromrounds, "permuter from rounds");
    CHECK_EQ(from_row(ppo(CH[i])), fb, "post-permuter from rounds");
    // a change is an involution, and agrees with the row it makes from rounds
    CHECK_EQ(from_row(r * CH[i]), pad(before, std::max(before.size(), rows.back().size())), "change twice");
    CHECK_EQ(from_row(R0 * (row(nc) * CH[i])), model::apply(start, ch[i]), "change as a row");
  }
  for (int flags = 0; flags < 4; ++flags) {
    row_block B(CH, R0, flags);
    size_t len = (flags & 2 ? k/2 : k) + (flags & 1 ? 0 : 1);
    CHECK_EQ(B.size(), len, "block with flags " << flags);
    for (size_t i=0; i<len; ++i) CHECK_EQ(from_row(B[i]), rows[i], "block row " << i << " with flags " << flags);
    if (len) {
      perm st2 = gen_any(s, n); B.set_start(to_row(st2)); B.recalculate();
      perm q = st2; for (size_t i=0; i<len; ++i) { CHECK_EQ(from_row(B[i]), q, "recalculated row " << i); if (i < ch.size()) q = model::apply(q, ch[i]); }
    }
    if (k) { row_block D(CH, flags); perm q = rounds(nc);
      CHECK_EQ(D.size(), len, "block from rounds");
      for (size_t i=0; i<len; ++i) { CHECK_EQ(from_row(D[i]), q, "block from rounds"); if (i < ch.size()) q = model::apply(q, ch[i]); } }
  }
}
