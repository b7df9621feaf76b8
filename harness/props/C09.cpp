// C09 - the extent in order, its half extents, and the changes on some bells
#include "lib.h"
#include <ringing/extent.h>
#include <ringing/mathutils.h>
#include <stdexcept>
using namespace lib; using namespace model; using namespace pbt;
using model::perm;

struct shape { int nw, nh, nt; string str() const { return std::to_string(nw) + " working bells after " + std::to_string(nh) + " of " + std::to_string(nt); } };
static shape gen_shape(Src& s, int lo, int hi) { shape h; h.nw = s.range(lo, hi); h.nh = s.coin() ? s.below(4) : 0; h.nt = h.nw + h.nh + (s.coin() ? s.below(4) : 0); return h; }
static perm gen_in(Src& s, shape h) { perm w = gen_perm(s, h.nw), p = rounds(h.nt); for (int i=0; i<h.nw; ++i) p[h.nh+i] = w[i] + h.nh; return p; }
static unsigned long long position(perm const& p, shape h) { // by the factorial number system
  unsigned long long x = 0; vector<int> left; for (int i=0; i<h.nw; ++i) left.push_back(h.nh + i);
  for (int i=0; i<h.nw; ++i) { x *= left.size(); auto it = std::find(left.begin(), left.end(), p[h.nh+i]); x += it - left.begin(); left.erase(it); }
  return x;
}

SUB(walk, 750, 7500, "the extent of up to 7 working bells walked forwards and backwards in full, with and without fixed bells at each end: every row once, in order; positions, rows by number, signs and half extents on the way; non-trivial with 4 or more working bells") {
  shape h = gen_shape(s, 0, s.chance(1,6) ? 7 : 6); s.note(h.str()); s.nontrivial(h.nw >= 4);
  vector<perm> all; { perm w = rounds(h.nw); do { perm p = rounds(h.nt); for (int i=0; i<h.nw; ++i) p[h.nh+i] = h.nh + w[i]; all.push_back(p); } while (std::next_permutation(w.begin(), w.end())); }
  extent_iterator i(h.nw, h.nh, h.nt), b(i), e, e2(extent_iterator::end(h.nw, h.nh, h.nt));
  if (h.nt == h.nw + h.nh) CHECK(b == extent_iterator(h.nw, h.nh), "short constructor");
  ringing::extent x(h.nw, h.nh, h.nt); CHECK_EQ(x.size(), all.size(), "size of the extent"); CHECK(x.begin() == b && x.end() == e2, "bounds of the extent");
  size_t n = 0, m = 0; incourse_extent_iterator j(h.nw, h.nh, h.nt), je;
  for (; n < all.size(); ++n) {
    CHECK(i != e && i != e2 && !i.is_end(), "end after " << n << " rows"); CHECK_EQ(from_row(*i), all[n], "row " << n); CHECK_EQ(i->bells(), h.nt, "bells");
    if (n) { CHECK(b < i && i > b && b <= i && i >= b && !(i < b), "order of positions"); } CHECK(i < e2 && !(e2 < i), "before the end");
    row r = to_row(all[n]);
    CHECK_EQ(position_in_extent(r, h.nw, h.nh, h.nt), n, "position of " << text(all[n])); CHECK_EQ(from_row(nth_row_of_extent(n, h.nw, h.nh, h.nt)), all[n], "row " << n);
    CHECK_EQ(from_row(x[n]), all[n], "row " << n); CHECK_EQ(x[r], n, "position");
    int sg = sign(all[n]); CHECK_EQ(sign_of_nth_row_of_extent(n), sg, "sign of row " << n);
    if (sg > 0) { CHECK(j != je, "end of half extent after " << m); CHECK_EQ(from_row(*j), all[n], "in-course row " << m);
      if (h.nw > 1) { CHECK_EQ(position_in_incourse_extent(r, h.nw, h.nh, h.nt), m, "in-course position"); CHECK_EQ(from_row(nth_row_of_incourse_extent(m, h.nw, h.nh, h.nt)), all[n], "in-course row"); }
      ++m; if (s.coin()) ++j; else { incourse_extent_iterator o = j++; CHECK_EQ(from_row(*o), all[n], "post-increment"); } }
    if (n % 2) ++i; else { extent_iterator o = i++; CHECK_EQ(from_row(*o), all[n], "post-increment"); }
  }
  CHECK(i == e && i == e2 && i.is_end(), "end of the extent"); CHECK(j == je, "end of the half extent");
  if (h.nw) for (bool from_end : { false, true }) { extent_iterator k = from_end ? e2 : i; for (n = all.size(); n; --n) { if (n % 2) --k; else { extent_iterator o = k--; CHECK(n < all.size() ? from_row(*o) == all[n] : o.is_end(), "post-decrement"); }
    CHECK_EQ(from_row(*k), all[n-1], "backwards, row " << n-1); CHECK_EQ(k.is_end(), from_end && false, "not the end after going back"); } if (!all.empty()) CHECK(k == b, "back to the start"); }
}

SUB(jump, 180000, 1800000, "rows on up to 20 working bells: position and row by number are inverse and agree with the factorial number system, and with the next row; non-trivial on 8 or more working bells") {
  shape h = gen_shape(s, 1, 20); perm p = gen_in(s, h); s.note(text(p) + ", " + h.str()); s.nontrivial(h.nw >= 8); s.label(h.nw > 12 ? "13 to 20 bells" : h.nw > 7 ? "8 to 12 bells" : "to 7 bells");
  unsigned long long n = position(p, h); row r = to_row(p);
  CHECK_EQ(position_in_extent(r, h.nw, h.nh, h.nt), n, "position"); CHECK_EQ(from_row(nth_row_of_extent(n, h.nw, h.nh, h.nt)), p, "row " << n);
  if (h.nt == h.nw + h.nh) { CHECK_EQ(position_in_extent(r, h.nw, h.nh), n, "position"); CHECK_EQ(from_row(nth_row_of_extent(n, h.nw, h.nh)), p, "row"); if (!h.nh) CHECK_EQ(position_in_extent(r), n, "position"); }
  ringing::extent x(h.nw, h.nh, h.nt); CHECK_EQ(x[r], n, "position"); CHECK_EQ(from_row(x[n]), p, "row");
  size_t f = 1; for (int i=2; i<=h.nw; ++i) f *= i; CHECK_EQ(x.size(), f, "size of the extent");
  CHECK_EQ(sign_of_nth_row_of_extent(n), sign(p), "sign of row " << n);
  // The row without the fixed bells at its end
  int last = h.nt; while (last > 0 && p[last-1] == last-1) --last; perm q(p.begin(), p.begin() + s.range(last, h.nt)); if (!q.empty()) CHECK_EQ(position_in_extent(to_row(q), h.nw, h.nh, h.nt), n, "position of the short row " << text(q));
  if (h.nw > 1) { perm in = p; if (sign(p) < 0) std::swap(in[h.nh+h.nw-1], in[h.nh+h.nw-2]);
    CHECK_EQ(position_in_incourse_extent(to_row(in), h.nw, h.nh, h.nt), n/2, "in-course position"); CHECK_EQ(from_row(nth_row_of_incourse_extent(n/2, h.nw, h.nh, h.nt)), in, "in-course row"); }
  // A row that is not in the extent
  perm bad = gen_perm(s, h.nt + s.below(2)); bool in = (int)bad.size() == h.nt; for (int i=0; i<(int)bad.size(); ++i) if ((i < h.nh || i >= h.nh + h.nw) && bad[i] != i) in = false;
  if (in) CHECK_EQ(position_in_extent(to_row(bad), h.nw, h.nh, h.nt), position(bad, h), "position");
  else { bool threw = false; try { position_in_extent(to_row(bad), h.nw, h.nh, h.nt); } catch (std::out_of_range const&) { threw = true; } CHECK(threw, text(bad) << " has a position in the extent of " << h.str()); s.label("row outside"); }
}

SUB(random, 12000, 120000, "random rows on up to 12 working bells, with a generator of the caller's: always rows of the extent; non-trivial on 2 or more bells") {
  static uint64_t state; struct g { static int rnd() { state = state * 6364136223846793005ull + 1442695040888963407ull; return (int)(state >> 33); } };
  shape h = gen_shape(s, 1, 12); state = s.bits64(); s.note(h.str() + str().operator<<(state).os.str()); s.nontrivial(h.nw > 1);
  typedef std::pair<int(*)(), int> fn; struct reset { fn o; ~reset() { random_fn(o.first, o.second); } } rs = { random_fn(&g::rnd, 0x7fffffff) };
  for (int i=0; i<5; ++i) { perm p = from_row(h.nt == h.nw + h.nh ? random_row(h.nw, h.nh) : random_row(h.nw, h.nh, h.nt)); CHECK_EQ((int)p.size(), h.nt, "bells"); CHECK(is_perm(p), "not a row");
    for (int k=0; k<h.nt; ++k) if (k < h.nh || k >= h.nh + h.nw) CHECK_EQ(p[k], k, "fixed bell"); }
}

static void all_changes(int nt, int at, int end, perm c, set<perm>& out) { if (at + 1 >= end) { out.insert(c); return; } all_changes(nt, at+1, end, c, out); std::swap(c[at], c[at+1]); all_changes(nt, at+2, end, c, out); }
SUB(changes, 1800, 18000, "all changes of up to 16 working bells, with and without bells that stay still: each comes exactly once; non-trivial with 3 or more working bells") {
  shape h = gen_shape(s, 1, s.chance(1,8) ? 16 : 10); s.note(h.str()); s.nontrivial(h.nw >= 3);
  set<perm> want, got; all_changes(h.nt, h.nh, h.nh + h.nw, rounds(h.nt), want);
  changes_iterator i = h.nt == h.nw + h.nh && s.coin() ? changes_iterator(h.nw, h.nh) : changes_iterator(h.nw, h.nh, h.nt), e;
  while (i != e) { perm c = from_change(*i); CHECK_EQ((int)c.size(), h.nt, "bells"); CHECK(want.count(c), full_pn(c) << " is not a change of those bells"); CHECK(got.insert(c).second, full_pn(c) << " comes twice");
    if (s.coin()) ++i; else { changes_iterator o = i++; CHECK_EQ(from_change(*o), c, "post-increment"); } CHECK(got.size() <= want.size(), "too many"); }
  for (auto const& c : want) CHECK(got.count(c), full_pn(c) << " never comes");
}
