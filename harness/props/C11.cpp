// C11 - proof of truth
#include "lib.h"
#include <ringing/proof.h>
#include <stdexcept>
using namespace lib; using namespace model; using namespace pbt;
using model::perm;

typedef std::map<perm, vector<int>> lines_t;
static lines_t read(prover::failinfo const& fi) {
  lines_t r; for (auto const& d : fi) { perm p = from_row(d._row); CHECK(!r.count(p), text(p) << " is listed twice"); r[p] = vector<int>(d._lines.begin(), d._lines.end()); } return r;
}
static string txt(lines_t const& l) { string r; for (auto const& x : l) { r += text(x.first) + ":"; for (int n : x.second) r += " " + std::to_string(n); r += "; "; } return r; }
// The rows which come more than max times, with the lines on which they do
static lines_t too_many(vector<perm> const& touch, int max) {
  lines_t r; if (max < 0) return r; for (size_t i=0; i<touch.size(); ++i) r[touch[i]].push_back(i+1);
  for (auto i = r.begin(); i != r.end(); ) if ((int)i->second.size() > max) ++i; else i = r.erase(i);
  return r;
}
static size_t extra(vector<perm> const& touch, int from) { std::map<perm,int> c; size_t n = 0; for (auto const& p : touch) if (++c[p] > from) ++n; return n; }

SUB(history, 30000, 400000, "histories of up to 80 steps that add rows to a touch, take them back, and branch: truth, return values, counts, size, repeats, and the lines of repeated rows, against a list of rows; non-trivial when the touch becomes false") {
  int n = s.range(2, 6), max = s.chance(2,3) ? 1 : s.range(1, 4); bool with_fi = s.coin(), lifo = s.coin(), off = s.chance(1,12);
  if (off) max = -1;
  int pool_size = s.range(1, 12); vector<perm> pool; for (int i=0; i<pool_size; ++i) pool.push_back(gen_perm(s, n));
  prover::failinfo fi; shared_pointer<prover> top(with_fi ? new prover(fi, max) : new prover(max));
  if (off) { shared_pointer<prover> t(with_fi ? new prover(fi) : new prover()); if (!with_fi && s.coin()) top = t; top->disable_proving(); }
  else if (max == 1 && s.coin()) top = shared_pointer<prover>(with_fi ? new prover(fi) : new prover());
  struct level { shared_pointer<prover> p; size_t base; }; vector<level> levels(1, level{ top, 0 });
  vector<perm> touch; bool ordered = true; int steps = s.range(1, 80); string note = str() << n << " bells, at most " << max << (with_fi ? ", with lines" : "") << (lifo ? "" : ", any order") << ":"; s.note(note);
  for (int k=0; k<steps; ++k) {
    prover& p = *levels.back().p; size_t base = levels.back().base; unsigned what = s.below(12);
    if (what < 7) { perm r = s.pick(pool); bool ret = p.add_row(to_row(r)); touch.push_back(r); s.note("+" + text(r)); CHECK_EQ(ret, too_many(touch, max).empty(), "what adding row " << touch.size() << " returns"); }
    else if (what < 10) { // take a row back
      perm r; if (lifo && touch.size() > base) r = touch.back(); else r = s.pick(pool);
      size_t at = touch.size(); while (at > base && touch[at-1] != r) --at;
      s.note("-" + text(r));
      if (at == base) { bool threw = false; try { p.remove_row(to_row(r)); } catch (std::logic_error const&) { threw = true; } CHECK(threw, "took back a row which was not there"); }
      else { p.remove_row(to_row(r)); if (at != touch.size()) ordered = false; touch.erase(touch.begin() + at - 1); }
    }
    else if (what == 10 && levels.size() < 4) { s.note("branch"); s.label("branch"); levels.push_back(level{ prover::create_branch(levels.back().p), touch.size() }); }
    else if (what == 11 && levels.size() > 1 && !with_fi) { s.note("drop branch"); s.label("drop branch"); touch.resize(levels.back().base); levels.pop_back(); }
    prover const& q = *levels.back().p; lines_t bad = too_many(touch, max);
    CHECK_EQ(q.truth(), bad.empty(), "truth of " << touch.size() << " rows"); CHECK_EQ(q.size(), touch.size(), "rows"); CHECK_EQ(q.duplicates(), extra(touch, 1), "repeats");
    perm r = s.pick(pool); CHECK_EQ((long)q.count_row(to_row(r)), std::count(touch.begin(), touch.end(), r), "number of times for " << text(r));
    if (with_fi) { lines_t got = read(fi); if (ordered) CHECK(got == bad, "rows repeated too often are " << txt(got) << " but expected " << txt(bad)); else { vector<perm> a, b; for (auto const& x : got) a.push_back(x.first); for (auto const& x : bad) b.push_back(x.first); CHECK(a == b, "rows repeated too often: " << txt(got) << " but expected " << txt(bad)); } }
    if (!bad.empty()) { s.nontrivial(); s.label("false"); }
  }
}

SUB(whole, 30000, 400000, "touches of up to 60 rows proved as a whole, in full and quickly, in one or two parts: truth and the lines of repeated rows; non-trivial when false") {
  int n = s.range(1, 6), max = s.chance(1,2) ? 1 : s.range(1, 3), pool_size = s.range(1, 80); vector<perm> pool; for (int i=0; i<pool_size; ++i) pool.push_back(gen_perm(s, n));
  vector<perm> t; vector<row> v; int len = s.below(60); string note = str() << "at most " << max << ":"; for (int i=0; i<len; ++i) { perm p = s.pick(pool); t.push_back(p); v.push_back(to_row(p)); note += " " + text(p); } s.note(note);
  typedef vector<row>::const_iterator it; typedef proof<it> P; it b = v.begin(), e = v.end(), m = b + s.range(0, len);
  lines_t bad = too_many(t, max); s.nontrivial(!bad.empty()); s.label(bad.empty() ? "true" : "false");
  P p; CHECK(!bool(p), "nothing is proved yet"); bool ret; int how = s.below(6);
  switch (how) { case 0: ret = p.prove(b, e, max); break; case 1: ret = p.prove(b, m, m, e, max); break; case 2: p = P(b, e, max); ret = bool(p); break; case 3: p = P(b, m, m, e, max); ret = bool(p); break;
    case 4: bad = too_many(t, 1); p = P(b, e); ret = p.prove(b, e); break; default: bad = too_many(t, 1); p = P(b, m, m, e); ret = p.prove(b, m, m, e); }
  CHECK_EQ(ret, bad.empty(), "truth"); CHECK_EQ(bool(p), bad.empty(), "truth"); CHECK_EQ(bool(!p), !bad.empty(), "falseness");
  lines_t got = read(p.failed()); CHECK(got == bad, "rows repeated too often are " << txt(got) << " but expected " << txt(bad));
  std::ostringstream os; os << p; string want = bad.empty() ? "True\n" : "False\n"; for (auto const& d : p.failed()) { want += "Row " + text(from_row(d._row)) + " is repeated on lines"; for (int l : d._lines) want += " " + std::to_string(l); want += "\n"; } CHECK_EQ(os.str(), want, "report");
  P q(b, e, how < 4 ? max : 1, true); CHECK_EQ(bool(q), bad.empty(), "quick proof"); CHECK_EQ(q.prove(b, m, m, e, how < 4 ? max : 1, true), bad.empty(), "quick proof in two parts");
}
