// C17 - searches for touches
#include "touches.h"
#include <memory>
#include <functional>
#include <ringing/basic_search.h>
#include <ringing/table_search.h>
#include <ringing/touch.h>
using namespace lib; using namespace model; using namespace pbt; using namespace touches;
using model::perm;
namespace {
method meth(problem const& p) { return gen::to_method(p.m, p.n); }
// The calls of a touch; checks that it consists of whole leads
word decode(problem const& p, touch const& t) {
  word w; size_t k = 0;
  for (touch::const_iterator i = t.begin(); i != t.end(); ++i, ++k) { perm c = from_change(*i); size_t at = k % p.m.size(); if (at + 1 < p.m.size()) { CHECK_EQ(full_pn(c), full_pn(p.m[at]), "change " << k << " of a touch"); } else { size_t e = std::find(p.ends.begin(), p.ends.end(), c) - p.ends.begin(); CHECK(e < p.ends.size(), "lead " << w.size() << " ends with " << full_pn(c) << ", which is not one of the calls"); w.push_back(e); } CHECK(k < 4000, "a touch of more than 4000 changes"); }
  CHECK_EQ(k % p.m.size(), 0u, "a touch of " << k << " changes is not of whole leads"); return w;
}
struct stop_after { typedef touch argument_type; typedef bool result_type; std::shared_ptr<size_t> n; size_t limit; stop_after(size_t l) : n(new size_t(0)), limit(l) {} bool operator()(touch const&) const { return ++*n >= limit; } };
template <class Search> void check_search(Src& s, problem const& p, Search const& search, bool prune, string const& what) {
  std::vector<touch> out; touch_search(search, std::back_inserter(out));
  // decode each as it was when it was found: they share nodes, so the list holds copies of the last
  struct collect { typedef collect self; };
  (void)out;
  struct sink : public search_base::outputer { problem const& p; std::vector<word> v; size_t stop; bool stopped; sink(problem const& p, size_t stop) : p(p), stop(stop), stopped(false) {} bool operator()(touch const& t) { CHECK(!stopped, "another touch was given after the search was told to stop"); v.push_back(decode(p, t)); stopped = v.size() == stop; CHECK(v.size() < 200000, "too many touches"); return stopped; } };
  sink all(p, 0); search.run(all);
  CHECK_EQ(out.size(), all.v.size(), what << ": touches found by touch_search");
  std::map<word, int> count; for (auto const& w : all.v) ++count[w];
  for (auto const& c : count) { CHECK(p.found.count(c.first), what << ": " << txt(c.first) << " was found, but is not a true touch within the limits"); CHECK_EQ(c.second, 1, what << ": times that " << txt(c.first) << " was found"); }
  if (!prune) { for (auto const& w : p.found) CHECK(count.count(w), what << ": " << txt(w) << " was not found, out of " << p.found.size() << " of which " << count.size() << " were"); }
  else { std::map<word, int> classes; for (auto const& w : all.v) ++classes[least_rotation(w)]; for (auto const& w : p.found) { word l = least_rotation(w); CHECK_EQ(classes[l], 1, what << ": touches found that are rotations of " << txt(l)); } }
  if (!all.v.empty()) { size_t k = 1 + s.below(all.v.size()); sink some(p, k); search.run(some); CHECK_EQ(some.v.size(), k, what << ": touches found when told to stop after " << k); for (size_t i=0; i<k; ++i) CHECK(some.v[i] == all.v[i], what << ": touch " << i << " when told to stop"); std::vector<touch> o2; touch_search_until(search, std::back_inserter(o2), stop_after(k)); CHECK_EQ(o2.size(), k, what << ": touches found by touch_search_until"); }
}
vector<change> calls(problem const& p) { vector<change> v; for (size_t i=1; i<p.ends.size(); ++i) v.push_back(to_change(p.ends[i])); return v; }
void limits(Src& s, problem& p) { switch (s.below(4)) { case 0: break; case 1: p.hi = s.range(1, 6); break; case 2: p.lo = s.range(1, 6); p.hi = p.lo + s.below(4); break; default: p.lo = s.range(1, 5); } }
}

SUB_CPU(one_part, 400, 60000, 60, "searches on 3 to 6 bells with leads of up to 12 changes and up to 3 calls, by both searchers, with every form of limit: the touches found against those found by trying all sequences of calls, row by row; non-trivial with 3 or more touches, one of them of 3 or more leads") {
  problem p = gen_problem(s, false); limits(s, p); s.note(describe(p));
  p.solve(6000); if (p.too_big && p.hi > 6) { p.hi = 5; if (p.lo > 5) p.lo = 2; p.found.clear(); p.rows.clear(); p.w.clear(); s.renote(describe(p)); p.solve(6000); }
  if (p.too_big) s.discard();
  size_t longest = 0; for (auto const& w : p.found) longest = std::max(longest, w.size()); s.nontrivial(p.found.size() >= 3 && longest >= 3);
  method m = meth(p); vector<change> c = calls(p); bool unlimited = p.lo == 0 && p.hi == (size_t)-1; bool prune = s.coin(); if (prune) s.label("without rotations"); if (!treble_stays(p)) s.label("treble not fixed");
  std::pair<size_t,size_t> r(p.lo, p.hi);
  check_search(s, p, basic_search(m, c, r, prune), prune, "basic_search");
  check_search(s, p, table_search(m, c, r, prune), prune, "table_search");
  table_search::flags f = prune ? table_search::ignore_rotations : table_search::no_flags;
  check_search(s, p, table_search(m, c, group(row(p.n)), r, f), prune, "table_search with part ends");
  if (unlimited) { check_search(s, p, basic_search(m, c, prune), prune, "basic_search without limits"); check_search(s, p, table_search(m, c, prune), prune, "table_search without limits"); check_search(s, p, table_search(m, c, group(row(p.n)), f), prune, "table_search with part ends and no limits"); }
  // limits as numbers of changes
  size_t L = p.m.size(); size_t a = p.lo ? (p.lo - 1) * L + 1 + s.below(L) : 0, b = p.hi == (size_t)-1 ? p.hi : p.hi * L + s.below(L);
  check_search(s, p, table_search(m, c, group(row(p.n)), std::pair<size_t,size_t>(a, b), table_search::flags(f | table_search::length_in_changes)), prune, "table_search limited by changes");
}

SUB_CPU(parts, 1200, 60000, 60, "searches for parts of touches with groups of part ends of up to 12 rows: the parts found against those found by trying all sequences of calls and all rows of all parts; non-trivial with 2 or more parts, and a touch with 2 or more leads in each") {
  problem p = gen_problem(s, true); bool fixed = treble_stays(p);
  for (int t=0; t<4; ++t) { vector<perm> g; int k = s.range(1, 2); for (int i=0; i<k; ++i) { perm q = gen_perm(s, p.n); if (fixed && s.chance(9,10)) { q = gen_perm(s, p.n - 1); for (int& x : q) ++x; q.insert(q.begin(), 0); } if (s.coin()) { // a lead head of the method
        q = rounds(p.n); gen::changes c(p.m); for (int j=s.range(1, 3); j; --j) { c.back() = s.pick(p.ends); for (auto const& x : c) q = model::apply(q, x); } } g.push_back(q); }
    std::set<perm> all; vector<perm> v(1, rounds(p.n)); all.insert(v[0]); for (size_t i=0; i<v.size() && v.size() <= 12; ++i) for (auto const& x : g) { perm q = mul(v[i], x); if (all.insert(q).second) v.push_back(q); }
    if (v.size() <= 12) { p.parts = v; if (v.size() > 1) break; } }
  p.mutual = s.coin(); limits(s, p); s.note(describe(p)); s.label(p.mutual ? "mutually true parts" : "joined parts"); s.label(str() << p.parts.size() << " parts");
  p.solve(5000); if (p.too_big && p.hi > 6) { p.hi = 4; if (p.lo > 4) p.lo = 2; p.found.clear(); p.rows.clear(); p.w.clear(); s.renote(describe(p)); p.solve(5000); }
  if (p.too_big) s.discard();
  size_t longest = 0; for (auto const& w : p.found) longest = std::max(longest, w.size()); s.nontrivial(p.parts.size() > 1 && longest >= 2);
  method m = meth(p); vector<change> c = calls(p); vector<row> gr; for (auto const& q : p.parts) gr.push_back(to_row(q)); group G(gr);
  int f = p.mutual ? table_search::mutually_true_parts : 0; bool prune = s.chance(1,4) && p.parts.size() == 1; if (prune) f |= table_search::ignore_rotations;
  check_search(s, p, table_search(m, c, G, std::pair<size_t,size_t>(p.lo, p.hi), table_search::flags(f)), prune, "table_search");
  size_t L = p.m.size() * p.parts.size(); size_t a = p.lo ? (p.lo - 1) * L + 1 + s.below(L) : 0, b = p.hi == (size_t)-1 ? p.hi : p.hi * L + s.below(L);
  check_search(s, p, table_search(m, c, G, std::pair<size_t,size_t>(a, b), table_search::flags(f | table_search::length_in_changes)), prune, "table_search limited by changes");
}

SUB_CPU(open, 900, 30000, 60, "searches for touches that need not come round: those found are true and cannot be extended truly, and every one of those within the limit is found once; non-trivial with 3 or more touches") {
  problem p = gen_problem(s, true); p.open = true; p.hi = s.range(2, 6); p.lo = s.below(4); if (p.lo > p.hi) p.lo = p.hi; s.note(describe(p));
  // all true blocks with no lead that can follow them
  size_t nodes = 0; bool big = false;
  std::function<void(perm const&)> go = [&](perm const& r) {
    if (++nodes > 5000) { big = true; return; }
    // is the next lead false whatever its end?
    perm q = r; vector<perm> added; bool can = p.add_lead(q, p.ends[0], added); for (auto const& x : added) p.rows.erase(x);
    if (!can) { if (p.w.size() >= p.lo && !p.w.empty()) p.found.insert(p.w); return; }
    if (p.w.size() >= p.hi) return;
    for (size_t c=0; c<p.ends.size() && !big; ++c) { perm q2 = r; vector<perm> ad; p.w.push_back(c); if (p.add_lead(q2, p.ends[c], ad)) go(q2); p.w.pop_back(); for (auto const& x : ad) p.rows.erase(x); } };
  go(rounds(p.n)); if (big) s.discard(); s.nontrivial(p.found.size() >= 3);
  check_search(s, p, table_search(meth(p), calls(p), group(row(p.n)), std::pair<size_t,size_t>(p.lo, p.hi), table_search::non_round_blocks), false, "table_search for blocks");
}
