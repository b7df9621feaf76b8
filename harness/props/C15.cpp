// C15 - touches as trees of changes
#include "lib.h"
#include <ringing/touch.h>
#include <ringing/proof.h>
using namespace lib; using namespace model; using namespace pbt;
using model::perm;
#include <memory>
namespace {
struct mnode { bool leaf; vector<perm> c; vector<std::pair<int,int>> ch; };
struct tree { vector<mnode> m; vector<touch_node*> n; };
// The changes of a node; false if there are too many
bool expand(tree const& t, int k, vector<perm>& out, size_t limit) {
  mnode const& m = t.m[k];
  if (m.leaf) { out.insert(out.end(), m.c.begin(), m.c.end()); return out.size() <= limit; }
  for (auto const& e : m.ch) { vector<perm> one; if (e.first == 0) continue; if (!expand(t, e.second, one, limit)) return false;
    if (one.size() * e.first + out.size() > limit) return false; for (int i=0; i<e.first; ++i) out.insert(out.end(), one.begin(), one.end()); }
  return true;
}
string describe(tree const& t) {
  std::ostringstream os; for (size_t i=0; i<t.m.size(); ++i) { os << (i ? "; " : "") << i << "="; if (t.m[i].leaf) { os << "["; for (size_t j=0; j<t.m[i].c.size(); ++j) os << (j ? "," : "") << full_pn(t.m[i].c[j]); os << "]"; } else { os << "("; for (size_t j=0; j<t.m[i].ch.size(); ++j) os << (j ? " " : "") << t.m[i].ch[j].first << "*" << t.m[i].ch[j].second; os << ")"; } }
  return os.str();
}
// Iterate over a touch, comparing with the list of changes expected
template <class T> void compare(T const& t, vector<perm> const& want, string const& what) {
  vector<perm> got; typename T::const_iterator i = t.begin(), e = t.end();
  CHECK_EQ(i == e, want.empty(), what << ": begin is end"); CHECK_EQ(i != e, !want.empty(), what << ": begin is not end");
  for (; i != e; ++i) { CHECK(got.size() < want.size(), what << " has more than the " << want.size() << " changes expected"); got.push_back(from_change(*i)); CHECK(i == i && !(i != i), "an iterator equals itself"); }
  CHECK(i == e && e == i, what << ": end");
  CHECK_EQ(got.size(), want.size(), what << ": number of changes"); for (size_t k=0; k<want.size(); ++k) CHECK_EQ(full_pn(got[k]), full_pn(want[k]), what << ": change " << k);
}
}
SUB(expansion, 40000, 800000, "trees of up to 10 nodes, with shared, empty and repeated children; all changes in order, against the list they stand for, before and after editing the tree; non-trivial with a repeated or shared node and 4 or more changes") {
  int n = s.range(1, 12); tree t; touch T; size_t const limit = 600; string log; bool rep = false;
  auto add = [&](bool leaf) {
    mnode m; m.leaf = leaf; touch_node* p;
    if (leaf) { int len = s.chance(1,5) ? 0 : s.range(1, 6); for (int i=0; i<len; ++i) m.c.push_back(gen_change(s, n));
      int how = s.below(4); vector<change> v; for (auto const& c : m.c) v.push_back(to_change(c));
      if (how == 0) { touch_changes* q = new touch_changes; for (auto const& c : v) q->push_back(c); p = q; }
      else if (how == 1) p = new touch_changes(v);
      else if (how == 2) p = new touch_changes(v.begin(), v.end());
      else { string pn; for (auto const& c : m.c) pn += (pn.empty() ? "" : ".") + full_pn(c); p = m.c.empty() ? new touch_changes : new touch_changes(pn, n); } }
    else { touch_child_list* q = new touch_child_list; p = q; int k = s.below(5); int have = t.m.size();
      for (int i=0; i<k && have; ++i) { int c = s.chance(1,8) ? 0 : s.range(1, 4); int w = s.coin() ? have - 1 : s.below(have); m.ch.push_back({ c, w }); if (s.coin()) q->push_back(c, t.n[w]); else q->children().push_back(touch_child_list::entry(c, t.n[w])); if (c > 1) rep = true; } }
    T.push_back(p); t.m.push_back(m); t.n.push_back(p);
    CHECK(T.get_node(t.m.size()-1) == p, "get_node");
  };
  { touch empty; CHECK(empty.begin() == empty.end(), "a touch without a head is empty"); CHECK(empty.get_head() == 0, "no head"); }
  int nodes = s.range(1, 10); for (int i=0; i<nodes; ++i) add(i == 0 || s.chance(2,5));
  s.note(str() << n << " bells: " << describe(t));
  bool any = false; int checked = 0;
  for (int k = nodes - 1; k >= 0; --k) { vector<perm> w; if (!expand(t, k, w, limit)) continue; any = true; if (w.size() >= 4 && rep) s.nontrivial(); if (w.empty()) s.label("empty"); if (!t.m[k].leaf) s.label("list of children");
    T.set_head(t.n[k]); CHECK(T.get_head() == t.n[k], "head"); compare(T, w, str() << "node " << k);
    if (++checked > 3) break; }
  if (!any) s.discard();
  // edit
  for (int step = s.below(4); step > 0; --step) {
    int k = s.below(t.m.size()); mnode& m = t.m[k];
    if (m.leaf) { perm c = gen_change(s, n); static_cast<touch_changes*>(t.n[k])->push_back(to_change(c)); m.c.push_back(c); s.note(str() << "push " << full_pn(c) << " on " << k); }
    else { touch_child_list* q = static_cast<touch_child_list*>(t.n[k]); if (!m.ch.empty() && s.coin()) { q->pop_back(); m.ch.pop_back(); s.note(str() << "pop from " << k); } else if (k) { int c = s.below(4), w = s.below(k); q->push_back(c, t.n[w]); m.ch.push_back({ c, w }); s.note(str() << "push " << c << "*" << w << " on " << k); }
      CHECK_EQ(q->children().size(), m.ch.size(), "children"); }
    int h = s.below(t.m.size()); vector<perm> w; if (!expand(t, h, w, limit)) continue; T.set_head(t.n[h]); compare(T, w, str() << "node " << h << " after an edit");
  }
  { touch copy(T), assigned; assigned = T; { touch gone(T); } int h = s.below(t.m.size()); vector<perm> w; if (expand(t, h, w, limit)) { std::unique_ptr<touch> orig(new touch(T)); orig->set_head(t.n[h]); touch c2(*orig); orig.reset(); T = touch(); copy = touch(); compare(c2, w, "a copy that outlives the original"); assigned.set_head(t.n[h]); compare(assigned, w, "an assigned touch"); compare(*assigned.get_head(), w, "the head itself"); } }
}

SUB(iterators, 60000, 600000, "iterators into a nested touch: copied, assigned, advanced separately and compared at all pairs of places; non-trivial if the touch has 4 or more changes") {
  int n = s.range(2, 8); touch T; vector<touch_node*> nd; vector<vector<perm>> ex;
  int depth = s.range(1, 5); { vector<perm> c; vector<change> v; for (int i=s.range(1,3); i; --i) { c.push_back(gen_change(s, n)); v.push_back(to_change(c.back())); } nd.push_back(new touch_changes(v)); ex.push_back(c); T.push_back(nd[0]); }
  string log; for (int d=0; d<depth; ++d) { touch_child_list* q = new touch_child_list; vector<perm> e; log += " ("; for (int i=s.range(1,3); i; --i) { int c = s.chance(1,9) ? 0 : s.range(1,3), w = s.below(nd.size()); q->push_back(c, nd[w]); log += str() << c << "*" << w << " "; for (int j=0; j<c; ++j) e.insert(e.end(), ex[w].begin(), ex[w].end()); } log += ")"; nd.push_back(q); T.push_back(q); if (e.size() > 60) break; ex.push_back(e); }
  ex.resize(std::min(ex.size(), nd.size())); int h = ex.size() - 1; T.set_head(nd[h]); vector<perm> const& w = ex[h];
  string ll; for (auto const& c : ex[0]) ll += full_pn(c) + " "; s.note(str() << n << " bells, " << ll << log); s.nontrivial(w.size() >= 4);
  vector<touch::const_iterator> at; touch::const_iterator i = T.begin(), e = T.end(); touch::const_iterator none, none2; CHECK(none == none2 && !(none != none2), "default iterators are equal");
  for (size_t k=0; k<=w.size(); ++k) { at.push_back(i); if (k < w.size()) { CHECK(i != e, "place " << k << " of " << w.size() << " is not the end"); touch::const_iterator old = i++; CHECK(old == at.back(), "i++ returns the old value"); CHECK_EQ(full_pn(from_change(*old)), full_pn(w[k]), "change " << k); CHECK_EQ(old->bells(), n, "arrow"); } }
  CHECK(i == e && e == i, "end after " << w.size());
  for (size_t a=0; a<=w.size(); ++a) for (size_t b=0; b<=w.size(); ++b) CHECK_EQ(at[a] == at[b], a == b, "places " << a << " and " << b << " of " << w.size());
  // advancing copies leaves the others where they were
  if (!w.empty()) { int a = s.below(w.size()); touch::const_iterator c(at[a]), d; d = c; size_t steps = 0; while (c != e) { ++c; ++steps; } CHECK_EQ(steps, w.size() - a, "steps to the end"); CHECK(d == at[a], "a copy did not move"); CHECK_EQ(full_pn(from_change(*d)), full_pn(w[a]), "and gives the same change"); CHECK(d != c, "they differ"); d = d; CHECK(d == at[a], "self assignment"); }
  // Rows of the touch
  perm r = rounds(n); row R(n); for (touch::const_iterator j = T.begin(); j != T.end(); ++j) R *= *j; for (auto const& c : w) r = model::apply(r, c); CHECK_EQ(text(from_row(R)), text(r), "last row");
}
