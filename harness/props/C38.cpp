// C38 - touchsearch: touches of a method, of a plan, and of every method of a list
//! apps: touchsearch
#include "touches.h"
#include <functional>
using namespace model; using namespace pbt; using namespace touches;
namespace {
vector<string> lines(string const& t) { vector<string> r; std::istringstream is(t); string l; while (getline(is, l)) r.push_back(l); return r; }
string places(Src& s, perm const& c) { bool x; string t = gen_spelling(s, c, &x); return t; }
struct look { bool commas, quiet, count, raw; int limit; string plain; vector<string> names; };
look gen_look(Src& s) { look l; l.commas = s.chance(1,3); l.quiet = s.chance(1,10); l.count = s.chance(1,3); l.raw = s.chance(1,5); l.limit = s.chance(1,5) ? s.range(1, 6) : -1; l.plain = l.commas ? "p" : "."; return l; }
// Options may come in any order
void options(Src& s, look& l, vector<string>& o) {
  if (l.commas) o.push_back(s.coin() ? "-g" : "--comma-separate"); if (l.quiet) o.push_back(s.coin() ? "-q" : "--quiet"); if (l.count) o.push_back(s.coin() ? "-c" : "--count"); if (l.raw) o.push_back("--raw-count"); if (l.limit > 0) o.push_back("--limit=" + std::to_string(l.limit));
  if (s.chance(1,5)) { l.plain = s.coin() ? "plain" : "o"; o.push_back(s.coin() ? "-p" + l.plain : "--plain-name=" + l.plain); }
}
void shuffle(Src& s, vector<string>& o) { for (size_t i=0; i+1<o.size(); ++i) std::swap(o[i], o[i + s.below(o.size()-i)]); }
// A touch as it is to be printed
string line_of(look const& l, vector<string> const& calls, int ord, size_t len) {
  string t; if (l.commas) { for (int k=0; k<ord; ++k) for (auto const& c : calls) { if (!t.empty()) t += ","; t += c; } return t; }
  for (auto const& c : calls) t += c; if (ord > 1) t += " x" + std::to_string(ord); return t + "  (" + std::to_string(len * ord) + " changes)";
}
void check_counts(look const& l, vector<string>& got, size_t touches, string const& what) {
  if (l.raw || l.count) { CHECK(!got.empty(), "no count is printed"); string w = l.raw ? std::to_string(touches) : "Found " + std::to_string(touches) + " " + what; CHECK_EQ(got.back(), w, "the count"); got.pop_back(); if (!l.quiet) { CHECK(!got.empty() && got.back().empty(), "there is no blank line before the count"); got.pop_back(); } }
}
string range_text(Src& s, size_t lo, size_t hi) { if (lo == hi && s.coin()) return std::to_string(lo); string t = lo || s.coin() ? std::to_string(lo) : ""; t += "-"; if (hi != (size_t)-1) t += std::to_string(hi); return t; }
string word_line(problem const& p, look const& l, word const& w) { vector<string> calls; perm r = rounds(p.n); for (int c : w) { calls.push_back(c ? l.names[c-1] : l.plain); for (size_t i=0; i<p.m.size(); ++i) r = model::apply(r, i + 1 == p.m.size() ? p.ends[c] : p.m[i]); } return line_of(l, calls, order(r), w.size() * p.m.size()); }
void name_calls(Src& s, problem const& p, look& l, vector<string>& o) {
  static char const* nm[] = { "b", "s", "x", "ay", "B" };
  for (size_t i=1; i<p.ends.size(); ++i) { string pl = places(s, p.ends[i]), name = s.chance(1,4) ? pl : nm[i-1]; l.names.push_back(name); string v = name == pl ? pl : name + "=" + pl; if (s.coin()) o.push_back("--call=" + v); else o.push_back("-C" + v); }
}
}

SUB_CPU(touches, 1500, 40000, 60, "methods on 4 to 6 bells with leads of up to 12 changes, up to 3 calls, part ends, lengths in changes and all the options about how touches are printed: touchsearch prints each of the touches found by trying all sequences of calls once (up to the limit), with its length, and counts them; non-trivial with 3 or more touches, one of them of 2 or more leads") {
  problem p; do p = gen_problem(s, true); while (p.n < 4); bool fixed = treble_stays(p); size_t L = p.m.size();
  vector<string> o; look l = gen_look(s);
  bool bob = p.ends.size() == 1; if (bob) { vector<int> pl; pl.push_back(0); pl.push_back(3); perm b; from_places(p.n, pl, b); if (b == p.ends[0]) s.discard(); p.ends.push_back(b); l.names.push_back("b"); s.label("the bob is assumed"); }
  else name_calls(s, p, l, o);
  if (s.chance(1,3)) { std::set<perm> all(p.parts.begin(), p.parts.end()); vector<perm> g, v = p.parts; int k = s.range(1, 2); for (int i=0; i<k; ++i) { perm q = gen_perm(s, p.n); if (fixed && s.chance(9,10)) { q = gen_perm(s, p.n - 1); for (int& x : q) ++x; q.insert(q.begin(), 0); } if (s.coin()) { q = rounds(p.n); gen::changes c(p.m); for (int j=s.range(1, 3); j; --j) { c.back() = s.pick(p.ends); for (auto const& x : c) q = model::apply(q, x); } } g.push_back(q); }
    for (size_t i=0; i<v.size() && v.size() <= 12; ++i) for (auto const& x : g) { perm q = mul(v[i], x); if (all.insert(q).second) v.push_back(q); }
    if (v.size() <= 12) { p.parts = v; for (auto const& q : g) { int keep = p.n; while (keep > 1 && q[keep-1] == keep-1) --keep; string t = text(q); if (s.chance(1,3)) t = t.substr(0, s.range(keep, p.n)); o.push_back(s.coin() ? "-P" + t : "--part-end=" + t); } } }
  size_t per = L * p.parts.size(); p.mutual = s.chance(1,3); if (p.mutual) o.push_back(s.coin() ? "-m" : "--mutually-true-parts");
  bool rot = s.chance(1,3); if (rot) o.push_back(s.coin() ? "-r" : "--ignore-rotations");
  size_t a = 0, b = (size_t)-1; int form = s.below(4); if (form) { if (form == 1) b = s.range(1, 6) * per + s.below(per); else if (form == 2) { a = s.below(5 * per); b = a + s.below(4 * per); } else a = s.below(5 * per); }
  p.lo = (a + per - 1) / per; p.hi = b == (size_t)-1 ? b : b / per;
  p.solve(5000); if (p.too_big && p.hi > 5) { a = 0; b = 5 * per + s.below(per); p.lo = 0; p.hi = 5; p.found.clear(); p.rows.clear(); p.w.clear(); form = 1; p.solve(5000); }
  if (p.too_big) s.discard(); if (form || s.chance(1,8)) { string t = range_text(s, a, b); o.push_back(s.coin() ? "-l" + t : "--length=" + t); }
  options(s, l, o); shuffle(s, o); vector<string> argv(1, app("touchsearch")); argv.push_back("-b" + std::to_string(p.n)); argv.insert(argv.end(), o.begin(), o.end()); string pn = gen::spell(s, p.m, 0, L); if (pn[0] == '-') { argv.push_back("--"); argv.push_back(pn); } else if (s.chance(1,20)) argv.insert(argv.begin() + 2, pn); else argv.push_back(pn);
  s.renote(cmdline(argv)); size_t longest = 0; for (auto const& w : p.found) longest = std::max(longest, w.size()); s.nontrivial(p.found.size() >= 3 && longest >= 2); s.label(str() << (p.parts.size() > 1 ? p.mutual ? "mutual parts" : "parts" : "one part") << (rot ? ", no rotations" : "")); if (form) s.label("length limits");
  // the lines wanted, and how many of each
  bool prune = rot && p.parts.size() == 1; std::map<string, int> want; std::map<string, word> cls; size_t total = 0; std::set<word> classes;
  for (auto const& w : p.found) { string t = word_line(p, l, w); ++want[t]; if (prune) { classes.insert(least_rotation(w)); } } total = prune ? classes.size() : p.found.size(); size_t shown = l.limit > 0 ? std::min(total, (size_t)l.limit) : total;
  run_result r = run_ok(argv, "", "", {}, 60); CHECK_EQ(r.status, 0, "status: " << r.err); if (bob) CHECK(r.err.find("fourths place bobs") != string::npos, "nothing is said of the bob assumed"); else CHECK_EQ(r.err, "", "messages");
  vector<string> got = lines(r.out); check_counts(l, got, shown, "touches"); if (l.quiet) { CHECK(got.empty(), "touches are printed: " << got[0]); return; }
  CHECK_EQ(got.size(), shown, "touches printed, of " << total); std::map<string, int> have; for (auto const& t : got) ++have[t];
  for (auto const& h : have) { CHECK(want.count(h.first), "<" << h.first << "> is not one of the true touches"); CHECK(h.second <= want[h.first], "<" << h.first << "> is printed " << h.second << " times, not " << want[h.first]); }
  if (prune) { // one of each class: names may be shared between words only if they are equal
    std::map<string, word> by; bool amb = false; for (auto const& w : p.found) { string t = word_line(p, l, w); if (by.count(t)) amb = true; by[t] = w; } if (!amb) { std::set<word> seen; for (auto const& t : got) CHECK(seen.insert(least_rotation(by[t])).second, "<" << t << "> is a rotation of one printed before"); } }
}

SUB_CPU(blocks, 500, 10000, 60, "searches for touches that need not come round: those printed are the true ones that cannot be made longer truly; non-trivial with 3 or more touches") {
  problem p; do p = gen_problem(s, true); while (p.n < 4); if (p.ends.size() == 1) s.discard(); vector<string> o; look l = gen_look(s); l.commas = false; l.plain = "."; name_calls(s, p, l, o);
  p.open = true; size_t L = p.m.size(); p.hi = s.range(2, 6); p.lo = s.below(4); if (p.lo > p.hi) p.lo = p.hi; size_t nodes = 0; bool big = false;
  std::function<void(perm const&)> go = [&](perm const& r) {
    if (++nodes > 4000) { big = true; return; }
    perm q = r; vector<perm> added; bool can = p.add_lead(q, p.ends[0], added); for (auto const& x : added) p.rows.erase(x);
    if (!can) { if (p.w.size() >= p.lo && !p.w.empty()) p.found.insert(p.w); return; }
    if (p.w.size() >= p.hi) return;
    for (size_t c=0; c<p.ends.size() && !big; ++c) { perm q2 = r; vector<perm> ad; p.w.push_back(c); if (p.add_lead(q2, p.ends[c], ad)) go(q2); p.w.pop_back(); for (auto const& x : ad) p.rows.erase(x); } };
  go(rounds(p.n)); if (big) s.discard(); s.nontrivial(p.found.size() >= 3);
  o.push_back(s.coin() ? "-R" : "--allow-non-round-blocks"); o.push_back("-l" + range_text(s, p.lo ? (p.lo - 1) * L + 1 + s.below(L) : 0, p.hi * L + s.below(L))); options(s, l, o); shuffle(s, o); { vector<string> o2; for (auto const& x : o) if (x != "-g" && x != "--comma-separate") o2.push_back(x); o = o2; }
  vector<string> argv(1, app("touchsearch")); argv.push_back("--bells=" + std::to_string(p.n)); argv.insert(argv.end(), o.begin(), o.end()); argv.push_back("--"); argv.push_back(gen::spell_plain(p.m)); s.renote(cmdline(argv));
  std::map<string, int> want; for (auto const& w : p.found) { ++want[word_line(p, l, w)]; } size_t shown = l.limit > 0 ? std::min(p.found.size(), (size_t)l.limit) : p.found.size();
  run_result r = run_ok(argv, "", "", {}, 60); CHECK_EQ(r.status, 0, "status: " << r.err); vector<string> got = lines(r.out); check_counts(l, got, shown, "touches"); if (l.quiet) { CHECK(got.empty(), "touches are printed"); return; }
  CHECK_EQ(got.size(), shown, "blocks printed, of " << p.found.size()); std::map<string, int> have; for (auto const& t : got) { ++have[t]; CHECK(want.count(t), "<" << t << "> is not a block wanted"); CHECK(have[t] <= want[t], "<" << t << "> is printed more than " << want[t] << " times"); }
}

SUB_CPU(filter, 500, 10000, 60, "lists of up to 6 methods read as a filter, with other things and unreadable lines between them: for each method that has a touch of the length wanted, in order, its line and one such touch; non-trivial when some of them have one and others do not") {
  problem p0; do p0 = gen_problem(s, true); while (p0.n < 4 || p0.ends.size() == 1); vector<string> o; look l = gen_look(s); l.limit = -1; name_calls(s, p0, l, o);
  size_t lo = s.below(120), hi = lo + s.below(60); int k = s.range(1, 6); string in; struct entry { string head; std::set<string> lines; }; vector<entry> want; int none = 0, bad = 0;
  options(s, l, o); { vector<string> o2; for (auto const& x : o) if (x.compare(0, 7, "--limit")) o2.push_back(x); o = o2; } l.limit = -1;
  for (int i=0; i<k; ++i) {
    if (s.chance(1,12)) { in += "\n"; } if (s.chance(1,12)) { in += "x1y nonsense\n"; ++bad; }
    problem p = p0; if (i) { problem q; for (int t=0; t<20; ++t) { q = gen_problem(s, true); if (q.n == p0.n) break; } if (q.n != p0.n) continue; p.m = q.m; p.ends[0] = p.m.back(); if (std::count(p.ends.begin(), p.ends.end(), p.ends[0]) > 1) continue; }
    size_t L = p.m.size(); p.lo = (lo + L - 1) / L; p.hi = hi / L; p.solve(4000); if (p.too_big) continue;
    string pn = gen::spell_plain(p.m), pay = s.chance(1,5) ? "" : s.coin() ? "Some Name" : "x7"; in += (s.chance(1,8) ? " " : "") + pn + (pay.empty() ? "" : (s.coin() ? " " : "\t") + pay) + "\n"; 
    if (p.found.empty()) { ++none; continue; } entry e; e.head = pn + "\t" + pay + "\t"; for (auto const& w : p.found) e.lines.insert(word_line(p, l, w)); want.push_back(e);
  }
  o.push_back("--filter"); o.push_back("-l" + range_text(s, lo, hi)); shuffle(s, o); vector<string> argv(1, app("touchsearch")); argv.push_back("-b" + std::to_string(p0.n)); argv.insert(argv.end(), o.begin(), o.end()); s.renote(cmdline(argv) + "\n" + in); s.nontrivial(!want.empty() && none);
  run_result r = run_ok(argv, in, "", {}, 60); CHECK_EQ(r.status, 0, "status: " << r.err); if (!bad) CHECK_EQ(r.err, "", "messages"); else CHECK(r.err.find("x1y") != string::npos, "nothing is said of the line that cannot be read: " << r.err);
  vector<string> got = lines(r.out); check_counts(l, got, want.size(), "methods"); if (l.quiet) { CHECK(got.empty(), "touches are printed"); return; }
  CHECK_EQ(got.size(), want.size(), "methods printed"); for (size_t i=0; i<got.size(); ++i) { CHECK_EQ(got[i].substr(0, want[i].head.size()), want[i].head, "line " << i); string t = got[i].substr(want[i].head.size()); CHECK(want[i].lines.count(t), "<" << t << "> is not a touch of " << want[i].head); }
}

SUB_CPU(plan, 1500, 30000, 60, "plans of up to 30 lead heads on 4 to 7 bells with up to 3 methods, ringable from rounds by up to 3 calls, with a fixed treble or without, in and out of course: touchsearch prints each sequence of leads of the plan that comes round and uses no lead head or lead end twice, once, within the limits; non-trivial with 2 or more touches, and 2 or more methods") {
  static int const stages[] = { 4, 4, 4, 5, 5, 5, 5, 6, 6, 7 }; int n = stages[s.below(10)]; bool fixed = s.chance(3,4); look l = gen_look(s); vector<string> o; problem calls; calls.n = n; calls.m.clear();
  int nm = s.range(1, 4), nc = s.range(1, 3); vector<gen::changes> ms; int even = s.chance(1,3); // tends to keep the lead heads in course
  auto end_change = [&] { perm c; for (int t=0; t<10; ++t) { c = fixed ? gen::change_through(s, n, 0, 0, s.below(3)) : gen_change(s, n); if (!even || sign(c) == (even == 1 ? -1 : 1)) break; } return c; };
  if (even) even = s.range(1, 2);
  for (int i=0; i<nm; ++i) { gen::changes m; for (int t=0; t<20; ++t) { do m = gen::gen_method(s, n, 0, 10); while (m.size() > 14); m.pop_back(); perm q = rounds(n); for (auto const& c : m) q = model::apply(q, c); if (fixed && q[0] != 0) continue; if (even && sign(q) != (even == 1 ? -1 : 1)) continue; break; } perm q = rounds(n); for (auto const& c : m) q = model::apply(q, c); if (fixed && q[0] != 0) fixed = false; if (i && s.chance(2,3)) { m = ms[s.below(ms.size())]; perm c = gen_change(s, n); size_t at = s.below(m.size() + 1); if (m.size() < 12) m.insert(m.begin() + at, 2, c); } if (std::find(ms.begin(), ms.end(), m) == ms.end()) ms.push_back(m); }
  if (!fixed && n > 6) s.discard();
  calls.ends.push_back(rounds(n)); for (int i=0; i<nc; ++i) { perm c = end_change(); if (std::find(calls.ends.begin() + 1, calls.ends.end(), c) == calls.ends.end() && c != calls.ends[0]) calls.ends.push_back(c); } if (calls.ends.size() == 1) s.discard(); name_calls(s, calls, l, o);
  // a plan of rows that can be reached, as a rule; from each lead head one method
  std::map<perm, int> plan; vector<perm> todo(1, rounds(n)); size_t most = s.chance(1,3) ? s.range(1, 30) : 30; bool one = s.chance(1,4);
  while (!todo.empty() && plan.size() < most) { size_t k = s.coin() ? todo.size() - 1 : s.below(todo.size()); perm r = todo[k]; todo.erase(todo.begin() + k); if (plan.count(r)) continue; int m = one ? 0 : s.below(ms.size()); plan[r] = m; perm q = r; for (auto const& c : ms[m]) q = model::apply(q, c); for (size_t c=1; c<calls.ends.size(); ++c) todo.push_back(model::apply(q, calls.ends[c])); if (s.chance(1,4)) todo.push_back(q); }
  if (s.chance(1,6)) { perm r = gen_perm(s, n); if (!plan.count(r)) plan[r] = 0; } if (s.chance(1,20)) plan.erase(rounds(n));
  size_t lo = 0, hi = (size_t)-1; int form = s.below(3); if (form == 1) { lo = s.below(40); hi = lo + s.below(60); } else if (form == 2) { if (s.coin()) lo = s.below(60); else hi = s.below(100); }
  // all sequences
  typedef vector<std::pair<int,int> > seq; std::multiset<string> want; size_t touches = 0, longest = 0, nodes = 0; bool big = false; std::set<perm> used; seq w; std::set<int> which;
  std::function<void(perm const&, size_t)> go = [&](perm const& r, size_t len) {
    if (++nodes > 20000) { big = true; return; } auto it = plan.find(r); if (it == plan.end()) return; 
    if (!w.empty() && r == rounds(n)) { if (len >= lo && len <= hi) { ++touches; longest = std::max(longest, w.size()); vector<string> c; std::set<int> u; for (auto const& x : w) { c.push_back(l.names[x.second-1]); u.insert(x.first); } if (u.size() > which.size()) which = u; want.insert(line_of(l, c, 1, len)); } return; }
    perm e = r; for (auto const& c : ms[it->second]) e = model::apply(e, c); if (used.count(r) || used.count(e)) return; if (len >= hi) return; used.insert(r); used.insert(e);
    for (size_t c=1; c<calls.ends.size() && !big; ++c) { w.push_back(std::make_pair(it->second, (int)c)); go(model::apply(e, calls.ends[c]), len + ms[it->second].size() + 1); w.pop_back(); }
    used.erase(r); used.erase(e); };
  go(rounds(n), 0); if (big) s.discard();
  string in; vector<perm> order; for (auto const& e : plan) order.push_back(e.first); for (size_t i=0; i+1<order.size(); ++i) if (s.chance(1,3)) std::swap(order[i], order[i + s.below(order.size()-i)]);
  for (auto const& r : order) { gen::changes m = ms[plan[r]]; m.push_back(s.chance(1,3) ? gen_change(s, n) : calls.ends[1]); string pn = gen::spell_plain(m); in += text(r) + (s.coin() ? " " : "\t") + pn + (s.chance(1,3) ? " Name" : "") + "\n"; }
  o.push_back(s.coin() ? "-a" : "--use-plan"); if (form) o.push_back("-l" + range_text(s, lo, hi)); options(s, l, o); want.clear(); touches = nodes = 0; go(rounds(n), 0); shuffle(s, o); vector<string> argv(1, app("touchsearch")); argv.push_back("-b" + std::to_string(n)); argv.insert(argv.end(), o.begin(), o.end());
  s.renote(cmdline(argv) + "\n" + in); s.nontrivial(touches >= 2 && which.size() >= 2); s.label(fixed ? "fixed treble" : "treble moves"); s.label(which.size() > 1 ? "spliced" : touches ? "one method" : "no touches"); if (even) s.label(even == 1 ? "odd lead ends" : "even lead ends");
  size_t shown = l.limit > 0 ? std::min(touches, (size_t)l.limit) : touches; run_result r = run_ok(argv, in, "", {}, 60); CHECK_EQ(r.status, 0, "status: " << r.err); CHECK_EQ(r.err, "", "messages");
  vector<string> got = lines(r.out); check_counts(l, got, shown, "touches"); if (l.quiet) { CHECK(got.empty(), "touches are printed"); return; }
  for (auto const& t : got) { auto i = want.find(t); CHECK(i != want.end(), "<" << t << "> is not a touch of the plan, or is printed too often"); want.erase(i); } CHECK_EQ(got.size(), shown, "touches printed, of " << touches);
}

SUB(robust, 1500, 20000, "options, methods, calls, part ends and plans at random and damaged: touchsearch ends by itself with status 0, or with status 1 and a message; non-trivial when it is given calls and a method or plan") {
  int n = s.range(4, 6); vector<string> argv(1, app("touchsearch")); if (s.chance(19,20)) argv.push_back("-b" + (s.chance(1,12) ? string(1, s.pickc("01237xE")) : std::to_string(n)));
  auto damage = [&](string t) { int k = s.chance(1,3) ? s.range(1, 2) : 0; while (k--) { if (!t.empty() && s.coin()) t.erase(s.below(t.size()), 1); else t.insert(s.below(t.size() + 1), 1, s.pickc("0123456789ETx-.,&+=b ")); } return t; };
  auto meth = [&] { gen::changes m; do m = gen::gen_method(s, n, 0, 8); while (m.size() > 12); return damage(gen::spell_plain(m)); }; int k = s.below(3); bool c = k; while (k--) argv.push_back("-C" + damage("b=" + full_pn(gen_change(s, n)))); k = s.chance(1,3) ? s.range(1, 2) : 0; while (k--) argv.push_back("-P" + damage(text(gen_perm(s, s.chance(1,4) ? s.range(1, 9) : n))));
  string in; int mode = s.below(4); if (mode == 1) { argv.push_back("-a"); int q = s.below(6); while (q--) in += damage(text(gen_perm(s, s.chance(1,8) ? s.range(1, 9) : n)) + " " + meth()) + "\n"; } else if (mode == 2) { argv.push_back("--filter"); int q = s.below(5); while (q--) in += meth() + " name\n"; }
  argv.push_back(s.chance(1,8) ? "-l" + damage("1-40") : "-l0-" + std::to_string(s.range(1, 40))); if (s.chance(1,4)) argv.push_back(s.coin() ? "-R" : "-m"); argv.push_back("--limit=" + std::to_string(s.range(-1, 50))); if (s.chance(1,4)) argv.push_back("-g"); if (mode == 0 || mode == 3 || s.chance(1,10)) { argv.push_back("--"); argv.push_back(meth()); }
  s.renote(cmdline(argv) + "\n" + quote(in)); s.nontrivial(c && (mode != 1 || !in.empty())); run_result r = run(argv, in, "", {}, 30); CHECK(!r.timed_out, "did not finish"); CHECK(!r.crashed, "crashed: " << r.status << " " << r.err); CHECK(r.status == 0 || r.status == 1, "status " << r.status); if (r.status) CHECK(!r.err.empty(), "status 1 with no message"); s.label(str() << (mode == 1 ? "plan " : mode == 2 ? "filter " : "method ") << r.status);
}
