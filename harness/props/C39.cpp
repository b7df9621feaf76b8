// C39 - fextent: sets of mutually true leads and courses
//! apps: fextent
#include "methods.h"
#include <set>
using namespace model; using namespace pbt;
namespace {
vector<string> lines(string const& t) { vector<string> r; std::istringstream is(t); string l; while (getline(is, l)) r.push_back(l); return r; }
struct problem {
  int n; gen::changes m; perm lh, plain; vector<perm> parts; bool courses, tt, in, principle, link; vector<perm> calls, required;
  // All the lead heads of a lead or course, in all parts
  vector<perm> heads(perm r) const { vector<perm> v; perm q = r; do { for (auto const& p : parts) v.push_back(mul(p, q)); q = mul(q, lh); } while (courses && q != r); return v; }
  bool add_rows(perm const& r, std::set<perm>& rows) const { for (auto const& h : heads(r)) { vector<perm> v = gen::rows(m, h); v.pop_back(); for (auto const& x : v) if (!rows.insert(x).second) return false; } return true; }
};
void close(vector<perm>& v, vector<perm> const& g, size_t most) { std::set<perm> all(v.begin(), v.end()); for (size_t i=0; i<v.size() && v.size() <= most; ++i) for (auto const& x : g) { perm q = mul(v[i], x); if (all.insert(q).second) v.push_back(q); } }
perm some_row(Src& s, problem const& p, int fixed_top) { int h = p.principle ? 0 : 1, k = p.n - h - fixed_top; perm q = gen_perm(s, k), r = rounds(p.n); for (int i=0; i<k; ++i) r[i+h] = q[i] + h; if (p.in && sign(r) < 0 && k > 1) std::swap(r[h], r[h+1]); return r; }
int home(problem const& p) { return !p.courses ? 0 : p.tt ? p.n - 6 : 1; }
// Is the course or lead linked: by the calls to others of the set
bool linked(problem const& p, perm const& r, std::set<perm> const& all) {
  vector<perm> own = p.heads(r); std::set<perm> mine(own.begin(), own.end());
  if (!p.courses) { vector<perm> ends = p.calls; ends.push_back(p.plain); for (auto const& c : ends) { perm q = model::apply(model::apply(mul(r, p.lh), p.plain), c); if (all.count(q) && !mine.count(q)) return true; } return false; }
  for (auto const& c : p.calls) { perm t = mul(p.plain, c); vector<perm> g(1, rounds(p.n)); close(g, vector<perm>(1, t), 1000);
    perm q = r; do { std::set<perm> seen(mine); bool ok = true; for (size_t i=1; i<g.size() && ok; ++i) { perm x = mul(q, g[i]); if (!all.count(x) || seen.count(x)) ok = false; else for (auto const& y : p.heads(x)) seen.insert(y); } if (ok) return true; q = mul(q, p.lh); } while (q != r); }
  return false;
}
bool make(Src& s, problem& p) {
  p.courses = s.chance(2,5); p.principle = !p.courses && s.chance(1,6); p.tt = p.courses && s.chance(1,4); p.in = s.chance(1,3); p.link = s.chance(1,3);
  p.n = p.principle ? s.range(4, 5) : p.tt ? s.range(7, 8) : p.courses ? s.range(5, 7) : s.range(4, 6);
  for (int t=0; ; ++t) { if (t == 60) return false; 
    p.m = gen::gen_method(s, p.n, 0, p.principle ? 10 : 16); if (p.m.size() > 32) continue; if (p.courses && s.coin()) { gen::changes h; int k = s.range(2, 8); vector<int> path; (void)k; }
    p.lh = course_head(p.n, p.m); p.plain = p.m.back(); if (!p.principle && (p.lh[0] != 0 || p.plain[0] != 0)) continue;
    if (p.courses && (order(p.lh) != p.n - 1 || p.lh[p.n-1] == p.n-1)) continue; if (p.courses) { auto c = cycles(p.lh); bool one = false; for (auto const& x : c) one |= (int)x.size() == p.n - 1; if (!one) continue; }
    p.parts.assign(1, rounds(p.n)); std::set<perm> rows; if (p.add_rows(rounds(p.n), rows)) break; }
  return true;
}
}

SUB_CPU(sets, 700, 20000, 100, "true methods on 4 to 8 bells, leads or whole courses, in course only or tenors together, with part ends, required leads, linkage by calls, and weights: all rows of all the leads or courses printed are different, in all parts, they have the required ones, are of the parity and kind asked for, and are linked if that is asked for, and the number and length are as printed; non-trivial with 3 or more leads or courses, when not all there are") {
  problem p; if (!make(s, p)) s.discard(); vector<string> o; int h = home(p);
  auto opt = [&](char const* a, char const* b) { o.push_back(s.coin() ? a : b); };
  if (p.courses) opt("-c", "--whole-courses"); if (p.tt) opt("-t", "--tenors-together"); if (p.in) opt("-i", "--in-course"); if (p.principle) opt("-p", "--principle"); if (p.link) opt("-k", "--linkage");
  if (s.chance(1,3)) { vector<perm> g; for (int k=s.range(1, 2); k--; ) g.push_back(some_row(s, p, p.courses && !p.tt ? 1 : h)); vector<perm> v(1, rounds(p.n)); close(v, g, 12); if (v.size() <= 12) { p.parts = v; for (auto const& x : g) { string t = text(x); o.push_back(s.coin() ? "-P" + t : "--part-end=" + t); } } }
  bool rotated = false; if (s.chance(1,3)) for (int k=s.range(1, 3); k--; ) { perm r = some_row(s, p, h); if (p.courses && !p.in && s.chance(1,3)) { r = mul(r, power(p.lh, s.below(p.n))); rotated = true; } p.required.push_back(r); o.push_back((s.coin() ? "-r" : "--required=") + text(r)); }
  if (p.link) { bool bob = false; vector<int> pl; pl.push_back(0); pl.push_back(3); perm b; from_places(p.n, pl, b); if (s.chance(1,5) && (!p.in || sign(b) == sign(p.plain)) && b != p.plain) { p.calls.push_back(b); bob = true; }
    if (!bob) for (int k=s.range(1, 2); k--; ) for (int t=0; t<10; ++t) { perm c = p.principle ? gen_change(s, p.n) : gen::change_through(s, p.n, 0, 0, s.below(3)); if (c == p.plain || (p.in && sign(c) != sign(p.plain)) || std::count(p.calls.begin(), p.calls.end(), c)) continue; p.calls.push_back(c); o.push_back((s.coin() ? "-C" : "--call=") + gen_spelling(s, c)); break; }
    if (p.calls.empty()) s.discard(); }
  if (s.chance(1,4)) for (int k=s.range(1, 2); k--; ) { static char const* nm[] = { "i", "o", "t", "f", "k", "b", "in-course", "out-of-course", "tenors-together", "tenors-over", "linked", "base" }; static char const* w[] = { "2", "1", "0.5", "0.1", "0", "3.7", "0.3" }; o.push_back(string(s.coin() ? "-W" : "--weighting=") + nm[s.below(12)] + "=" + w[s.below(7)]); s.label("weights"); }
  int loop = s.chance(1,4) ? s.range(2, 3) : 1, seed = s.range(1, 99999), min = s.chance(1,6) ? s.range(1, 60) : 0; if (loop > 1) o.push_back((s.coin() ? "-l" : "--loop=") + std::to_string(loop)); o.push_back("--seed=" + std::to_string(seed)); o.push_back((s.coin() ? "-n" : "--iterations=") + std::to_string(s.range(1, 300))); o.push_back("--print-leads"); if (min) o.push_back("--min-leads=" + std::to_string(min)); if (s.chance(1,10)) o.push_back(s.coin() ? "-u" : "--status");
  for (size_t i=0; i+1<o.size(); ++i) std::swap(o[i], o[i + s.below(o.size()-i)]);
  vector<string> argv(1, app("fextent")); argv.push_back("-b" + std::to_string(p.n)); argv.insert(argv.end(), o.begin(), o.end()); argv.push_back("--"); argv.push_back(gen::spell_plain(p.m)); s.renote(cmdline(argv)); s.label(string(p.tt ? "tenors together " : "") + (p.courses ? "courses" : "leads") + (p.link ? ", linked" : "") + (p.parts.size() > 1 ? ", parts" : "")); if (!p.required.empty()) s.label("required"); if (rotated) s.label("required course by another lead");
  // Is what is asked for false already?
  bool refuse = false; { std::set<perm> rows; if (!p.add_rows(rounds(p.n), rows)) refuse = true; rows.clear(); for (auto const& r : p.required) if (!p.add_rows(r, rows)) refuse = true; }
  run_result r = run_ok(argv, "", "", {}, 60); if (r.status == 1 && p.link && p.courses && !refuse && r.err.find("conflict") != string::npos) { s.label("calls refused"); return; }
  if (p.in && p.link && !p.courses && sign(p.lh) < 0 && r.status == 1) { s.label("refused: lead heads out of course"); return; }
  CHECK_EQ(r.status, refuse ? 1 : 0, "status: " << r.err); if (refuse) { CHECK(r.err.find("onflict") != string::npos || r.err.find("false") != string::npos, "message: " << r.err); s.label("refused"); return; }
  vector<string> got = lines(r.out); size_t i = 0; auto next = [&] { while (i < got.size() && (got[i].empty() || got[i][0] == 'Q')) ++i; return i < got.size() ? got[i] : string(); };
  CHECK_EQ(next(), "Started with seed " + std::to_string(seed), "first line"); ++i; CHECK_EQ(next(), "Using part-end group of order " + std::to_string(p.parts.size()), "second line"); ++i;
  size_t clen = p.courses ? p.n - 1 : 1, per = p.parts.size() * clen, most = 0, full = 1; { int k = p.n - (p.principle ? 0 : 1) - h; for (int q=2; q<=k; ++q) full *= q; if (p.in) full /= 2; full /= p.parts.size(); }
  for (int k=0; k<loop; ++k) {
    string l = next(); size_t leads, length; int used = 0; CHECK(sscanf(l.c_str(), "%zu leads (%zu)%n", &leads, &length, &used) == 2 && used, "<" << l << "> is not a number of leads"); ++i; CHECK_EQ(leads % per, 0u, "<" << l << ">: leads which are not whole parts or courses"); CHECK_EQ(length, leads * p.m.size(), "<" << l << ">: the length");
    string rest = l.substr(used); bool unlinked = false; 
    if (p.link && !p.required.empty()) { double pc; int u2 = 0; if (sscanf(rest.c_str(), " not fully linked ( %lf%%)%n", &pc, &u2) == 1 && u2) { unlinked = true; rest = rest.substr(u2); s.label("not linked"); } }
    if (!unlinked) most = std::max(most, leads); if (loop > 1) CHECK_EQ(rest, " [highest = " + std::to_string(most) + " leads (" + std::to_string(most * p.m.size()) + ")]", "the rest of the line"); else CHECK_EQ(rest, "", "the rest of the line");
    std::set<perm> rows, all; vector<perm> set; 
    for (;; ++i) { l = next(); int idx, at = 0; if (sscanf(l.c_str(), "%d: %n", &idx, &at) != 1 || !at) break; string t = l.substr(at, p.n); perm q; for (char c : t) { int b = 0; while (b < p.n && sym(b)[0] != c) ++b; q.push_back(b); } CHECK((int)q.size() == p.n && is_perm(q), "<" << l << "> has no row"); CHECK((int)l.size() > at + p.n && l[at + p.n] == (sign(q) > 0 ? '+' : '-'), "<" << l << ">: its parity"); set.push_back(q); }
    if (unlinked) { CHECK(set.empty(), "leads printed though they are not linked"); continue; } if ((int)leads < min) { CHECK(set.empty(), "leads printed though there are fewer than " << min); continue; }
    CHECK_EQ(set.size() * per, leads, "number of leads from the " << set.size() << " printed");
    for (auto const& q : set) { if (!p.principle) CHECK_EQ(q[0], 0, text(q) << " does not have the treble leading"); if (p.in) CHECK(sign(q) > 0, text(q) << " is out of course"); if (p.tt) for (int b=6; b<p.n; ++b) CHECK_EQ(q[b], b, text(q) << " does not have the tenors together"); CHECK(p.add_rows(q, rows), "the leads up to " << text(q) << " have a row twice"); for (auto const& x : p.heads(q)) all.insert(x); }
    for (auto const& q : p.required) CHECK(all.count(q), text(q) << " was required"); if (p.link) for (auto const& q : set) CHECK(linked(p, q, all), text(q) << " is not linked to others");
    s.nontrivial(set.size() >= 3 && set.size() < full);
  }
  CHECK_EQ(next(), "", "after the last set");
  if (s.chance(1,4)) { vector<string> a2; for (auto const& x : argv) if (x != "--print-leads") a2.push_back(x == "--" ? "-q" : x); a2.insert(a2.end() - 1, "--"); run_result q = run_ok(a2, "", "", {}, 60); CHECK_EQ(q.status, 0, "status"); string t; for (auto const& x : lines(q.out)) if (x.empty() || x[0] != 'Q') t += x + "\n"; CHECK_EQ(t, std::to_string(most) + "\n", "the greatest number of leads, printed quietly"); }
}

SUB_CPU(all, 150, 1500, 60, "methods with little or no falseness, with many iterations: when no two leads or courses are false against each other, all of them are found; non-trivial when there are 6 or more") {
  problem p; if (!make(s, p)) s.discard(); p.link = false; int h = home(p); vector<string> argv(1, app("fextent")); argv.push_back("-b" + std::to_string(p.n)); if (p.courses) argv.push_back("-c"); if (p.tt) argv.push_back("-t"); if (p.principle) argv.push_back("-p");
  if (!p.in) { if (s.coin()) p.in = true; } if (p.in) argv.push_back("-i");
  // all there are
  vector<perm> all; { int a = p.principle ? 0 : 1; vector<int> mid; for (int i=a; i<p.n-h; ++i) mid.push_back(i); do { perm r = rounds(p.n); std::copy(mid.begin(), mid.end(), r.begin() + a); if (!p.in || sign(r) > 0) all.push_back(r); } while (std::next_permutation(mid.begin(), mid.end())); }
  std::set<perm> rows; for (auto const& r : all) if (!p.add_rows(r, rows)) s.discard(); s.nontrivial(all.size() >= 6);
  argv.push_back("--seed=" + std::to_string(s.range(1, 9999))); argv.push_back("-n" + std::to_string(40 * all.size() + 40)); argv.push_back("-q"); argv.push_back("--"); argv.push_back(gen::spell_plain(p.m)); s.renote(cmdline(argv));
  run_result r = run_ok(argv, "", "", {}, 60); CHECK_EQ(r.status, 0, "status: " << r.err); CHECK_EQ(r.out, std::to_string(all.size() * (p.courses ? p.n - 1 : 1)) + "\n", "number of leads");
}

SUB(robust, 1500, 20000, "options, methods, part ends and required rows at random and damaged: fextent ends by itself with status 0, or with status 1 and a message; non-trivial when it is given a method") {
  int n = s.range(4, 6); vector<string> argv(1, app("fextent")); if (s.chance(19,20)) argv.push_back("-b" + (s.chance(1,12) ? string(1, s.pickc("01237xE")) : std::to_string(n)));
  auto damage = [&](string t, int den) { int k = s.chance(1, den) ? s.range(1, 2) : 0; while (k--) { if (!t.empty() && s.coin()) t.erase(s.below(t.size()), 1); else t.insert(s.below(t.size() + 1), 1, s.pickc("0123456789ETx-.,&+=b ")); } return t; };
  static char const* op[] = { "-c", "-i", "-i", "-p", "-k", "-q", "-u", "--print-leads", "-l2", "-Wb=-1", "-Wi=2", "-Wo=-3", "-W", "-Wx=1", "-Wt=z" }; for (int k=s.below(5); k--; ) argv.push_back(op[s.below(s.chance(1,6) ? 15 : 12)]);
  for (int k=s.chance(1,3) ? s.range(1, 2) : 0; k--; ) argv.push_back("-P" + damage(text(gen_perm(s, s.chance(1,4) ? s.range(1, 9) : n)), 3)); for (int k=s.chance(1,3) ? s.range(1, 2) : 0; k--; ) argv.push_back("-r" + damage(text(gen_perm(s, s.chance(1,4) ? s.range(1, 9) : n)), 3)); for (int k=s.below(3); k--; ) argv.push_back("-C" + damage(full_pn(gen_change(s, n)), 3));
  argv.push_back("--seed=" + std::to_string(s.below(5))); argv.push_back("-n" + (s.chance(1,12) ? string(s.coin() ? "0" : "-4") : std::to_string(s.range(1, 100)))); argv.push_back("--"); gen::changes m; do m = gen::gen_method(s, n, 0, 8); while (m.size() > 24); bool had = s.chance(19,20); if (had) argv.push_back(damage(gen::spell_plain(m), 4)); s.nontrivial(had);
  s.renote(cmdline(argv)); run_result r = run(argv, "", "", {}, 30); CHECK(!r.timed_out, "did not finish"); CHECK(!r.crashed, "crashed: " << r.status << " " << r.err); CHECK(r.status == 0 || r.status == 1, "status " << r.status); if (r.status) CHECK(!r.err.empty(), "status 1 with no message"); s.label(str() << r.status);
}
