// C46 - spliceplan: every way to ring an extent of spliced methods
//! apps: spliceplan
#include "methods.h"
#include <set>
#include <map>
#include <functional>
#include <dirent.h>
#include <sys/stat.h>
using namespace model; using namespace pbt; using gen::changes;
namespace {
struct meth { changes m; string name; perm le; vector<perm> rows; };
// A method which is the same backwards about its lead end, with a treble that hunts to some place
changes symmetric(Src& s, int n, int top) {
  changes m; auto step = [&](int from, int to) { perm c = rounds(n); if (from != to) std::swap(c[from], c[to]); vector<bool> used(n); used[from] = used[to] = true; bool most = s.chance(3,4); for (int i=0; i+1<n; ++i) if (!used[i] && !used[i+1] && (most || s.chance(2,3))) { std::swap(c[i], c[i+1]); used[i] = used[i+1] = true; } return c; };
  for (int i=0; i<top; ++i) m.push_back(step(i, i + 1)); m.push_back(step(top, top)); for (int i=top; i--; ) m.push_back(m[i]); m.push_back(step(0, 0)); return m;
}
string joined(vector<string> const& v) { string t; for (auto const& x : v) t += x + "\n"; return t; }
typedef vector<int> plan; // method of each lead head, in order of the lead heads
string spelt(Src& s, changes const& m) { int k = m.size(); if (s.coin()) return "&" + gen::spell_plain(changes(m.begin(), m.begin() + k/2)) + ",+" + gen::spell_plain(changes(m.end() - 1, m.end())); return "+" + gen::spell_plain(m); }
// Everything that has been chosen at random
struct instance {
  int n; bool in; vector<meth> ms; vector<perm> parts; vector<perm> lhs; std::map<perm, int> at; std::set<perm> row_used; plan cur; vector<plan> found; long nodes = 0; bool too_many = false;
  void setup(Src& s) { perm p = rounds(n); do if (p[0] == 0 && (!in || sign(p) > 0)) { at[p] = lhs.size(); lhs.push_back(p); } while (std::next_permutation(p.begin(), p.end())); cur.assign(lhs.size(), -1); (void)s; }
  bool use(perm const& lh, int m, vector<perm>& rows, vector<int>& places) {
    // Every part of it
    for (auto const& g : parts) { perm a = mul(g, lh), b = mul(a, ms[m].le); int i = at[a], j = at[b]; if (cur[i] == m && cur[j] == m) { bool mine = std::find(places.begin(), places.end(), i) != places.end(); if (mine) continue; return false; } if (cur[i] >= 0 || cur[j] >= 0) return false; cur[i] = cur[j] = m; places.push_back(i); places.push_back(j); for (auto const& r : ms[m].rows) { perm x = mul(a, r); if (!row_used.insert(x).second) return false; rows.push_back(x); } }
    return true;
  }
  void search(size_t from) { if (too_many || ++nodes > 60000 || found.size() > 1500) { too_many = true; return; } while (from < lhs.size() && cur[from] >= 0) ++from; if (from == lhs.size()) { found.push_back(cur); return; } for (int m=0; m<(int)ms.size(); ++m) { vector<perm> rows; vector<int> pl; if (use(lhs[from], m, rows, pl)) search(from + 1); for (auto const& r : rows) row_used.erase(r); for (int i : pl) cur[i] = -1; } }
  plan rotation(plan const& p, perm const& g) { plan q(p.size()); for (size_t i=0; i<p.size(); ++i) q[at[mul(g, lhs[i])]] = p[i]; return q; }
};
string line_of(instance const& x, plan const& p, bool rot, size_t rotations) { string t; for (size_t m=0; m<x.ms.size(); ++m) { int k = std::count(p.begin(), p.end(), (int)m); if (!k) continue; if (t.size()) t += ", "; t += x.ms[m].name + " (" + std::to_string(k) + ")"; } if (rot) t += " [" + std::to_string(rotations) + " rotations]"; return t; }
}

SUB(plans, 800, 6000, "up to 5 symmetric methods on 4 to 6 bells, in or out of course, with up to 2 generators of part ends or ignoring rotations: the plans printed, and written to files, are all of those found by laying leads row by row until every lead head is in one; non-trivial = at least two plans and one with two methods") {
  instance x; x.n = s.pick(vector<int>{4, 4, 5, 5, 5, 6}); x.in = s.coin(); int n = x.n; bool rot = s.chance(1,3); int top = s.chance(2,3) ? n - 1 : s.range(1, n - 1); int want = s.range(1, 5); std::set<changes> seen; bool refused = false;
  for (int tries=0; tries<200 && (int)x.ms.size() < want; ++tries) { meth m; if (x.ms.size() && s.chance(3,4)) { m.m = s.pick(x.ms).m; changes o = symmetric(s, n, top); int k = s.below(top + 2); if (s.coin()) k = s.coin() ? top : top + 1; if (k == top + 1) m.m.back() = o.back(); else m.m[k] = m.m[2*top - k] = o[k]; } else m.m = symmetric(s, n, top);
    m.rows = gen::rows(m.m, rounds(n)); m.rows.pop_back(); m.le = m.rows.back(); std::set<perm> distinct(m.rows.begin(), m.rows.end()); if (distinct.size() != m.rows.size()) continue; if (x.in && sign(m.le) < 0) { if (!s.chance(1,60)) continue; refused = true; } if (!seen.insert(m.m).second) continue; string t; do t = string(1, s.pickc("ABCDEFGHKLMNRSTW")) + (s.coin() ? "" : string(1, s.pickc("aeiou"))); while ([&] { for (auto const& y : x.ms) if (y.name == t) return true; return false; }()); m.name = t; x.ms.push_back(m); }
  if (x.ms.empty()) s.discard(); x.setup(s); vector<string> argv(1, app("spliceplan")); vector<string> o; auto opt = [&](char const* a, char const* b) { o.push_back(s.coin() ? a : b); }; o.push_back(s.coin() ? "-b" + std::to_string(n) : "--bells=" + std::to_string(n)); if (x.in) opt("-i", "--in-course"); if (rot) opt("-r", "--ignore-rotations");
  std::set<perm> group; group.insert(rounds(n)); if (!rot && s.chance(n == 4 ? 1 : 2, 3)) { int k = s.range(1, 2); vector<perm> gens; for (int i=0; i<k; ++i) { perm g = s.chance(1,3) ? s.pick(x.ms).le : s.pick(x.lhs); if (x.in && sign(g) < 0) continue; gens.push_back(g); string t = model::text(g); o.push_back(s.coin() ? "-P" + t : "--part-end=" + t); } vector<perm> todo(1, rounds(n)); while (!todo.empty()) { perm p = todo.back(); todo.pop_back(); for (auto const& g : gens) { perm q = mul(p, g); if (group.insert(q).second) todo.push_back(q); } } }
  x.parts.assign(group.begin(), group.end()); bool quiet = s.chance(1,6); if (quiet) opt("-q", "--quiet"); string dir = scratch(), files; if (quiet || s.coin()) { mkdir((dir + "/d").c_str(), 0700); files = s.coin() ? dir + "/d" : dir + "/d/p%x"; o.push_back(s.coin() ? "-O" + files : "--output-plans=" + files); }
  for (size_t i=0; i+1<o.size(); ++i) std::swap(o[i], o[i + s.below(o.size() - i)]); argv.insert(argv.end(), o.begin(), o.end()); string in; for (auto const& m : x.ms) in += spelt(s, m.m) + "\t" + m.name + "\n"; s.renote(cmdline(argv) + " < " + quote(in));
  if (refused) { run_result r = run(argv, in, "", {}, 60); CHECK(!r.crashed && r.status == 1 && !r.err.empty(), "status " << r.status << " with a lead end that's out of course: " << r.err); s.label("refused"); return; }
  x.search(0); if (x.too_many) s.discard();
  // Which of them are to be printed
  vector<plan> want_plans; vector<string> want_lines; std::set<plan> left(x.found.begin(), x.found.end()); CHECK_EQ(left.size(), x.found.size(), "plans in the model"); bool mixed = false; vector<std::set<plan>> classes; for (auto const& p : x.found) if (std::set<int>(p.begin(), p.end()).size() > 1) mixed = true;
  if (rot) { while (!left.empty()) { std::set<plan> c; plan p = *left.begin(); for (auto const& g : x.lhs) c.insert(x.rotation(p, g)); for (auto const& q : c) left.erase(q); want_lines.push_back(line_of(x, p, true, c.size())); classes.push_back(c); } } else for (auto const& p : x.found) { want_lines.push_back(line_of(x, p, false, 0)); classes.push_back(std::set<plan>(&p, &p + 1)); }
  run_result r = run_ok(argv, in, "", {}, 100); CHECK_EQ(r.status, 0, "status: " << r.err); CHECK_EQ(r.err, string(), "messages"); vector<string> got; { std::istringstream is(r.out); string l; while (getline(is, l)) got.push_back(l); } vector<string> sorted = got, ws = want_lines; std::sort(sorted.begin(), sorted.end()); std::sort(ws.begin(), ws.end()); if (quiet) CHECK_EQ(r.out, string(), "output although quiet"); else CHECK_EQ(joined(sorted), joined(ws), "plans printed");
  if (files.size()) {
    size_t count = 0; if (DIR* d = opendir((dir + "/d").c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') ++count; closedir(d); } CHECK_EQ(count, classes.size(), "files of plans"); vector<bool> used(classes.size());
    for (size_t i=1; i<=classes.size(); ++i) { string fn = files.find('%') == string::npos ? files + "/" + std::to_string(i) + ".plan" : dir + "/d/p" + std::to_string(i) + "x"; string t = read_file(fn); CHECK(t.size(), "no plan in " << fn); plan p(x.lhs.size(), -1); std::istringstream is(t); string l; size_t lines = 0;
      while (getline(is, l)) { ++lines; size_t a = l.find('\t'), b = a == string::npos ? a : l.find('\t', a + 1); CHECK(b != string::npos, "line of a plan: " << quote(l)); perm lh; for (char c : l.substr(0, a)) lh.push_back(string(symbols).find(c)); CHECK(x.at.count(lh), "lead head " << quote(l)); int m = -1; for (size_t k=0; k<x.ms.size(); ++k) if (x.ms[k].name == l.substr(b + 1)) m = k; changes c; CHECK(m >= 0 && gen::read_pn(l.substr(a + 1, b - a - 1), n, c) && c == x.ms[m].m, "method in " << quote(l)); p[x.at[lh]] = m; }
      CHECK_EQ(lines, x.lhs.size(), "lines of a plan"); bool found = false; for (size_t k=0; k<classes.size() && !found; ++k) if (!used[k] && classes[k].count(p)) used[k] = found = true; CHECK(found, "the plan in file " << i << " is not one, or is there twice"); if (!quiet) { string w = line_of(x, p, false, 0); CHECK(got[i-1].compare(0, w.size(), w) == 0, "line " << i << " is " << quote(got[i-1]) << " but the plan is " << w); } } s.label("files"); }
  s.label(rot ? "rotations" : x.parts.size() > 1 ? "parts" : "one part"); s.label(x.found.empty() ? "no plans" : x.found.size() == 1 ? "one plan" : x.found.size() < 20 ? "a few plans" : "many plans"); if (x.found.size() > 1 && mixed) s.nontrivial();
}

SUB(misuse, 500, 8000, "options which are impossible or cannot be read, and input which is damaged: the program ends with status 1 and a message, or with status 0; non-trivial = refused") {
  int n = s.range(3, 5); vector<string> argv = { app("spliceplan") }; string in; for (int i=s.range(0, 3); i--; ) in += spelt(s, symmetric(s, n, n - 1)) + "\tA\n"; bool must = true;
  auto row = [&](int m) { return model::text(gen_perm(s, m)); };
  switch (s.below(8)) { case 0: argv.push_back("-b" + std::to_string(s.range(-3, 0))); break; case 1: argv.push_back("-b" + std::to_string(s.range(34, 1000))); break; case 2: break;
    case 3: argv.push_back("-b" + std::to_string(n)); argv.push_back("-P" + s.pick(vector<string>{"x", "11", "2", "13", "", "1 2", "-"})); must = argv.back() != "-P" && argv.back() != "-P1 2"; if (!must) s.discard(); break;
    case 4: argv.push_back("-b" + std::to_string(n)); { perm p = gen_perm(s, n + s.below(3)); if (p[0] == 0 && (int)p.size() == n) s.discard(); while (p.size() > (size_t)n && p.back() == (int)p.size() - 1) p.pop_back(); if (p[0] == 0 && (int)p.size() == n) s.discard(); argv.push_back("-P" + model::text(p)); } break;
    case 5: argv.push_back("-b" + std::to_string(n)); argv.push_back("-r"); argv.push_back("-P" + string("132456789").substr(0, n)); break;
    default: argv.push_back("-b" + std::to_string(n)); if (s.coin()) argv.push_back("-i"); must = false; int k = s.range(1, 3); while (k-- && in.size()) { size_t at = s.below(in.size()); switch (s.below(3)) { case 0: in.erase(at, s.range(1, 3)); break; case 1: in[at] = s.pickc("x1234567890.,&+ \t\n-:"); break; default: in.insert(at, 1, s.pickc("x1234567890.,&+ \t\n-:")); } } }
  s.renote(cmdline(argv) + " < " + quote(in)); run_result r = run(argv, in, "", {}, 8); if (r.timed_out) s.discard(); CHECK(!r.crashed, "crashed: " << r.err); CHECK(r.status == 1 || (!must && r.status == 0), "status " << r.status); if (r.status) { CHECK(!r.err.empty(), "no message"); s.nontrivial(); }
}
