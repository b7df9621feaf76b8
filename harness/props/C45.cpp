// C45 - splices: which methods splice, and how
//! apps: splices
#include "methods.h"
#include <set>
#include <functional>
#include <map>
using namespace model; using namespace pbt; using gen::changes;
namespace {
// A method whose treble goes along a path that is the same backwards, usually the same forwards and backwards itself
changes dominated(Src& s, int n, vector<int> const& path, bool pal, bool long_le) {
  changes m; int half = path.size() - 1; auto step = [&](int from, int to) { for (;;) { perm c = rounds(n); bool made = from == to; if (!made) std::swap(c[from], c[to]); vector<bool> used(n); used[from] = used[to] = true; for (int i=0; i+1<n; ++i) if (!used[i] && !used[i+1] && s.chance(3,4)) { std::swap(c[i], c[i+1]); used[i] = used[i+1] = true; } if (c != rounds(n)) return c; } };
  for (int i=0; i<half; ++i) m.push_back(step(path[i], path[i+1])); m.push_back(step(path[half], path[half])); for (int i=half; i--; ) m.push_back(pal ? m[i] : step(path[i+1], path[i])); (void)long_le; m.push_back(step(0, 0)); return m;
}
// Another like it
changes variant(Src& s, changes m, vector<int> const& path, bool pal, int n) {
  int half = path.size() - 1, k = s.below(half + 2); if (s.coin()) k = s.coin() ? half : half + 1; changes o = dominated(s, n, path, pal, false);
  if (k == half + 1) m.back() = o.back(); else if (k == half) m[half] = o[half]; else { m[k] = o[k]; if (pal || s.coin()) m[2*half - k] = o[2*half - k]; } return m;
}
struct options { bool in = false, out = false, half = false; };
vector<perm> lead(changes const& m, bool half) { vector<perm> v = gen::rows(m, rounds(m[0].size())); v.resize(half ? m.size() / 2 : m.size()); return v; }
std::set<perm> shared_rows(vector<perm> const& a, vector<perm> const& b, options const& o) { std::set<perm> f; for (auto const& x : a) for (auto const& y : b) { perm p = mul(x, inv(y)); if (p[0] == 0 && !(o.in && sign(p) < 0) && !(o.out && sign(p) > 0)) f.insert(p); } return f; }
// Leads of a which have to be rung together for b to have the same rows: from a lead of a, those of b that have a row of it, those of a that have a row of one of them, and so on.
// There are two steps from a lead of a to others, by the quotients of the elements of f; those by the first of them give the others.
std::set<perm> component(std::set<perm> const& f, int n) {
  std::set<perm> as; as.insert(rounds(n)); if (f.empty()) return as; perm const back = inv(*f.begin()); vector<perm> steps;
  for (auto const& x : f) { perm g = mul(x, back); if (as.count(g)) continue; steps.push_back(g); vector<perm> todo(as.begin(), as.end()); while (!todo.empty()) { perm p = todo.back(); todo.pop_back(); for (auto const& y : steps) { perm q = mul(p, y); if (as.insert(q).second) todo.push_back(q); } } }
  return as;
}
string joined(vector<string> const& v) { string t; for (auto const& x : v) t += x + " "; return t; }
int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
string describe(std::set<perm> const& g, int n) {
  int size = g.size(), f2 = fact(n - 3), f1 = fact(n - 2); string t = std::to_string(size / 2) + "-lead"; if (size <= 2) return t;
  if (size == f1 || size * 2 == f1) for (int b=1; b<n; ++b) { bool fixed = true; for (auto const& p : g) if (p[b] != b) fixed = false; if (fixed) { t += " (pivot: " + sym(b) + ")"; break; } }
  if (size == f2 || size * 2 == f2) { bool done = false; for (int b=1; b<n && !done; ++b) for (int c=b+1; c<n && !done; ++c) { bool ok = true; for (auto const& p : g) if (!((p[b] == b && p[c] == c) || (p[b] == c && p[c] == b))) ok = false; if (ok) { t += " (swaps: " + sym(b) + "&" + sym(c) + ")"; done = true; } } }
  return t;
}
struct meth { changes m; string name; };
vector<string> lines(string const& t) { vector<string> v; std::istringstream is(t); string l; while (getline(is, l)) v.push_back(l); return v; }
bool before(string const& x, string const& y) { bool dx = isdigit(x[0]), dy = isdigit(y[0]); if (dx && dy) { int a = atoi(x.c_str()), b = atoi(y.c_str()); if (a != b) return a < b; } else if (dx != dy) return dx; return x < y; }
vector<meth> gen_pool(Src& s, int n, int most, bool names, bool& pal) {
  vector<int> path(1, 0); int shape = s.below(6); pal = s.chance(4,5); if (shape < 3 || n == 4) for (int i=1; i<n; ++i) path.push_back(i); else if (shape == 3) { static int const dodge[] = { 0, 1, 0, 1, 2, 3, 2, 3, 4, 5, 4, 5 }; for (int i=1; i<(n & ~1) * 2; ++i) path.push_back(dodge[i]); } else if (shape == 4) { int top = s.range(2, n - 1); for (int i=1; i<=top; ++i) path.push_back(i); } else if (shape == 5 && s.coin()) { path.push_back(1); path.push_back(1); path.push_back(2); }
  vector<meth> v; std::set<changes> seen; int k = s.range(1, most); for (int i=0; i<k; ++i) { meth x; x.m = v.empty() || s.chance(1,8) ? dominated(s, n, path, pal, false) : variant(s, s.pick(v).m, path, pal, n); if (v.size() && s.chance(1,4)) x.m = variant(s, x.m, path, pal, n); if (seen.insert(x.m).second) v.push_back(x); }
  bool digits = s.chance(1,4); std::set<string> used; for (auto& x : v) { string t; if (names) do { t = digits ? std::to_string(s.range(1, 200)) + (s.chance(1,3) ? s.pick(vector<string>{"A","B"}) : "") : string(1, s.pickc("ABCDEFGHKLMNRSTW")) + string(s.below(3), s.pickc("aeiou")); } while (!used.insert(t).second); x.name = t; }
  return v;
}
string spelt(Src& s, changes const& m) { int k = m.size(); bool p = true; for (int i=0; i<k/2-1; ++i) if (m[i] != m[k-2-i]) p = false; if (p && k > 2 && k % 2 == 0 && s.coin()) return "&" + gen::spell_plain(changes(m.begin(), m.begin() + k/2)) + ",+" + gen::spell_plain(changes(m.end() - 1, m.end())); return "+" + gen::spell_plain(m); }
// Whether a name printed is that of a method
bool is_name(string const& t, meth const& x, bool pn, int n) { if (!pn && x.name.size()) return t == x.name; changes c; return gen::read_pn(t, n, c) && c == x.m; }
}

SUB(splices, 2400, 40000, "pools of up to 8 methods on 4 to 7 bells with the same path of the treble, which mostly differ in a few changes, as input, and up to two on the command line, with every combination of options: the splices printed, one by one or grouped together with lead splices in brackets, the methods passed by the filter, the groups and the tables of falseness, compared with searches from lead to lead through the rows they share; non-trivial = a splice of more than one lead that is not null") {
  int n = s.chance(1,12) ? 7 : s.range(4, 6); if (n == 4 && s.coin()) n = 6; options o; bool outs = n < 7 && s.chance(1,8), names = s.chance(7,8), pal; int cl = s.pick(vector<int>{0, 0, 0, 1, 1, 2}); vector<meth> pool = gen_pool(s, n, n == 7 ? 4 : outs ? (n == 6 ? 2 : 4) : 8, names, pal); if (cl == 2 && pool.size() < 2) s.discard();
  vector<string> opts; auto opt = [&](char const* a, char const* b) { opts.push_back(s.coin() ? a : b); };
  if (!outs && s.chance(1,4)) { o.in = true; opt("-i", "--in-course"); } else if (outs) { o.out = true; opt("-o", "--out-of-course"); } if (s.chance(1,5)) { o.half = true; opt("-h", "--half-lead"); }
  bool same_le = s.chance(1,4), pn = false, group = false, nulls = false, filter = false, pg = false, pf = false, rows_in = false, rows_file = false; int only = -1; if (same_le) opt("-e", "--same-lead-ends");
  if (cl == 2 && s.chance(1,3)) { if (s.coin()) { pg = true; opt("-G", "--print-group"); } else { pf = true; opt("-F", "--print-falseness"); } }
  else if (cl < 2 && s.chance(1,4)) { filter = true; opt("-I", "--filter"); } else if (s.chance(1,3)) { group = true; opt("-g", "--group-together"); } else if (cl && s.chance(1,5)) { rows_in = true; opts.push_back("--read-rows"); } else if (cl < 2 && s.chance(1,8)) { rows_file = true; }
  if (!filter && s.chance(1,5)) { pn = true; opt("-p", "--place-notation"); }
  if (!group && !(filter && !cl) && s.chance(1,4)) { nulls = true; opt("-n", "--null-splice"); } else if (!(filter && !cl) && s.chance(1,4)) { only = s.pick(vector<int>{1, 1, 2, 3, 6, 12}); string v = std::to_string(only); opts.push_back(s.coin() ? "-l" + v : "--leads=" + v); }
  opts.push_back(s.coin() ? "-b" + std::to_string(n) : "--bells=" + std::to_string(n));
  // The methods on the command line
  vector<meth> cmd, in = pool; for (int i=0; i<cl; ++i) { size_t k = s.below(pool.size()); meth x = pool[k]; bool dup = false; for (auto const& y : cmd) if (y.m == x.m) dup = true; if (dup) s.discard(); opts.push_back(spelt(s, x.m)); if (s.coin() && cl == 1) in.erase(in.begin() + k); x.name = "Method " + std::to_string(i + 1); cmd.push_back(x); }
  for (size_t i=0; i+1<opts.size(); ++i) { size_t j = i + s.below(opts.size() - i); bool a = opts[i][0] == '-', b = opts[j][0] == '-'; if (a && b) std::swap(opts[i], opts[j]); }
  vector<string> argv(1, app("splices")); argv.insert(argv.end(), opts.begin(), opts.end()); string input; vector<perm> touch;
  if (rows_in || rows_file) { int k = s.range(1, 3); std::set<perm> seen; while (k--) { perm lh = seen.empty() ? rounds(n) : gen_perm(s, n); std::swap(lh[0], *std::find(lh.begin(), lh.end(), 0)); for (auto const& r : gen::rows(s.pick(pool).m, lh)) if (seen.insert(r).second) touch.push_back(r); } string t; for (auto const& r : touch) t += model::text(r) + "\n"; if (rows_in) input = t; else { string f = scratch() + "/rows"; write_file(f, t); argv.push_back("--rows-file=" + f); } }
  if (!rows_in) for (auto const& x : in) input += spelt(s, x.m) + (x.name.size() || s.coin() ? "\t" + x.name : "") + "\n";
  if (rows_in || cl == 2) in = cmd;
  s.renote(cmdline(argv) + " < " + quote(input));
  run_result r = run_ok(argv, input, "", {}, 60); CHECK_EQ(r.status, 0, "status: " << r.err); CHECK_EQ(r.err, string(), "messages"); vector<string> got = lines(r.out); auto rows_text = [](std::set<perm> const& g) { vector<string> v; for (auto const& p : g) v.push_back(model::text(p)); std::sort(v.begin(), v.end()); return v; };
  size_t max = fact(n - 1) / (o.in || o.out ? 2 : 1); bool rich = false;
  if (pg || pf) { if (same_le && in[0].m.back() != in[1].m.back()) { CHECK_EQ(r.out, string(), "output for different lead ends"); return; } std::set<perm> f = shared_rows(lead(in[1].m, o.half), lead(in[0].m, o.half), o); std::set<perm> g = component(f, n); std::sort(got.begin(), got.end()); std::set<perm> fi; for (auto const& p : f) fi.insert(inv(p)); vector<string> one = rows_text(pf ? f : g), two = rows_text(pf ? fi : component(fi, n)); if (got != one) CHECK_EQ(joined(got), joined(two), "the " << (pf ? "falseness" : "group")); s.label(pf ? "falseness" : "group"); if (g.size() > 2 && g.size() < max) s.nontrivial(); return; }
  struct pair_t { int a, b; std::set<perm> g; string d, d2; }; vector<pair_t> pairs; // b is -1 for rows, -2 for the method on the command line
  for (int i=0; i<(int)in.size(); ++i) { auto add = [&](int b, vector<perm> const& br) { pair_t p; p.a = i; p.b = b; p.g = component(shared_rows(lead(in[i].m, o.half), br, o), n); if (!nulls && p.g.size() == max) return; if (only != -1 && (int)p.g.size() != only * 2 && !(group && p.g.size() == 2)) return; if (p.g.size() > 2 && p.g.size() < max) rich = true; p.d = p.d2 = describe(p.g, n); if (cl == 2 && b >= 0) { std::set<perm> fi; for (auto const& x : shared_rows(lead(in[i].m, o.half), br, o)) fi.insert(inv(x)); p.d2 = describe(component(fi, n), n); } pairs.push_back(p); };
    if (rows_in || rows_file) { add(-1, touch); continue; } if (cl == 1) { if (in[i].m != cmd[0].m && (group || !same_le || in[i].m.back() == cmd[0].m.back())) add(-2, lead(cmd[0].m, o.half)); continue; }
    for (int j=0; j<i; ++j) if (group || !same_le || in[i].m.back() == in[j].m.back()) add(j, lead(in[j].m, o.half)); }
  if (rich) s.nontrivial(); auto shown = [&]() { string t; for (auto const& p : pairs) t += str() << p.a << "," << p.b << " " << p.d << "; "; return t; };
  auto match = [&](size_t count, std::function<bool(string const&, size_t)> same, char const* what) { CHECK_EQ(got.size(), count, what << " printed: " << quote(r.out) << " where there are " << shown()); vector<bool> used(count); for (auto const& l : got) { bool found = false; for (size_t i=0; i<count && !found; ++i) if (!used[i] && same(l, i)) used[i] = found = true; CHECK(found, what << ": " << quote(l) << " is not one of them: " << shown()); } };
  if (filter) {
    vector<int> pass; for (int i=0; i<(int)in.size(); ++i) { bool any = false, one = false; for (auto const& p : pairs) if (p.a == i) { any = true; if (p.d == "1-lead") one = true; } if (rows_file) s.discard(); if (cl ? any : !one) pass.push_back(i); } s.label("filter"); if (pass.size() && pass.size() < in.size()) s.nontrivial();
    CHECK_EQ(got.size(), pass.size(), "methods passed: " << quote(r.out) << " where there are " << shown()); for (size_t i=0; i<pass.size(); ++i) { size_t t = got[i].find('\t'); CHECK(t != string::npos && got[i].substr(t + 1) == in[pass[i]].name && is_name(got[i].substr(0, t), in[pass[i]], true, n), "method " << i << " passed is " << quote(got[i])); } return;
  }
  if (!group || rows_in || rows_file) { s.label(rows_in || rows_file ? "rows" : cl == 0 ? "all" : cl == 1 ? "one method" : "two methods"); if (group) { s.discard(); }
    match(pairs.size(), [&](string const& l, size_t i) { auto const& p = pairs[i]; size_t t = l.find('\t'); string d = l.substr(t + 1); if (t == string::npos || (d != p.d && d != p.d2)) return false; string nm = l.substr(0, t); if (cl == 1) return is_name(nm, in[p.a], pn, n); size_t q = nm.find(" / "); if (q == string::npos) return false; if (cl == 2 && p.b >= 0 && is_name(nm.substr(0, q), in[p.b], pn, n) && is_name(nm.substr(q + 3), in[p.a], pn, n)) return true; return is_name(nm.substr(0, q), in[p.a], pn, n) && (p.b == -1 ? q + 3 == nm.size() : is_name(nm.substr(q + 3), in[p.b], pn, n)); }, "splices"); return; }
  // Grouped: connected by splices of the same description
  s.label("grouped"); vector<meth> all = in; if (cl == 1) all.push_back(cmd[0]); std::map<string, vector<std::set<int>>> sets; for (auto const& p : pairs) { int b = p.b == -2 ? in.size() : p.b; std::set<int> u = { p.a, b }; auto& v = sets[p.d]; for (size_t i=0; i<v.size(); ) if (v[i].count(p.a) || v[i].count(b)) { u.insert(v[i].begin(), v[i].end()); v.erase(v.begin() + i); } else ++i; v.push_back(u); }
  struct line { string d; std::map<perm, std::set<int>> by; }; vector<line> want; for (auto const& x : sets) for (auto const& u : x.second) { if (x.first == "1-lead" && only != -1 && only != 1) continue; line l; l.d = x.first; if (same_le) { std::set<changes> bodies; for (int i : u) { l.by[all[i].m.back()].insert(i); bodies.insert(changes(all[i].m.begin(), all[i].m.end() - 1)); } if (bodies.size() < 2) continue; } else l.by[perm()] = u; want.push_back(l); }
  auto partners = [&](int i) { std::set<int> v; for (auto const& u : sets["1-lead"]) if (u.count(i)) for (int j : u) if (all[j].m.back() == all[i].m.back()) v.insert(j); if (v.size() == 1) v.clear(); return v; }; bool brackets = false;
  match(want.size(), [&](string const& l, size_t k) {
    auto const& w = want[k]; size_t t = l.find('\t'); if (t == string::npos || (l.substr(t + 1) != w.d && !(cl == 2 && pairs.size() == 1 && l.substr(t + 1) == pairs[0].d2))) return false; vector<string> parts; { string x = l.substr(0, t); size_t q; while ((q = x.find(" / ")) != string::npos) { parts.push_back(x.substr(0, q)); x.erase(0, q + 3); } parts.push_back(x); } if (parts.size() != w.by.size()) return false; std::set<perm> done;
    for (auto const& part : parts) { // each is the methods of one lead end
      bool found = false; for (auto const& b : w.by) { if (done.count(b.first)) continue; vector<std::set<int>> items; std::set<int> left = b.second; while (!left.empty()) { int i = *left.begin(); std::set<int> q = partners(i); if (q.empty()) q.insert(i); else brackets = true; items.push_back(q); left.erase(i); for (int j : q) left.erase(j); }
        // read the names back
        bool ok = true; size_t at = 0; vector<bool> used(items.size()); string last; size_t count = 0; while (ok && at < part.size()) { bool br = part[at] == '['; if (br) ++at; std::set<int> q; string first, prev; for (;;) { size_t e = at; while (e < part.size() && part[e] != ']' && !(part[e] == ',' && e + 1 < part.size() && part[e+1] == ' ')) ++e; string nm = part.substr(at, e - at); if (first.empty()) first = nm; else if (!before(prev, nm)) ok = false; prev = nm; int who = -1; for (int i=0; i<(int)all.size(); ++i) if (is_name(nm, all[i], pn, n)) who = i; if (who < 0 || !q.insert(who).second) { ok = false; break; } at = e; if (br && at < part.size() && part[at] == ',') { at += 2; continue; } break; }
          if (!ok) break; if (br) { if (at >= part.size() || part[at] != ']') { ok = false; break; } ++at; } bool hit = false; for (size_t i=0; i<items.size(); ++i) if (!used[i] && items[i] == q && (q.size() > 1) == br) { used[i] = hit = true; break; } if (!hit) { ok = false; break; } ++count; bool within = true; for (int i : q) if (!b.second.count(i)) within = false; if (within) { if (!last.empty() && !before(last, first)) ok = false; last = first; } if (at < part.size()) { if (part.compare(at, 2, ", ")) { ok = false; break; } at += 2; } }
        if (ok && count == items.size()) { done.insert(b.first); found = true; break; } }
      if (!found) return false; }
    return true; }, "groups of splices"); if (brackets) s.label("lead splices in brackets"); if (same_le && want.size()) s.label("by lead ends");
}

SUB(misuse, 700, 12000, "options which are impossible or cannot be read, and methods or rows which are damaged: the program ends with status 1 and a message when there is nothing it could do, or else with status 0, and never crashes; non-trivial = refused") {
  int n = s.range(4, 6); bool pal; vector<meth> pool = gen_pool(s, n, 4, true, pal); vector<string> argv = { app("splices") }; string in; for (auto const& x : pool) in += spelt(s, x.m) + "\t" + x.name + "\n"; bool must = true; string b = "-b" + std::to_string(n); auto mix = [&](vector<string> v) { for (size_t i=0; i+1<v.size(); ++i) std::swap(v[i], v[i + s.below(v.size() - i)]); argv.insert(argv.end(), v.begin(), v.end()); };
  string const one = spelt(s, pool[0].m); char const* odd = "x1234567890.,&+ \t\n-:#LB"; auto damage = [&](string& t) { int k = s.range(1, 3); while (k-- && t.size()) { size_t at = s.below(t.size()); switch (s.below(3)) { case 0: t.erase(at, s.range(1, 3)); break; case 1: t[at] = s.pickc(odd); break; default: t.insert(at, 1, s.pickc(odd)); } } };
  switch (s.below(14)) {
    case 0: mix({}); break; case 1: mix({ "-b" + std::to_string(s.coin() ? s.range(-4, 0) : s.range(34, 1000)) }); break; case 2: mix({ b, "-l" + std::to_string(s.range(-9, 0)) }); must = false; break; case 3: mix({ b, "-l" + s.pick(vector<string>{"x", "2x", "99999999999"}) }); break;
    case 4: mix({ b, s.coin() ? "-G" : "--print-group" }); if (s.coin()) argv.push_back(one); break; case 5: mix({ b, s.coin() ? "-F" : "--print-falseness" }); if (s.coin()) argv.push_back(one); break;
    case 6: mix({ b, one, one, one }); break; case 7: mix({ b, "--rows-file=" + scratch() + "/none" }); break; case 8: mix({ b, "--read-rows", "--rows-file=" + scratch() + "/none" }); break; case 9: mix({ b, "-i", "-o" }); break;
    case 10: { string t = one; damage(t); if (t.size() && t[0] == '-') t = "+" + t; mix({ b, t }); must = false; break; }
    case 11: { string t; for (auto const& r : gen::rows(pool[0].m, rounds(n))) t += model::text(r) + "\n"; damage(t); must = false; if (s.coin()) { in = t; mix({ b, "--read-rows", one }); } else { write_file(scratch() + "/r", t); mix({ b, "--rows-file=" + scratch() + "/r" }); } break; }
    default: { must = false; damage(in); vector<string> v = { b }; if (s.coin()) v.push_back("-g"); else if (s.coin()) v.push_back("-I"); if (s.coin()) v.push_back("-e"); if (s.chance(1,3)) v.push_back("-h"); if (s.chance(1,3)) v.push_back(one); mix(v); } }
  s.renote(cmdline(argv) + " < " + quote(in)); run_result r = run(argv, in, "", {}, 20); if (r.timed_out) s.discard(); CHECK(!r.crashed, "crashed: " << r.err); CHECK(r.status == 1 || (!must && r.status == 0), "status " << r.status << " with " << quote(r.out)); if (r.status) { CHECK(!r.err.empty(), "no message"); s.nontrivial(); }
}
