// C36 - musgrep and extent: selecting, counting and scoring rows; listing them
//! apps: musgrep extent
#include "model.h"
#include "musicmodel.h"
using namespace model; using namespace pbt;
static vector<string> lines(string const& t) { vector<string> r; std::istringstream is(t); string l; while (getline(is, l)) r.push_back(l); return r; }

SUB(musgrep, 6000, 150000, "streams of up to 40 rows, with rows of other numbers of bells and blank lines among them, up to 5 patterns plain, named and scored, and every option: the rows printed, marked, counted and scored are those that the patterns match on their strokes; non-trivial when some of the rows match and some do not") {
  int n = s.chance(1,8) ? s.range(9, 20) : s.range(1, 8); int k = s.range(1, 5); vector<mus::pattern> ps; for (int i=0; i<k; ++i) ps.push_back(mus::gen(s, n));
  vector<perm> rows; string in; int m = s.range(0, 40); bool other = false;
  for (int i=0; i<m; ++i) { perm r = mus::gen_row(s, n); if (s.chance(1,20)) { int o = s.range(1, 20); if (o != n) { in += text(gen_perm(s, o)) + "\n"; other = true; continue; } } rows.push_back(r); in += text(r); if (s.chance(1,12)) in += " "; if (i + 1 < m || s.chance(3,4)) in += "\n"; if (s.chance(1,20)) in += "\n"; }
  vector<string> argv(1, app("musgrep")); argv.push_back("-b" + std::to_string(n)); bool p = false, neg = false, c = false, sc = false, sep = false, hi = false; int par = 0;
  if (s.coin()) { p = s.chance(1,3); neg = s.chance(1,3); c = s.chance(1,3); sc = s.chance(1,3); sep = s.chance(1,4); } hi = s.chance(1,5); if (s.chance(1,4)) par = s.coin() ? 1 : -1;
  vector<string> o; if (p) o.push_back(s.coin() ? "-p" : "--positive"); if (neg) o.push_back(s.coin() ? "-n" : "--negative"); if (c) o.push_back(s.coin() ? "-c" : "--count"); if (sc) o.push_back(s.coin() ? "-s" : "--score"); if (sep) o.push_back(s.coin() ? "-S" : "--scores"); if (hi) o.push_back(s.coin() ? "-H" : "--highlight"); if (par) o.push_back(par > 0 ? s.coin() ? "-i" : "--in-course" : s.coin() ? "-o" : "--out-of-course");
  for (size_t i=0; i+1<o.size(); ++i) std::swap(o[i], o[i + s.below(o.size()-i)]); for (auto const& x : o) argv.push_back(x); argv.push_back("--"); for (auto const& x : ps) argv.push_back(x.text());
  s.renote(cmdline(argv) + "\n" + in); s.label(sep ? "scores" : p || neg || c || sc ? "counts" : hi ? "highlight" : "rows"); if (other) s.label("other stages");
  int count = 0, cp = 0, cn = 0, score = 0, seen = 0; vector<long> scores(k); string out; bool back = false;
  for (auto const& r : rows) { bool b = back; back = !back; if (par && sign(r) != par) continue; ++seen; bool any = false; int d = 0; for (int i=0; i<k; ++i) { if (ps[i].times(r)) any = true; d += ps[i].score(r, b); scores[i] += ps[i].score(r, b); } score += d; if (any) { ++count; cp += d > 0; cn += d < 0; } if (any) out += text(r) + (hi ? " *" : "") + "\n"; else if (hi) out += text(r) + "\n"; }
  s.nontrivial(count > 0 && count < seen);
  if (p || neg || c || sc || sep) { out = ""; auto add = [&](long v, bool& f) { if (f) out += "\t"; out += std::to_string(v); f = true; }; bool f = false; if (p) add(cp, f); if (neg) add(cn, f); if (c) add(count, f); if (sc) add(score, f); if (f) out += "\n"; if (sep) { f = false; for (long v : scores) add(v, f); out += "\n"; } }
  run_result r = run_ok(argv, in); CHECK_EQ(r.status, 0, "status: " << r.err); CHECK_EQ(r.out, out, "output");
}

SUB(extent, 600, 4000, "numbers of bells, hunt bells, tenors and parity: extent lists each such row once, in lexicographic order of bells, and musgrep of its output counts what it should; non-trivial when more than one row is listed") {
  int n = s.range(1, 12), h = s.chance(1,3) ? s.range(0, n) : 0, t = s.chance(1,3) || n - h > 6 ? s.range(0, n - h) : 0; if (n - h - t > 6) t = n - h - s.range(1, 6); bool in = s.chance(1,3);
  vector<string> argv(1, app("extent")); argv.push_back("-b" + std::to_string(n)); if (h || s.chance(1,4)) argv.push_back("-h" + std::to_string(h)); if (t || s.chance(1,4)) argv.push_back("--tenors=" + std::to_string(t)); if (in) argv.push_back(s.coin() ? "-i" : "--in-course");
  s.renote(cmdline(argv)); vector<int> mid; for (int i=h; i<n-t; ++i) mid.push_back(i); string want; int rows = 0;
  do { perm r = rounds(n); std::copy(mid.begin(), mid.end(), r.begin() + h); if (in && sign(r) < 0) continue; want += text(r) + "\n"; ++rows; } while (std::next_permutation(mid.begin(), mid.end())); s.nontrivial(rows > 1);
  run_result r = run_ok(argv, ""); CHECK_EQ(r.status, 0, "status: " << r.err); CHECK_EQ(r.out, want, "rows");
}

SUB(robust, 3000, 60000, "patterns, options and streams at random and damaged: both programs end by themselves with status 0, or with status 1 and a message; non-trivial when the stream is not empty") {
  int n = s.range(1, 9); string in; int m = s.below(12); while (m--) { in += text(gen_perm(s, s.chance(1,4) ? s.range(1, 12) : n)); in += s.chance(1,4) ? s.pickc(" ,*X\t{}-\xff") : '\n'; if (s.chance(1,4)) in += s.pickc("1029QXx*?[]\n\r "); }
  vector<string> argv; bool mg = s.chance(3,4); argv.push_back(app(mg ? "musgrep" : "extent")); auto num = [&] { switch (s.below(4)) { case 0: return string("-1"); case 1: return std::to_string(s.range(0, 300)); case 2: return string("x"); default: return std::to_string(n); } };
  if (mg) { if (s.chance(7,8)) argv.push_back("-b" + (s.chance(1,6) ? num() : std::to_string(n))); static char const* op[] = { "-c", "-s", "-S", "-p", "-n", "-H", "-i", "-o", "--scores", "--nosuch", "-z" }; int k = s.below(3); while (k--) argv.push_back(op[s.below(sizeof(op)/sizeof(*op) - (s.chance(1,4) ? 0 : 2))]); argv.push_back("--"); k = s.below(4); while (k--) { mus::pattern p = mus::gen(s, n); string t = p.text(); int d = s.below(3); while (d--) { if (t.empty()) break; size_t i = s.below(t.size()); if (s.coin()) t.erase(i, 1); else t.insert(i, 1, s.pickc("[]<>*?:,-0159ETzx ")); } argv.push_back(t); } }
  else { int b = s.range(0, 8); argv.push_back("-b" + (s.chance(1,4) ? string(s.coin() ? "-3" : "x") : std::to_string(b))); if (s.coin()) argv.push_back("-h" + std::to_string(s.range(-1, 10))); if (s.coin()) argv.push_back("-t" + std::to_string(s.range(-1, 10))); if (s.coin()) argv.push_back("-i"); if (s.chance(1,8)) argv.push_back("junk"); }
  s.renote(cmdline(argv) + "\n" + quote(in)); s.nontrivial(!in.empty()); run_result r = run(argv, in); CHECK(!r.timed_out, "did not finish"); CHECK(!r.crashed, "crashed: " << r.status << " " << r.err); CHECK(r.status == 0 || r.status == 1, "status " << r.status); if (r.status) CHECK(!r.err.empty(), "status 1 with no message"); s.label(str() << (mg ? "musgrep " : "extent ") << r.status);
}
