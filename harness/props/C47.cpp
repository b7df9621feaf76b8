// C47 - the symbols of the bells change how bells are written, and nothing else
//! apps: musgrep extent rowcalc touchsearch fextent splices spliceplan ringmethod methsearch
#include "methods.h"
#include <algorithm>
#include <map>
using namespace model; using namespace pbt; using gen::changes;
namespace {
string const usual = "1234567890ETABCD";
// A text as it is with the usual symbols, and as it is with others
struct both { string a, b; };
struct spelling {
  Src& s; int n; string syms; bool fold; 
  spelling(Src& s, int n) : s(s), n(n) {
    static char const* const t[] = { "123456789ABCDEFG", "abcdefghijklmnop", "ABCDEFGHIJKLMNOP", "aBcDeFgHiJkLmNoP", "0123456789abcdef", "2345678901ETABCD", "987654321ABCDEFG", "AaBbCcDdEeFfGgHh", "QWERTYUPASDFGHJK" };
    syms = t[s.below(sizeof(t)/sizeof(*t))]; if (s.chance(1,4)) for (int i=0; i+1<(int)syms.size(); ++i) std::swap(syms[i], syms[i + s.below(syms.size() - i)]); if (s.chance(1,4)) syms.resize(n);
    string up, lo; for (char c : syms) { up += toupper(c); lo += tolower(c); } fold = syms == up || syms == lo;
  }
  string env() const { return "BELL_SYMBOLS=" + syms; }
  string tr(string const& t, bool input = false) { string r; for (char c : t) { size_t i = usual.find(c); char d = i < (size_t) n ? syms[i] : c; if (input && d != c && fold && s.chance(1,6)) d = isupper(d) ? tolower(d) : toupper(d); r += d; } return r; }
  both bells(string const& t) { return { t, tr(t, true) }; }
  // Everything that is a row in the output
  string rows(string const& t) { string r; for (size_t i=0; i<t.size(); ) { size_t j = i; while (j < t.size() && isalnum((unsigned char) t[j])) ++j; string w = t.substr(i, j - i), o = w, all = usual.substr(0, n); std::sort(o.begin(), o.end()); std::sort(all.begin(), all.end()); r += o == all ? tr(w) : w; if (j < t.size()) r += t[j++]; i = j; } return r; }
};
struct command {
  vector<string> a, b; string in_a, in_b; command(char const* prog) : a(1, app(prog)), b(a) {}
  void add(string const& t) { a.push_back(t); b.push_back(t); }
  void add(string const& pre, both const& t) { a.push_back(pre + t.a); b.push_back(pre + t.b); }
  void in(both const& t) { in_a += t.a; in_b += t.b; } void in(string const& t) { in_a += t; in_b += t; }
};
both operator+(both const& x, both const& y) { return { x.a + y.a, x.b + y.b }; } both operator+(both const& x, string const& y) { return { x.a + y, x.b + y }; }
// One method, with a treble which hunts or dodges if it is asked to
changes method_for(Src& s, int n, bool hunting, int most = 16) {
  if (!hunting) return gen::gen_method(s, n, 0, most); int d = n % 2 ? 0 : s.below(2), half = n * (d + 1); vector<int> path; if (!d) for (int i=0; i<n; ++i) path.push_back(i); else for (int i=0; i<n; i+=2) { path.push_back(i); path.push_back(i+1); path.push_back(i); path.push_back(i+1); }
  changes m; for (int i=0; i+1<half; ++i) m.push_back(gen::change_through(s, n, path[i], path[i+1], s.below(3))); m.push_back(gen::change_through(s, n, n-1, n-1, 2)); for (int i=half-1; i--; ) m.push_back(m[i]); perm e = rounds(n); for (int i=(n % 2 ? 2 : s.coin() ? 1 : 2); i+1<n; i+=2) if (n % 2 == 0 || i + 1 < n) std::swap(e[i], e[i+1]); if (s.chance(1,6)) e = gen::change_through(s, n, 0, 0, 2); m.push_back(e); return m;
}
vector<string> lines(string const& t) { vector<string> v; std::istringstream is(t); string l; while (getline(is, l)) v.push_back(l); return v; }
// Runs both, which have to come to the same end
std::pair<run_result, run_result> run_both(Src& s, spelling& sp, command const& c) {
  s.renote(sp.env() + " " + cmdline(c.b) + (c.in_b.empty() ? "" : "\n" + quote(c.in_b))); run_result x = run(c.a, c.in_a, "", vector<string>(), 30); if (x.timed_out) s.discard(); CHECK(!x.crashed, "with the usual symbols: " << x.err);
  run_result y = run(c.b, c.in_b, "", vector<string>(1, sp.env()), 60); CHECK(!y.timed_out, "did not finish"); CHECK(!y.crashed, "crashed: " << y.err); CHECK_EQ(y.status, x.status, "status, with messages " << y.err << " and not " << x.err); CHECK_EQ(y.err.empty(), x.err.empty(), "messages " << y.err << " and not " << x.err); s.label(str() << "status " << x.status); return { x, y };
}
}

SUB(rows, 1000, 30000, "musgrep, extent, rowcalc and ringmethod given rows, patterns and expressions with the usual symbols, and with others: the output is the same in the other symbols; non-trivial when something is printed") {
  int n = s.range(3, 10); spelling sp(s, n); auto row = [&] { return sp.bells(text(gen_perm(s, n))); }; int what = s.below(8);
  command c(what < 3 ? "musgrep" : what < 4 ? "extent" : what < 7 ? "rowcalc" : "ringmethod"); s.label(str() << what);
  if (what < 3) {
    c.add("-b" + std::to_string(n)); static char const* const o[] = { "-c", "-s", "-S", "-H", "-i", "-p" }; if (s.chance(1,3)) c.add(o[s.below(6)]); c.add("--"); perm r = gen_perm(s, n);
    for (int k=s.range(1, 3); k--; ) { static char const* const named[] = { "<rounds>", "<queens>", "<kings>", "<tittums>", "<3-runs>", "<4-front-runs>", "<CRUs>" }; if (s.chance(1,4)) { c.add(named[s.below(n < 6 ? 4 : 7)]); continue; } string p = text(s.coin() ? r : rounds(n)), t; size_t i = s.below(n); bool star = false; for (size_t j=0; j<(size_t)n; ++j) { if (s.chance(1,2)) t += p[j]; else if (s.chance(1,4)) { t += "["; t += p[j]; t += p[i]; t += "]"; } else if (!star && s.chance(1,3)) { t += "*"; star = true; } else t += "?"; } if (star) t.erase(std::remove(t.begin(), t.end(), '?'), t.end()); c.add(s.coin() ? "" : std::to_string(s.range(1, 9)) + ":", sp.bells(t)); }
    for (int k=s.range(1, 12); k--; ) { if (s.chance(1,3)) c.in(sp.bells(text(r))); else if (s.coin()) { perm q = r; std::swap(q[s.below(n)], q[s.below(n)]); c.in(sp.bells(text(q))); } else if (s.chance(1,6)) c.in(sp.bells(text(rounds(n)))); else c.in(row()); c.in("\n"); }
  } else if (what == 3) { if (n > 6) n = sp.n = s.range(3, 6); c.add("-b" + std::to_string(n)); if (s.coin()) c.add("-h" + std::to_string(s.below(3))); if (s.coin()) c.add("-i"); }
  else if (what < 7) {
    c.add("-b" + std::to_string(n)); std::function<both(int)> ex = [&](int d) -> both { if (!d || s.chance(1,4)) return s.chance(1,4) ? sp.bells(text(rounds(n)).substr(0, s.range(2, n))) : row(); both l = { "(", "(" }, x = ex(d - 1), y; switch (s.below(6)) { case 0: return l + x + "*" + ex(d - 1) + ")"; case 1: return l + x + "/" + ex(d - 1) + ")"; case 2: return both{ "{", "{" } + x + "," + row() + "}"; case 3: return both{ "<", "<" } + row() + ">"; case 4: return l + x + string(1, s.pickc("*/-")) + ex(d - 1) + ")"; default: return x; } };
    if (n > 5 && s.chance(5,6)) { n = sp.n = s.range(3, 5); c.a.resize(1); c.b.resize(1); c.add("-b" + std::to_string(n)); } c.add("", ex(s.range(1, 2)));
  } else { c.add("--seed=5"); c.add("-b" + std::to_string(n)); c.add("-f20"); c.add("-s" + std::to_string(s.range(2, 4)) + "m"); for (int k=s.range(1, 4); k--; ) { c.in(row()); c.in("\n"); } }
  auto r = run_both(s, sp, c); s.nontrivial(!r.first.out.empty() && !r.first.status); if (r.first.status) return; string want = what == 7 ? r.first.out : sp.rows(r.first.out); CHECK(r.second.out == want, "printed " << quote(r.second.out.substr(0, 400)) << " instead of " << quote(want.substr(0, 400)));
}

SUB(compositions, 400, 20000, "touchsearch, fextent, splices and spliceplan given methods, calls, rows and part ends with the usual symbols and with others: the output is the same in the other symbols; non-trivial when something is printed") {
  int what = s.below(6); if (what > 3) what = 2; static char const* const prog[] = { "touchsearch", "fextent", "splices", "spliceplan" }; s.label(prog[what]); int n = what == 0 ? s.range(4, 6) : what == 1 ? s.range(4, 8) : what == 2 ? s.chance(1,2) ? 5 : s.range(4, 6) : s.range(4, 5); spelling sp(s, n); command c(prog[what]); c.add("-b" + std::to_string(n)); auto pn = [&](changes const& m) { string t; for (size_t i=0; i<m.size(); ++i) { string x = full_pn(m[i], 'x'); t += (t.empty() || x == "x" || t[t.size()-1] == 'x' ? "" : ".") + x; } return sp.bells(t); };
  auto call = [&] { return sp.bells(full_pn(gen::change_through(s, n, 0, 0, s.below(3)), 'x')); };
  if (what == 0) { changes m = method_for(s, n, true); c.add("-Cb=", call()); if (s.coin()) c.add("-Cs=", call()); int L = m.size(); c.add("-l" + std::to_string(L * s.range(1, 2)) + "-" + std::to_string(L * s.range(3, 5))); if (s.chance(1,3)) c.add(s.coin() ? "-r" : s.coin() ? "-g" : "-c"); if (s.chance(1,3)) c.add("-P", sp.bells(text(s.coin() ? gen_perm(s, n) : rounds(n)))); c.add("--limit=200"); c.add("--"); c.add("", pn(m)); }
  else if (what == 1) { changes m = method_for(s, n, true, 24); bool course = n > 6; if (course) { c.add("-c"); c.add("-t"); } else c.add("--print-leads"); c.add("--seed=" + std::to_string(s.below(1000))); c.add("-n" + std::to_string(s.range(20, 60))); if (s.coin()) { if (s.coin()) c.add("-k"); else c.add("--linkage"); if (s.coin()) c.add("-C", call()); } if (s.chance(1,3)) c.add("-i"); if (s.chance(1,3)) { perm x = rounds(n); std::swap(x[1], x[2]); std::swap(x[2], x[3]); c.add("-P", sp.bells(text(x))); } if (s.chance(1,3)) { perm x = rounds(n); int e = course ? n - 2 : n; for (int i=1; i<e; ++i) std::swap(x[i], x[i + s.below(e - i)]); c.add("-r", sp.bells(text(x))); } c.add("--"); c.add("", pn(m)); }
  else { changes m = method_for(s, n, true); int k = s.range(2, 4), need = 0; if (what == 2) { static char const* const o[] = { "-h", "-o", "-e", "-G", "-F" }; for (int j=s.below(3); j--; ) { int i = s.below(s.chance(1,4) ? 5 : 3); if (i > 2) ++need; c.add(o[i]); } if (need) for (int j=0; j<2; ++j) { changes v = m; if (j) { int p = s.below((int)v.size() / 2 - 1); perm x = v[p]; for (int a=1; a+1<n; ++a) if (x[a] == a && x[a+1] == a + 1) { std::swap(x[a], x[a+1]); break; } v[p] = v[v.size() - 2 - p] = x; } c.add("", pn(v)); } } else { if (s.coin()) c.add("-r"); else if (s.coin()) { perm x = rounds(n); std::swap(x[1], x[2]); std::swap(x[2], x[3]); c.add("-P", sp.bells(text(x))); } if (s.coin()) c.add("-i"); }
    string names; while (k--) { changes v = m; if (k) { int h = (v.size() - 1) / 2, i = s.below(h + 1); if (i == h) v.back() = gen::change_through(s, n, 0, 0, 2); else { perm x = v[i]; int j = s.below(n - 1); if (x[j] == j && x[j+1] == j + 1 && j) std::swap(x[j], x[j+1]); else if (x[j] == j + 1 && j) std::swap(x[j], x[j+1]); v[i] = v[v.size() - 2 - i] = x; } } c.in("+"); c.in(pn(v)); c.in(string("\tM") + char('a' + k) + (s.coin() ? "i" : "u") + "\n"); } }
  auto r = run_both(s, sp, c); s.nontrivial(!r.first.out.empty() && !r.first.status); if (r.first.status) return; string want = what == 0 ? r.first.out : sp.rows(r.first.out);
  if (what == 2) { for (char const* k : { "(pivot: ", "(swaps: " }) for (size_t i=0; (i = want.find(k, i)) != string::npos; ++i) for (size_t j=i+8; want[j] != ')'; ++j) if (want[j] != '&') want[j] = sp.tr(string(1, want[j]))[0]; }
  if (what == 1) for (size_t i=0; (i = want.find("(call ", i)) != string::npos; ++i) for (size_t j=i+6; want[j] != ')'; ++j) want[j] = sp.tr(string(1, want[j]))[0];
  CHECK(r.second.out == want, "printed " << quote(r.second.out.substr(0, 600)) << " instead of " << quote(want.substr(0, 600)));
}

SUB(methods, 1200, 40000, "methsearch searching or filtering on 4 to 12 bells, with masks, prefixes, paths, lead heads, music, falseness and every variable in its format, with the usual symbols and with others: the methods, and all that is said of them, are the same in the other symbols; non-trivial when a method is found") {
  bool filter = s.coin(); int n = filter ? s.chance(1,4) ? s.range(9, 12) : s.range(4, 8) : s.chance(1,4) ? 8 : s.range(4, 6); spelling sp(s, n); command c("methsearch"); s.label(filter ? "filter" : "search"); c.add("-b" + std::to_string(n)); int L = 0; changes m; auto pn1 = [&](perm const& x) { return sp.bells(full_pn(x, 'x')); };
  if (filter) { bool all = s.chance(2,3); int k = s.range(1, 5); c.add("-I"); if (s.coin()) c.add("-A"); c.add(all ? "-U1" : "-U0"); if (s.coin()) c.add("-Fx"); while (k--) { m = method_for(s, n, all); both t = { "", "" }; for (size_t i=0; i<m.size(); ++i) t = t + (i ? "." : "") + pn1(m[i]); c.in(t); c.in(s.coin() ? "\tThe 1st ABC\n" : "\n"); } }
  else { m = method_for(s, n, true); L = m.size(); int fixed = 0; both t = { "", "" }; bool sym = s.coin(); int len = sym ? L/2 : L; if (sym) c.add("-s"); if (L > 2*n) c.add("-G1"); int free = s.range(1, n > 6 ? 3 : 4); vector<bool> open(len); for (int k=free; k--; ) open[s.below(len)] = true; for (int i=0; i<len; ++i) { if (i) t = t + "."; if (open[i]) { if (s.coin()) t = t + "?"; else if (s.coin()) t = t + "(" + pn1(m[i]) + "|" + pn1(gen::change_through(s, n, 0, 0, 2)) + ")"; else t = t + "?"; } else { t = t + pn1(m[i]); ++fixed; } } c.add(sym ? "-m&" : "-m", t + (sym ? "," + string(s.coin() ? "?" : "") : string(""))); if (sym && c.a.back().back() == ',') { both e = pn1(m.back()); c.a.back() += e.a; c.b.back() += e.b; } c.add("-A"); if (s.coin()) c.add("-r"); if (s.chance(1,3)) c.add("-Fx"); if (s.chance(1,4)) c.add(s.coin() ? "-c" : "-E"); if (n == 8 && s.chance(1,2)) { c.add("-r"); c.add("-Fc"); if (s.coin()) c.add("-F:BCDEF"); else if (s.coin()) c.add("-FCPS"); } if (n < 7 && s.chance(1,4)) c.add("-Fs=", sp.bells(text(gen_perm(s, n)))); if (n < 7 && s.chance(1,5)) { perm x = rounds(n); std::swap(x[n-1], x[n-2]); std::swap(x[n-2], x[n-3]); c.add("-FP=", sp.bells(text(x))); } if (n < 7 && s.chance(1,5)) c.add("-Fr=", sp.bells(text(gen_perm(s, n)))); }
  vector<bool> bells; string fmt; int k = s.range(1, 6); while (k--) { static char const* const v[] = { "l", "p", "q", "Q", "h", "r", "P", "O", "L", "b", "o", "u", "G", "d", "D", "y", "C", "S", "M", "F", "s", "a" }; int i = s.below(22); if (n == 8 && !filter && s.chance(1,3)) i = 19; if (i == 21 && !filter) i = 0; if (i == 19 && (n < 7 || n % 2 || n > 8 || filter)) i = 0; if (i == 13 || i == 14) s.label("codes"); if (i == 19) s.label("falseness"); string num; if (i >= 4 && i <= 6) num = std::to_string(s.range(1, i == 6 ? n : 4)); fmt += (fmt.empty() ? "" : "\\t") + string("$") + num + v[i]; bells.push_back(i < 8); } c.add("-R" + fmt);
  if (s.chance(1,4)) c.add("-M", sp.bells(s.coin() ? "*" + text(rounds(n)).substr(n - 3) : text(rounds(n)).substr(0, 2) + "*")); if (s.chance(1,5)) { string e = text(gen_perm(s, n)); c.add("-Q$l ne '", both{ e, sp.tr(e) } + "'"); }
  auto r = run_both(s, sp, c); if (r.first.status) return; vector<string> x = lines(r.first.out), y = lines(r.second.out); s.nontrivial(!x.empty()); CHECK_EQ(y.size(), x.size(), "number of lines:\n" << r.second.out.substr(0, 500) << "instead of\n" << r.first.out.substr(0, 500));
  for (size_t i=0; i<x.size(); ++i) { string want; size_t f = 0, at = 0; for (;;) { size_t e = x[i].find('\t', at); string w = x[i].substr(at, e == string::npos ? e : e - at); want += f < bells.size() && bells[f] && w.find("ERR") == string::npos ? sp.tr(w) : w; if (e == string::npos) break; want += '\t'; at = e + 1; ++f; } CHECK_EQ(y[i], want, "line " << i + 1 << " for " << fmt << ", which is " << x[i] << " with the usual symbols"); }
}
