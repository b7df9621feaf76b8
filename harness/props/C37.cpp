// C37 - rowcalc: the value of an expression of rows and sets of rows
//! apps: rowcalc
#include "lib.h"
#include "methods.h"
using namespace model; using namespace pbt;

static int const N = 16;
static perm norm(perm p) { p = pad(p, N); return p; }
static string bare(perm p) { while (p.size() > 1 && p.back() == (int)p.size() - 1) p.pop_back(); return text(p); }

// An expression, its text and its value: a list of rows, in an order which is only known if `ordered`
struct ex {
  string t; int level;          // 4 atom, 3 power, 2 product, 1 difference
  vector<perm> v; bool ordered; int sets;
};
struct maker {
  Src& s; int n; bool changes; bool has_stdin = false; string in; int files = 0; bool big = false;
  maker(Src& s, int n, bool c) : s(s), n(n), changes(c) {}

  perm row(bool small_order = false) {
    perm p = rounds(n); int style = s.below(6);
    if (style == 0) p = gen_perm(s, n);
    else if (style == 1) { int k = s.range(1, std::min(n, 4)); int at = s.below(n - k + 1); perm q = gen_perm(s, k); for (int i=0; i<k; ++i) p[at+i] = at + q[i]; }
    else if (style == 2) p = gen_change(s, n);
    else if (style == 3) { perm q = gen_perm(s, n - 1); for (int i=1; i<n; ++i) p[i] = q[i-1] + 1; }
    else if (style == 4) { int k = s.range(2, std::min(n, 5)); std::rotate(p.begin(), p.begin() + 1, p.begin() + k); }
    (void) small_order; return p;
  }
  // Text of a row that is read as a row
  string lit(perm const& p) {
    if (changes) { if (is_change(p) && s.coin()) return chg(p); return text(pad(p, n)); }
    string t; if (s.coin()) { t = text(p); } else t = bare(p);
    if (p.size() > 1 && p[0] == 0 && s.chance(1,3)) { string u = t.substr(1); if (!u.empty() && u.find('1') == string::npos) t = u; }
    return t;
  }
  static bool is_change(perm const& p) { for (size_t i=0; i<p.size(); ++i) if (p[p[i]] != (int)i || abs(p[i] - (int)i) > 1) return false; return true; }
  string chg(perm const& p) { string t; for (size_t i=0; i<p.size(); ++i) if (p[i] == (int)i) t += sym(i); return t.empty() ? string(1, s.pickc("xX")) : t; }

  string sp() { return s.chance(1,8) ? s.chance(1,4) ? "  " : " " : ""; }
  string stream(vector<perm> const& v) {
    string t; if (s.chance(1,6)) t += s.pickc(" ,;:\t\n");
    for (size_t i=0; i<v.size(); ++i) { if (i) do t += s.chance(2,3) ? '\n' : s.pickc(" ,;:\t\r\n"); while (s.chance(1,8)); t += s.coin() ? text(v[i]) : bare(v[i]); }
    if (s.chance(2,3)) t += '\n'; return t;
  }
  vector<perm> some(int hi) { vector<perm> v; int k = s.range(s.chance(1,10) ? 0 : 1, hi); while (k--) v.push_back(norm(row())); return v; }

  ex scalar() { ex e; perm p = row(); e.t = lit(p); e.level = 4; e.v.push_back(norm(p)); e.ordered = true; e.sets = 0; return e; }
  ex source() {
    ex e; e.level = 4; e.ordered = true; e.sets = 1; int kind = s.below(3);
    if (kind == 0 && !has_stdin && s.coin()) { e.v = some(5); has_stdin = true; in = stream(e.v); e.t = "<(" + sp() + "-" + sp() + ")"; }
    else if (kind < 2) { e.v = some(5); string f = "r" + std::to_string(++files); string t = stream(e.v); if (s.chance(1,10)) t = "\xEF\xBB\xBF" + t; write_file(scratch() + "/" + f, t); e.t = "<(" + sp() + f + sp() + ")"; }
    else { e.v = some(5); string t = "echo"; for (perm const& p : e.v) t += string(" ") + (s.coin() ? text(p) : bare(p)); e.t = "$(" + t + ")"; }
    return e;
  }
  ex set(int d) {
    ex e; e.level = 4; e.ordered = true; e.sets = 1; int k = s.range(1, 4); e.t = "{" + sp();
    for (int i=0; i<k; ++i) { ex x = d ? any(d - 1) : scalar(); if (i) e.t += sp() + "," + sp(); e.t += x.t; e.v.insert(e.v.end(), x.v.begin(), x.v.end()); e.ordered = e.ordered && x.ordered; e.sets += x.sets; }
    e.t += sp() + "}"; return e;
  }
  static vector<perm> generate(vector<perm> const& gens, size_t cap) {
    std::set<perm> g; vector<perm> todo; perm r = rounds(N); g.insert(r); todo.push_back(r);
    while (!todo.empty()) { perm p = todo.back(); todo.pop_back(); for (perm const& x : gens) { perm q = mul(p, x); if (g.insert(q).second) { todo.push_back(q); if (g.size() > cap) return vector<perm>(); } } }
    return vector<perm>(g.begin(), g.end());
  }
  ex group(int d) {
    ex e; e.level = 4; e.ordered = false; e.sets = 1; int k = s.range(1, 3); vector<perm> gens; e.t = "<" + sp();
    for (int i=0; i<k; ++i) { ex x = any(d - 1); if (x.v.empty()) s.discard(); if (i) e.t += sp() + "," + sp(); if (e.t.back() == '<' && x.t[0] == '(') e.t += " "; e.t += x.t; gens.insert(gens.end(), x.v.begin(), x.v.end()); }
    e.t += sp() + ">"; e.v = generate(gens, 800); if (e.v.empty()) s.discard(); return e;
  }
  ex atom(int d) { int k = d <= 0 ? 0 : s.below(10); if (k < 2) return scalar(); if (k < 5) return source(); if (k < 8) return set(d); return group(d); }
  ex paren(ex e) { e.t = "(" + sp() + e.t + sp() + ")"; e.level = 4; return e; }
  ex at(int d, int level) { ex e = any(d); if (e.level < level || s.chance(1,12)) e = paren(e); return e; }
  // The right of ^: a row expression which cannot be taken for a number
  ex conj(int d) { ex e = at(d, 3); if (e.t.size() == 1 || !valid_row(e.t)) { bool number = true; for (char c : e.t) if (!isdigit(c)) number = false; if (number) s.discard(); } return e; }
  static bool valid_row(string const& t) { return t.size() > 1; }

  ex any(int d) {
    if (d <= 0) return s.chance(1,3) ? s.coin() ? set(0) : source() : scalar();
    int k = s.below(8); ex e;
    if (k < 3) return atom(d);
    if (k < 6) {
      ex a = at(d-1, 2), b = at(d-1, 3); int op = s.below(3); e.t = a.t + sp() + "*/\\"[op] + sp() + b.t; e.level = 2; join(e, a, b);
      for (perm const& x : a.v) for (perm const& y : b.v) e.v.push_back(op == 0 ? mul(x, y) : op == 1 ? mul(x, inv(y)) : mul(inv(x), y));
    } else if (k == 6) {
      ex a = at(d-1, 4); e.level = 3;
      if (s.coin()) { int p = s.below(4) ? s.range(0, 9) : s.range(10, 500); int form = s.below(3); string num = std::to_string(p);
        // two digits or more might be a row
        if (form == 0 && num.size() > 1) { std::set<char> d(num.begin(), num.end()); bool maybe = d.size() == num.size(); if (maybe) form = 1; }
        e.t = a.t + sp() + "^" + sp() + (form == 1 ? "+" : form == 2 ? "-" : "") + num; e.ordered = a.ordered; e.sets = a.sets; for (perm const& x : a.v) e.v.push_back(power(x, form == 2 ? -p : p)); }
      else { ex b = conj(d-1); e.t = a.t + sp() + "^" + sp() + b.t; join(e, a, b); for (perm const& x : a.v) for (perm const& y : b.v) e.v.push_back(mul(mul(inv(y), x), y)); }
    } else {
      ex a = at(d-1, 1), b = at(d-1, 2); e.t = a.t + sp() + "-" + sp() + b.t; e.level = 1; e.ordered = a.ordered; e.sets = a.sets; std::set<perm> out(b.v.begin(), b.v.end());
      for (perm const& x : a.v) if (!out.count(x)) e.v.push_back(x);
    }
    if (e.v.size() > 3000) s.discard();
    return e;
  }
  void join(ex& e, ex const& a, ex const& b) { e.sets = a.sets + b.sets; e.ordered = a.ordered && b.ordered && (a.sets == 0 || b.sets == 0); }
};

static bool read_row(string const& t, perm& p) { p.clear(); for (char c : t) { char const* i = strchr(symbols, c); if (!c || !i) return false; p.push_back(i - symbols); } return !p.empty() && is_perm(p); }
static vector<string> lines(string const& t) { vector<string> r; std::istringstream is(t); string l; while (getline(is, l)) r.push_back(l); return r; }

static void judge(ex const& e, run_result const& r, int b, bool count) {
  vector<perm> want; bool bad = false;
  for (perm p : e.v) { if (b) { if ((int)p.size() > b) { p.resize(b); if (!is_perm(p)) bad = true; } else p = pad(p, b); } want.push_back(p); }
  if (bad) { CHECK(r.status == 1 && !r.err.empty(), "a row of the result cannot be cut to " << b << " bells, but status " << r.status << ", printed " << r.out); return; }
  CHECK(r.status == 0 && r.err.empty(), "status " << r.status << " " << r.err);
  if (count) { CHECK_EQ(r.out, std::to_string(want.size()) + "\n", "number of rows"); return; }
  vector<perm> got; for (string const& l : lines(r.out)) { perm p; CHECK(read_row(l, p), "printed the line " << quote(l)); if (b) CHECK_EQ((int)p.size(), b, "bells in " << l); else p = norm(p); got.push_back(p); }
  auto show_rows = [](vector<perm> const& v) { string t; for (perm const& p : v) { t += bare(p) + " "; if (t.size() > 400) break; } return t; };
  if (!e.ordered) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
  CHECK(got == want, got.size() << " rows instead of " << want.size() << ": " << show_rows(got) << "instead of " << show_rows(want));
}

SUB(expressions, 5000, 300000, "an expression of rows, sets, groups, files, commands and the five operators, of up to three levels, with one and several sets and with every spelling of a row; rowcalc prints exactly the rows of its value, each as often as the value has it, in the order of the set if the value is made from one set; non-trivial when a set of two rows or more is in it") {
  int n = s.chance(1,6) ? s.range(9, 16) : s.range(2, 8); bool changes = s.chance(1,8); maker m(s, n, changes); ex e = m.any(s.range(1, 4));
  vector<string> argv(1, app("rowcalc")); int b = 0; if (changes) { b = n; argv.push_back("-C"); argv.push_back("-b" + std::to_string(n)); } else if (s.chance(1,3)) { b = s.chance(1,4) ? s.range(1, N) : s.range(n, N); argv.push_back("-b" + std::to_string(b)); }
  // without promotion every row must be of b bells already
  bool streams = e.t.find("<(") != string::npos || e.t.find("$(") != string::npos; if (changes && streams) s.discard();
  bool count = s.chance(1,6); if (count) argv.push_back(s.coin() ? "-c" : "--count");
  string in = m.in; bool piped = !m.has_stdin && s.chance(1,5);
  if (piped) in = m.sp() + e.t + m.sp() + "\n"; else { if (e.t[0] == '-') s.discard(); argv.push_back(e.t); }
  s.renote(cmdline(argv) + "\n" + in); s.nontrivial(e.sets > 0 && e.v.size() > 1); s.label(e.sets == 0 ? "row" : e.sets == 1 ? "one set" : "sets"); if (e.ordered && e.sets) s.label("in order"); if (streams) s.label("streams");
  run_result r = run_ok(argv, in, scratch()); if (piped && r.status == 0) { bool bad = false; for (perm p : e.v) if (b) { p.resize(b); if (!is_perm(p)) bad = true; } if (bad) { CHECK(!r.err.empty(), "no message for a row that cannot be cut to " << b << " bells"); return; } }
  judge(e, r, b, count);
}

SUB(several, 2000, 40000, "several expressions as arguments, or a line each on standard input among blank lines and lines that are in error: each is worked out alone and the results follow one another; with arguments the first in error ends the run with status 1; non-trivial when there are three expressions") {
  int n = s.range(2, 8), k = s.range(1, 5); bool args = s.coin(); string out, in; vector<string> argv(1, app("rowcalc")); bool stopped = false; int b = s.coin() ? n : 0; if (b) argv.push_back("-b" + std::to_string(b)); int good = 0;
  for (int i=0; i<k; ++i) { maker m(s, n, false); m.has_stdin = true; m.files = i * 100; bool err = s.chance(1,6); string t; static char const* wrong[] = { "3", "2134*", "{2134", "()", "2134 2143", "{}", "<(missing)", "2134^2143a", "%", "*2134", "$(echo 13)", "2134)", "{2134,}", "<2134", "112" }; ex e;
    if (err) t = wrong[s.below(sizeof(wrong)/sizeof(*wrong))]; else { e = m.any(s.range(0, 2)); if (!e.ordered) s.discard(); t = e.t; }
    if (args) { if (t[0] == '-') s.discard(); argv.push_back(t); } else { in += m.sp() + t + m.sp() + "\n"; if (s.chance(1,5)) in += m.sp() + "\n"; }
    if (err) { if (args) stopped = true; } else if (!stopped) { ++good; for (perm p : e.v) { while ((int)p.size() > n) p.pop_back(); out += text(p) + "\n"; } } }
  s.renote(cmdline(argv) + "\n" + in); s.nontrivial(good >= 3); s.label(args ? "arguments" : "lines");
  run_result r = run_ok(argv, in, scratch()); if (args) CHECK_EQ(r.status, stopped ? 1 : 0, "status: " << r.err); else CHECK_EQ(r.status, 0, "status: " << r.err); if (stopped) CHECK(!r.err.empty(), "no message for an expression in error");
  string got; for (string const& l : lines(r.out)) { perm p; CHECK(read_row(l, p), "printed the line " << quote(l)); p = norm(p); while ((int)p.size() > n) p.pop_back(); got += text(p) + "\n"; } CHECK_EQ(got, out, "rows printed");
}

SUB(any_text, 3000, 200000, "random and damaged expressions: rowcalc ends by itself with status 0, or with status 1 and a message; non-trivial when the text has ten characters or more") {
  string t; int n = s.range(2, 9); maker m(s, n, false); m.has_stdin = true;
  if (s.coin()) { ex e = m.any(2); t = e.t; int k = s.range(1, 4); while (k--) { if (t.empty()) break; size_t i = s.below(t.size()); switch (s.below(4)) { case 0: t.erase(i, s.range(1, 4)); break; case 1: t.insert(i, 1, s.pickc("(){}<>*/\\^-+,0123456789xET $")); break; case 2: t[i] = s.pickc("(){}<>*/\\^-+,0123456789xET "); break; default: t.insert(i, t.substr(s.below(t.size()), 5)); } } }
  else { int k = s.range(1, 20); while (k--) { if (s.coin()) t += text(m.row()); else t += s.pickc("(){}<>*/\\^-+,0123456789xETA  .&\"'\t\xff"); } }
  // no command but echo is ever run, and no file is read outside the scratch directory
  for (size_t i=0; (i = t.find("$(", i)) != string::npos; ++i) t.insert(i+2, "echo "); 
  for (char& c : t) if (strchr("|&;`\n", c)) c = ' '; for (size_t i=0; (i = t.find("<(", i)) != string::npos; ++i) { size_t j = i+2; while (j < t.size() && t[j] != ')') { if (strchr("/-", t[j])) t[j] = '1'; ++j; } } for (size_t i=0; i<t.size(); ++i) if (t[i] == '$' && (i+1 == t.size() || t[i+1] != '(')) t[i] = '1'; { size_t i = t.find("$("); if (i != string::npos) for (; i<t.size(); ++i) if (strchr("<>(", t[i]) && t[i-1] != '$') t[i] = ' '; }
  vector<string> argv(1, app("rowcalc")); if (s.chance(1,3)) { int b = s.range(0, 40); argv.push_back("-b" + std::to_string(b)); if (s.coin()) argv.push_back("-C"); } if (s.chance(1,4)) argv.push_back("-c"); bool piped = s.coin() || t.empty() || t[0] == '-' || t[0] == '@'; if (!piped) argv.push_back(t);
  s.renote(cmdline(argv) + "\n" + quote(piped ? t : string())); s.nontrivial(t.size() >= 10);
  run_result r = run(argv, piped ? t : string(), scratch()); CHECK(!r.timed_out, "rowcalc did not finish"); CHECK(!r.crashed, "rowcalc crashed: " << r.status << " " << r.err); CHECK(r.status == 0 || r.status == 1, "status " << r.status); if (r.status) CHECK(!r.err.empty(), "status 1 with no message"); s.label("status " + std::to_string(r.status));
}
