// C43 - the options of the programs
//! apps: rowcalc extent printmethod musgrep methodlib psline touchsearch fextent gsiril methsearch
//! link: utils
#include "lib.h"
#include <sys/wait.h>
#include <unistd.h>
#include <climits>
#include <iostream>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include "apps/utils/args.h"
using namespace pbt; using std::string; using std::vector; using std::pair; using ringing::row;

// ---------------------------------------------------------------------
// A table of options, as generated

enum kind { k_bool, k_unbool, k_rep, k_int, k_optint, k_str, k_optstr, k_strs, k_range, k_row, k_fn, k_fnap, k_ibool, k_irep, k_iint, k_ioptint, K_N };
static bool takes(kind k) { return !(k == k_bool || k == k_unbool || k == k_rep || k == k_ibool || k == k_irep); }
static bool optional(kind k) { return k == k_optint || k == k_optstr || k == k_ioptint; }

struct opt {
  char c; string l, desc, an; kind k; string dflt_s; int dflt_i;
};
struct value {         // of one option
  bool b = false; int i = 0; string s; vector<string> v; std::pair<size_t,size_t> r; string w; 
  init_val<bool,false> ib; init_val<int,7> ii;
};
static string show_value(opt const& o, value const& v) {
  std::ostringstream os; os << '-' << (o.c ? o.c : ' ') << "/--" << o.l << " ";
  switch (o.k) {
    case k_bool: case k_unbool: os << v.b; break;
    case k_rep: case k_int: case k_optint: os << v.i; break;
    case k_str: case k_optstr: os << quote(v.s); break;
    case k_strs: case k_fn: case k_fnap: for (string const& s : v.v) os << quote(s) << ' '; break;
    case k_range: os << v.r.first << '-' << v.r.second; break;
    case k_row: os << quote(v.w); break;
    case k_ibool: os << bool(v.ib); break;
    case k_irep: case k_iint: case k_ioptint: os << int(v.ii); break;
    default: ;
  }
  return os.str();
}
static value initial(opt const& o) { value v; v.b = o.k == k_unbool; v.s = "initial"; v.r = {3, 4}; v.w = "initial"; return v; }

// ---------------------------------------------------------------------
// What the arguments mean

static bool whole(string const& t, bool sign, std::string& digits, bool& neg) {
  size_t i = 0; neg = false; while (i < t.size() && isspace((unsigned char) t[i])) ++i;
  if (i < t.size() && (t[i] == '+' || (sign && t[i] == '-'))) { neg = t[i] == '-'; ++i; }
  size_t b = i; while (i < t.size() && isdigit((unsigned char) t[i])) ++i;
  if (i == b) return false; digits = t.substr(b, i - b);
  while (i < t.size() && isspace((unsigned char) t[i])) ++i;
  return i == t.size();
}
static bool number(string const& t, bool sign, long long lo, unsigned long long hi, long long& out) {
  string d; bool neg; if (!whole(t, sign, d, neg)) return false;
  unsigned __int128 x = 0; for (char c : d) { x = x * 10 + (c - '0'); if (x >> 100) return false; }
  if (neg) { if (x > (unsigned __int128)(-(__int128) lo)) return false; out = (long long)(-(__int128) x); }
  else { if (x > hi) return false; out = (long long)(unsigned long long) x; }
  return true;
}
static bool a_row(string const& t, string& w) {
  std::set<int> seen; int n = 0;
  for (char c : t) { char const* q = strchr(model::symbols, c); int b = q && c ? q - model::symbols : -1; if (b < 0) return false; if (!seen.insert(b).second) return false; n = std::max(n, b + 1); }
  if ((int) seen.size() != n) return false; w = t; return true;
}

// Gives an option its argument; false if it is not one for it
static bool give(opt const& o, value& v, string const& a) {
  long long x;
  switch (o.k) {
    case k_bool: v.b = true; return true;
    case k_unbool: v.b = false; return true;
    case k_rep: ++v.i; return true;
    case k_ibool: v.ib = true; return true;
    case k_irep: v.ii = int(v.ii) + 1; return true;
    case k_optint: if (a.empty()) { v.i = o.dflt_i; return true; } // fall through
    case k_int: if (!number(a, true, INT_MIN, INT_MAX, x)) return false; v.i = x; return true;
    case k_ioptint: if (a.empty()) { v.ii = o.dflt_i; return true; } // fall through
    case k_iint: if (!number(a, true, INT_MIN, INT_MAX, x)) return false; v.ii = (int) x; return true;
    case k_optstr: v.s = a.empty() ? o.dflt_s : a; return true;
    case k_str: v.s = a; return true;
    case k_strs: case k_fn: case k_fnap: v.v.push_back(a); return true;
    case k_range: {
      size_t d = a.find('-'); long long lo = 0, hi = -1;
      if (d == string::npos) { if (!number(a, false, 0, ULLONG_MAX, lo)) return false; hi = lo; }
      else {
        if (d > 0 && !number(a.substr(0, d), false, 0, ULLONG_MAX, lo)) return false;
        if (d + 1 < a.size() && !number(a.substr(d + 1), false, 0, ULLONG_MAX, hi)) return false;
        if ((size_t) hi < (size_t) lo) return false;
      }
      v.r = {(size_t) lo, (size_t) hi}; return true;
    }
    case k_row: return a_row(a, v.w);
    default: return false;
  }
}

struct meaning { bool ok; string culprit; };   // culprit: what the message must say
static meaning read_args(vector<opt> const& os, bool has_default, vector<string> const& args, vector<value>& vs, vector<string>& text) {
  auto by_c = [&](char c) { for (size_t i=0; i<os.size(); ++i) if (os[i].c == c) return (int) i; return -1; };
  auto by_l = [&](string const& l) { if (!l.empty()) for (size_t i=0; i<os.size(); ++i) if (os[i].l == l) return (int) i; return -1; };
  bool no_more = false;
  for (size_t n=0; n<args.size(); ++n) {
    string const& a = args[n];
    if (no_more || a.empty() || a[0] != '-' || a == "-") { if (!has_default) return {false, ""}; text.push_back(a); continue; }
    if (a == "--") { no_more = true; continue; }
    if (a[1] == '-') {
      size_t eq = a.find('='); string name = a.substr(2, eq == string::npos ? eq : eq - 2);
      int i = by_l(name); if (i < 0) return {false, name};
      bool has = eq != string::npos;
      if (has && !takes(os[i].k)) return {false, name};
      if (!has && takes(os[i].k) && !optional(os[i].k)) return {false, name};
      string arg = has ? a.substr(eq + 1) : "";
      if (!give(os[i], vs[i], arg)) return {false, ""};
      continue;
    }
    for (size_t p = 1; p < a.size(); ++p) {
      int i = by_c(a[p]); if (i < 0) return {false, string("-") + a[p]};
      if (!takes(os[i].k)) { give(os[i], vs[i], ""); continue; }
      string arg = a.substr(p + 1);
      if (arg.empty() && !optional(os[i].k)) {
        if (n + 1 == args.size() || (args[n+1].size() > 1 && args[n+1][0] == '-')) return {false, string("-") + a[p]};
        arg = args[++n];
      }
      if (!give(os[i], vs[i], arg)) return {false, ""};
      break;
    }
  }
  return {true, ""};
}

// ---------------------------------------------------------------------
// Generators

static char const* const word_chars = "abcXYZ019.,:;_+~#/%^&|<>[]{}()!?";
static string word(Src& s, int lo, int hi) { string t; int n = s.range(lo, hi); while (n--) t += s.pickc(word_chars); return t; }
static string odd_text(Src& s) {
  int k = s.below(8);
  if (k == 0) return ""; if (k == 1) return "-"; if (k == 2) return word(s, 1, 5);
  string t; int n = s.range(1, 8); while (n--) t += s.pickc("ab1 \t'\"\\-=@\n\xC3\xA9"); if (t[0] == '@') t = "x" + t; return t;
}
static string int_text(Src& s) {
  switch (s.below(10)) {
    case 0: return "2147483647"; case 1: return "-2147483648"; case 2: return s.coin() ? "2147483648" : "-2147483649";
    case 3: return s.pick(vector<string>{"", "x", "1x", "1 2", "0x10", "1.5", "--1", "+", "-", "1e3"}); case 4: return s.pick(vector<string>{" 5", "5 ", "+7", "007", "-0"});
    default: return std::to_string(s.range(-50, 50));
  }
}
static string range_text(Src& s) {
  auto n = [&]{ switch (s.below(12)) { case 0: return string("18446744073709551615"); case 1: return string("18446744073709551616"); case 2: return string(s.coin() ? "x" : "1.5"); default: return std::to_string(s.range(0, 30)); } };
  switch (s.below(7)) { case 0: return n() + "-"; case 1: return "-" + n(); case 2: return n(); case 3: return s.pick(vector<string>{"-", "", "5--3", "--3", "a-b", "3-x", "1-2-3"}); default: return n() + "-" + n(); }
}
static string row_text(Src& s) {
  if (s.chance(1,6)) return s.pick(vector<string>{"1123", "135", "12 34", "2", "0", "@1"+string(), "12*", "1234ET09"});
  int n = s.range(1, 12); return model::text(model::gen_perm(s, n));
}
static string arg_for(Src& s, opt const& o) {
  if (s.chance(1,25)) return odd_text(s);
  switch (o.k) { case k_int: case k_optint: case k_iint: case k_ioptint: return int_text(s); case k_range: return range_text(s); case k_row: return row_text(s); default: return odd_text(s); }
}

static vector<opt> table(Src& s) {
  static char const* const shorts = "abcdefghijxyzABCD0129?#:=,";
  static vector<string> const stems = {"row", "rows", "row-mask", "r", "length", "len", "x", "no-help", "help", "count", "a", "ab", "Count", "bells2", "-odd", "n_1"};
  vector<opt> os; int n = s.range(1, 10); std::set<char> cs; std::set<string> ls;
  while (n--) {
    opt o; o.c = s.chance(1,6) ? '\0' : s.pickc(shorts); if (o.c && !cs.insert(o.c).second) o.c = 0;
    o.l = s.chance(1,6) ? "" : s.pick(stems); if (!o.l.empty() && !ls.insert(o.l).second) o.l = "";
    if (!o.c && o.l.empty()) continue;
    o.k = (kind) s.below(K_N); o.dflt_i = s.range(-5, 99); o.dflt_s = word(s, 0, 3); o.an = "ARG"; o.desc = "does something"; os.push_back(o);
  }
  if (os.empty()) s.discard(); return os;
}

// Puts some options on the command line
static vector<string> command(Src& s, vector<opt> const& os) {
  vector<string> v; int n = s.range(0, 8);
  while (n--) {
    int k = s.below(14);
    if (k == 0) { v.push_back(odd_text(s)); continue; }
    if (k == 1) { v.push_back(s.pick(vector<string>{"-", "--", "text", ""})); continue; }
    if (k == 2 && s.chance(1,3)) { v.push_back(string("-") + s.pickc("abcdefghijxyzABCD0129?#:=,") + (s.coin() ? "b" : "")); continue; }
    if (k == 3 && s.chance(1,3)) { v.push_back("--" + s.pick(vector<string>{"ro", "rows=", "=", "=x", "row", "count=3", "nothing", "rowss", "help"})); continue; }
    opt const& o = os[s.below(os.size())];
    string a = takes(o.k) && !(optional(o.k) && s.coin()) ? arg_for(s, o) : "";
    bool has = !a.empty() || (takes(o.k) && (!optional(o.k) || s.chance(1,5)));
    if (!o.l.empty() && (!o.c || s.coin())) { if (!has && s.chance(1,60)) a = "="; v.push_back("--" + o.l + (has ? "=" + a : a)); }
    else {
      string t = "-";
      for (int m = s.chance(1,2) ? 0 : s.range(1, 3); m--; ) { opt const& p = os[s.below(os.size())]; if (p.c && p.c != '-' && !takes(p.k)) t += p.c; }
      t += o.c;
      if (has && !a.empty() && (optional(o.k) || s.coin())) t += a, has = false;
      v.push_back(t); if (has && !optional(o.k) && !s.chance(1,25)) v.push_back(a);
    }
  }
  for (string& t : v) if (!t.empty() && t[0] == '@') t = "x" + t;
  return v;
}

// One argument, as it may be written in a file of them
static string spelt(Src& s, string const& a) {
  string t; bool q = false, dq = false; bool plain = s.coin();
  if (a.empty()) return s.coin() ? "''" : "\"\"";
  for (char c : a) {
    if (!plain && !q && !dq && s.chance(1,5)) { if (s.coin()) { t += '\''; q = true; } else { t += '"'; dq = true; } }
    bool must = c == '\\' || (q ? c == '\'' : dq ? c == '"' : (isspace((unsigned char) c) || c == '\'' || c == '"'));
    if (must || s.chance(1,20)) t += '\\'; t += c;
    if ((q || dq) && s.chance(1,4)) { t += q ? '\'' : '"'; q = dq = false; }
  }
  if (q) t += '\''; if (dq) t += '"';
  return t;
}
static string gap(Src& s) { string t(1, s.pickc(" \n\t")); while (s.chance(1,4)) t += s.pickc(" \n\t\r\f"); return t; }

// Moves runs of arguments to files, whose names are put in their place
static vector<string> into_files(Src& s, vector<string> v, int& count, int depth) {
  vector<string> w; size_t i = 0;
  while (i < v.size() || (count < 6 && s.chance(1,8))) {
    if (count < 6 && s.chance(1,3)) {
      size_t n = std::min<size_t>(v.size() - i, s.below(4)); string f = scratch() + "/args" + std::to_string(++count);
      vector<string> inner(v.begin() + i, v.begin() + i + n); i += n;
      if (depth < 3) inner = into_files(s, inner, count, depth + 1);
      string t = s.chance(1,4) ? gap(s) : "";
      for (size_t j=0; j<inner.size(); ++j) { if (j) t += gap(s); t += spelt(s, inner[j]); }
      if (s.coin()) t += gap(s);
      write_file(f, t); s.note("file " + f + " = " + quote(t)); w.push_back("@" + f);
    } else if (i < v.size()) w.push_back(v[i++]);
  }
  return w;
}

// ---------------------------------------------------------------------
// The parser under test

static vector<string> seen; static string seen_prog; static int now = -1;
static std::map<int, vector<string> > given;
template <int N> static void fn(string const& a) { given[N].push_back(a); }
template <int N> static void fnap(string const& a, arg_parser const& ap) { given[N].push_back(a); seen_prog = ap.program_name(); }
typedef void (*fn_t)(string const&); typedef void (*fnap_t)(string const&, arg_parser const&);
static fn_t const fns[] = { fn<0>, fn<1>, fn<2>, fn<3>, fn<4>, fn<5>, fn<6>, fn<7>, fn<8>, fn<9> };
static fnap_t const fnaps[] = { fnap<0>, fnap<1>, fnap<2>, fnap<3>, fnap<4>, fnap<5>, fnap<6>, fnap<7>, fnap<8>, fnap<9> };

struct capture {
  std::ostringstream os; std::streambuf* old; std::ostream& to;
  capture(std::ostream& to) : to(to) { old = to.rdbuf(os.rdbuf()); }
  ~capture() { to.rdbuf(old); }
};

static void fill(arg_parser& ap, vector<opt> const& os, std::deque<value>& vs, std::deque<row>& rows, std::deque<string>& ws) {
  for (size_t i=0; i<os.size(); ++i) {
    opt const& o = os[i]; value& v = vs[i];
    switch (o.k) {
      case k_bool: ap.add(new boolean_opt(o.c, o.l, o.desc, v.b)); break;
      case k_unbool: ap.add(new boolean_opt(o.c, o.l, o.desc, v.b, false)); break;
      case k_rep: ap.add(new repeated_boolean_opt(o.c, o.l, o.desc, v.i)); break;
      case k_ibool: ap.add(new boolean_opt(o.c, o.l, o.desc, v.ib)); break;
      case k_irep: ap.add(new repeated_boolean_opt(o.c, o.l, o.desc, v.ii)); break;
      case k_int: ap.add(new integer_opt(o.c, o.l, o.desc, o.an, v.i)); break;
      case k_optint: ap.add(new integer_opt(o.c, o.l, o.desc, o.an, v.i, o.dflt_i)); break;
      case k_iint: ap.add(new integer_opt(o.c, o.l, o.desc, o.an, v.ii)); break;
      case k_ioptint: ap.add(new integer_opt(o.c, o.l, o.desc, o.an, v.ii, o.dflt_i)); break;
      case k_str: ap.add(new string_opt(o.c, o.l, o.desc, o.an, v.s)); break;
      case k_optstr: ap.add(new string_opt(o.c, o.l, o.desc, o.an, v.s, o.dflt_s)); break;
      case k_strs: ap.add(new strings_opt(o.c, o.l, o.desc, o.an, v.v)); break;
      case k_range: ap.add(new range_opt(o.c, o.l, o.desc, o.an, v.r)); break;
      case k_row: ap.add(new row_opt(o.c, o.l, o.desc, o.an, rows[i])); break;
      case k_fn: ap.add(new delegate_opt(o.c, o.l, o.desc, o.an, fns[i])); break;
      case k_fnap: ap.add(new delegate_opt(o.c, o.l, o.desc, o.an, fnaps[i])); break;
      default: ;
    }
  }
}

static void try_options(Src& s, bool files) {
  vector<opt> os = table(s); bool has_default = s.chance(5,6);
  vector<string> args = command(s, os); 
  for (size_t i=0; i<os.size(); ++i) s.note(str() << "option " << show_value(os[i], value()) << " kind " << os[i].k);
  s.note("arguments " + quote(cmdline(args)));
  vector<value> want; for (opt const& o : os) want.push_back(initial(o)); vector<string> want_text;
  meaning m = read_args(os, has_default, args, want, want_text);
  s.label(m.ok ? "good" : "refused"); if (args.size() > 1) s.nontrivial();
  vector<string> actual = args; int nf = 0;
  if (files) { actual = into_files(s, args, nf, 0); s.note("written as " + quote(cmdline(actual))); s.label(nf > 2 ? "many files" : nf ? "files" : "no files"); if (!nf) s.discard(); }

  std::deque<value> got; for (opt const& o : os) got.push_back(initial(o)); std::deque<row> rows(os.size(), row("54321")); std::deque<string> ws; vector<string> text; given.clear(); seen_prog = "prog";
  bool ok; string err, out;
  { string p = s.pick(vector<string>{"prog", "./prog", "/usr/bin/prog", "a/lt-prog", "lt-prog", "x/../prog"});
    arg_parser ap(p, "A program", "OPTIONS"); 
    fill(ap, os, got, rows, ws); if (has_default) ap.set_default(new strings_opt('\0', "", "", "", text));
    vector<char const*> av; av.push_back(p.c_str()); for (string const& a : actual) av.push_back(a.c_str()); av.push_back(nullptr);
    capture ce(std::cerr), co(std::cout); ok = ap.parse(av.size() - 1, &av[0]); err = ce.os.str(); out = co.os.str(); 
    CHECK_EQ(ap.program_name(), string("prog"), "name of the program run as " << p); }
  CHECK_EQ(ok, m.ok, "whether the arguments are accepted; message " << quote(err));
  CHECK_EQ(out, string(), "nothing is printed");
  if (!ok) {
    if (m.culprit.empty() && err.empty()) { CHECK(!has_default, "there is a message"); return; }
    CHECK_EQ(err.substr(0, 6), string("prog: "), "the message has the name of the program: " << quote(err));
    CHECK(err.find(m.culprit) != string::npos, "message " << quote(err) << " says " << quote(m.culprit));
    CHECK(err.back() == '\n', "line ended");
    return;
  }
  CHECK_EQ(err, string(), "no message");
  CHECK_EQ(quote(cmdline(text)), quote(cmdline(want_text)), "arguments that are not options");
  CHECK_EQ(seen_prog, string("prog"), "program name given to functions");
  for (size_t i=0; i<os.size(); ++i) {
    if (os[i].k == k_fn || os[i].k == k_fnap) got[i].v = given[i];
    if (os[i].k == k_row) { string t = str() << rows[i]; 
      string w = want[i].w; row r = w == "initial" ? row("54321") : row(w); CHECK(rows[i] == r && (int) rows[i].bells() == r.bells(), "row of option " << i << " is " << t << ", should be " << w); continue; }
    CHECK_EQ(show_value(os[i], got[i]), show_value(os[i], want[i]), "value of option " << i);
  }
}

SUB(options, 40000, 600000, "a table of options of every kind with short and long names, and a command line of them in any spelling, merged, attached or separate, with right and wrong arguments, other text and --; non-trivial if it has two arguments or more") { try_options(s, false); }
SUB(files, 8000, 120000, "as options, with runs of arguments moved to files named with @, quoted and spaced in every way, and files in files; non-trivial if there are two arguments or more") { try_options(s, true); }

// ---------------------------------------------------------------------
// The help message

static string words_of(string const& t, int lo_words = 0) { std::istringstream is(t); string w, o; while (is >> w) o += (o.empty() ? "" : " ") + w; (void) lo_words; return o; }
static string prose(Src& s, int hi) { string t; int n = s.range(1, hi); for (int i=0; i<n; ++i) { if (i) t += s.chance(1,12) ? "  " : " "; int l = s.chance(1,10) ? s.range(10, 16) : s.range(1, 9); while (l--) t += s.pickc("abcdefghijklmnop,.`'"); } return t; }

SUB(help, 3000, 40000, "the help message of a table of options with descriptions of any length in terminals of any width from 50: every option, its argument and its description in order, wrapped and indented; non-trivial if there are three options or more") {
  vector<opt> os = table(s); std::map<size_t, string> info; int cols = s.chance(1,4) ? 80 : s.range(50, 140); bool set = cols != 80 || s.coin();
  for (opt& o : os) { o.desc = s.chance(1,12) ? "" : prose(s, s.chance(1,3) ? 30 : 8); o.an = s.chance(1,4) ? word(s, 1, 9) : s.pick(vector<string>{"NUM", "ROW", "FILE", "METH-CLASS"}); }
  for (size_t i=0; i<os.size(); ++i) if (s.chance(1,8)) info[i] = prose(s, 4);
  string before = s.chance(1,6) ? "" : prose(s, 25), after = s.coin() ? "" : prose(s, 40), syn = s.pick(vector<string>{"OPTIONS", "[OPTIONS] METHOD\n[OPTIONS] -i FILE", ""});
  string descr = before + (after.empty() ? "" : "\v" + after);
  s.note(str() << cols << " columns; description " << quote(descr)); for (opt& o : os) s.note(str() << show_value(o, value()) << " " << o.an << " kind " << o.k << " " << quote(o.desc));
  if (os.size() >= 3) s.nontrivial();
  string f = scratch() + "/help"; pid_t p = fork(); CHECK(p >= 0, "fork");
  if (p == 0) {
    if (set) setenv("COLUMNS", std::to_string(cols).c_str(), 1); else unsetenv("COLUMNS");
    std::deque<value> got(os.size()); std::deque<row> rows(os.size()); std::deque<string> ws; string all;
    arg_parser ap("/bin/prog", descr, syn);
    // The options one at a time, with headings between
    { std::deque<value>& g = got; for (size_t i=0; i<os.size(); ++i) { if (info.count(i)) ap.add(new option(info[i])); vector<opt> one(1, os[i]); 
        struct shim { static void add(arg_parser& ap, opt const& o, value& v, row& r) {
          switch (o.k) { case k_row: ap.add(new row_opt(o.c, o.l, o.desc, o.an, r)); break;
            case k_optint: case k_ioptint: ap.add(new integer_opt(o.c, o.l, o.desc, o.an, v.i, 1)); break;
            case k_optstr: ap.add(new string_opt(o.c, o.l, o.desc, o.an, v.s, "x")); break;
            case k_range: ap.add(new range_opt(o.c, o.l, o.desc, o.an, v.r)); break;
            default: if (takes(o.k)) ap.add(new string_opt(o.c, o.l, o.desc, o.an, v.s)); else ap.add(new boolean_opt(o.c, o.l, o.desc, v.b)); } } };
        shim::add(ap, os[i], g[i], rows[i]); } }
    capture co(std::cout); ap.help(); write_file(f, co.os.str()); _exit(0);
  }
  int st; waitpid(p, &st, 0); CHECK(st == 0, "help ended with status " << st);
  string h = read_file(f); s.note("help " + quote(h));
  // Lines, and their widths
  vector<string> lines; { std::istringstream is(h); string l; while (getline(is, l)) lines.push_back(l); }
  string usage = "Usage: prog " + syn; for (size_t i; (i = usage.find('\n')) != string::npos; ) usage.replace(i, 1, "$$  or:  prog "); 
  // Everything is there in order
  string want = words_of(before); bool arg = false;
  { string u = usage; size_t i = u.find("$$"); if (i != string::npos) u.replace(i, 2, "\n"); want += " " + words_of(u); }
  for (size_t i=0; i<os.size(); ++i) { opt const& o = os[i]; if (info.count(i)) want += " " + words_of(info[i]);
    string t; if (o.c) { t += string("-") + o.c; if (!o.l.empty()) t += ", "; }
    if (!o.l.empty()) { t += "--" + o.l; if (takes(o.k)) { arg = true; t += optional(o.k) ? "[=" + o.an + "]" : "=" + o.an; } }
    want += " " + t + " " + words_of(o.desc); }
  if (arg) want += " Required or optional arguments to long options are also required or optional arguments to the corresponding short options.";
  want += " " + words_of(after);
  CHECK_EQ(words_of(h), words_of(want), "words of the help message");
  size_t n = 0;
  for (string const& l : lines) {
    bool own = l.compare(0, 7, "Usage: ") == 0 || l.compare(0, 7, "  or:  ") == 0 || l.find("arguments to ") != string::npos;
    for (auto const& i : info) if (l == i.second) own = true;
    for (opt const& o : os) if (!o.l.empty() && l.find("--" + o.l) != string::npos && (o.desc.empty() || l.size() < 40)) own = true;
    if (!own) CHECK((int) l.size() <= std::max(cols - 2, 45), "line " << n << " is too long: " << quote(l));
    ++n;
  }
  // Each option begins a line, and the rest of its description is indented
  size_t at = 0; 
  for (size_t i=0; i<os.size(); ++i) { opt const& o = os[i];
    string t = "  "; if (o.c) { t += string("-") + o.c; if (!o.l.empty()) t += ", "; } if (!o.l.empty()) { t += "--" + o.l; if (takes(o.k)) t += optional(o.k) ? "[=" + o.an + "]" : "=" + o.an; }
    while (at < lines.size() && !(lines[at].compare(0, t.size(), t) == 0 && (lines[at].size() == t.size() || lines[at][t.size()] == ' '))) ++at;
    CHECK(at < lines.size(), "option " << i << " begins a line");
    string d; if (lines[at].size() > t.size()) d = lines[at].substr(t.size()); ++at;
    while (at < lines.size() && lines[at].compare(0, 25, string(25, ' ')) == 0) d += " " + lines[at++];
    CHECK_EQ(words_of(d), words_of(o.desc), "description of option " << i << " is beside it");
  }
}

// ---------------------------------------------------------------------
// Files that cannot be read, and those that never end

SUB(bad_files, 300, 3000, "a command line with a file of arguments which is missing, a directory, or names itself, perhaps through another; the program refuses it; all are non-trivial") {
  string prog = s.pick(vector<string>{"rowcalc", "extent", "printmethod", "musgrep", "psline", "touchsearch", "methsearch", "gsiril", "methodlib", "fextent"});
  string d = scratch(); int k = s.below(4); vector<string> argv; argv.push_back(app(prog)); string f = d + "/f";
  if (k == 0) f = d + "/missing"; else if (k == 1) f = d; 
  else if (k == 2) write_file(f, (s.coin() ? "-b 6 " : "") + ("@" + f) + (s.coin() ? " x" : "\n"));
  else { write_file(f, "@" + d + "/g"); write_file(d + "/g", "-b6\n@" + f + "\n"); }
  for (int i = s.below(3); i--; ) argv.push_back("-b6"); argv.push_back("@" + f); if (s.coin()) argv.push_back("x");
  s.note(cmdline(argv)); s.nontrivial(); s.label(str() << "kind " << k);
  run_result r = run_ok(argv, "", d); 
  CHECK(r.status == 1, "status " << r.status << " " << quote(r.err)); CHECK_EQ(r.out, string(), "nothing printed");
  CHECK_EQ(r.err.substr(0, prog.size() + 2), prog + ": ", "message " << quote(r.err));
  if (k == 0) CHECK(r.err.find(f) != string::npos, "the message names the file: " << quote(r.err));
}

// ---------------------------------------------------------------------
// Each program: its options do the same however they are spelt

struct popt { string c, l, a; bool opt; };
static vector<popt> const& options_of(string const& prog) {
  static std::map<string, vector<popt> > cache; vector<popt>& v = cache[prog]; if (!v.empty()) return v;
  run_result r = run_ok({app(prog), "--help"}, "", "", {"COLUMNS=200"}); CHECK(r.status == 0, "help"); 
  std::istringstream is(r.out); string l;
  while (getline(is, l)) {
    size_t i = l.find_first_not_of(' '); if (i != 2 || l[2] != '-') continue;
    popt p; p.opt = false; string t = l.substr(2); if (t[1] != '-') { p.c = t.substr(1, 1); t = t.size() > 3 && t[2] == ',' ? t.substr(4) : ""; }
    if (t.compare(0, 2, "--") == 0) { size_t e = t.find(' '); t = t.substr(2, e == string::npos ? e : e - 2); size_t q = t.find_first_of("=["); p.l = t.substr(0, q); if (q != string::npos) { p.opt = t[q] == '['; p.a = t.substr(q + (p.opt ? 2 : 1)); if (p.opt && !p.a.empty()) p.a.pop_back(); } }
    v.push_back(p);
  }
  return v;
}

SUB_CPU(spelling, 700, 15000, 120, "a program and some of its options with arguments, written once with long names and once with short ones, merged or not, in a file of arguments or not: it prints the same, ends the same, and accepts both or refuses both; non-trivial if both run to the end with two options or more") {
  struct base { char const* prog; vector<string> args; string in; };
  static vector<base> const bases = {
    {"rowcalc", {"21*<4312>"}, ""}, {"extent", {"-b4"}, ""}, {"extent", {"-b5", "-f"}, ""}, {"printmethod", {"-b6", "&-3-4-2-3-4-5,+2"}, ""}, {"printmethod", {"-b5", "&3,1"}, ""},
    {"musgrep", {"-b6", "*56"}, "123456\n214365\n132456\n"}, {"psline", {"-b6", "&-1-1-1,2"}, ""}, {"touchsearch", {"-b6", "-l1-60", "-bs:4", "&-1-1-1,2"}, ""}, {"touchsearch", {"-b5", "-l1-40", "&5-1,1"}, ""},
    {"methsearch", {"-b5"}, ""}, {"methsearch", {"-b6", "-p1", "-l2", "-j"}, ""}, {"gsiril", {}, "6 bells\nprove +x16x16x16x16x16x16\nfinish = \"# rows\"\n"}, {"methodlib", {"-b6"}, ""} };
  base const& b = s.pick(bases); vector<popt> const& ps = options_of(b.prog); CHECK(!ps.empty(), b.prog << " has options");
  vector<string> x, y; int used = 0; string merged; x.push_back(app(b.prog)); y.push_back(app(b.prog)); vector<string> xs = b.args, ys = b.args;
  if (s.coin()) std::reverse(xs.begin(), xs.end()), ys = xs;
  for (int n = s.range(1, 4); n--; ) {
    popt const& p = ps[s.below(ps.size())]; if (p.c.empty() || p.l.empty() || p.l == "interactive" || p.l == "help" || p.l == "version" || p.c == "?") continue;
    if (string(b.prog) == "methsearch" && (p.l == "out-file" || p.l == "require")) continue;
    string a; bool has = !p.a.empty() && !(p.opt && s.coin());
    if (has) a = s.pick(vector<string>{"1", "2", "4", "6", "1-4", "12345", "123456", "21", "&-1-1-1,2", "bob", "$M", "3pt", "*", "x", "red", "1e", "s:3", "14"});
    if (has && !s.chance(1,5)) {
      if (p.a.find("NUM") == 0 || p.a == "N" || p.a == "LENGTH") a = std::to_string(s.range(1, 6)); else if (p.a.find("BELL") == 0) a = s.pick(vector<string>{"1", "2", "4", "6"});
      else if (p.a == "ROW" || p.a == "ROWS") a = s.pick(vector<string>{"21", "1342", "132456", "12345"}); else if (p.a == "RANGE" || p.a == "MIN-MAX") a = s.pick(vector<string>{"1-60", "-70", "20-", "60"});
      else if (p.a.find("CHANGE") == 0) a = s.pick(vector<string>{"14", "b:4", "1234"}); else if (p.a == "MASK" || p.a == "PATTERN") a = s.pick(vector<string>{"*56", "1*"}); else if (p.a == "DIMENSION") a = s.pick(vector<string>{"100", "2cm", "1in"}); }
    x.push_back("--" + p.l + (has ? "=" + a : ""));
    if (!has && p.a.empty() && !merged.empty() && s.coin()) { y.back() += p.c; }
    else { y.push_back("-" + p.c); merged = p.a.empty() ? "m" : ""; if (has) { if (p.opt || a[0] == '-' || s.coin()) y.back() += a; else y.push_back(a); } }
    ++used;
  }
  if (!used) s.discard();
  x.insert(x.end(), xs.begin(), xs.end()); y.insert(y.end(), ys.begin(), ys.end());
  if (s.chance(1,4)) { string t; for (size_t i=1; i<y.size(); ++i) t += spelt(s, y[i]) + gap(s); write_file(scratch() + "/a", t); y.resize(1); y.push_back("@" + scratch() + "/a"); s.note("file " + quote(t)); }
  s.note(cmdline(x)); s.note(cmdline(y)); s.label(b.prog);
  run_result p = run(x, b.in, scratch(), {"METHOD_LIBRARY_PATH=" + scratch()}, 3); if (p.timed_out) s.discard();
  run_result q = run(y, b.in, scratch(), {"METHOD_LIBRARY_PATH=" + scratch()}, 6); if (q.timed_out) s.discard();
  if (p.crashed && q.crashed) s.discard();
  if (p.status == 0 && used > 1) s.nontrivial();
  CHECK_EQ(q.status, p.status, "exit status; " << quote(p.err.substr(0, 300)) << " and " << quote(q.err.substr(0, 300)));
  CHECK_EQ(q.out, p.out, "what is printed");
  if (p.status != 0) { CHECK_EQ(q.err.empty(), p.err.empty(), "whether there is a message"); }
}

SUB(errors, 400, 4000, "a program with an option it does not have, or an argument missing or not wanted: it says so, shows its usage and ends with status 1; --help and --version end with status 0; all are non-trivial") {
  string prog = s.pick(vector<string>{"rowcalc", "extent", "printmethod", "musgrep", "psline", "touchsearch", "methsearch", "gsiril", "methodlib", "fextent"});
  vector<popt> const& ps = options_of(prog); vector<string> argv; argv.push_back(app(prog)); s.nontrivial(); int k = s.below(6); string say; popt const& p = ps[s.below(ps.size())];
  if (k == 0) { say = s.pick(vector<string>{"no-such-option", "x", "bellss", "hel"}); for (popt const& q : ps) if (q.l == say) s.discard(); argv.push_back("--" + say + (s.coin() ? "=3" : "")); }
  else if (k == 1) { string c(1, s.pickc("&%;'{}")); for (popt const& q : ps) if (q.c == c) s.discard(); say = "-" + c; argv.push_back(say); }
  else if (k == 2) { if (p.a.empty() || p.opt || p.l.empty()) s.discard(); say = p.l; argv.push_back("--" + p.l); }
  else if (k == 3) { if (p.a.empty() || p.opt || p.c.empty()) s.discard(); say = "-" + p.c; argv.push_back("-" + p.c); if (s.coin()) argv.push_back(s.coin() ? "--" : "-x"); }
  else if (k == 4) { if (!p.a.empty() || p.l.empty()) s.discard(); say = p.l; argv.push_back("--" + p.l + "=" + s.pick(vector<string>{"", "1", "x"})); }
  else { bool h = s.coin(); argv.push_back(h ? s.coin() ? "--help" : "-?" : s.coin() ? "--version" : "-V"); bool has = false; for (popt const& q : ps) has = has || (h ? q.l == "help" : q.l == "version"); if (!has) s.discard();
    for (popt const& q : ps) if (q.c == "V" && q.l != "version" && argv.back() == "-V") s.discard();
    run_result r = run_ok(argv, "", scratch()); s.note(cmdline(argv)); CHECK_EQ(r.status, 0, "status"); CHECK_EQ(r.err, string(), "no message");
    if (h) CHECK(r.out.find("Usage: " + prog + " ") != string::npos, "usage in " << quote(r.out)); else CHECK_EQ(r.out.substr(0, prog.size() + 1), prog + " ", "version"); return; }
  s.note(cmdline(argv));
  run_result r = run_ok(argv, "", scratch());
  CHECK_EQ(r.status, prog == "gsiril" ? 3 : 1, "status; " << quote(r.err)); CHECK_EQ(r.out, string(), "nothing is printed");
  CHECK_EQ(r.err.substr(0, prog.size() + 2), prog + ": ", "message " << quote(r.err)); CHECK(r.err.substr(0, r.err.find('\n')).find(say) != string::npos, "message " << quote(r.err) << " says " << say);
  CHECK(r.err.find("Usage: " + prog + " ") != string::npos, "usage in " << quote(r.err));
}
