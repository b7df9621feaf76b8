// C41 - printmethod: the rows of a method on the terminal
//! apps: printmethod
#include "methods.h"
#include <map>
using namespace model; using namespace pbt; using gen::changes;
namespace {
// The text of a terminal's output, with the colour and weight of each character (0 when plain)
struct shown { char c; int colour; bool bold; bool operator==(shown const& o) const { return c == o.c && colour == o.colour && bold == o.bold; } };
vector<shown> terminal(string const& t) {
  vector<shown> v; int colour = 0; bool bold = false;
  for (size_t i=0; i<t.size(); ) {
    if (t[i] == '\017') { ++i; continue; } if (t[i] != '\033') { v.push_back({t[i], t[i] == '\n' ? 0 : colour, t[i] == '\n' ? false : bold}); ++i; continue; }
    if (t.compare(i, 3, "\033(B") == 0) { i += 3; continue; }
    CHECK(t.compare(i, 2, "\033[") == 0, "an escape that is not for colours in " << quote(t)); i += 2; string num; auto apply = [&] { int n = num.empty() ? 0 : atoi(num.c_str()); num.clear(); if (n == 0) { colour = 0; bold = false; } else if (n == 1) bold = true; else if (n == 22) bold = false; else if (n >= 30 && n <= 37) colour = n - 30; else if (n == 39) colour = 0; else if (n != 49) fail(str() << "an unexpected attribute " << n << " in " << quote(t)); };
    for (;; ++i) { CHECK(i < t.size(), "an escape without an end"); if (isdigit((unsigned char) t[i])) num += t[i]; else if (t[i] == ';') apply(); else { CHECK(t[i] == 'm', "an escape that is not for colours in " << quote(t)); apply(); ++i; break; } }
  }
  return v;
}
string spell_with(string const& syms, perm const& c, char cross) { string t; for (int p : places(c)) t += syms[p]; return t.empty() ? string(1, cross) : t; }
string plain(vector<shown> const& v) { string t; for (auto const& x : v) { if (x.colour || x.bold) t += str() << "<" << x.colour << (x.bold ? "*" : "") << ">"; t += x.c; } return t; }
}

SUB(rows, 4500, 80000, "methods printed as a lead or a course from any row, with rounds before and after, the first and last rows omitted or not, with other symbols for the bells, and with bells in colour and bold on terminals with and without colour: the rows printed, and the colour of each bell, are those of the method; non-trivial if two or more leads are printed, or a bell is in colour") {
  static char const* symbols[] = { "1234567890ETABCD", "1234567890ETABCD", "123456789ABCDEFG", "abcdefghijklmnop", "ABCDEFGHIJKLMNOP" }; int which = s.below(5); string syms = symbols[which]; vector<string> env; if (which) env.push_back("BELL_SYMBOLS=" + syms);
  int n = s.range(3, s.chance(1,5) ? 16 : 8); changes m = gen::gen_method(s, n, 0, 16); bool course = s.coin(); if (course && (long)m.size() * order(course_head(n, m)) > 2000) s.discard();
  string text; for (size_t i=0; i<m.size(); ++i) { string c = spell_with(syms, m[i], which ? '-' : s.pickc("x-")); bool dash = c == "x" || c == "-", prev = text.empty() || text[text.size()-1] == 'x' || text[text.size()-1] == '-'; text += (i && !((dash || prev) && s.coin()) ? "." : "") + c; }
  vector<string> o; auto opt = [&](char const* a, char const* b) { o.push_back(s.coin() ? a : b); }; auto opta = [&](char c, string const& l, string const& v) { if (s.coin()) o.push_back("--" + l + "=" + v); else if (s.coin() || v.empty() || v[0] == '-') o.push_back(string("-") + c + v); else { o.push_back(string("-") + c); o.push_back(v); } };
  bool colon = s.coin(); if (!colon || s.chance(1,4)) opta('b', "bells", std::to_string(n)); if (colon) text = std::to_string(n) + ":" + text; if (course) opt("-c", "--course"); bool F = s.chance(1,4), S = s.chance(1,4); if (F) opt("-F", "--omit-final"); if (S) opt("-S", "--omit-start"); int r = s.chance(1,3) ? s.range(1, 3) : 0, f = s.chance(1,3) ? s.range(1, 3) : 0; if (r) opta('r', "init-rounds", std::to_string(r)); if (f) opta('f', "final-rounds", std::to_string(f));
  perm start = rounds(n); if (s.chance(1,3)) { start = gen_perm(s, n); string t; for (int b : start) t += syms[b]; opta('s', "start", t); s.label("start"); }
  int term = s.below(4); static char const* terms[] = { "xterm", "linux", "vt100", "dumb" }; bool asked = false; std::map<char, shown> how; if (s.coin()) { env.push_back(string("TERM=") + terms[term]); static char const* names[] = { "red", "green", "blue" }; static int const codes[] = { 1, 2, 4 }; vector<int> given; for (int k=0; k<3; ++k) if (s.chance(1,2)) { string t; bool bold = false; int len = s.range(1, 4); for (int i=0; i<len; ++i) { if (s.chance(1,4)) { t += '*'; bold = !bold; } int b = s.below(n + (n < 16 && s.chance(1,8))); t += syms[b]; how[syms[b]] = shown{ syms[b], codes[k], bold }; asked = true; } opta("RGB"[k], names[k], t); s.label("colours"); } if (asked && term >= 2) s.label("no colours"); }
  for (size_t i=0; i+1<o.size(); ++i) { if (o[i].size() == 2 && o[i][0] == '-' && strchr("brfsRGB", o[i][1])) ++i; }
  vector<string> argv(1, app("printmethod")); if (s.coin()) { argv.insert(argv.end(), o.begin(), o.end()); argv.push_back(text); } else if (text[0] != '-') { argv.push_back(text); argv.insert(argv.end(), o.begin(), o.end()); } else { argv.insert(argv.end(), o.begin(), o.end()); argv.push_back("--"); argv.push_back(text); }
  if (text[0] == '-' && argv[argv.size()-2] != "--") argv.insert(argv.end() - 1, "--");
  vector<perm> want; for (int i=0; i<2*r; ++i) want.push_back(start); perm q = start; bool first = true; do for (auto const& c : m) { if (!first || (!S && !r)) want.push_back(q); first = false; q = model::apply(q, c); } while (course && q != start); if (!F) want.push_back(q); for (int i=0; i<2*f; ++i) want.push_back(q);
  string all; for (auto const& e : env) all += e + " "; s.renote(all + cmdline(argv)); s.nontrivial(want.size() >= 2 * m.size() + 1 || !how.empty()); s.label(course ? "course" : "lead");
  run_result res = run_ok(argv, "", "", env, 20); CHECK_EQ(res.status, 0, "status: " << res.err); vector<shown> got = terminal(res.out), exp; for (auto const& x : want) { for (int b : x) { char c = syms[b]; auto h = how.find(c); shown w = { c, 0, false }; if (h != how.end() && term < 2) w = h->second; else if (h != how.end() && term == 2) w.bold = h->second.bold; exp.push_back(w); } exp.push_back({'\n', 0, false}); }
  CHECK(got == exp, "printed " << quote(plain(got)) << " instead of " << quote(plain(exp)));
}

SUB(robust, 2500, 25000, "options, numbers of bells, methods, rows and colours at random and damaged: printmethod ends by itself with status 0, or with status 1 and a message; non-trivial when it is given a method") {
  int n = s.range(2, 8); vector<string> argv(1, app("printmethod")), env; auto damage = [&](string t, int den) { int k = s.chance(1, den) ? s.range(1, 2) : 0; while (k--) { if (!t.empty() && s.coin()) t.erase(s.below(t.size()), 1); else t.insert(s.below(t.size() + 1), 1, s.pickc("0123456789ETx-.,&+=b :")); } return t; };
  static char const* op[] = { "-c", "-F", "-S", "-r1", "-f1", "-r-1", "-f-2", "-r0", "-rx", "-f", "-b", "-c1", "-q", "--course=1" }; for (int k=s.below(4); k--; ) argv.push_back(op[s.below(s.chance(1,6) ? 14 : 5)]);
  if (s.chance(2,3)) argv.push_back("-b" + (s.chance(1,6) ? string(s.coin() ? "99" : s.coin() ? "-1" : s.coin() ? "0" : "6x") : std::to_string(n))); if (s.chance(1,3)) argv.push_back("-s" + damage(text(gen_perm(s, s.chance(1,4) ? s.range(1, 9) : n)), 3)); if (s.chance(1,3)) { env.push_back(string("TERM=") + (s.coin() ? "xterm" : s.coin() ? "dumb" : "none-such")); argv.push_back(string("-") + s.pickc("RGB") + damage(text(gen_perm(s, n)), 3)); }
  changes m = gen::gen_method(s, n, 0, 8); bool had = s.chance(19,20); if (had) { string t = gen::spell_plain(m); if (s.coin()) t = (s.chance(1,6) ? string(s.coin() ? "x" : s.coin() ? "" : s.coin() ? "-2" : "99999999999") : std::to_string(n)) + ":" + t; if (t[0] == '-') argv.push_back("--"); argv.push_back(damage(t, 3)); } s.nontrivial(had);
  s.renote(cmdline(argv)); run_result r = run(argv, "", "", env, 30); CHECK(!r.timed_out, "did not finish"); CHECK(!r.crashed, "crashed: " << r.status << " " << r.err); CHECK(r.status == 0 || r.status == 1, "status " << r.status); if (r.status) CHECK(!r.err.empty(), "status 1 with no message"); s.label(str() << r.status);
}
