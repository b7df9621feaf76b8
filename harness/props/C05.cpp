// C05 - place notation denotes the changes the notation says
#include "methods.h"
using namespace lib; using namespace model; using namespace pbt;
using model::perm;

static int gen_stage(Src& s) { return s.chance(1,8) ? s.range(17, 40) : s.range(1, 16); }
typedef std::vector<perm> chs;

static chs interpret(int n, string const& t, int how) {
  vector<change> v;
  switch (how) {
    case 0: interpret_pn(n, t.begin(), t.end(), std::back_inserter(v)); break;
    case 1: interpret_pn(n, t.c_str(), t.c_str() + t.size(), std::back_inserter(v)); break;
    case 2: { vector<char> e(t.begin(), t.end()); interpret_pn(n, e.begin(), e.end(), std::back_inserter(v)); break; }
    case 3: { method m(t, n); v = m; if (m.bells() != n) fail("number of bells"); break; }
    case 4: { method m(t.c_str(), n, "X"); v = m; break; }
    default: { string e = t + "}"; interpret_pn(n, e.begin(), e.end() - 1, std::back_inserter(v)); }
  }
  chs r; for (auto const& c : v) { if (c.bells() != n) fail("a change is on the wrong number of bells"); r.push_back(from_change(c)); }
  return r;
}

SUB(blocks, 120000, 1200000, "one to four blocks of changes on 1 to 40 bells, plain or symmetric, in one of the accepted spellings (separators, spaces, crosses, implied places, braces, + and & prefixes, trailing separators); non-trivial with a symmetric block of three or more changes, or two blocks") {
  int n = gen_stage(s), nb = s.chance(1,2) ? 1 : s.range(1, 4);
  string t; chs want; bool nt = nb >= 2;
  if (s.chance(1,8)) t += " ";
  for (int b=0; b<nb; ++b) {
    chs m; int len = s.chance(1,10) ? 0 : s.range(1, 12); for (int i=0; i<len; ++i) m.push_back(gen_change(s, n));
    bool sym = s.coin();
    if (b) t += s.chance(1,5) ? " , " : ",";
    if (sym) t += s.chance(1,10) ? "& " : s.chance(1,20) ? "&." : "&"; else if (s.chance(1,5)) t += "+";
    t += gen::spell(s, m, 0, m.size());
    want.insert(want.end(), m.begin(), m.end());
    if (sym && len) { want.insert(want.end(), m.rbegin() + 1, m.rend()); if (len >= 3) nt = true; s.label("symmetric block"); }
  }
  if (s.chance(1,10)) t += ","; if (s.chance(1,10)) t += " ";
  s.note(std::to_string(n) + " bells: " + quote(t)); s.nontrivial(nt);
  for (int how=0; how<6; ++how) {
    chs got = interpret(n, t, how);
    CHECK_EQ(got.size(), want.size(), "number of changes, reading " << how);
    for (size_t i=0; i<got.size(); ++i) CHECK_EQ(full_pn(got[i]), full_pn(want[i]), "change " << i << ", reading " << how);
  }
}

SUB(any_text, 200000, 2000000, "place notation with a few characters inserted, deleted or replaced, and arbitrary text, on 0 to 20 bells; read the same through every entry point, or refused with the library's exceptions, and refused when it contains a character that place notation cannot; non-trivial when refused") {
  int n = s.range(0, 20); string t;
  if (s.chance(3,4)) { int len = s.range(1, 8); chs m; for (int i=0; i<len; ++i) m.push_back(gen_change(s, std::max(1, n))); t = (s.coin() ? "&" : "") + gen::spell(s, m, 0, m.size());
    for (int k = s.range(0, 3); k > 0; --k) { int at = s.below(t.size()+1); switch (s.below(3)) { case 0: if (at < (int)t.size()) t.erase(at, 1); break; case 1: t.insert(at, 1, s.pickc("&+.,x-X12345678{}90ET ?!()")); break; default: if (at < (int)t.size()) t[at] = s.pickc("&+.,x-X1{}2345678E;*"); } } }
  else { int k = s.below(12); for (int i=0; i<k; ++i) t += s.chance(1,4) ? (char)(1 + s.below(255)) : s.pickc("&+.,x-1234567890ET{} "); }
  s.note(std::to_string(n) + " bells: " + quote(t));
  std::string res[6];
  for (int how=0; how<6; ++how) {
    try { chs r = interpret(n, t, how); res[how] = "ok"; for (auto const& c : r) { CHECK_EQ((int)c.size(), n, "size"); res[how] += " " + full_pn(c); } }
    catch (place_notation::invalid const&) { res[how] = "invalid"; }
    catch (change::invalid const&) { res[how] = "invalid"; }
    catch (bell::invalid const&) { res[how] = "invalid"; }
    if (how) CHECK_EQ(res[how], res[0], "reading " << how);
  }
  s.nontrivial(res[0] == "invalid"); s.label(res[0] == "invalid" ? "refused" : "accepted");
  if (t.find_first_of("?!();*/\\\"'@#$%^<>[]|~`=_:") != string::npos) CHECK_EQ(res[0], string("invalid"), "a character that place notation cannot contain");
  int depth = 0; for (char c : t) depth += c == '{' ? 1 : c == '}' ? -1 : 0; 
  if (depth != 0) CHECK_EQ(res[0], string("invalid"), "unbalanced braces");
}
