// C06 - a method written out and read back is the same method
#include "methods.h"
using namespace lib; using namespace model; using namespace pbt;
using model::perm;

SUB(round_trip, 120000, 1000000, "methods on 1 to 40 bells, half of them palindromic, written with every kind of option; read back as the same changes (all but the last when the lead head is omitted); non-trivial when the method has four or more changes") {
  int n = s.chance(1,8) ? s.range(17, 40) : s.range(1, 16); string kind;
  gen::changes m = gen::gen_method(s, n, &kind);
  if (s.chance(1,3) && m.size() > 1) { // palindromic about some other point
    int k = m.size(), p = s.below(k); for (int j=1; j<k; ++j) m[(p+j)%k] = m[((p-j)%k+k)%k]; kind = "palindromic somewhere"; }
  if (s.chance(1,40)) m.clear();
  method M = gen::to_method(m, n);
  int flags = 0;
  if (s.coin()) flags |= method::M_DOTS; if (s.coin()) flags |= method::M_EXTERNAL;
  switch (s.below(4)) { case 0: flags |= method::M_UCROSS; break; case 1: flags |= method::M_LCROSS; break; case 2: flags |= method::M_DASH; break; }
  switch (s.below(3)) { case 0: flags |= method::M_SYMMETRY; break; case 1: flags |= method::M_FULL_SYMMETRY; }
  if (s.chance(1,4)) flags |= method::M_OMIT_LH; if (s.coin()) flags |= method::M_PLUS;
  s.note(std::to_string(n) + " bells, flags " + std::to_string(flags) + ": " + gen::spell_plain(m)); s.nontrivial(m.size() >= 4); s.label(kind);
  string t = M.format(flags);
  s.label(t.find('&') != string::npos ? "written as symmetric" : "written out");
  gen::changes want = m; if ((flags & method::M_OMIT_LH) && !want.empty()) want.pop_back();
  method R(t, n);
  CHECK_EQ(gen::spell_plain(gen::from_method(R)), gen::spell_plain(want), "read back from " << quote(t));
  CHECK_EQ(R.bells(), n, "bells");
  // what the options promise
  if (!(flags & (method::M_SYMMETRY|method::M_FULL_SYMMETRY))) CHECK(t.find('&') == string::npos, "no symmetry asked for: " << t);
  char other[3] = {0}; int k = 0; for (char c : string("Xx-")) if (c != ((flags & method::M_UCROSS) ? 'X' : (flags & method::M_LCROSS) ? 'x' : (flags & method::M_DASH) ? '-' : 'X')) other[k++] = c;
  CHECK(t.find_first_of(other, 0, 2) == string::npos, "cross symbol in " << t);
  if (flags & method::M_PLUS) CHECK(want.empty() || m.empty() || t[0] == '+' || t[0] == '&', "plus sign in " << t); else CHECK(t.find('+') == string::npos, "plus sign in " << t);
  if (flags & method::M_DOTS) { size_t dots = std::count(t.begin(), t.end(), '.'); if (t.find('&') == string::npos && !want.empty()) CHECK_EQ(dots, want.size()-1, "dots in " << t); }
  if (n <= 33 && (flags & method::M_EXTERNAL) && t.find('&') == string::npos) { string u; for (char c : t) if (c != '.' && c != '+' && c != ',') u += c; string w; for (auto const& c : want) w += full_pn(c, (flags & method::M_LCROSS) && !(flags & method::M_UCROSS) ? 'x' : (flags & method::M_DASH) && !(flags & (method::M_UCROSS|method::M_LCROSS)) ? '-' : 'X'); CHECK_EQ(u, w, "external places in " << t); }
  if ((flags & method::M_SYMMETRY) && m.size() > 2 && m.size() % 2 == 0) { bool sym = true; for (size_t i=0; i+1<m.size(); ++i) if (m[i] != m[m.size()-2-i]) sym = false; if (sym) CHECK(t.find('&') != string::npos || m.size() == 2, "symmetry of " << t); }
  // building it up change by change, and from changes, gives the same method
  method A(0, n); for (auto const& c : m) A.push_back(full_pn(c)); CHECK(static_cast<vector<change> const&>(A) == static_cast<vector<change> const&>(M), "push_back of text");
  if (!m.empty()) { method B(static_cast<vector<change> const&>(M), "N"); CHECK(B.bells() == n && B.length() == (int)m.size() && string(B.name()) == "N", "from changes"); }
}
