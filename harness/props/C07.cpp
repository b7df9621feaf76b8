// C07 - what a method says about itself is true of its rows
#include "methods.h"
using namespace lib; using namespace model; using namespace pbt;
using model::perm;

static vector<int> path(gen::changes const& m, int b) { vector<int> p(1, b); for (auto const& c : m) p.push_back(b = c[b]); return p; }
static bool pal_about(gen::changes const& m, int i) { int n = m.size(); for (int j=0; j<n; ++j) if (m[(i+j)%n] != m[((i-j)%n+n)%n]) return false; return true; }
// Is the path of the bell in place b the same backwards and forwards about change i?
static bool pal_about(gen::changes const& m, int b, int i) {
  int n = m.size(); vector<int> p(1, b); for (int k=0; k<4*n; ++k) p.push_back(m[k % n][p.back()]);
  // the place before change i+k and after change i-k, for each k in half a lead
  int at = i; for (int k=0; k<n/2; ++k) { int fwd = p[at + 1 + k], back = at - k >= 0 ? p[at - k] : -1;
    if (back < 0) { // run backwards through the changes
      int q = p[0]; for (int j=1; j <= k - at; ++j) q = m[((-j)%n+n)%n][q]; back = q; }
    if (fwd != back) return false; }
  if (p[at + n/2] != p[at + n/2 + 1]) return false; // it turns back on itself at the other end too
  return true;
}

SUB(whole_method, 60000, 600000, "methods on 1 to 20 bells of varied construction: lead head, leads, regularity, hunt bells, symmetry, doubleness and longest run of blows, against the rows; non-trivial with four or more changes") {
  int n = s.chance(1,10) ? s.range(17, 20) : s.range(1, 16); string kind;
  gen::changes m = gen::gen_method(s, n, &kind);
  if (s.chance(1,4) && m.size() > 1) { int k = m.size(), p = s.below(k); for (int j=1; j<k; ++j) m[(p+j)%k] = m[((p-j)%k+k)%k]; kind = "palindromic somewhere"; }
  method M = gen::to_method(m, n);
  s.note(std::to_string(n) + " bells: " + gen::spell_plain(m)); s.nontrivial(m.size() >= 4); s.label(kind);
  int L = m.size(); perm lh = course_head(n, m);
  CHECK_EQ(M.length(), L, "length"); CHECK_EQ(M.bells(), n, "bells");
  CHECK_EQ(from_row(M.lh()), lh, "lead head"); CHECK_EQ((long)M.leads(), order(lh), "leads in a course");
  int hunts = 0; for (int i=0; i<n; ++i) hunts += lh[i] == i; CHECK_EQ(M.huntbells(), hunts, "hunt bells");
  int sp = -1; if (L % 2 == 0) for (int i=L/2-1; i>=0; --i) if (pal_about(m, i)) sp = i;
  CHECK_EQ(M.symmetry_point(), sp, "point of symmetry"); CHECK_EQ(M.ispalindromic(), sp != -1, "palindromic");
  CHECK_EQ(M.issym(), L % 2 == 0 && pal_about(m, L/2-1), "symmetric about the half lead");
  for (int i=0; i<L; ++i) CHECK_EQ(M.is_palindromic_about(i), pal_about(m, i), "palindromic about " << i);
  bool dbl = L % 2 == 0; for (int i=0; dbl && i<L/2; ++i) if (m[i] != reverse_change(m[L/2+i])) dbl = false;
  CHECK_EQ(M.isdouble(), dbl, "double"); if (dbl) s.label("double");
  // regular: the lead head is a plain bob lead head
  perm pb = from_row(row::pblh(n, 0)); bool reg = false;
  int h = 0; while (h < n && lh[h] == h) ++h;
  if (h > 0 && h < n) { pb = from_row(row::pblh(n, h)); perm q = pb; for (int k=1; k<n-h; ++k) { if (q == lh) reg = true; q = mul(q, pb); } }
  CHECK_EQ(M.isregular(), reg, "regular"); if (reg) s.label("regular");
  // the longest run in which a place is made, the method being repeated
  int best = 0;
  for (int p=0; p<n; ++p) for (int i=0; i<L; ++i) { int k = 0; while (k < L && m[(i+k)%L][p] == p) ++k; best = std::max(best, k); }
  CHECK_EQ(M.maxblows(), best + 1, "consecutive blows in one place");
}

SUB(each_bell, 40000, 400000, "each bell of methods on 3 to 14 bells: plain hunting, dodges, internal places and symmetry of its path, against the path in the rows; non-trivial when some bell plain hunts, or some path is symmetric") {
  int n = s.range(3, 14); string kind; gen::changes m = gen::gen_method(s, n, &kind, 30);
  method M = gen::to_method(m, n); int L = m.size();
  s.note(std::to_string(n) + " bells: " + gen::spell_plain(m)); s.label(kind);
  gen::changes twice(m); twice.insert(twice.end(), m.begin(), m.end());
  for (int b=0; b<n; ++b) {
    vector<int> p = path(twice, b);
    bool places = false, dodges = false;
    for (int i=0; i<L; ++i) if (p[i] == p[i+1] && p[i] > 0 && p[i] < n-1) places = true;
    for (int i=1; i<=L; ++i) if (p[i+1] == p[i-1] && p[i] != p[i-1]) dodges = true;
    CHECK_EQ(M.hasplaces(b), places, "internal places of bell " << b+1); CHECK_EQ(M.hasdodges(b), dodges, "dodges of bell " << b+1);
    // Plain hunting: steady movement, turning round by one place at each end of its range
    int dir = b % 2 ? -1 : 1, turns = 0; bool plain = true;
    for (int i=0; i<L; ++i) { int d = p[i+1] - p[i]; if (d == 0) { dir = -dir; ++turns; } else if (d != dir) plain = false; }
    plain = plain && turns == 2 && p[L] == b;
    CHECK_EQ(M.isplain(b), plain, "bell " << b+1 << " plain hunts");
    if (L % 2 == 0) {
      int sp = -1; for (int i=L/2-1; i>=0; --i) { bool pal = pal_about(m, b, i); CHECK_EQ(M.is_palindromic_about(b, i), pal, "path of bell " << b+1 << " about " << i); if (pal) sp = i; }
      CHECK_EQ(M.symmetry_point(b), sp, "point of symmetry of bell " << b+1); CHECK_EQ(M.ispalindromic(b), sp != -1, "palindromic path");
      CHECK_EQ(M.issym(b), pal_about(m, b, L/2-1), "symmetric path of bell " << b+1);
      if (sp != -1) s.label("symmetric path"); s.nontrivial(sp != -1);
    } else CHECK(!M.issym(b), "odd length");
    if (plain) { s.nontrivial(); s.label("plain hunting bell"); }
  }
}
