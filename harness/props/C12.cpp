// C12 - falseness: which leads and courses repeat rows of each other
#include "methods.h"
#include <ringing/falseness.h>
#include <ringing/group.h>
#include <stdexcept>
using namespace lib; using namespace model; using namespace pbt;
using model::perm;
using ringing::falseness_table; using ringing::false_courses;

static vector<perm> lead(gen::changes const& m, int n, bool half) { vector<perm> v = gen::rows(m, rounds(n)); v.pop_back(); if (half) v.resize(m.size() / 2); return v; }
template <class T> static vector<perm> list_of(T const& t) { vector<perm> v; for (auto const& r : t) v.push_back(from_row(r)); return v; }
static string txt(vector<perm> const& v) { string s; int k = 0; for (auto const& p : v) { if (++k > 20) { s += " ..."; break; } s += " " + text(p); } return s; }

SUB(tables, 12000, 120000, "leads of one method against itself or another, or lists of rows, on 3 to 10 bells, with every combination of options: false lead heads, in order, and the group they make, against quotients of all pairs of rows; non-trivial with two or more false lead heads") {
  int n = s.range(3, 10); gen::changes a = gen::gen_method(s, n, 0, 16), b = gen::gen_method(s, n, 0, 16); if (a.size() > 28) a.resize(28); if (b.size() > 28) b.resize(28);
  int flags = s.below(16); bool half = flags & falseness_table::half_lead_only; if (half) { if (a.size() % 2) a.pop_back(); if (b.size() % 2) b.pop_back(); if (a.empty() || b.empty()) s.discard(); }
  int how = s.below(4); method A = gen::to_method(a, n), B = gen::to_method(b, n); vector<perm> va = lead(a, n, half), vb = lead(b, n, half); falseness_table ft;
  CHECK_EQ(ft.size(), 1u, "trivial falseness"); vector<row> ra, rb; for (auto const& p : va) ra.push_back(to_row(p)); for (auto const& p : vb) rb.push_back(to_row(p));
  static char const* const hows[] = { "one method", "two methods", "method and rows", "rows" };
  if (how == 0) vb = va; s.note(str() << n << " bells, flags " << flags << ", " << hows[how] << ": " << gen::spell_plain(a) << " / " << (how ? gen::spell_plain(b) : "")); s.label(hows[how]);
  switch (how) { case 0: { falseness_table t(A, flags); if (s.coin()) ft.swap(t); else ft = t; } break; case 1: { falseness_table t(A, B, flags); using std::swap; swap(ft, t); } break; case 2: ft = falseness_table(A, rb, flags); break; default: ft = falseness_table(ra, rb, flags); }
  set<perm> want; for (auto const& p : va) for (auto const& q : vb) { perm f = mul(p, inv(q)); if (!(flags & falseness_table::no_fixed_treble) && f[0] != 0) continue; int sg = sign(f);
    if ((flags & falseness_table::in_course_only) && sg < 0) continue; if ((flags & falseness_table::out_of_course_only) && sg > 0) continue; want.insert(f); }
  vector<perm> w(want.begin(), want.end()), got = list_of(ft); s.nontrivial(w.size() >= 2);
  CHECK(got == w, "false lead heads are" << txt(got) << " but expected" << txt(w)); CHECK_EQ(ft.size(), w.size(), "number");
  if (n <= 6 && !w.empty()) { vector<row> gens; if (flags & falseness_table::out_of_course_only) { for (auto const& p : w) for (auto const& q : w) gens.push_back(to_row(mul(p, inv(q)))); } else for (auto const& p : w) gens.push_back(to_row(p));
    CHECK(ft.generate_group() == group(gens), "group made by the false lead heads"); s.label("group"); }
}

static bool named_lh(perm const& lh, vector<perm> const& d) { for (size_t i=0; i<d.size(); i+=2) if (d[i] == lh && lh != rounds((int)lh.size())) return true; return false; }
static vector<perm> dihedral(int n);
static gen::changes regular(Src& s, int n, bool sym, bool reg) { // a method with a treble, and one cycle of working bells
  vector<perm> d = dihedral(n);
  for (int t=0; t<200; ++t) {
    gen::changes m; int kind = s.below(2); vector<int> p; // path of the treble over half a lead
    if (kind) for (int i=0; i<n; ++i) p.push_back(i); else for (int i=0; i+1<n; i+=2) { p.push_back(i); p.push_back(i+1); p.push_back(i); p.push_back(i+1); }
    int h = p.size(); gen::changes half; for (int i=1; i<h; ++i) half.push_back(gen::change_through(s, n, p[i-1], p[i], s.below(3)));
    m = half; m.push_back(gen::change_through(s, n, p[h-1], p[h-1], 2)); for (int i=h-1; i>0; --i) m.push_back(sym ? half[i-1] : gen::change_through(s, n, p[i], p[i-1], s.below(3)));
    perm le = rounds(n); if (s.coin()) { for (int i=1; i+1<n; i+=2) std::swap(le[i], le[i+1]); } else for (int i=2; i+1<n; i+=2) std::swap(le[i], le[i+1]); m.push_back(le);
    perm lh = course_head(n, m); if ((int)cycles(lh).size() == 2 && (!reg || named_lh(lh, d))) return m;
  }
  return gen::changes();
}
static bool tt(perm const& c) { for (int i=6; i<(int)c.size(); ++i) if (c[i] != i) return false; return true; }

static vector<perm> false_heads(gen::changes const& m, int n, int flags, bool treble = true) {
  vector<perm> one = lead(m, n, false), course; perm lh = course_head(n, m), c = rounds(n); set<perm> P;
  do { for (auto const& r : one) { course.push_back(mul(c, r)); P.insert(course.back()); } c = mul(c, lh); } while (c != rounds(n));
  set<perm> out;
  // c P meets P, c having treble and tenor at home
  for (auto const& x : P) { for (auto const& q : course) { // c = x / q fixes the treble and the tenor
      int qi0 = std::find(q.begin(), q.end(), 0) - q.begin(), qin = std::find(q.begin(), q.end(), n-1) - q.begin(); if ((treble && x[qi0] != 0) || x[qin] != n-1) continue;
      perm f = mul(x, inv(q)); if ((flags & false_courses::in_course_only) && sign(f) < 0) continue; if ((flags & false_courses::tenors_together) && !tt(f)) continue; out.insert(f); } }
  return vector<perm>(out.begin(), out.end());
}

// Falseness groups: course heads that are false together in any regular symmetric method
static vector<perm> dihedral(int n) {
  vector<int> ring; for (int i=1; i<n; i+=2) ring.push_back(i); for (int i = n - 1 - (n % 2 ? 0 : 1); i > 0; i -= 2) ring.push_back(i);
  int k = ring.size(); vector<perm> d; for (int r=0; r<k; ++r) for (int sg : { 1, -1 }) { perm p = rounds(n); for (int i=0; i<k; ++i) p[ring[i]] = ring[((sg*i + r) % k + k) % k]; d.push_back(p); }
  return d;
}
static perm class_of(perm const& c, vector<perm> const& d) { perm best = c, ci = inv(c); for (auto const& x : d) for (auto const& y : d) { best = std::min(best, mul(mul(x, c), y)); best = std::min(best, mul(mul(x, ci), y)); } return best; }

SUB(courses, 3000, 30000, "regular and irregular methods on 4 to 10 bells with one cycle of working bells: false course heads against rows shared by the courses, and falseness group symbols of symmetric methods; non-trivial with two or more false course heads") {
  int n = s.coin() ? 8 : s.range(4, 10); bool sym = s.chance(2,3); gen::changes m = regular(s, n, sym, s.chance(3,4)); if (m.empty()) s.discard(); int flags = s.below(4); method M = gen::to_method(m, n);
  s.note(str() << n << " bells, flags " << flags << ": " << gen::spell_plain(m)); false_courses fc(M, flags); vector<perm> got = list_of(fc), want = false_heads(m, n, flags); s.nontrivial(want.size() >= 2);
  CHECK(got == want, "false course heads are" << txt(got) << " but expected" << txt(want)); CHECK_EQ(fc.size(), want.size(), "number");
  false_courses g; CHECK_EQ(g.size(), 1u, "trivial falseness"); g.swap(fc);
  bool named = M.isregular() && n % 2 == 0 && (n == 8 || (flags & false_courses::tenors_together)); string syms; bool threw = false;
  bool opt = s.coin(); if (opt) false_courses::optimise(s.coin() ? n : 2*s.range(3, 6));
  try { syms = g.symbols(); } catch (std::logic_error const&) { threw = true; } false_courses::optimise(0);
  CHECK_EQ(threw, !named, "whether the falseness groups have names"); if (!named) return;
  if (sym && n >= 8) { set<string> w; vector<perm> d = dihedral(n); static string const xyz[] = { "17623548", "17645328", "17632458" };
    for (auto const& c : want) { string y = false_courses::lookup_symbol(to_row(c)); if (tt(c)) w.insert(y); else if (n == 8) for (auto const& z : xyz) if (text(c) == z) w.insert(y); }
    string ws; for (auto const& y : w) ws += y; CHECK_EQ(syms, ws, "falseness groups"); s.label("with symbols"); if (w.size() > 1) s.label("false"); }
}

SUB(symbols, 3000, 40000, "course heads on 8, 10, 12 and 14 bells: two have the same falseness group exactly when they are false together in all regular symmetric methods, and on 8 bells capital letters are for those with an in-course member; non-trivial when neither is rounds") {
  int n = s.pick(vector<int>{ 8, 8, 10, 12, 14 }); auto pick = [&]() { perm p = rounds(n), q; if (n == 8 && s.coin()) { q = gen_perm(s, 7); for (int i=0; i<7; ++i) p[1+i] = q[i] + 1; } else { q = gen_perm(s, 5); for (int i=0; i<5; ++i) p[1+i] = q[i] + 1; } return p; };
  static std::map<int, vector<perm>> ds; vector<perm>& d = ds[n]; if (d.empty()) d = dihedral(n);
  perm a = pick(), b = s.coin() ? pick() : mul(mul(s.pick(d), s.coin() ? inv(a) : a), s.pick(d)); bool opt = s.coin(); s.note(str() << text(a) << " " << text(b)); s.nontrivial(a != rounds(n) && b != rounds(n));
  if (opt) false_courses::optimise(n); string sa = false_courses::lookup_symbol(to_row(a)), sb = false_courses::lookup_symbol(to_row(b)); false_courses::optimise(0);
  CHECK(!sa.empty(), text(a) << " has no falseness group"); bool same = class_of(a, d) == class_of(b, d);
  if (same) { CHECK_EQ(sb, sa, text(a) << " and " << text(b) << " are in one falseness group"); s.label("same"); }
  else { CHECK(sa != sb, text(a) << " and " << text(b) << " are in different falseness groups, but both are called " << sa); s.label("different"); }
  if (n == 8) { CHECK_EQ(sa.size(), 1u, sa); string xyz = "XYZ"; bool x = xyz.find(sa) != string::npos; if (!x) { bool in_course = false, any = false; for (auto const& e : d) for (auto const& f : d) for (perm const& c : { mul(mul(e, a), f), mul(mul(e, inv(a)), f) }) if (tt(c)) { any = true; if (sign(c) > 0) in_course = true; }
    CHECK(any, "the falseness group " << sa << " of " << text(a) << " has no course head with the tenors together"); CHECK_EQ((bool)isupper(sa[0]), in_course, "case of the symbol " << sa << " of " << text(a)); } else s.label("X, Y or Z"); }
  if (class_of(a, d) == class_of(rounds(n), d)) CHECK_EQ(sa, "A", text(a) << " is false in every method");
  perm known = rounds(n); std::swap(known[2], known[3]); std::swap(known[4], known[5]); string k = false_courses::lookup_symbol(to_row(known)); CHECK_EQ(k.substr(0, 1), "B", "the falseness group of 24365");
  known = rounds(n); std::swap(known[1], known[2]); std::swap(known[3], known[4]); k = false_courses::lookup_symbol(to_row(known)); if (n != 10) CHECK_EQ(k.substr(0, 1), "D", "the falseness group of 32546");
}

SUB_CPU(any_method, 3000, 30000, 30, "methods of any kind on 3 to 9 bells, regular or not: the list of false course heads always ends, and holds only rows with the tenor at home which are false; non-trivial unless the working bells are one cycle") {
  int n = s.range(3, 9); gen::changes m = gen::gen_method(s, n, 0, 12); if (m.size() > 20) m.resize(20); s.note(str() << n << " bells: " << gen::spell_plain(m)); perm lh = course_head(n, m);
  if (order(lh) > 20) s.discard();
  s.nontrivial(cycles(lh).size() != 2); false_courses fc(gen::to_method(m, n)); vector<perm> got = list_of(fc), all = false_heads(m, n, 0, false);
  for (auto const& c : got) CHECK(std::binary_search(all.begin(), all.end(), c), text(c) << " is not a false course head");
}
