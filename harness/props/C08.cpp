// C08 - what a method is called: class, title and lead head code
#include "methods.h"
using namespace lib; using namespace model; using namespace pbt;
using model::perm;

enum { UNKNOWN, PRINCIPLE, BOB, PLACE, TREBLE_BOB, SURPRISE, DELIGHT, TREBLE_PLACE, ALLIANCE, HYBRID, SLOW, ANY, DODGING };
static char const* const class_names[] = { "", "", "Bob", "Place", "Treble Bob", "Surprise", "Delight", "Treble Place", "Alliance", "Hybrid", "Slow Course" };
static char const* const stages[] = { "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus", "Sextuples", "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty", "Decuples", "Twenty-two" };

struct classes { bool diff, little; int cl; };
static vector<int> path(gen::changes const& m, int b, int k) { vector<int> p(1, b); for (int i=0; i<k; ++i) p.push_back(b = m[i % m.size()][b]); return p; }
static bool internal(perm const& c) { for (int i=1; i+1<(int)c.size(); ++i) if (c[i] == i) return true; return false; }

// The definitions of the Central Council, on the rows of the method
static classes classify(gen::changes const& m, int n, int year) {
  classes r = { false, false, ANY }; int L = m.size(); perm lh = course_head(n, m);
  set<size_t> sizes; int working_cycles = 0, hb = -1;
  for (auto const& c : cycles(lh)) if (c.size() > 1) { ++working_cycles; sizes.insert(c.size()); } else if (hb < 0) hb = c[0];
  r.diff = year >= 2019 ? sizes.size() > 1 : working_cycles > 1;
  if (hb < 0) { r.cl = PRINCIPLE; return r; }
  vector<int> p = path(m, hb, 2*L); p.pop_back();
  int lo = *std::min_element(p.begin(), p.end()), hi = *std::max_element(p.begin(), p.end());
  r.little = lo > 0 || hi < n-1;
  if (lo == hi) return r;
  // symmetric about which change?
  int sp = -1;
  if (L % 2 == 0) for (int i=L/2-1; i>=0 && sp != L/2-1; --i) { bool ok = true; for (int k=0; k<L; ++k) if (p[(i+1+k)%L] != p[((i-k)%L+L)%L]) ok = false; if (ok) sp = i; }
  if (sp == -1) { r.cl = HYBRID; return r; }
  bool usual = sp == L/2-1;
  vector<int> count(hi+1); for (int i=0; i<L; ++i) ++count[p[i]];
  bool equal = true; for (int i=lo; i<=hi; ++i) if (count[i] != count[lo]) equal = false;
  bool places = false; for (int i=0; i<L; ++i) if (i != sp && i != (sp + L/2) % L && p[i] == p[i+1]) places = true;
  if (!equal) { r.cl = ALLIANCE; return r; }
  if (places) { r.cl = TREBLE_PLACE; return r; }
  if (!usual) return r;
  bool plain = true; for (int i=0; i<L/2; ++i) if (p[i] != lo + i && p[i] != hi - i) plain = false;
  if (L == 2*(hi-lo+1) && plain) {
    if (p[0] != (p[0] % 2 ? hi : lo)) return r;      // hunts the wrong way for its place
    if (year < 2019 && hb == 0 && n > 1 && lh[1] == 1) { // second hunt bell turns round at the half lead and lead end
      vector<int> q = path(m, 1, L); bool sym = true; for (int k=0; k<L; ++k) if (q[k] != q[L-1-k]) sym = false;
      if (sym) { r.cl = SLOW; return r; } }
    bool dodges = false;
    for (int b=0; b<n; ++b) if (b != hb) { vector<int> q = path(m, b, L+1); for (int i=1; i<=L; ++i) if (q[i-1] == q[i+1] && q[i] != q[i-1]) dodges = true; }
    r.cl = dodges ? BOB : PLACE; return r;
  }
  // Treble dodging.  The usual path goes through pairs of places in turn.
  r.cl = DODGING; int pairs = (hi - lo + 1) / 2, each = L / 2 / std::max(1, pairs);
  if ((hi - lo + 1) % 2 || L/2 != pairs * each || each % 2) return r;
  bool up = p[0] == lo;
  for (int i=0; i<L/2; ++i) if (p[i] != (up ? lo + i/each*2 + i%2 : hi - i/each*2 - i%2)) return r;
  int with = 0, without = 0;
  for (int i=each; i<L/2; i+=each) { if (internal(m[i-1])) ++with; else ++without; if (internal(m[L-1-i])) ++with; else ++without; }
  r.cl = without == 0 && with > 0 ? SURPRISE : with == 0 ? TREBLE_BOB : DELIGHT;
  return r;
}

static string lhcode(gen::changes const& m, int n) {
  if (n < 3) return "z";
  perm lh = course_head(n, m), plain, a = rounds(n), b, place1, place2; vector<perm> base;
  int hunts = 0; while (hunts < n && lh[hunts] == hunts) ++hunts;
  if (hunts != 1 && hunts != 2) return "z";
  // Plain Bob has code a or p; so has Grandsire
  gen::changes ref; perm x, one, two, three; from_places(n, vector<int>(), x); from_places(n, {0}, one); from_places(n, {0,1}, two);
  for (int i=0; i<n; ++i) { ref.push_back(x); ref.push_back(one); }
  perm key; bool lh1;
  if (hunts == 1) { ref.back() = two; key = m.back(); if (key == one) lh1 = true; else if (key == two) lh1 = false; else return "z"; }
  else { from_places(n, {2}, three); ref[0] = three; key = m.front(); if (key == x) lh1 = true; else if (key == three) lh1 = false; else return "z"; }
  perm p = course_head(n, ref), q = p; int o = n - hunts, k = 1;
  while (k < o && q != lh) { q = mul(q, p); ++k; }
  if (k >= o || gcd(k, o) != 1) return "z";
  bool back = k > o / 2 && 2*k != o; int d = back ? o - k : k; string r;
  if (o % 2) { static char const* const s[] = { "abc", "fed", "ghj", "mlk" }; r = s[lh1*2 + back][std::min(d, 3) - 1]; if (d > 3) r += std::to_string(d - 3); }
  else { r = "pqrs"[lh1*2 + back]; if (d > 1) r += std::to_string(d - 1); }
  return r;
}

static string class_text(bool diff, bool little, int cl, int year) {
  string r; if (diff) r = "Differential"; if (little) r += r.empty() ? "Little" : " Little";
  string c = cl == HYBRID && year >= 2019 ? "" : class_names[cl]; if (!c.empty()) r += (r.empty() ? "" : " ") + c; return r;
}
static string stage(int n) { return n >= 3 && n <= 22 ? stages[n-3] : std::to_string(n); }

static gen::changes treble_dodging(Src& s, int n) {
  // treble in the usual path, with chosen places at the cross sections
  int lo = s.chance(1,6) ? 2*s.below(n/4+1) : 0, hi = lo + 1 + 2*s.below((n-lo)/2); if (s.chance(2,3)) { lo = 0; hi = n - 1 - n%2; }
  int each = 2*s.range(1, 4), style = s.below(4); vector<int> p; for (int q=lo; q<hi; q+=2) for (int i=0; i<each; ++i) p.push_back(q + i%2);
  bool down = s.chance(1,8); if (down) std::reverse(p.begin(), p.end());
  if (down && p[0] == p[1]) return gen::gen_method(s, n);
  int h = p.size(); gen::changes m; p.push_back(p.back()); for (int i=h-1; i>=0; --i) p.push_back(p[i]); p.erase(p.begin()+h); p.push_back(p[0]);
  bool pal = s.chance(4,5);
  for (int i=0; i<2*h; ++i) {
    if (pal && i >= h && i < 2*h-1) { m.push_back(m[2*h-2-i]); continue; }
    perm c; bool cross = (i % each) == each-1 && i != h-1 && i != 2*h-1, want = style == 0 || (style != 1 && s.coin());
    for (int t=0; t<30; ++t) { c = gen::change_through(s, n, p[i], p[i+1], s.below(3)); if (!cross || style == 3 || internal(c) == want) break; }
    m.push_back(c);
  }
  return m;
}

SUB(class_of, 80000, 800000, "methods on 2 to 14 bells, with hunt bells of every kind: class for rules before and since 2019, and the title, against a classification of the rows by the published definitions; non-trivial with a hunt bell") {
  int n = s.chance(1,12) ? 2 : s.range(3, 14); string kind = "treble dodging";
  gen::changes m = n >= 4 && s.chance(1,3) ? treble_dodging(s, n) : gen::gen_method(s, n, &kind, 30);
  static vector<string> const names = { "Cambridge", "", "Grandsire", "Union", "Little Grandsire", "Double Union", "Reverse Grandsire", "Double Grandsire", "Reverse Union", "Grandsires", "A B C" };
  string name = s.coin() ? names[0] : s.pick(names);
  s.note(std::to_string(n) + " bells: " + gen::spell_plain(m) + " " + name); s.label(kind);
  method M = gen::to_method(m, n, name);
  static vector<int> const years = { 2018, 2019, 9999, 1950, 2025 };
  for (int year : { years[0], s.pick(years), 9999 }) {
    classes c = classify(m, n, year); int got = M.methclass(year), cl = got & 0xf;
    string where = str() << "class for " << year;
    CHECK_EQ((got & 0x10) != 0, c.diff, "differential, " << where); CHECK_EQ((got & 0x80) != 0, c.little, "little, " << where);
    if (c.diff) s.label("differential"); if (c.little) s.label("little");
    if (c.cl == DODGING) CHECK(cl == TREBLE_BOB || cl == SURPRISE || cl == DELIGHT, where << ": " << cl);
    else if (c.cl != ANY) { CHECK_EQ(cl, c.cl, where); s.nontrivial(c.cl > PRINCIPLE); s.label(c.cl == PRINCIPLE ? "Principle" : class_names[c.cl]); }
    else s.label("class not decided");
    string ct = class_text(c.diff, c.little, cl, year), t = name;
    CHECK_EQ(method::classname(got, year), ct, "name of the class, " << where);
    bool special = name == "Grandsire" || name == "Reverse Grandsire" || name == "Double Grandsire" || name == "Little Grandsire" || (n > 5 && (name == "Union" || name == "Double Union" || name == "Reverse Union"));
    if (!special && !ct.empty()) t += (t.empty() ? "" : " ") + ct;
    t += (t.empty() ? "" : " ") + stage(n);
    CHECK_EQ(M.fullname(year), t, "title, " << where);
  }
  CHECK_EQ(M.fullname(), M.fullname(9999), "current rules by default"); CHECK_EQ(string(M.name()), name, "name");
}

SUB(lead_head_code, 60000, 600000, "methods on 1 to 22 bells, mostly with plain bob lead heads and with each lead end change: code against powers of the lead heads of Plain Bob and Grandsire; non-trivial when there is a code") {
  int n = s.range(1, 22); gen::changes m;
  if (n >= 3 && s.chance(5,6)) { // a plain course of Plain Bob or Grandsire type, run on to other lead heads
    bool twin = n > 3 && s.coin(); gen::changes one_lead; perm x, one, end;
    from_places(n, vector<int>(), x); from_places(n, {0}, one); for (int i=0; i<n; ++i) { one_lead.push_back(x); one_lead.push_back(one); }
    if (twin) { from_places(n, {2}, end); one_lead[0] = end; } else { from_places(n, {0,1}, end); one_lead.back() = end; }
    int k = s.range(1, n+1); for (int i=0; i<k; ++i) m.insert(m.end(), one_lead.begin(), one_lead.end());
    int how = s.below(5);
    if (how == 1) { if (twin) m.front() = x; else m.back() = one; } else if (how == 2 && n > 4) { perm c; from_places(n, {0,3}, c); if (twin) m.front() = c; else m.back() = c; }
    else if (how == 3) { if (twin) { m.push_back(one); m.insert(m.begin(), one); } else m.insert(m.begin(), m.begin(), m.begin() + 2*n); }
    else if (how == 4) { m[s.below(m.size())] = gen_change(s, n); }
  } else m = gen::gen_method(s, n, 0, 20);
  perm lh = course_head(n, m);
  s.note(std::to_string(n) + " bells, lead head " + text(lh) + ", first " + full_pn(m.front()) + ", last " + full_pn(m.back()) + ", " + std::to_string(m.size()) + " changes");
  method M = gen::to_method(m, n); string c = lhcode(m, n), got = M.lhcode();
  CHECK_EQ(got, c, "lead head code"); s.nontrivial(c != "z"); s.label(c.substr(0, 1));
}

SUB(names, 4000, 40000, "stage names, and the name given to methods without one") {
  int n = s.chance(1,10) ? s.range(0, 200) : s.range(0, 40); s.note(std::to_string(n)); s.nontrivial();
  CHECK_EQ(string(method::stagename(n)), stage(n), "name of stage " << n);
  static vector<string> const un = { "Untitled", "Unnamed", "", "No name yet given to this one" };
  string u = s.pick(un); s.note(u); method::set_untitled(u);
  method M("x", 6); CHECK_EQ(string(M.name()), u, "name of a method without one"); method N(string("x"), 6); CHECK_EQ(string(N.name()), u, "name"); method P(4, 6); CHECK_EQ(string(P.name()), u, "name");
  method::set_untitled("Untitled");
}
