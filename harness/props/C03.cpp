// C03 - changes: place notation of a single change, and what a change does
#include "lib.h"
#include <sstream>
using namespace lib; using namespace model; using namespace pbt;
using model::perm; using model::places;
namespace ringing { bool have_same_places(const change&, const change&); }

static int gen_stage(Src& s) {
  switch (s.below(8)) { case 0: return s.range(1, 4); case 6: return s.range(17, 33); case 7: return s.range(34, 120); default: return s.range(5, 16); }
}

SUB(spellings, 120000, 1200000, "a change on 1 to 120 bells in one of its accepted spellings (upper or lower case, implied external places, {n} bells, X x or -), read and printed; non-trivial when it makes a place and a swap") {
  int n = gen_stage(s);
  perm c = gen_change(s, n);
  bool x; string t = gen_spelling(s, c, &x);
  s.note(std::to_string(n) + " " + t);
  s.nontrivial(!places(c).empty() && c != rounds(n)); if (n > 33) s.label("more than 33 bells"); if (x) s.label("cross");
  if (t != full_pn(c)) s.label("not the canonical spelling");
  change C(n, t);
  CHECK_EQ(C.bells(), n, "bells"); CHECK_EQ(from_change(C), c, "meaning of " << t);
  CHECK_EQ(C.print(), full_pn(c), "printed");
  CHECK_EQ(C.print(change::C_LCROSS), full_pn(c, 'x'), "printed"); CHECK_EQ(C.print(change::C_DASH), full_pn(c, '-'), "printed");
  CHECK_EQ(C.print(change::C_UCROSS), full_pn(c, 'X'), "printed");
  std::ostringstream os; os << C; CHECK_EQ(os.str(), full_pn(c), "written");
  CHECK(change(n, C.print()) == C, "round trip");
  change D(n == 5 ? 6 : 5, string("1")); D.set(n, t); CHECK(D == C, "set"); D = change(n); D.set(n, t.c_str()); CHECK(D == C, "set");
  CHECK(to_change(c) == C, "from the list of places");
}

SUB(observers, 120000, 1200000, "two changes on 1 to 120 bells: swaps, places, internal places, sign, reverse, order, shared places, and the effect on a place; non-trivial when they differ") {
  int n = gen_stage(s), m = s.chance(4,5) ? n : gen_stage(s);
  perm c = gen_change(s, n), d = gen_change(s, m);
  if (s.chance(1,6)) { d = c; m = n; }
  s.note(std::to_string(n) + " " + full_pn(c) + ", " + std::to_string(m) + " " + full_pn(d)); s.nontrivial(c != d);
  change C = to_change(c), D = to_change(d);
  vector<int> pl; for (bell b : C.places()) pl.push_back(b);
  CHECK_EQ(pl, places(c), "places"); CHECK_EQ(C.count_places(), (int)pl.size(), "count of places");
  bool internal = false; int swaps = 0;
  for (int i=0; i<n; ++i) {
    CHECK_EQ(C.findplace(i), c[i] == i, "place " << i+1);
    if (i+1 < n) CHECK_EQ(C.findswap(i), c[i] == i+1, "swap at " << i+1);
    if (c[i] == i && i > 0 && i < n-1) internal = true;
    if (c[i] == i+1) ++swaps;
    CHECK_EQ((int)(bell(i) * C), c[i], "where place " << i+1 << " goes");
    bell b(i); b *= C; CHECK_EQ((int)b, c[i], "where place " << i+1 << " goes");
  }
  CHECK_EQ(C.internal(), internal, "internal places");
  CHECK_EQ(C.sign(), swaps % 2 ? -1 : 1, "sign");
  CHECK_EQ(C.sign(), (to_row(rounds(n)) * C).sign(), "sign of the row");
  CHECK_EQ(from_change(C.reverse()), reverse_change(c), "reverse"); CHECK(C.reverse().reverse() == C, "reverse twice");
  CHECK_EQ(C == D, c == d, "equality"); CHECK_EQ(C != D, c != d, "equality");
  CHECK_EQ((int)(C < D) + (int)(D < C) + (int)(C == D), 1, "trichotomy");
  CHECK_EQ(C > D, D < C, "order"); CHECK_EQ(C >= D, !(C < D), "order"); CHECK_EQ(C <= D, !(D < C), "order");
  if (n != m) CHECK_EQ(C < D, n < m, "order of stages");
  perm e = gen_change(s, m); change E = to_change(e);
  if (C < D && D < E) CHECK(C < E, "transitivity");
  if (n == m) {
    bool same = false; for (int i=0; i<n; ++i) if (c[i]==i && d[i]==i) same = true;
    CHECK_EQ(ringing::have_same_places(C, D), same, "places in common");
  }
  change S(C), T(D); S.swap(T); CHECK(S == D && T == C, "swap");
}

SUB(swap_pairs, 60000, 600000, "a change built by a sequence of up to 30 requests to swap or unswap a pair, some of them out of range; non-trivial when a request displaces a neighbouring swap") {
  int n = s.range(0, 14); vector<int> sw; perm c = rounds(n); change C(n);
  if (n && s.coin()) { c = gen_change(s, n); C = to_change(c); for (int i=0; i<n; ++i) if (c[i] == i+1) sw.push_back(i); }
  string d = std::to_string(n) + " " + full_pn(c) + ":";
  std::set<int> S(sw.begin(), sw.end());
  int k = s.range(1, 30); bool nt = false;
  for (int i=0; i<k; ++i) {
    int at = s.below(n + 2); d += " " + std::to_string(at);
    s.renote(d);
    bool threw = false, r = false;
    try { r = C.swappair(at); } catch (change::out_of_range const&) { threw = true; }
    CHECK_EQ(threw, at + 2 > n, "request " << at << " out of range");
    if (!threw) {
      bool want = !S.count(at);
      if (want) { if (S.erase(at-1) + S.erase(at+1)) nt = true; S.insert(at); } else S.erase(at);
      CHECK_EQ(r, want, "result of swapping " << at);
    }
    c = change_of(n, vector<int>(S.begin(), S.end()));
    CHECK_EQ(from_change(C), c, "after swapping at " << at);
    if (n) CHECK(C == change(n, full_pn(c)), "after swapping at " << at);
  }
  s.renote(d); s.nontrivial(nt);
}

SUB(any_text, 150000, 1500000, "arbitrary text, or a list of places with some wrong, offered as a change on 0 to 20 bells; it is read as the change it denotes or refused; non-trivial when refused") {
  int n = s.range(0, 20); string t; vector<int> pl; bool symbols_only = true;
  if (s.chance(3,4)) {
    int k = s.below(6), at = 0;
    for (int i=0; i<k; ++i) { at = s.chance(1,8) ? s.below(n+3) : at + s.range(0, 4); pl.push_back(at); t += at > 14 || s.chance(1,10) ? "{" + std::to_string(at+1) + "}" : sym(at); ++at; }
  } else {
    symbols_only = false; int k = s.below(6);
    for (int i=0; i<k; ++i) t += s.chance(1,6) ? string(1, (char)(1 + s.below(255))) : string(1, s.pickc("X-x1234567890ETZ{} .,&+"));
  }
  s.note(std::to_string(n) + " " + quote(t));
  perm want; bool ok;
  if (t.empty()) ok = n == 0;
  else if (symbols_only) ok = model::from_places(n, pl, want);
  else {
    ok = t == "X" || t == "x" || t == "-"; pl.clear();
    if (!ok) { ok = true; for (size_t i=0; i<t.size() && ok; ++i) {
      if (t[i] == '{') { size_t q = i+1; long v = 0; while (q < t.size() && isdigit((unsigned char)t[q])) v = std::min(9999L, v*10 + t[q++]-'0');
        size_t e = q; while (e < t.size() && isspace((unsigned char)t[e])) ++e;
        if (q == i+1) { size_t w = i+1; while (w < t.size() && isspace((unsigned char)t[w])) ++w; if (w > i+1) s.discard(); }
        if (q < t.size() && t[q] == '+') s.discard();
        if (q == i+1 || e >= t.size() || t[e] != '}' || v < 1) ok = false; else { pl.push_back(v-1); i = e; } continue; }
      char c = toupper((unsigned char)t[i]); if (c == 'I') c = '1'; if (c == 'O') c = '0';
      char const* p = strchr(symbols, c); if (!p || !c) ok = false; else pl.push_back(p - symbols); } 
      if (ok) ok = model::from_places(n, pl, want); }
    else model::from_places(n, vector<int>(), want);
  }
  s.nontrivial(!ok); s.label(ok ? "accepted" : "refused");
  bool got = true;
  try { change C(n, t); if (ok && n) CHECK_EQ(from_change(C), want, "meaning"); }
  catch (change::invalid const&) { got = false; } catch (bell::invalid const&) { got = false; }
  CHECK_EQ(got, ok, "accepted");
  if (symbols_only) {
    vector<bell> v(pl.begin(), pl.end()); bool g2 = true, ok2 = model::from_places(n, pl, want);
    try { change C(n, v); if (n) CHECK_EQ(from_change(C), want, "from a list of places"); } catch (change::invalid const&) { g2 = false; }
    CHECK_EQ(g2, ok2, "accepted as a list");
  }
}
