// C14 - row patterns: how many rows match, and which patterns are refused
#include "lib.h"
#include "wild.h"
#include <ringing/row_wildcard.h>
using namespace lib; using namespace model; using namespace pbt;
using model::perm; using ringing::row_wildcard;

static unsigned long long fact(int n) { unsigned long long f = 1; for (int i=2; i<=n; ++i) f *= i; return f; }
static unsigned long long count(string const& p, int n) { try { return row_wildcard(p, n).count(); } catch (row_wildcard::invalid_pattern const& e) { fail(str() << p << " on " << n << ": " << e.what()); } }
static int min_len(wild::pat const& p) { int k = 0; for (auto const& i : p) k += !i.star; return k; }

SUB(count_small, 12000, 150000, "patterns on 1 to 7 bells with up to 4 stars, given the number of bells by each route: the number of rows that match against trying every row; non-trivial if the pattern has a set or two stars, and matches some but not all rows") {
  int n = s.range(1, s.chance(1,8) ? 7 : 6); wild::pat p = wild::gen(s, n, 4); string t = wild::text(p, &s); s.note(str() << n << " bells: " << t);
  unsigned long long want = 0; perm r = rounds(n); do want += wild::matches_one(p, r); while (std::next_permutation(r.begin(), r.end()));
  int stars = 0; bool sets = false; for (auto const& i : p) { stars += i.star; sets |= !i.star && !i.any && !i.bell; } s.nontrivial((sets || stars >= 2) && want && want < fact(n)); s.label(str() << stars << " stars");
  try { row_wildcard w; int route = s.below(4); unsigned long long got;
    switch (route) { case 0: w = row_wildcard(t, n); got = w.count(); break; case 1: w = row_wildcard(t); got = w.count(n); break; case 2: w.set(t); w.set_bells(n); got = w.count(); break; default: w = row_wildcard("?", 3); w.set(t, n); row_wildcard x(w); got = x.count(); }
    CHECK_EQ(got, want, "number of matching rows"); CHECK_EQ(w.get(), t, "pattern"); CHECK_EQ((int) w.bells(), route == 1 ? 0 : n, "bells");
  } catch (row_wildcard::invalid_pattern const& e) { fail(str() << "refused: " << e.what()); }
}

SUB(count_large, 1500, 15000, "patterns on 8 to 12 bells with up to 3 stars: the count is the same with bells renamed, the pattern reversed, wildcards written as sets, and is the sum over the members of a set or the bells at a wildcard before any star; non-trivial if the count is neither none nor all") {
  int n = s.range(8, 12); wild::pat p = wild::gen(s, n, 3); int named = 0; { std::set<int> x; for (auto& i : p) { x.insert(i.set.begin(), i.set.end()); } named = x.size(); } (void) named;
  string t = wild::text(p); s.note(str() << n << " bells: " << t); unsigned long long c = count(t, n); s.nontrivial(c && c < fact(n));
  CHECK(c <= fact(n), "count " << c);
  perm m = gen_perm(s, n); wild::pat q = p; for (auto& i : q) { std::set<int> z; for (int b : i.set) z.insert(m[b]); i.set = z; } CHECK_EQ(count(wild::text(q), n), c, "with bells renamed: " << wild::text(q));
  if (wild::has_star(p) || min_len(p) >= n) { wild::pat v(p.rbegin(), p.rend()); CHECK_EQ(count(wild::text(v), n), c, "reversed: " << wild::text(v)); s.label("reversed"); }
  // one item written out: as a full set, or as the sum of its members
  for (size_t k=0; k<p.size() && !p[k].star; ++k) if (!p[k].bell) { wild::pat v = p; vector<int> all; if (v[k].any) { v[k].any = false; for (int b=0; b<n; ++b) { v[k].set.insert(b); all.push_back(b); } if (s.coin()) CHECK_EQ(count(wild::text(v), n), c, "wildcard as a set: " << wild::text(v)); }
      else all.assign(v[k].set.begin(), v[k].set.end());
      unsigned long long sum = 0; for (int b : all) { v[k].set.clear(); v[k].set.insert(b); v[k].bell = true; sum += count(wild::text(v), n); } CHECK_EQ(sum, c, "sum over the bells in item " << k); s.label("sum"); break; }
  // no stars and no sets: closed form
  { bool plain = true; std::set<int> f; int len = 0, stars = 0; for (auto& i : p) { if (i.star) { ++stars; continue; } ++len; if (i.any) continue; if (!i.bell || !f.insert(*i.set.begin()).second) plain = false; }
    if (plain && (stars <= 1) && len <= n) { CHECK_EQ(c, fact(n - f.size()), "closed form"); s.label("closed"); } }
}

SUB(syntax, 15000, 200000, "texts made of the characters of patterns and others, and patterns with one character changed, added or removed: refused with the documented exception exactly when not a pattern or when a bell is beyond the number of bells; non-trivial when refused by only one character") {
  int n = s.range(1, 14); string t; bool near = s.coin();
  if (near) { t = wild::text(wild::gen(s, n), &s); int k = s.below(t.size()+1); char c = s.pickc("12345?*[]]{} .x|7ETeO-"); switch (s.below(3)) { case 0: t.insert(k, 1, c); break; case 1: if (k < (int)t.size()) t[k] = c; break; default: if (k < (int)t.size()) t.erase(k, 1); } }
  else { int len = s.below(12); for (int i=0; i<len; ++i) t += s.chance(1,30) ? (char) s.below(256) : s.pickc("1234567890ETABCD?*[]12345[]"); }
  int bells = s.chance(1,3) ? 0 : n; s.note(str() << bells << " bells: " << quote(t));
  bool ok = true, in = false; for (char ch : t) { char c = toupper((unsigned char)ch); if (c == 'O') c = '0'; if (c == 'I') c = '1'; char const* q = c ? strchr(symbols, c) : 0;
    if (q) { if (bells && q - symbols >= bells) ok = false; } else if (c == '?' || c == '*') { if (in) ok = false; } else if (c == '[') { if (in) ok = false; in = true; } else if (c == ']') { if (!in) ok = false; in = false; } else ok = false; }
  if (in) ok = false; bool threw = false; s.nontrivial(near && !ok); s.label(ok ? "accepted" : "refused");
  try { row_wildcard w(t, bells); if (s.coin()) { row_wildcard x; x.set(t, bells); } if (ok) { unsigned long long c = w.count(n); CHECK(c <= fact(n), "count " << c); } } catch (row_wildcard::invalid_pattern const&) { threw = true; }
  CHECK_EQ(threw, !ok, "refused");
  if (ok && !bells) { bool t2 = false; try { row_wildcard(t).count(); } catch (row_wildcard::invalid_pattern const&) { t2 = true; } CHECK(t2, "count without a number of bells"); }
}
