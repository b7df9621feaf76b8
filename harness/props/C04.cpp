// C04 - the named rows are what ringers mean by them
#include "lib.h"
using namespace lib; using namespace model; using namespace pbt;
using model::perm;

// Plain bob lead head: hunt bells in place, the others moved on one place in
// coursing order.
static perm model_pblh(int n, int h, int k) {
  // coursing order of the working bells of rounds
  vector<int> co;
  for (int b = h + 1; b < n; b += 2) co.push_back(b);
  vector<int> other; for (int b = h; b < n; b += 2) other.push_back(b);
  // places in coursing order: back down the odd places, up the even ones
  vector<int> cycle(other.rbegin(), other.rend()); 
  vector<int> places(co.begin(), co.end()); places.insert(places.end(), cycle.begin(), cycle.end());
  perm r = rounds(n); int m = places.size();
  for (int i=0; i<m; ++i) r[places[i]] = places[((i - k) % m + m) % m];
  return r;
}

SUB(lead_heads, 400000, 4000000, "a stage from 1 to 60 bells, a number of hunt bells and a power of the plain bob or cyclic lead head, or another row, recognised as a lead head; non-trivial when there are at least three working bells") {
  int n = s.chance(1,6) ? s.range(17, 60) : s.range(1, 16), h = s.range(0, std::min(n, 4));
  int m = n - h, k = m > 0 ? s.below(m) : 0;
  s.note(std::to_string(n) + " bells, " + std::to_string(h) + " hunt, power " + std::to_string(k)); s.nontrivial(m >= 3);
  row L = row::pblh(n, h);
  perm want = model_pblh(n, h, 1), alt = model_pblh(n, h, -1);
  // 13527486 and the like: the first lead head has the second working bell
  // in the first working place
  if (m >= 2) CHECK_EQ((int)L[h], h+1, "first working place");
  CHECK(from_row(L) == want || from_row(L) == alt, "first lead head " << L << " is not a step in coursing order");
  if (n >= 4 && h == 1 && n <= 6) CHECK_EQ(L.print(), string(n == 4 ? "1342" : n == 5 ? "13524" : "135264"), "first lead head");
  bool fwd = from_row(L) == want;
  if (m > 0) {
    row P = L.power(k); perm p = model_pblh(n, h, fwd ? k : -k);
    CHECK_EQ(from_row(P), p, "power of the lead head");
    CHECK_EQ(P.ispblh(h), k, "which lead head");
    // with no hunt bells given, the bells that lead in their own places are
    int hb = 0; while (hb < n && p[hb] == hb) ++hb;
    if (k != 0 && h > 0) { CHECK_EQ(P.ispblh(), hb == h ? k : P.ispblh(hb), "which lead head"); if (hb == h) CHECK(P.ispblh() == k, "which lead head"); }
    if (h == 0 && hb == 0) CHECK_EQ(P.ispblh(), 0, "no hunt bells");
    // another row: it is a lead head just when it is a power
    perm q = s.coin() ? gen_perm(s, n) : p; if (s.coin() && n > 2) { int i = s.below(n), j = s.below(n); std::swap(q[i], q[j]); }
    s.note("row " + text(q));
    int is = 0; for (int i=1; i<m; ++i) if (model_pblh(n, h, fwd ? i : -i) == q) { is = i; break; }
    CHECK_EQ(to_row(q).ispblh(h), is, "which lead head is " << text(q));
    // cyclic
    int c = s.range(-40, 40);
    perm cy = rounds(n); for (int i=0; i<m; ++i) cy[h+i] = h + ((i + c) % m + m) % m;
    CHECK_EQ(from_row(row::cyclic(n, h, c)), cy, "cyclic lead head " << c);
  }
  CHECK_EQ(from_row(row::cyclic(n, n, 3)), rounds(n), "cyclic lead head with no working bells");
}

SUB(famous_rows, 80000, 800000, "queens, kings, tittums and reverse rounds from 1 to 100 bells, with any hunt and cover bells for reverse rounds; non-trivial from 5 bells") {
  int n = s.range(1, 100); s.note(std::to_string(n)); s.nontrivial(n >= 5);
  perm q, k, t(n), r;
  for (int b=0; b<n; b+=2) q.push_back(b);
  k.assign(q.rbegin(), q.rend());
  for (int b=1; b<n; b+=2) { q.push_back(b); k.push_back(b); }
  int half = (n + 1) / 2; for (int i=0; i<n; ++i) t[i] = i % 2 ? half + i/2 : i/2;
  for (int b=n-1; b>=0; --b) r.push_back(b);
  CHECK_EQ(from_row(row::queens(n)), q, "queens"); 
  CHECK_EQ(from_row(row::kings(n)), n <= 2 ? rounds(n) : k, "kings");
  CHECK_EQ(from_row(row::tittums(n)), t, "tittums"); CHECK_EQ(from_row(row::reverse_rounds(n)), r, "reverse rounds");
  CHECK_EQ(from_row(row::rounds(n)), rounds(n), "rounds");
  int nh = s.range(0, 5), nt = s.coin() ? 0 : n + nh + s.below(4); s.note(std::to_string(nh) + " " + std::to_string(nt));
  perm w = rounds(nt ? nt : n + nh); std::reverse(w.begin() + nh, w.begin() + nh + n);
  CHECK_EQ(from_row(row::reverse_rounds(n, nh, nt)), w, "reverse rounds with hunt bells");
}
