// C23: dimensions
#include "pbt.h"
#include <ringing/dimension.h>
#include <cmath>
using namespace pbt; using ringing::dimension; using std::string;

// Exact values, in millionths of a point: an inch is 72 pt, and 127 cm are 3600 pt
struct exact { __int128 n, d; int unit; };
static bool same(dimension const& d, exact const& e) { return (__int128) d.n * e.d == e.n * d.d && (d.n == 0 || d.u == e.unit); }
static std::string const spell[4][6] = { { "pt", "points", "point" }, { "in", "\"", "inches", "inch" }, { "cm" }, { "mm" } };
static int const spellings[4] = { 3, 4, 1, 1 };
static string text(dimension const& d) { return str() << d.n << "/" << d.d << " " << d.u; }
static string sp(Src& s, bool need) { static char const* w[] = { "", " ", "  ", "\t" }; return w[need ? s.range(1, 3) : s.below(4)]; }

SUB(read, 150000, 5000000, "A dimension written in any of the ways there are - whole numbers, decimals, fractions, and whole numbers with fractions, with any spacing, sign and spelling of the unit - is read as its exact value; non-trivial: not a plain whole number of the commonest spelling") {
  exact e; e.unit = s.below(4); string t = sp(s, false); bool neg = s.coin(); if (neg) t += "-" + sp(s, false); int form = s.below(4); auto num = [&]() { return s.chance(1, 10) ? s.range(0, 2000000000) : s.range(0, s.coin() ? 20 : 2000); };
  long a = num(), b = 0, c = 1; if (form == 0) t += str() << string(s.below(3), '0') << a; 
  else if (form == 1) { a = s.range(0, 2000); int k = s.below(5); long p = 1; string f; for (int i=0; i<k; ++i) { p *= 10; f += '0' + s.below(10); } b = f.empty() ? 0 : atol(f.c_str()); c = p; t += str() << a << "." << f; }
  else if (form == 2) { b = a; a = 0; c = s.range(1, s.coin() ? 16 : 30000); t += str() << b << sp(s, false) << "/" << sp(s, false) << c; }
  else { a = s.range(0, 2000); b = s.range(0, 50000); c = s.range(1, s.coin() ? 16 : 30000); t += str() << a << sp(s, true) << b << sp(s, false) << "/" << sp(s, false) << c; }
  int k = s.below(spellings[e.unit]); t += sp(s, false) + spell[e.unit][k] + sp(s, false); e.n = (__int128) a * c + b; e.d = c; if (neg) e.n = -e.n; s.note(quote(t)); s.nontrivial(form || neg || k); static char const* names[] = { "whole", "decimal", "fraction", "mixed" }; s.label(names[form]);
  dimension d; d.read(t); CHECK(same(d, e), "read " << quote(t) << " as " << text(d)); CHECK(d.d > 0 && std::__gcd(std::abs(d.n), d.d) == 1, "not in lowest terms: " << text(d) << " from " << quote(t)); static double const pts[] = { 1, 72, 72/2.54, 72/25.4 }; double v = (double) e.n / (double) e.d * pts[e.unit]; CHECK(std::fabs(d.in_points() - v) <= 1e-5 * std::fabs(v), quote(t) << " is " << d.in_points() << " points, not " << v);
  // and back
  if (d.n != 0) { string w; d.write(w); std::ostringstream o; o << d; CHECK_EQ(o.str(), w, "writing to a stream and to a string"); dimension r; r.read(w); CHECK(same(r, e), quote(t) << " is written " << quote(w) << " which is read as " << text(r)); s.label("written and read"); }
}

SUB(refused, 100000, 3000000, "Text which is not a dimension (no number, no or unknown unit, zero or missing denominator, numbers too large, misplaced signs) is refused with bad_format and leaves the value as it was; damaged text is read or refused; non-trivial: certainly malformed") {
  static char const* bad[] = { "", "pt", "-", "- cm", ".5 pt", "3", "3.5", "3/4", "1 1/2", "3 furlongs", "3 PT", "1/0 pt", "0/0 pt", "2 1/0 in", "2 0/0 cm", "99999999999999999999 pt", "1.99999999999999999999 pt", "1/99999999999 mm", "1 99999999999/2 mm", "100000 1/100000 pt", "--3 pt", "+3 pt", "3/-4 pt", "3 4 pt", "3 1/ pt", "/3 pt", "1/2/3 pt", "1.2/3 pt", "1..2 pt", "1.2.3 pt", "1e3 pt", "1,5 pt", "2147483648 pt", "pt 3" };
  string t; bool sure = s.coin(); if (sure) { t = bad[s.below(sizeof bad / sizeof *bad)]; string b; for (char c : t) { b += c; if (c == ' ') b += string(s.below(3), ' '); } t = string(s.below(3), ' ') + b; }
  else { int n = s.range(0, 14); static char const* bits[] = { "1", "2", "0", "17", "/", ".", " ", "-", "pt", "in", "\"", "cm", "mm", "points", "9999999999", "\n" }; for (int i=0; i<n; ++i) t += s.chance(1, 12) ? string(1, (char) s.range(1, 255)) : bits[s.below(16)]; }
  s.note(quote(t)); s.nontrivial(sure); dimension d(s.range(-50, 50), s.range(1, 9), (dimension::units) s.below(4)); dimension was = d; bool threw = false; try { d.read(t); } catch (dimension::bad_format const&) { threw = true; }
  if (sure) CHECK(threw, "accepted " << quote(t) << " as " << text(d)); if (threw) { s.label("refused"); CHECK(d.n == was.n && d.d == was.d && d.u == was.u, "refusing " << quote(t) << " changed " << text(was) << " to " << text(d)); } else { CHECK(d.d > 0, "read " << quote(t) << " as " << text(d)); s.label("read"); }
}

SUB(arithmetic, 150000, 4000000, "Multiplying, dividing and negating dimensions, and making them from floating point values; non-trivial: at least two operations") {
  dimension d(s.range(-1000, 1000), s.range(1, 60), (dimension::units) s.below(4)); exact e = { d.n, d.d, d.u }; string log = text(d); int k = s.range(0, 4);
  for (int i=0; i<k; ++i) { int op = s.below(5), x = s.range(-12, 12); if (op == 0) { d *= x; e.n *= x; } else if (op == 1) { if (!x) x = 1; d /= x; e.d *= x; } else if (op == 2) { d = d * x; e.n *= x; } else if (op == 3) { if (!x) x = 5; dimension q = d / x; d = q; e.d *= x; } else { d = -d; e.n = -e.n; } log += str() << " op" << op << " " << x; if (e.d < 0) { e.d = -e.d; e.n = -e.n; } CHECK(same(d, e), log << " gives " << text(d)); if (op != 4) CHECK(d.d > 0 && std::__gcd(std::abs(d.n), d.d) == 1, log << " is not in lowest terms: " << text(d)); bool zero = d == 0, nz = d != 0; CHECK(zero == (e.n == 0) && nz != zero, "comparison with 0: " << log); }
  s.note(log); s.nontrivial(k > 1); int den = s.range(1, 1000); float v = s.range(-100000, 100000) / 64.0f; auto u = (dimension::units) s.below(4); dimension f; f.set_float(v, den, u); CHECK(std::fabs((double) f.n / f.d - v) <= 1.0 / den + 1e-3 / den && f.u == u && f.d > 0 && den % f.d == 0, v << " in " << den << "ths is " << text(f));
}
