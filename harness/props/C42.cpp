// C42 - psline: the line of a method on paper
//! apps: psline
#include "methods.h"
#include "marks.h"
#include <map>
#include <set>
using namespace model; using namespace pbt; using gen::changes; using marks::pt; using marks::mark; using marks::col;
namespace {
struct line { col c; double w; bool crossing; };
struct title_t { string s, font; double size; col c; };
struct spec {
  int n, lead, total; changes ch; perm start; bool sym; std::map<int, line> lines; vector<std::pair<int,int>> rules; bool default_rules; bool numbers; int mode, pn; bool nox; int placebells; string calls, font; double size; col c; int grid; col gc; double gw; bool titled; title_t title; double xs, ys, hgap, vgap; bool known_x, known_y;
  bool land, pdf; double W; // landscape
};
struct layout { int rpc, cps, spp; };
struct item { int page, set, column, level; double slot; int anchor; string s; double squash; bool dot; col c; double r; };        // anchor: 0 left, 1 centre, 2 right
struct unit { int page, set, column, k, from, to; string style; bool operator<(unit const& o) const { return std::tie(page, set, column, k, from, to, style) < std::tie(o.page, o.set, o.column, o.k, o.from, o.to, o.style); } bool operator==(unit const& o) const { return !(*this < o) && !(o < *this); } };
string colour_text(col const& c) { return str() << std::lround(c.r * 100) << "-" << std::lround(c.g * 100) << "-" << std::lround(c.b * 100); }
string style_of(col const& c, double w) { return colour_text(c) + "/" + string(str() << std::lround(w * 20)); }
string show(unit const& u) { return str() << "page " << u.page << " set " << u.set << " column " << u.column << " row " << u.k << " places " << u.from << "-" << u.to << " " << u.style; }

// What is to be drawn, in units of rows and places
struct expected { vector<item> items; vector<unit> units; std::map<std::pair<int,std::pair<int,int>>, int> rows; vector<unit> rules, circles; int pages; };
expected model_of(spec const& p, layout const& l, vector<std::pair<int,int>> const& rules) {
  expected e; vector<perm> R(1, p.start); for (int k=0; k<p.total; ++k) R.push_back(model::apply(R.back(), p.ch[k % p.lead]));
  auto need = [&](int k) { for (auto& r : rules) if (r.second ? (k + 1) % r.second == r.first % r.second : k + 1 == r.first) return true; return false; };
  int groups = (p.total + l.rpc - 1) / l.rpc, call = 0; vector<int> call_at; for (int k=1; k<=p.total; ++k) call_at.push_back(p.lead > 1 && k % p.lead == p.lead - 1 ? call++ : -1);
  auto place = [&](int b, int k) { return (int) (std::find(R[k].begin(), R[k].end(), b) - R[k].begin()); };
  e.pages = 1;
  for (int g=0; g<groups; ++g) {
    int c = g % l.cps, s = g / l.cps, page = s / l.spp; s %= l.spp; e.pages = page + 1; int last = std::min(p.total, (g + 1) * l.rpc); e.rows[{page, {s, c}}] = last - g * l.rpc;
    for (int k = g * l.rpc; k <= last; ++k) {
      int i = k - g * l.rpc; bool first = i == 0, miss = p.mode == 0 ? k % p.lead : p.mode == 1 ? true : p.mode == 2 ? false : !first && k != (g + 1) * l.rpc; auto add = [&](int level, double slot, int anchor, string const& t, double squash) { item x = item(); x.page = page; x.set = s; x.column = c; x.level = level; x.slot = slot; x.anchor = anchor; x.s = t; x.squash = squash; x.c = p.c; e.items.push_back(x); };
      if (!first) {
        if ((k - 1) % p.lead == 0) {
          if (p.placebells >= 0 && p.placebells < p.n) { int q = place(p.placebells, k - 1) + 1; add(2 * (i - 1), p.n + 0.5, 1, std::to_string(q), q > 9 ? 0.8 : 1); e.circles.push_back({page, s, c, i - 1, 0, 0, ""}); }
          if (!p.numbers) for (auto& L : p.lines) if (!L.second.crossing) { item x = item(); x.page = page; x.set = s; x.column = c; x.level = 2 * (i - 1); x.slot = place(L.first, k - 1); x.anchor = 1; x.dot = true; x.c = L.second.c; x.r = 2 * L.second.w; e.items.push_back(x); }
        }
        if (call_at[k-1] >= 0) { char ch = call_at[k-1] < (int) p.calls.size() ? p.calls[call_at[k-1]] : ' '; if (ch != ' ') add(2 * (i - 1), p.n - 0.5, 0, string("-") + ch, 1); }
        int q = (k - 1) % p.lead + 1; bool show = p.pn == 2 || (p.pn == 1 && k <= p.lead && (!p.sym || q <= (p.lead + 1) / 2 || q == p.lead)); string t; for (int z : places(p.ch[q-1])) t += model::sym(z); if (t.empty()) { if (p.nox) show = false; t = "X"; }
        if (show) add(2 * i - 1, -1, 2, t, 1);
        for (auto& L : p.lines) { int a = place(L.first, k - 1), b = place(L.first, k); if (L.second.crossing && (a == b || !p.lines.count(R[k][a]))) continue; e.units.push_back({page, s, c, i - 1, a, b, style_of(L.second.c, L.second.w)}); }
      }
      if (p.numbers) for (int z=0; z<p.n; ++z) { auto f = p.lines.find(R[k][z]); if (miss && f != p.lines.end() && !f->second.crossing) continue; add(2 * i, z, 1, model::sym(R[k][z]), 1); }
      if (need(k % p.lead) && (first || k != last)) e.rules.push_back({page, s, c, i, 0, 0, ""});
    }
  }
  return e;
}

struct seen { string s, font; double size, squash, x0, x1, y; bool dot; col c; double r; };
string list_units(vector<unit> const& a, vector<unit> const& b) { vector<unit> d; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d)); str t; for (size_t i=0; i<d.size() && i<5; ++i) t << (i ? "; " : "") << show(d[i]); return t; }

// Compares a document with what is expected in a layout; "" if they agree
string match(spec const& p, layout const& l, vector<std::pair<int,int>> const& rules, marks::document const& d, bool& geometry, double& xs_out, double& ys_out) {
  expected e = model_of(p, l, rules); if ((int) d.pages.size() != e.pages) return str() << d.pages.size() << " pages instead of " << e.pages; geometry = false;
  auto user = [&](pt q) { return p.land ? pt{ q.y, p.W - q.x } : q; };
  vector<vector<item>> want(e.pages); for (auto& x : e.items) want[x.page].push_back(x); vector<vector<seen>> got(e.pages);
  for (int g=0; g<e.pages; ++g) { bool titled = false; for (auto& m : d.pages[g].m) {
    if (m.k == mark::text) { if (m.s.find_first_not_of(' ') == string::npos) continue; pt a = user(m.at); if (p.titled && g == 0 && !titled && m.s == p.title.s && m.font == p.title.font && std::fabs(m.size - p.title.size) < 0.01 && m.c == p.title.c) { titled = true; continue; }
      seen x = seen(); x.s = m.s; x.font = m.font; x.size = m.size; x.squash = m.squash; x.x0 = a.x; x.x1 = a.x + m.text_width(); x.y = a.y; x.c = m.c; got[g].push_back(x); }
    else if (m.k == mark::fill && m.curved) { pt a = user(m.lo()), b = user(m.hi()); seen x = seen(); x.dot = true; x.x0 = std::min(a.x, b.x); x.x1 = std::max(a.x, b.x); x.y = (a.y + b.y) / 2; x.r = (x.x1 - x.x0) / 2; x.c = m.c; got[g].push_back(x); } }
    if (p.titled && g == 0 && !titled) return "the title is not on the first page"; if (want[g].size() != got[g].size()) return str() << got[g].size() << " numbers, letters and dots on page " << g + 1 << " instead of " << want[g].size(); }
  double drift = p.pdf ? 0.006 * l.rpc + 0.03 : 0;      // numbers have two places in PDF, and each row is a step from the last
  // Match them in the order in which they come on the page
  double font = 0; for (auto& v : got) for (auto& x : v) if (!x.dot) { font = x.size; if (x.font != p.font) return "text in " + x.font; if (p.size > 0 && std::fabs(x.size - p.size) > 0.051) return str() << "text of size " << x.size; }
  for (auto& v : got) for (auto& x : v) if (!x.dot && std::fabs(x.size - font) > 0.01) return "text of different sizes";
  double off = (p.pdf ? 0.3 : 0.35) * font; for (auto& v : got) for (auto& x : v) if (!x.dot) x.y += off;
  std::map<std::pair<int,std::pair<int,int>>, double> X; std::map<std::pair<int,int>, double> Y; double xs = p.known_x ? p.xs : 0, ys = p.known_y ? p.ys : 0; vector<std::pair<item, seen>> pairs;
  for (int g=0; g<e.pages; ++g) {
    auto& w = want[g]; auto& o = got[g]; std::stable_sort(w.begin(), w.end(), [](item const& a, item const& b) { return std::tie(a.set, a.level, a.column, a.slot) < std::tie(b.set, b.level, b.column, b.slot); });
    std::sort(o.begin(), o.end(), [](seen const& a, seen const& b) { return a.y > b.y; }); double tol = (p.numbers ? 0.2 : 0.15 + 0.05 * font) + drift;
    // rows of marks at the same height
    size_t i = 0; while (i < w.size()) { size_t j = i; while (j < w.size() && w[j].set == w[i].set && w[j].level == w[i].level) ++j; for (size_t k=i; k<j; ++k) if (o[i].y - o[k].y > 2 * tol) return str() << "page " << g + 1 << " set " << w[i].set << " row " << w[i].level / 2.0 << ": there should be " << j - i << " things"; if (j < w.size() && o[j-1].y - o[j].y < tol) return str() << "page " << g + 1 << " set " << w[i].set << " row " << w[i].level / 2.0 << ": there are more than " << j - i << " things";
      bool between = w[i].level & 1; auto order = [&](seen const& a) { return between ? a.x1 : a.s.size() > 1 && a.s[0] == '-' ? a.x0 : (a.x0 + a.x1) / 2; }; std::sort(o.begin() + i, o.begin() + j, [&](seen const& a, seen const& b) { return order(a) < order(b); });
      for (size_t k=i; k<j; ++k) { if (o[k].dot != w[k].dot || o[k].s != w[k].s) return str() << "page " << g + 1 << " set " << w[i].set << " column " << w[k].column << " row " << w[k].level / 2.0 << ": " << (o[k].dot ? string("a dot") : quote(o[k].s)) << " instead of " << (w[k].dot ? string("a dot") : quote(w[k].s)); if (!(o[k].c == w[k].c)) return "colour " + colour_text(o[k].c) + " of " + quote(o[k].s) + " instead of " + colour_text(w[k].c); if (!o[k].dot && std::fabs(o[k].squash - w[k].squash) > 0.01) return "narrowed " + quote(o[k].s); if (o[k].dot && std::fabs(o[k].r - w[k].r) > 0.05) return str() << "a dot of radius " << o[k].r << " instead of " << w[k].r; pairs.push_back({w[k], o[k]}); }
      i = j; }
  }
  auto at = [](std::pair<item, seen> const& q) { return q.first.anchor == 0 ? q.second.x0 : q.first.anchor == 1 ? (q.second.x0 + q.second.x1) / 2 : q.second.x1; };
  { std::map<std::pair<int,std::pair<int,int>>, std::pair<item, seen>> lox, hix; std::map<std::pair<int,int>, std::pair<item, seen>> loy, hiy; double bx = 0, by = 0;
    for (auto& q : pairs) { auto k = std::make_pair(q.first.page, std::make_pair(q.first.set, q.first.column)); if (!lox.count(k) || q.first.slot < lox[k].first.slot) lox[k] = q; if (!hix.count(k) || q.first.slot > hix[k].first.slot) hix[k] = q; auto z = std::make_pair(q.first.page, q.first.set); if (!loy.count(z) || q.first.level < loy[z].first.level) loy[z] = q; if (!hiy.count(z) || q.first.level > hiy[z].first.level) hiy[z] = q; }
    if (!p.known_x) for (auto& k : lox) { double ds = hix[k.first].first.slot - k.second.first.slot; if (ds > bx) { bx = ds; xs = (at(hix[k.first]) - at(k.second)) / ds; } }
    if (!p.known_y) for (auto& k : loy) { double dl = (hiy[k.first].first.level - k.second.first.level) / 2.0; if (dl > by) { by = dl; ys = (k.second.second.y - hiy[k.first].second.y) / dl; } }
    if (xs <= 0 || ys <= 0) return "";
    for (auto& k : lox) X[k.first] = at(k.second) - xs * k.second.first.slot; for (auto& k : loy) Y[k.first] = k.second.second.y + ys * k.second.first.level / 2.0; }
  if ((int) X.size() != (int) e.rows.size() || xs < 2 || ys < 2) return ""; geometry = true; xs_out = xs; ys_out = ys;
  for (auto& q : pairs) { auto k = std::make_pair(q.first.page, std::make_pair(q.first.set, q.first.column)); double wx = X[k] + xs * q.first.slot, wy = Y[{q.first.page, q.first.set}] - ys * q.first.level / 2.0; if (std::fabs(wx - at(q)) > 0.12 + drift + (q.second.s.size() > 1 ? 0.02 * font : 0)) return str() << quote(q.second.s) << " is " << at(q) - wx << " to the right of its place"; if (std::fabs(wy - q.second.y) > 0.15 + drift + (p.numbers ? 0 : 0.05 * font)) return str() << quote(q.second.s) << " is " << q.second.y - wy << " above its row"; }
  // Columns and sets are spaced as asked
  for (auto& k : X) { auto n = k.first; ++n.second.second; auto f = X.find(n); if (f == X.end()) continue; double gap = f->second - k.second - p.n * xs; if (gap < -2) return "columns overlap"; if (p.hgap > 0 && std::fabs(gap - p.hgap) > 2.1) return str() << "a gap of " << gap << " between columns instead of " << p.hgap; }
  for (auto& k : Y) { auto n = k.first; ++n.second; auto f = Y.find(n); if (f == Y.end()) continue; double gap = k.second - f->second - (l.rpc + 1) * ys; if (gap < -2) return "sets of columns overlap"; if (p.vgap > 0 && std::fabs(gap - p.vgap) > 2.1 + (p.numbers ? 0 : 0.1 * font)) return str() << "a gap of " << gap << " between sets instead of " << p.vgap; }
  for (auto& k : X) { auto n = k.first; n.second.second = 0; n.second.first = 0; auto f = X.find(n); (void) f; }
  // Lines
  vector<unit> units, ru, ci; std::map<std::pair<int,std::pair<int,int>>, double> gridlen; std::map<std::pair<int,std::pair<int,int>>, int> gridbox; string bad;
  auto where = [&](int page, pt q, unit& u, double& a, double& b) { double best = 1e9; for (auto& k : X) { if (k.first.first != page) continue; double x = (q.x - k.second) / xs, y = (Y[{page, k.first.second.first}] - q.y) / ys; double ex = std::max(0.0, std::max(-0.6 - x, x - (p.n + 1.2))), ey = std::max(0.0, std::max(-0.6 - y, y - (e.rows[k.first] + 0.6))), dist = ex + ey + 0.001 * std::fabs(x - p.n / 2.0); if (dist < best) { best = dist; u.page = page; u.set = k.first.second.first; u.column = k.first.second.second; a = x; b = y; } } return best < 0.2; };
  for (int g=0; g<e.pages; ++g) for (auto& m : d.pages[g].m) {
    if (m.k == mark::text || (m.k == mark::fill && m.curved)) continue; unit u = unit(); double a, b;
    if (m.k == mark::fill) { pt lo = user(m.lo()), hi = user(m.hi()), mid = { (lo.x + hi.x) / 2, (lo.y + hi.y) / 2 }; if (p.grid != 2 || !(m.c == p.gc)) return "a box of colour " + colour_text(m.c); bool found = false; for (auto& k : X) if (k.first.first == g && std::fabs((Y[{g, k.first.second.first}] - mid.y) / ys - e.rows[k.first] / 2.0) < 0.5 && std::fabs(std::fabs(lo.y - hi.y) / ys - e.rows[k.first] - 1) < 0.3) { double x = (mid.x - k.second) / xs - 0.5; if (x > -0.3 && x < p.n - 1 + 0.1 && std::fabs(x - 2 * std::lround(x / 2)) < 0.3) { ++gridbox[k.first]; found = true; break; } } if (!found) return "a guide in the wrong place"; continue; }
    if (m.curved) { pt lo = user(m.lo()), hi = user(m.hi()), mid = { (lo.x + hi.x) / 2, (lo.y + hi.y) / 2 }; if (!(m.c == p.c)) return "a circle of the wrong colour"; bool found = false; for (auto& k : X) if (k.first.first == g && !found) { a = (mid.x - k.second) / xs; b = (Y[{g, k.first.second.first}] - mid.y) / ys; if (std::fabs(a - p.n - 0.5) > 0.1 || std::fabs(b - std::lround(b)) > 0.3 || b < -0.5 || b > e.rows[k.first] + 0.5) continue; found = true; u.page = g; u.set = k.first.second.first; u.column = k.first.second.second; u.k = std::lround(b); ci.push_back(u); } if (!found) return "a circle out of place"; continue; }
    for (auto& v : m.path) for (size_t i=1; i<v.size(); ++i) {
      pt q = user(v[i-1]), r = user(v[i]); if (std::hypot(q.x - r.x, q.y - r.y) < 0.3) continue; pt mid = { (q.x + r.x) / 2, (q.y + r.y) / 2 }; if (!where(g, mid, u, a, b)) return str() << "a stroke outside the columns, at " << mid.x << "," << mid.y;
      auto key = std::make_pair(g, std::make_pair(u.set, u.column)); double xa = (q.x - X[key]) / xs, xb = (r.x - X[key]) / xs, yy = Y[{g, u.set}], ya = (yy - q.y) / ys, yb = (yy - r.y) / ys; if (ya > yb) { std::swap(xa, xb); std::swap(ya, yb); }
      if (p.grid == 1 && m.c == p.gc && std::fabs(m.width - p.gw) < 0.02) { if (std::fabs(xa - xb) > 0.05 || std::fabs(xa - std::lround(xa)) > 0.1) return "a guide line out of place"; if (ya < -0.8 || yb > e.rows[key] + 0.8) return "a guide line too long"; gridlen[key] += yb - ya; continue; }
      if (std::fabs(ya - yb) < 0.05) { if (!(m.c == p.c)) return "a rule of the wrong colour"; if (xa > xb) std::swap(xa, xb); if (std::fabs(xa + 0.5) > 0.1 || std::fabs(xb - p.n + 0.5) > 0.1) return "a rule of the wrong length"; if (std::fabs(ya - 0.5 - std::lround(ya - 0.5)) > 0.3) return "a rule through a row"; u.k = std::lround(ya - 0.5); ru.push_back(u); continue; }
      int k0 = std::lround(ya), k1 = std::lround(yb); if (std::fabs(ya - k0) > 0.3 || std::fabs(yb - k1) > 0.3 || k0 < 0 || k1 > e.rows[key]) return str() << "a stroke from row " << ya << " to " << yb; for (int k=k0; k<k1; ++k) { double f = xa + (xb - xa) * (k - k0) / (k1 - k0), t = xa + (xb - xa) * (k + 1 - k0) / (k1 - k0); if (std::fabs(f - std::lround(f)) > 0.15 || std::fabs(t - std::lround(t)) > 0.15) return str() << "a stroke from place " << f << " to " << t; u.k = k; u.from = std::lround(f); u.to = std::lround(t); u.style = style_of(m.c, m.width); units.push_back(u); }
    }
  }
  auto same = [&](char const* what, vector<unit> a, vector<unit> b) { for (auto* v : { &a, &b }) std::sort(v->begin(), v->end()); if (a == b) return string(); return string(what) + ": missing " + list_units(b, a) + ", wrongly there " + list_units(a, b); };
  for (auto* v : { &ru, &ci }) for (auto& u : *v) { u.from = u.to = 0; u.style = ""; } string t; if ((t = same("lines", units, e.units)).size()) return t; if ((t = same("rules", ru, e.rules)).size()) return t; if ((t = same("place bells", ci, e.circles)).size()) return t;
  if (p.grid) for (auto& k : e.rows) { if (p.grid == 1 && std::fabs(gridlen[k.first] - p.n * (k.second + 1.0)) > 0.3) return str() << "guides of length " << gridlen[k.first] << " for " << k.second << " rows"; if (p.grid == 2 && gridbox[k.first] != p.n / 2) return str() << gridbox[k.first] << " guides"; }
  return "";
}
int divu(int a, int b) { return (a + b - 1) / b; }
}

SUB(page, 4000, 60000, "methods printed in PostScript, EPS and PDF with lines, rules, guides, titles, place bells, place notation, calls and first row as chosen, fitted to the page or a given space or with given spacing, in the rows, columns, sets and pages asked for: the marks on the pages, found by interpreting the file, are those of the method in that layout; non-trivial if there is more than one column") {
  spec p = spec(); int n = p.n = s.range(3, s.chance(1,5) ? 12 : 8); p.ch = gen::gen_method(s, n, 0, 20); p.lead = p.ch.size(); p.start = rounds(n); p.sym = p.lead % 2 == 0; for (int i=0; i+1<p.lead && p.sym; ++i) if (p.ch[i] != p.ch[p.lead-2-i]) p.sym = false; perm lh = course_head(n, p.ch); int ord = order(lh);
  vector<string> o; auto opt = [&](char c, string const& l, bool has, string const& v, bool optional) { if (s.coin()) o.push_back("--" + l + (has ? "=" + v : "")); else if (!has) o.push_back(string("-") + c); else if (optional || s.coin() || v[0] == '-') o.push_back(string("-") + c + v); else { o.push_back(string("-") + c); o.push_back(v); } }; auto given = [&](char c, string const& l, string const& v) { opt(c, l, true, v, false); };
  auto dim = [&](double& v, int lo, int hi) { int k = s.below(4); string t; if (k == 0) { int x = s.range(lo, hi); v = x; t = str() << x << (s.coin() ? "pt" : " points"); } else if (k == 1) { int x = s.range(lo * 2, hi * 2); v = x / 2.0; t = str() << x / 2 << (x % 2 ? " 1/2" : "") << "pt"; } else if (k == 2) { int x = s.range(lo, hi) * 10 * 254 / 720; v = x * 72 / 254.0; t = str() << x / 10 << "." << x % 10 << "mm"; } else { int x = s.range(lo, hi); v = x; t = str() << x << "/72 in"; } return t; };
  static col const line_colours[] = { {1,0,0}, {0,0,1}, {0,0.6,0}, {0.8,0.4,0} }; auto spell_colour = [&](col const& c) { if (c.r == c.g && c.g == c.b && s.coin()) return std::to_string(std::lround(c.r * 100)); return colour_text(c); };
  int fmt = s.below(3); if (fmt == 1) opt('e', "eps", false, "", false); else if (fmt == 2) opt('P', "pdf", false, "", false); bool land = fmt != 1 && s.chance(1,4); if (land) opt('L', "landscape", false, "", false);
  double pw = 210 * 72 / 25.4, ph = 297 * 72 / 25.4; if (s.chance(1,4)) { string a = dim(pw, 400, 700), b = dim(ph, 500, 900); given('S', "paper-size", a + "," + b); }
  p.numbers = true; if (s.chance(1,4)) { p.numbers = false; opt('n', "no-numbers", false, "", false); }
  p.c = {0,0,0}; if (s.chance(1,4)) { p.c = s.coin() ? col{0.3,0.3,0.3} : col{0.2,0.2,0.6}; given('c', "colour", spell_colour(p.c)); } p.font = "Helvetica"; if (s.chance(1,4)) { static char const* f[] = { "Courier", "Times-Roman", "Helvetica-Bold" }; p.font = f[s.below(3)]; given('f', "font", p.font); }
  // Lines
  int work = -1; for (int b=0; b<n && work<0; ++b) if (lh[b] != b && p.ch.back()[b] == b) work = b; for (int b=0; b<n && work<0; ++b) if (lh[b] != b) work = b; bool custom = s.coin();
  if (!custom) { for (int b=0; b<n; ++b) if (lh[b] == b) p.lines[b] = {{1,0,0}, 0.25, false}; if (work >= 0) p.lines[work] = {{0,0,1}, 0.5, false}; } else { s.label("custom lines"); for (int k=s.range(1, 3); k--; ) { if (s.chance(1,8)) { opt('l', "line", false, "", true); p.lines.clear(); continue; } string t; int cnt = s.chance(1,4) ? 2 : 1; vector<int> bs; for (int i=0; i<cnt; ++i) { int b = s.below(n); bs.push_back(b); t += model::sym(b); } line L = {{0,0,1}, 0.5, false}; if (s.chance(1,3)) { t += "x"; L.crossing = true; s.label("crossing"); } if (s.coin()) { L.c = line_colours[s.below(4)]; t += "," + colour_text(L.c); if (s.coin()) { int q = s.range(1, 8); L.w = q / 4.0; t += str() << "," << q << "/4pt"; } } opt('l', "line", true, t, true); for (int b : bs) p.lines[b] = L; } }
  // Place bells
  p.placebells = -1; int working = 0, wb = -1; for (auto& L : p.lines) if (lh[L.first] != L.first) { ++working; wb = L.first; } if (working == 1) p.placebells = wb; if (s.coin() || working > 1) { if (s.coin()) { opt('b', "place-bells", true, s.coin() ? "x" : "X", true); p.placebells = -1; } else { p.placebells = s.below(n); opt('b', "place-bells", true, model::sym(p.placebells), true); } }
  p.pn = 1; if (s.coin()) { int k = s.below(7); static char const* v[] = { "none", "first", "all", "none,nox", "first,nox", "all,nox" }; if (k == 6) { opt('p', "place-notation", false, "", true); p.pn = 2; } else { opt('p', "place-notation", true, v[k], true); p.pn = k % 3; p.nox = k > 2; } }
  p.mode = 0; if (s.coin()) { int k = s.below(5); static char const* v[] = { "lead", "always", "never", "column" }; if (k == 4) opt('m', "miss-numbers", false, "", true); else { opt('m', "miss-numbers", true, v[k], true); p.mode = k; } }
  p.default_rules = s.coin(); if (!p.default_rules) for (int k=s.range(1, 3); k--; ) { if (s.chance(1,5)) { opt('r', "rule", false, "", true); p.rules.clear(); continue; } int a = s.range(1, p.lead), b = s.coin() ? s.range(1, p.lead) : 0; p.rules.push_back({a, b}); opt('r', "rule", true, b ? string(str() << a << "," << b) : std::to_string(a), true); }
  if (s.chance(1,4)) { for (int k=s.range(1, 4); k--; ) p.calls += s.pickc("BMWH-"); if (p.calls[0] == '-') p.calls[0] = 'B'; given('q', "calls", p.calls); } if (s.chance(1,4)) { p.start = gen_perm(s, n); given('R', "rounds", model::text(p.start)); s.label("first row"); }
  if (s.chance(1,4)) { p.grid = s.range(1, 2); p.gc = {0.9,0.9,0.9}; p.gw = 0.25; if (p.grid == 1 && s.coin()) opt('G', "guides", false, "", true); else { string t = std::to_string(p.grid); if (s.coin()) { p.gc = s.coin() ? col{0.1,0.9,0.9} : col{0.8,0.8,0.8}; t += "," + spell_colour(p.gc); if (s.coin()) { p.gw = s.range(1, 4) / 2.0; t += str() << "," << p.gw << "pt"; } } opt('G', "guides", true, t, true); } s.label("guides"); }
  bool colon_only = true; (void) colon_only; p.titled = s.chance(1,3); if (p.titled) { p.title = { string("T") + char('a' + s.below(26)) + (s.chance(1,3) ? " (x\\)" : ""), "Helvetica", 18, {0,0,0} }; string t = p.title.s; if (s.chance(1,3)) { p.title.font = "Courier"; t += ",Courier"; if (s.coin()) { p.title.size = s.range(8, 30); t += str() << "," << p.title.size; if (s.coin()) { p.title.c = {0.4,0.1,0.1}; t += ",40-10-10"; } } } opt('t', "title", true, t, true); if (s.chance(1,6)) { p.title.size = s.range(8, 30); o.push_back(str() << "--title-size=" << p.title.size); } if (s.chance(1,6)) { p.title.font = "Times-Roman"; o.push_back("--title-font=Times-Roman"); } if (s.chance(1,6)) { p.title.c = {0.5,0.5,0.5}; o.push_back("--title-colour=50"); } }
  // How much, and in what layout
  p.total = p.lead * ord; if (p.total > 240 || s.coin()) { if (s.coin()) { int k = s.range(1, std::max(1, 120 / p.lead)); p.total = k * p.lead; given('j', "total-leads", std::to_string(k)); } else { p.total = s.range(1, 3 * p.lead + 5); given('J', "total-rows", std::to_string(p.total)); } }
  int i = 0, I = 0, k = 0, dd = 0, g = 0; bool across = false; switch (s.below(5)) { case 0: i = s.range(1, 4); given('i', "leads-per-column", std::to_string(i)); break; case 1: I = s.range(1, 2 * p.lead + 3); given('I', "rows-per-column", std::to_string(I)); break; } if (s.chance(1,3)) { k = s.range(1, 6); given('k', "columns-across", std::to_string(k)); } if (s.chance(1,4)) { dd = s.range(1, 3); given('d', "columns-down", std::to_string(dd)); } if (s.chance(1,4)) { g = s.range(1, 3); given('g', "pages", std::to_string(g)); } if (s.chance(1,4)) { across = true; opt('a', "across-first", false, "", false); }
  double fw = 0, fh = 0; bool fit = true, over = false; p.xs = p.ys = 12; if (s.chance(1,3)) { string t = dim(fw, 200, 600), u = dim(fh, 250, 800); int where = s.below(3); auto X = [&] { string v = dim(p.xs, 6, 20); given('x', "xspace", v); p.known_x = true; }; if (where == 0) { X(); over = true; } opt('F', "fit", true, t + "," + u, true); } else { fit = !s.chance(1,3); if (!fit) { int w = s.range(1, 3); if (w & 1) { string v = dim(p.xs, 7, 20); given('x', "xspace", v); } if (w & 2) { string v = dim(p.ys, 7, 20); given('y', "yspace", v); } p.known_x = p.known_y = true; s.label("spacing given"); } else if (s.coin()) opt('F', "fit", false, "", true); }
  if ((fit && p.known_x) || s.chance(1,4)) { over = true; string v = dim(p.hgap, 70, 120); given('h', "hgap", v); } else if (!fit) p.hgap = p.xs * 3; if (s.chance(1,4)) { over = true; string v = dim(p.vgap, 5, 60); given('v', "vgap", v); } else if (!fit) p.vgap = p.ys; if (!fit) p.size = 10; bool narrow = fit && p.known_x; if (narrow || s.chance(1,6)) { int z = s.range(8, narrow ? 10 : 20); p.size = z / 2.0; given('s', "font-size", str() << p.size); }
  if (!fit && (p.ys < p.size || p.xs < p.size * 0.8)) { p.size = std::floor(std::min(p.xs, p.ys)) - 1; given('s', "font-size", str() << p.size); }
  // The layouts that there can be
  int pages = g ? g : 1; vector<layout> ls; if (i || I) { int rpc = i ? i * p.lead : I; if (k) ls.push_back({rpc, k, dd ? dd : divu(p.total, pages * k * rpc)}); else { int d = dd ? dd : 1; ls.push_back({rpc, divu(p.total, pages * d * rpc), d}); } } else if (k) { int d = dd ? dd : 1; ls.push_back({divu(p.total, pages * k * d * p.lead) * p.lead, k, d}); } else if (dd) ls.push_back({p.lead, divu(p.total, pages * dd * p.lead), dd}); else { int per = divu(p.total, pages * p.lead); if (!fit) ls.push_back({p.lead, per, 1}); else for (int j=1; j<=per; ++j) ls.push_back(across ? layout{p.lead, divu(per, j), j} : layout{j * p.lead, divu(per, j), 1}); }
  if (fit && ls.size() == 1) { double w = fw ? fw : pw - 72, h = fw ? fh : ph - 72; if (land) std::swap(w, h); if (w / (ls[0].cps * (n + 3.0)) < 3 || h / (ls[0].spp * (ls[0].rpc + 3.0)) < 3) s.discard(); }
  string method = std::to_string(n) + ":" + gen::spell_plain(p.ch); vector<string> argv(1, app("psline")); if (s.coin()) { argv.insert(argv.end(), o.begin(), o.end()); argv.push_back(method); } else { argv.push_back(method); argv.insert(argv.end(), o.begin(), o.end()); } string dir, file; if (s.chance(1,8)) { dir = scratch(); file = dir + "/out"; argv.push_back("-o"); argv.push_back(file); }
  s.renote(cmdline(argv)); s.label(fmt == 0 ? "ps" : fmt == 1 ? "eps" : "pdf"); run_result r = run(argv, "", "", {}, 30); CHECK(!r.timed_out, "did not finish"); CHECK(!r.crashed, "crashed: " << r.err);
  bool several = fmt == 1; for (auto& l : ls) if (l.rpc * l.cps * l.spp >= p.total) several = false; if (several) { CHECK_EQ(r.status, 1, "status for an EPS file of several pages"); CHECK(!r.err.empty(), "no message"); s.label("refused"); return; }
  CHECK_EQ(r.status, 0, "status: " << r.err); string out = file.empty() ? r.out : read_file(file); marks::document d = fmt == 2 ? marks::pdf(out).read() : marks::ps().read(out, fmt == 1); if (fmt == 2) { CHECK_EQ((int) d.w, (int) (pw + 1e-4), "width of the page"); CHECK_EQ((int) d.h, (int) (ph + 1e-4), "height of the page"); CHECK_EQ(d.landscape, land, "landscape"); }
  p.land = land; p.pdf = fmt == 2; p.W = std::floor(pw + 1e-4); double W = land ? ph : pw, H = land ? pw : ph;
  vector<vector<std::pair<int,int>>> rs; if (!p.default_rules) rs.push_back(p.rules); else if (!p.numbers) rs.push_back({}); else { rs.push_back({{p.lead, 0}}); bool hunt = false; for (int b=0; b<n; ++b) hunt |= lh[b] == b; if (hunt && p.lead % 2 == 0) rs.push_back({{4, 4}}); }
  { double least = 1e9; for (auto& page : d.pages) for (auto& m : page.m) if (m.k == mark::text && m.s.find_first_not_of(' ') != string::npos) least = std::min(least, m.size); if (least < 2) { s.label("too small to read"); return; } }
  string why; bool ok = false, geometry = false; double xs = 0, ys = 0; layout L = {0,0,0}; for (auto& l : ls) { for (auto& q : rs) { string w = match(p, l, q, d, geometry, xs, ys); if (w.empty()) { ok = true; L = l; break; } if (why.size() < 1500) why += str() << "\n  " << l.rpc << "x" << l.cps << "x" << l.spp << ": " << w; } if (ok) break; } CHECK(ok, "the marks are not those of any layout that was asked for:" << why);
  s.nontrivial(p.total > L.rpc); if (geometry) s.label("positions checked");
  // Within the space, and on the page
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9, tx = 0, ty = 0; bool titled = false; auto user = [&](pt q) { return p.land ? pt{ q.y, p.W - q.x } : q; }; int pg = 0;
  for (auto& page : d.pages) { ++pg; for (auto& m : page.m) { auto ext = [&](pt q) { q = user(q); x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); }; if (m.k == mark::text) { if (m.s.find_first_not_of(' ') == string::npos) continue; pt a = user(m.at); if (p.titled && pg == 1 && !titled && m.s == p.title.s && m.font == p.title.font && std::fabs(m.size - p.title.size) < 0.01) { titled = true; tx = a.x + m.text_width() / 2; ty = a.y; continue; } if (m.s[0] == '-') continue; x0 = std::min(x0, a.x); x1 = std::max(x1, a.x + m.text_width()); y0 = std::min(y0, a.y); y1 = std::max(y1, a.y + m.size * 0.7); } else for (auto& v : m.path) if (v.size() > 1) for (auto& q : v) ext(q); } }
  if (x0 > x1) { s.label("nothing"); return; } if (p.titled) { CHECK(ty > y1 - 1 - 0.1 * p.title.size, "the title is at " << ty << ", and the method starts at " << y1); if (fmt != 1 && (p.title.font == "Courier")) CHECK(std::fabs(tx - W / 2) < 2, "the title is centred at " << tx << " of " << W); s.label("title"); }
  if (fit && !over && p.size == 0) { double slack = 3 + (geometry ? std::max(xs, ys) : 12); double w = fw ? (land ? fh : fw) : W - 72, h = fw ? (land ? fw : fh) : H - 72; double top = p.titled ? std::max(y1, ty + p.title.size) : y1; CHECK(x1 - x0 <= w + slack, "the method is " << x1 - x0 << " wide and the space " << w); CHECK(top - y0 <= h + slack, "the method is " << top - y0 << " high and the space " << h); s.label("fits"); if (fmt != 1 && w <= W - 60 && h <= H - 60) CHECK(x0 >= 0 && y0 >= 0 && x1 <= W && y1 <= H, "off the page: " << x0 << "," << y0 << " to " << x1 << "," << y1); }
  if (fmt == 1 && !(fit && over)) { int a, b, c, e; size_t q = out.find("%%BoundingBox: "); CHECK(q != string::npos && sscanf(out.c_str() + q + 15, "%d %d %d %d", &a, &b, &c, &e) == 4, "no bounding box"); double slack = 3 + 0.6 * (p.size > 0 ? p.size : 0) + (fit ? 0 : 3) + (geometry ? 0.5 * std::max(xs, ys) : 12); CHECK(x0 >= a - slack - (p.size > 0 && fit ? 6 * p.size : 0) && x1 <= c + slack && y0 >= b - slack && y1 <= e + slack, "the marks from " << x0 << "," << y0 << " to " << x1 << "," << y1 << " are not in the bounding box " << a << " " << b << " " << c << " " << e); }
}

SUB(library, 800, 8000, "a method taken by name from a MicroSIRIL library and printed with its name, or text with $ in it, as the title; or a name that is not there: the title has the full name and the rows are those of the method, or there is a message; non-trivial if the method is there") {
  int n = s.range(3, 10); vector<std::pair<string, changes>> ms; string f = "* S" + std::to_string(n) + "\n"; int cnt = s.range(1, 4); std::set<string> used; for (int i=0; i<cnt; ++i) { string w; int len = s.range(1, 5); for (int k=0; k<len; ++k) w += s.pickc("abcde"); w[0] = toupper(w[0]); if (!used.insert(w).second) continue; changes m = gen::gen_method(s, n, 0, 12); ms.push_back({w, m}); f += w + " z +" + gen::spell_plain(m) + "\n"; }
  string dir = scratch(), fn = dir + "/lib.txt"; write_file(fn, f); int k = s.below(ms.size()); bool there = !s.chance(1,6); string name = there ? ms[k].first : "Nowhere"; if (s.chance(1,4)) for (char& c : name) c = tolower(c);
  vector<string> argv; argv.push_back(app("psline")); string title; static char const* stages[] = { "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal" }; bool pdf = s.coin(); if (pdf) argv.push_back("-P"); argv.push_back(s.coin() ? "-mnever" : "--miss-numbers=never"); argv.push_back("-l"); argv.push_back("-bx"); argv.push_back("-pnone"); argv.push_back("-r"); argv.push_back("-i1"); argv.push_back("-j1"); string before, after; switch (s.below(3)) { case 0: argv.push_back("-t"); break; case 1: before = s.coin() ? "The " : ""; after = s.coin() ? " (x)" : ""; argv.push_back("-t" + before + "$" + after); break; case 2: before = "(None)"; argv.push_back("--title=" + before); } bool dollar = before != "(None)"; bool opts_first = s.coin(); if (opts_first) { argv.push_back(fn); argv.push_back(name); } else { argv.insert(argv.begin() + 1, fn); argv.insert(argv.begin() + 2, name); }
  s.renote(cmdline(argv) + "\n" + f); s.nontrivial(there); run_result r = run(argv, "", "", {}, 30); CHECK(!r.timed_out && !r.crashed, "crashed: " << r.err); if (!there) { CHECK_EQ(r.status, 1, "status for a method that is not there"); CHECK(!r.err.empty(), "no message"); return; }
  CHECK_EQ(r.status, 0, "status: " << r.err); marks::document d = pdf ? marks::pdf(r.out).read() : marks::ps().read(r.out, false); CHECK_EQ((int) d.pages.size(), 1, "pages"); vector<mark> ts; string head; for (auto& m : d.pages[0].m) if (m.k == mark::text) { if (m.s.size() > 1 && m.size == 18 && head.empty()) head = m.s; else if (m.s != " ") ts.push_back(m); }
  if (dollar) { string stage = stages[n-3]; CHECK(head.compare(0, before.size(), before) == 0 && head.size() >= before.size() + after.size() && head.compare(head.size() - after.size(), after.size(), after) == 0, "title " << quote(head)); string mid = head.substr(before.size(), head.size() - before.size() - after.size()); CHECK(mid.compare(0, ms[k].first.size() + 1, ms[k].first + " ") == 0 && mid.size() >= stage.size() && mid.compare(mid.size() - stage.size(), stage.size(), stage) == 0, "title " << quote(head) << " for " << ms[k].first << " " << stage); } else CHECK_EQ(head, before, "title");
  std::stable_sort(ts.begin(), ts.end(), [](mark const& a, mark const& b) { return std::fabs(a.at.y - b.at.y) > 1 ? a.at.y > b.at.y : a.at.x < b.at.x; }); string all, want = model::text(rounds(n)); for (auto& m : ts) all += m.s; perm q = rounds(n); for (auto const& c : ms[k].second) { q = model::apply(q, c); want += model::text(q); } CHECK_EQ(all, want, "rows");
}

SUB(robust, 3000, 30000, "options, values, methods and libraries at random and damaged: psline ends by itself with status 0 and a whole document, or with status 1 and a message; non-trivial when it is given a method") {
  int n = s.range(2, 8); vector<string> argv(1, app("psline")); auto damage = [&](string t, int den) { int k = s.chance(1, den) ? s.range(1, 2) : 0; while (k--) { if (!t.empty() && s.coin()) t.erase(s.below(t.size()), 1); else t.insert(s.below(t.size() + 1), 1, s.pickc("0123456789ETx-.,&+=b: /'$")); } return t; }; int fmt = s.below(3); if (fmt == 1) argv.push_back("-e"); if (fmt == 2) argv.push_back("-P");
  static char const* vals[] = { "-i2", "-I5", "-j2", "-J7", "-k2", "-d2", "-g2", "-a", "-L", "-n", "-x10pt", "-y8 mm", "-h1/2in", "-v1 1/2cm", "-F100pt,200pt", "-F", "-S300pt,400pt", "-t$", "-tA,Courier,12,0-50-100", "-fTimes-Roman", "-s8", "-c50", "-c0-0-100", "-l", "-l1", "-l2x,0-100-0,1pt", "-l12,50", "-G", "-G2,80", "-G1,10-20-30,1pt", "-b", "-bx", "-b2", "-p", "-pnone", "-pall,nox", "-r", "-r4,4", "-r2", "-m", "-mnever", "-malways", "-mcolumn", "-qBMH", "-R1234", "-l:a", "-l:h,100-0-0", "-l:w", "-l:v", "-S0mm,0mm", "-S10mm,10mm", "-F0pt,10pt", "-F1pt,1pt", "-i0", "-I0", "-k0", "-g0", "-J0", "-i-1", "-I-2", "-j-3", "-J-4", "-k-1", "-d-1", "-g-2", "-x-5pt", "-y-2pt", "-F-100pt,-50pt", "-R21", "-R11", "-bE", "-G3", "-G0", "-l0", "-r0", "-r0,3", "-r-1", "-r3,-2", "-c101", "-l:", "-lz", "-t", "-i99", "-I999", "-k99" };
  for (int k=s.below(s.coin() ? 4 : 8); k--; ) argv.push_back(damage(vals[s.below(sizeof vals / sizeof *vals)], 6)); bool had = s.chance(19,20); if (had) { changes m = gen::gen_method(s, n, 0, 8); string t = (s.chance(1,10) ? string(s.coin() ? "x" : s.coin() ? "" : s.coin() ? "-2" : s.coin() ? "1" : "99999999999") : std::to_string(n)) + ":" + gen::spell_plain(m); t = damage(t, 4); if (t[0] == '-') argv.push_back("--"); argv.push_back(t); if (s.chance(1,20)) argv.push_back("Name"); } s.nontrivial(had);
  s.renote(cmdline(argv)); run_result r = run(argv, "", "", {}, 60); CHECK(!r.timed_out, "did not finish"); CHECK(!r.crashed, "crashed: " << r.status << " " << r.err); CHECK(r.status == 0 || r.status == 1, "status " << r.status); if (r.status) CHECK(!r.err.empty(), "status 1 with no message"); else if (r.out.compare(0, 2, "%!") == 0 || r.out.compare(0, 5, "%PDF-") == 0) { CHECK(r.out.size() > 6 && (r.out.compare(r.out.size() - 6, 6, "%%EOF\n") == 0), "no end of file"); s.label("document"); } s.label(str() << r.status);
}
