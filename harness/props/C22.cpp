// C22: printing rows and methods
//! link: 
#include "pbt.h"
#include "lib.h"
#include "methods.h"
#include "marks.h"
#include <ringing/print_ps.h>
#include <ringing/print_pdf.h>
#include <ringing/printm.h>
using namespace lib; using namespace model; using namespace pbt; using model::perm;
using marks::pt; using marks::mark;

static std::string const fonts[] = { "Helvetica", "Times-Roman", "Courier", "Helvetica-Bold" };
static colour gen_colour(Src& s) { colour c; c.grey = s.coin(); c.red = s.below(21) / 20.0f; c.green = s.below(21) / 20.0f; c.blue = s.below(21) / 20.0f; return c; }
static marks::col of(colour const& c) { if (c.grey) return { c.red, c.red, c.red }; return { c.red, c.green, c.blue }; }
static string gen_text(Src& s, bool known) {
  int n = s.range(1, 6); string t; for (int i=0; i<n; ++i) t += known ? s.pickc("0123456789ETABCDX-.") : s.chance(1, 3) ? s.pickc("()\\\n\r\t\b\f") : s.chance(1, 2) ? (char) s.range(33, 126) : (char) s.below(256);
  if (!known && t.find_first_not_of(' ') == string::npos) t = "(" + t; return t;
}

// What is meant to be on the page
struct want { mark::kind k; string s, font; double size, squash; pt at, at2; marks::col c; double width; text_style::alignment al; bool known, row, circle; };
static std::string describe(want const& w) { std::ostringstream o; if (w.k == mark::text) o << "text " << quote(w.s) << " in " << w.font << " " << w.size << " x" << w.squash; else o << (w.circle ? "circle " : "line ") << w.width; o << " at " << w.at.x << "," << w.at.y << " to " << w.at2.x << "," << w.at2.y << " colour " << w.c.r << " " << w.c.g << " " << w.c.b; return o.str(); }

struct maker {
  Src& s; bool is_pdf, land; int W; vector<vector<want>> pages; std::ostringstream os; printpage* pp; string log; int base;   // columns are put side by side
  maker(Src& s, bool p) : s(s), is_pdf(p), land(false), W(0), pages(1), pp(0), base(20) {}
  void add(want w) { pages.back().push_back(w); }
  void add_text(string const& t, string const& font, double size, double squash, pt at, marks::col c, text_style::alignment al, bool known, bool row) { want w = want(); w.k = mark::text; w.s = t; w.font = font; w.size = size; w.squash = squash; w.at = at; w.c = c; w.al = al; w.known = known; w.row = row; add(w); }
  void add_line(pt a, pt b, marks::col c, double width) { want w = want(); w.k = mark::stroke; w.at = a; w.at2 = b; w.c = c; w.width = width; add(w); }
  void add_circle(pt a, double r, marks::col c, bool fill) { want w = want(); w.k = fill ? mark::fill : mark::stroke; w.at = { a.x - r, a.y - r }; w.at2 = { a.x + r, a.y + r }; w.c = c; w.circle = true; w.width = -1; add(w); }
  void page_text() {
    text_style st; st.font = fonts[s.below(4)]; st.size = s.range(40, 240); st.col = gen_colour(s); auto al = (text_style::alignment) s.below(3); bool known = al != text_style::left || s.coin(); string t = gen_text(s, known); int x = s.range(20, 500), y = s.range(20, 700);
    log += str() << "page text " << quote(t) << " at " << x << "," << y << "; "; pp->text(t, dimension(x), dimension(y), al, st); add_text(t, st.font, st.size / 10.0, 1, { (double) x, (double) y }, of(st.col), al, known, false); }
  void rows() {
    printrow::options o; o.defaults(); o.style.font = fonts[s.below(4)]; o.style.size = s.range(40, 200); o.style.col = gen_colour(s); o.flags = s.chance(1, 4) ? 0 : printrow::options::numbers; if (s.coin()) o.flags |= printrow::options::miss_numbers;
    auto space = [&]() { static int const dens[] = { 1, 2, 4, 5, 10 }; int d = dens[s.below(5)]; return dimension(s.range(6*d, 24*d), d, dimension::points); }; o.xspace = space(); o.yspace = space();
    int n = s.range(1, s.coin() ? 8 : 16); auto gen_lines = [&]() { o.lines.clear(); int k = s.range(0, 3); for (int i=0; i<k; ++i) { printrow::options::line_style l; l.width = dimension(s.range(1, 8), 4, dimension::points); l.col = gen_colour(s); l.crossing = s.chance(1, 3); o.lines[bell(s.below(n + (s.chance(1, 6))))] = l; } }; gen_lines();
    o.grid_type = s.chance(1, 2) ? 0 : s.range(1, 2); o.grid_style.width = dimension(s.range(1, 4), 2, dimension::points); o.grid_style.col = gen_colour(s); o.grid_style.col.grey = false; o.grid_style.col.blue = 0.37f; // unlike any line
    log += str() << "rows of " << n << " in " << o.style.font << " " << o.style.size << " spaced " << o.xspace << " by " << o.yspace << " flags " << o.flags << " grid " << o.grid_type << " lines"; for (auto& l : o.lines) log += str() << " " << l.first << (l.second.crossing ? "c" : ""); log += ": ";
    printrow pr(*pp, o); int cols = s.range(1, 3); double cx = 0, cy = 0;
    for (int c=0; c<cols; ++c) {
      int x = base + s.range(0, 30), y = s.range(200, 700); if (c && s.coin()) { int dx = x - (int) cx, dy = s.range(-100, 20); pr.move_position(dimension(dx), dimension(dy)); cx += dx; cy += dy; log += str() << "move " << dx << "," << dy << " "; } else { pr.set_position(dimension(x), dimension(y)); cx = x; cy = y; log += str() << "at " << x << "," << y << " "; }
      if (c && s.coin()) { gen_lines(); pr.set_options(o); }
      if (o.flags == (unsigned) printrow::options::miss_numbers) s.label("no numbers"); double xs = o.xspace.in_points(), ys = o.yspace.in_points(), size = o.style.size / 10.0; auto col = of(o.style.col); auto lines = o.lines;
      base = cx + n * xs + 20; int count = s.range(1, s.coin() ? 6 : 40); perm r = rounds(n), prev; vector<want> grid; if (s.coin()) for (int i=n-1; i>0; --i) std::swap(r[i], r[s.below(i+1)]);
      for (int k=0; k<count; ++k) {
        if (k && s.chance(1, 8)) { o.flags ^= printrow::options::miss_numbers; pr.set_options(o); log += "(toggle) "; }
        pr << to_row(r); log += model::text(r) + " "; pt at = { cx, cy - k * ys };
        if (o.flags & printrow::options::numbers) for (int i=0; i<n; ++i) { auto f = lines.find(bell(r[i])); if ((o.flags & printrow::options::miss_numbers) && f != lines.end() && !f->second.crossing) continue; add_text(sym(r[i]), o.style.font, size, 1, { cx + i * xs, at.y }, col, text_style::centre, true, true); }
        if (k) for (auto& l : lines) { int b = (int) l.first, i = -1, j = -1; for (int q=0; q<n; ++q) { if (prev[q] == b) i = q; if (r[q] == b) j = q; } if (i < 0 || j < 0 || std::abs(i - j) > 1) continue; if (l.second.crossing && (i == j || !lines.count(bell(r[i])))) continue; add_line({ cx + i * xs, at.y + ys }, { cx + j * xs, at.y }, of(l.second.col), l.second.width.in_points()); }
        prev = r;
        if (s.chance(1, 6)) { pr.rule(); log += "rule "; add_line({ cx - xs/2, at.y - ys/2 }, { cx - xs/2 + n*xs, at.y - ys/2 }, col, -1); s.label("rules"); }
        auto dot = [&](int b) { int i = std::find(r.begin(), r.end(), b) - r.begin(); auto f = lines.find(bell(b)); if (i < n && f != lines.end()) add_circle({ cx + i * xs, at.y }, 2 * f->second.width.in_points(), of(f->second.col), true); };
        if (s.chance(1, 6)) { int b = (int) s.below(n + 1) - 1; pr.dot(b); log += str() << "dot " << b << " "; if (b >= 0) dot(b); else for (auto& l : lines) if (!l.second.crossing) dot((int) l.first); s.label("dots"); }
        if (s.chance(1, 8)) { int b = s.below(n); pr.placebell(b); log += str() << "placebell " << b << " "; int i = std::find(r.begin(), r.end(), b) - r.begin(); double px = cx + (n + 0.5) * xs; add_circle({ px, at.y }, size * 2 / 3, col, false); add_text(str() << i + 1, o.style.font, size, i >= 9 ? 0.8 : 1, { px, at.y }, col, text_style::centre, true, true); s.label("place bells"); }
        if (s.chance(1, 8)) { bool between = s.coin(), right = s.coin(); auto al = (text_style::alignment) s.below(3); bool known = al != text_style::left || s.coin(); string t = gen_text(s, known); int dx = s.range(0, 30); pr.text(t, dimension(dx), al, between, right); log += str() << "text " << quote(t) << " " << dx << " " << al << between << right << " "; add_text(t, o.style.font, size, 1, { right ? cx + (n-1) * xs + dx : cx - dx, at.y - (between ? ys/2 : 0) }, col, al, known, true); s.label("text by rows"); }
        if (s.chance(1, 10)) { for (int i=n-1; i>0; --i) std::swap(r[i], r[s.below(i+1)]); s.label("jumps"); } else { perm q = r; for (int i=0; i+1<n; ++i) if (s.coin()) { std::swap(q[i], q[i+1]); ++i; } r = q; }
      }
      auto gc = of(o.grid_style.col); if (o.grid_type == 1) { for (int i=0; i<n; ++i) for (int k=0; k<count; ++k) add_line({ cx + i*xs, cy + ys/2 - k*ys }, { cx + i*xs, cy - ys/2 - k*ys }, gc, o.grid_style.width.in_points()); s.label("vertical grid"); }
      if (o.grid_type == 2) { for (int i=0; i+1<n; i+=2) { want w = want(); w.k = mark::fill; w.at = { cx + i*xs, cy + ys/2 - count*ys }; w.at2 = { cx + (i+1)*xs, cy + ys/2 }; w.c = gc; w.width = -1; add(w); } s.label("boxes"); }
    }
  }
  void make() { int pg = s.range(1, 3); for (int p=0; p<pg; ++p) { if (p) { pp->new_page(); pages.push_back(vector<want>()); log += "NEW PAGE "; } int k = s.range(0, 3); for (int i=0; i<k; ++i) { if (s.chance(1, 3)) page_text(); else rows(); } } }

  void compare(marks::document const& d) {
    CHECK_EQ(d.pages.size(), pages.size(), "pages; " << log);
    for (size_t p=0; p<pages.size(); ++p) {
      // Marks, with lines in pieces a row high
      vector<want> got; auto user = [&](pt q) { return land ? pt{ q.y, W - q.x } : q; };
      auto push_line = [&](pt a, pt b, mark const& m) { want w = want(); w.k = mark::stroke; w.at = a; w.at2 = b; w.c = m.c; w.width = m.width; got.push_back(w); };
      for (auto& m : d.pages[p].m) {
        if (m.k == mark::text) { if (m.s.find_first_not_of(' ') == string::npos && m.s.size() <= 1) continue; want w = want(); w.k = m.k; w.s = m.s; w.font = m.font; w.size = m.size; w.squash = m.squash; w.at = user(m.at); w.width = m.text_width(); w.c = m.c; if (m.s.size() > 1) CHECK(m.gap == 0, "text " << quote(m.s) << " is spaced out by " << m.gap << "; " << log); got.push_back(w); continue; }
        if (m.curved || m.k == mark::fill) { pt a = user(m.lo()), b = user(m.hi()); want w = want(); w.k = m.k; w.at = { std::min(a.x, b.x), std::min(a.y, b.y) }; w.at2 = { std::max(a.x, b.x), std::max(a.y, b.y) }; w.c = m.c; w.circle = m.curved; w.width = m.width; got.push_back(w); continue; }
        for (auto& v : m.path) for (size_t i=1; i<v.size(); ++i) push_line(user(v[i-1]), user(v[i]), m);
      }
      // Match the ones expected, cutting lines found where one expected ends
      for (auto& w : pages[p]) {
        bool ok = false; double const tol = 0.3; auto near = [&](pt a, pt b) { return std::fabs(a.x - b.x) < tol && std::fabs(a.y - b.y) < tol; };
        for (size_t i=0; i<got.size() && !ok; ++i) { want& g = got[i]; if (g.k != w.k || g.circle != w.circle || !(g.c == w.c)) continue;
          if (w.k == mark::text) { if (g.s != w.s || g.font != w.font || std::fabs(g.size - w.size) > 0.06 || std::fabs(g.squash - w.squash) > 0.01) continue; double x = g.at.x; if (w.known) x += w.al == text_style::left ? 0 : w.al == text_style::right ? g.width : g.width / 2; double dy = w.at.y - g.at.y; if (w.row) dy -= w.size * 0.33; if (std::fabs(x - w.at.x) > tol || std::fabs(dy) > tol + (w.row ? w.size * 0.08 : 0)) continue; got.erase(got.begin() + i); ok = true; }
          else if (w.k == mark::stroke && !w.circle) { if (w.width >= 0 && std::fabs(w.width - g.width) > 0.006) continue; if (g.at.y < g.at2.y - 0.01) std::swap(g.at, g.at2);
            // on the line found, in the same direction?
            double gx = g.at2.x - g.at.x, gy = g.at2.y - g.at.y, L = gx*gx + gy*gy; if (L < 1e-6) continue; auto off = [&](pt q) { double u = ((q.x - g.at.x) * gx + (q.y - g.at.y) * gy) / L; return std::make_pair(u, std::hypot(g.at.x + u*gx - q.x, g.at.y + u*gy - q.y)); }; auto a = off(w.at), b = off(w.at2); double e = tol / std::sqrt(L); if (a.second > tol || b.second > tol || a.first < -e || b.first > 1 + e || b.first < a.first) continue; want h = g; got.erase(got.begin() + i); auto piece = [&](double u, double v) { if ((v - u) * std::sqrt(L) < 2 * tol) return; want q = h; q.at = { h.at.x + u*gx, h.at.y + u*gy }; q.at2 = { h.at.x + v*gx, h.at.y + v*gy }; got.push_back(q); }; piece(0, a.first); piece(b.first, 1); ok = true; }
          else { double t = tol; if (!near(w.at, g.at) || !near(w.at2, g.at2)) { (void) t; double dr = w.circle && w.k == mark::stroke ? w.size : 0; (void) dr; if (!w.circle || w.k != mark::stroke) continue; pt cw = { (w.at.x + w.at2.x) / 2, (w.at.y + w.at2.y) / 2 }, cg = { (g.at.x + g.at2.x) / 2, (g.at.y + g.at2.y) / 2 }; double rw = (w.at2.x - w.at.x) / 2, rg = (g.at2.x - g.at.x) / 2; if (!near(cw, cg) || std::fabs(rg / rw - 1) > 0.12) continue; } got.erase(got.begin() + i); ok = true; }
        }
        if (!ok) { string rest; for (auto& g : got) if (rest.size() < 600) rest += describe(g) + "; "; fail(str() << "page " << p + 1 << " lacks " << describe(w) << ". Found: " << rest << " -- " << log); }
      }
      for (auto& g : got) { if (g.k == mark::stroke && !g.circle && std::hypot(g.at.x - g.at2.x, g.at.y - g.at2.y) < 0.6) continue; fail(str() << "page " << p + 1 << " should not have " << describe(g) << " -- " << log); }
    }
  }
};

SUB(pdf, 2500, 60000, "Pages of rows (with lines, grids, dots, place bells, rules, text at the side, options changed on the way) and of text, in PDF. The file is parsed (table of objects, lengths of streams, pages, fonts) and the marks on the pages compared with those a model gives; non-trivial: marks on some page") {
  maker m(s, true); bool land = s.chance(1, 3); int w = s.range(500, 900), h = s.range(500, 900); m.land = land; m.W = w;
  { printpage_pdf pp(m.os, dimension(w), dimension(h), land); m.pp = &pp; m.make(); }
  s.note(m.log); size_t n = 0; for (auto& p : m.pages) n += p.size(); s.nontrivial(n); auto d = marks::pdf(m.os.str()).read(); CHECK_EQ(d.w, w, "width of page"); CHECK_EQ(d.h, h, "height of page"); CHECK_EQ(d.landscape, land, "landscape"); m.compare(d);
}

SUB(ps, 2500, 50000, "The same in PostScript (portrait, landscape and encapsulated), which is interpreted; the structuring comments are checked against the pages and fonts; non-trivial: marks on some page") {
  maker m(s, false); int kind = s.below(3); m.land = kind == 1; int w = s.range(500, 900); m.W = w; std::unique_ptr<printpage_ps> pp; if (kind == 0) pp.reset(new printpage_ps(m.os)); else if (kind == 1) pp.reset(new printpage_ps(m.os, dimension(w))); else pp.reset(new printpage_ps(m.os, 0, 0, 600, 800)); m.pp = pp.get();
  if (kind == 2) { int k = s.range(0, 3); for (int i=0; i<k; ++i) { if (s.chance(1, 3)) m.page_text(); else m.rows(); } } else m.make();
  pp.reset(); s.note(m.log); size_t n = 0; for (auto& p : m.pages) n += p.size(); s.nontrivial(n); s.label(kind == 0 ? "portrait" : kind == 1 ? "landscape" : "EPS"); marks::document d = marks::ps().read(m.os.str(), kind == 2); m.compare(d);
}

// --- Methods: what is asked of the page
struct rec_page;
struct rec : printrow::base {
  vector<string>& ev; printrow::options o; double x, y;
  rec(vector<string>& e, printrow::options const& o) : ev(e), o(o), x(0), y(0) {}
  void print(row const& r) override { string l = string("row ") + model::text(from_row(r)) + " " + ((o.flags & printrow::options::numbers) ? (o.flags & printrow::options::miss_numbers) ? "miss" : "all" : (o.flags & printrow::options::miss_numbers) ? "none-miss" : "none"); ev.push_back(l); }
  void rule() override { ev.push_back("rule"); } static string num(double v) { char b[40]; snprintf(b, sizeof b, "%.2f", std::fabs(v) < 0.005 ? 0 : v); return b; }
  void set_position(dimension const& X, dimension const& Y) override { x = X.in_points(); y = Y.in_points(); moved(); } void move_position(dimension const& X, dimension const& Y) override { x += X.in_points(); y += Y.in_points(); moved(); }
  void moved() { string l = "at " + num(x) + "," + num(y); if (ev.size() && ev.back().compare(0, 3, "at ") == 0) ev.back() = l; else ev.push_back(l); }
  void set_options(printrow::options const& p) override { o = p; } printrow::options const& get_options() override { return o; }
  void dot(int i) override { ev.push_back("dot " + std::to_string(i)); } void placebell(int i) override { ev.push_back("placebell " + std::to_string(i)); }
  void text(string const& t, dimension const& x, text_style::alignment al, bool between, bool right) override { ev.push_back("text " + t + " " + num(x.in_points()) + " " + std::to_string(al) + (between ? " between" : "") + (right ? " right" : "")); }
};
struct rec_page : printpage { vector<string> ev; void text(string const, dimension const&, dimension const&, text_style::alignment, text_style const&) override { ev.push_back("page text"); } void new_page() override { if (ev.size() && ev.back().compare(0, 3, "at ") == 0) ev.pop_back(); ev.push_back("NEW PAGE"); } protected: printrow::base* new_printrow(printrow::options const& o) override { return new rec(ev, o); } };

SUB(method, 20000, 1000000, "A method with every setting of printmethod chosen at random (rows, columns, sets, rule-offs, which numbers are left out, place notation, place bells, calls, first row), printed on a page that records what it is asked for; the record must be that of a model; also the defaults, and fit_to_space fitting the space given; non-trivial: more than one column or page") {
  int n = s.range(3, 10), lead = s.chance(1, 8) ? 1 : s.range(1, 24); vector<perm> ch; bool symm = s.coin() && lead % 2 == 0; for (int i=0; i<lead; ++i) { if (symm && i > lead/2 - 1 && i < lead - 1) ch.push_back(ch[lead - 2 - i]); else { perm c = rounds(n); int from = s.coin(); for (int j=from; j+1<n; ++j) if (s.chance(3, 4)) { std::swap(c[j], c[j+1]); ++j; } ch.push_back(c); } }
  method m(lead, n, "X"); for (int i=0; i<lead; ++i) m[i] = to_change(ch[i]); bool sym = true; for (int i=0; i + 1 < lead; ++i) if (ch[i] != ch[lead-2-i]) sym = false; if (lead % 2) sym = m.issym();
  alignas(printmethod) static unsigned char mem[sizeof(printmethod)]; memset(mem, s.coin() ? 0x11 : 0xff, sizeof mem); printmethod* pm = new (mem) printmethod(m); pm->defaults();
  perm start = rounds(n); auto next = [&](perm const& r, int i) { perm q = r; for (int j=0; j<n; ++j) q[ch[i][j]] = r[j]; return q; }; perm lh = start; for (int i=0; i<lead; ++i) lh = next(lh, i); long ord = model::order(lh);
  // The defaults: the plain course with the hunt bells in red and one working bell in blue
  string log = str() << n << ":"; for (auto& c : ch) log += model::full_pn(c) + "."; log += " "; CHECK_EQ((long) pm->total_rows, lead * ord, "rows in the plain course; " << log); CHECK_EQ((long) pm->rows_per_column, (long) lead, "rows in a column"); CHECK_EQ((long) pm->columns_per_set, ord, "columns");
  { int want = -1; for (int b=0; b<n && want<0; ++b) if (lh[b] != b && ch[lead-1][b] == b) want = b; for (int b=0; b<n && want<0; ++b) if (lh[b] != b) want = b; int pb = pm->placebells; CHECK_EQ(pb, want, "the bell whose place bells are shown; " << log); for (int b=0; b<n; ++b) { auto f = pm->opt.lines.find(bell(b)); bool have = f != pm->opt.lines.end(); CHECK_EQ(have, (lh[b] == b || b == want), "line for bell " << model::sym(b) << "; " << log); } if (want < 0) s.label("no working bell"); }
  bool fit = s.chance(1, 4);
  if (s.coin() || fit) { pm->total_rows = s.range(1, 3 * lead + 5); pm->rows_per_column = s.coin() ? lead : s.range(1, 2 * lead); pm->columns_per_set = s.range(1, 4); pm->sets_per_page = s.range(0, 3); }
  if (pm->total_rows > 400) pm->total_rows = 400;
  if (s.coin()) { pm->opt.xspace = dimension(s.range(10, 60), 4, dimension::points); pm->opt.yspace = dimension(s.range(10, 60), 4, dimension::points); pm->hgap = dimension(s.range(0, 50)); pm->vgap = dimension(s.range(0, 50)); pm->xoffset = dimension(s.range(0, 50)); pm->yoffset = dimension(s.range(0, 700)); }
  pm->number_mode = (printmethod::number_mode_t) s.below(4); pm->pn_mode = (printmethod::pn_mode_t) (s.below(3) | (s.coin() ? printmethod::pn_nox : 0)); if (s.chance(1, 3)) pm->placebells = (int) s.below(n + 1) - 1; if (s.chance(1, 4)) pm->opt.flags = 0;
  int rules = s.range(0, 3); for (int i=0; i<rules; ++i) { int b = s.coin() ? 0 : s.range(1, lead); pm->rules.push_back(std::make_pair(s.range(1, lead), b)); } if (s.chance(1, 3)) for (int k = s.range(1, 4); k--; ) pm->calls += s.pickc(" BMWH1");
  if (s.chance(1, 4)) { for (int i=n-1; i>0; --i) std::swap(start[i], start[s.below(i+1)]); pm->startrow(to_row(start)); }
  if (fit) { double w = s.range(50, 600), h = s.range(50, 800); bool vg = s.coin(); float aspect = s.range(5, 20) / 10.0f; pm->fit_to_space(dimension((int) w), dimension((int) h), vg, aspect); s.label("fitted"); log += str() << "fit " << w << "x" << h << (vg ? " vgap " : " ") << aspect << " rows " << pm->total_rows << " gives " << pm->rows_per_column << "/" << pm->columns_per_set << "/" << pm->sets_per_page << " ";
    CHECK(pm->opt.xspace.in_points() >= 0, "negative space; " << log); if (pm->opt.xspace.in_points() < 0.5) return; CHECK((long) pm->rows_per_column * pm->columns_per_set * pm->sets_per_page >= pm->total_rows, "not room for the rows; " << log); CHECK(pm->rows_per_column % lead == 0, "columns of whole leads; " << log);
    double slack = pm->opt.xspace.in_points() * 0.1 + 1; CHECK(pm->total_width() <= w + slack, "too wide: " << pm->total_width() << "; " << log); CHECK(pm->total_height() <= h + slack + pm->opt.style.size * 0.035, "too tall: " << pm->total_height() << "; " << log); if (pm->columns_per_set > 100) return; }
  int total = pm->total_rows, rpc = pm->rows_per_column, cps = pm->columns_per_set, spp = pm->sets_per_page; auto pn_m = pm->pn_mode & printmethod::pn_mask; bool nox = pm->pn_mode & printmethod::pn_nox; double xs = pm->opt.xspace.in_points(), ys = pm->opt.yspace.in_points(); bool numbers = pm->opt.flags & printrow::options::numbers; auto mode = pm->number_mode;
  log += str() << "rows " << total << " in " << rpc << "/" << cps << "/" << spp << " numbers " << mode << " pn " << pm->pn_mode << " place bells " << pm->placebells << " calls " << quote(pm->calls) << " rules"; for (auto& r : pm->rules) log += str() << " " << r.first << "," << r.second; s.renote(log); s.nontrivial(total > rpc);
  vector<perm> R(1, start); for (int k=0; k<total; ++k) R.push_back(next(R.back(), k % lead));
  auto needrule = [&](int k) { for (auto& r : pm->rules) if (r.second ? (k + 1) % r.second == r.first % r.second : k + 1 == r.first) return true; return false; };
  vector<string> want; int groups = (total + rpc - 1) / rpc, set = 0, call = 0; vector<int> call_at; for (int k=1; k<=total; ++k) call_at.push_back(k % lead == (lead - 1) % lead && lead > 1 ? call++ : -1);
  for (int g=0; g<groups; ++g) {
    int c = g % cps; if (c == 0) { if (g) { ++set; if (spp && set == spp) { want.push_back("NEW PAGE"); set = 0; } } }
    double x = pm->xoffset.in_points() + c * (xs * n + pm->hgap.in_points()), y = pm->yoffset.in_points() - set * (ys * (rpc + 1) + pm->vgap.in_points()); want.push_back("at " + rec::num(x) + "," + rec::num(y)); int last = std::min(total, (g + 1) * rpc);
    for (int k = g * rpc; k <= last; ++k) {
      bool first = k == g * rpc, miss = mode == printmethod::miss_always || (mode == printmethod::miss_lead && k % lead) || (mode == printmethod::miss_column && !first && k != (g + 1) * rpc);
      if (!first) { if ((k - 1) % lead == 0) { if (pm->placebells >= 0) want.push_back("placebell " + std::to_string(pm->placebells)); if (!numbers) want.push_back("dot -1"); } if (call_at[k-1] >= 0) { if (char ch = call_at[k-1] < (int) pm->calls.size() ? pm->calls[call_at[k-1]] : ' ') if (ch != ' ') want.push_back(string("text -") + ch + " " + rec::num(pm->opt.xspace.in_points() / 2) + " 0 right"); }
        int i = (k - 1) % lead + 1; bool show = pn_m == printmethod::pn_all || (pn_m == printmethod::pn_first && k <= lead && (!sym || i <= (lead + 1) / 2 || i == lead)); if (nox && model::places(ch[i-1]).empty()) show = false; if (show) want.push_back("text " + m[i-1].print() + " " + rec::num(xs) + " 1 between"); }
      want.push_back("row " + model::text(R[k]) + " " + (numbers ? miss ? "miss" : "all" : miss ? "none-miss" : "none")); if (needrule(k % lead) && (first || k != last)) want.push_back("rule");
    }
  }
  rec_page pg; pm->print(pg); auto loose = [](string t) { if (t.compare(0, 3, "at ") == 0) return string("at"); return t; };
  for (size_t i=0; i<std::max(want.size(), pg.ev.size()); ++i) { string g = i < pg.ev.size() ? pg.ev[i] : "the end", w = i < want.size() ? want[i] : "the end"; if (g.compare(0, 3, "at ") == 0 && loose(g) == loose(w)) { double a, b, c, d; sscanf(g.c_str(), "at %lf,%lf", &a, &b); sscanf(w.c_str(), "at %lf,%lf", &c, &d); CHECK(std::fabs(a-c) < 0.1 && std::fabs(b-d) < 0.1, "column " << g << " instead of " << w << "; " << log); continue; } CHECK_EQ(g, w, "step " << i << " of printing; " << log); }
  if (groups > cps) s.label("several sets"); if (spp && groups > cps * spp) s.label("several pages"); pm->~printmethod();
}
