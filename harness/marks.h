// marks.h - what a page shows: interpreters for the PostScript and PDF that
// the library writes, which turn a document into marks on pages.  They know
// the languages, and nothing of the library's procedures or page layout.
#ifndef MARKS_H
#define MARKS_H
#include "pbt.h"
#include <cmath>
#include <memory>
#include <set>

namespace marks {
using std::string; using std::vector; using pbt::fail; using pbt::str;

// Widths of some characters in thousandths, from the fonts' published metrics
inline double width(string const& font, unsigned char c) {
  static char const* chars = " 0123456789ETABCDX-.";
  static int const helv[] = { 278, 556,556,556,556,556,556,556,556,556,556, 667,611,667,667,722,722,667, 333, 278 };
  static int const bold[] = { 278, 556,556,556,556,556,556,556,556,556,556, 667,611,722,722,722,722,667, 333, 278 };
  static int const times[] = { 250, 500,500,500,500,500,500,500,500,500,500, 611,611,722,667,667,722,722, 333, 250 };
  if (font == "Courier") return 600;
  char const* p = c ? strchr(chars, c) : 0; if (!p) return 500;
  int k = p - chars; return font == "Times-Roman" ? times[k] : font == "Helvetica-Bold" ? bold[k] : helv[k];
}
inline bool known_widths(string const& font, string const& t) { if (font == "Courier") { for (unsigned char c : t) if (c < 32 || c > 126) return false; return true; } return t.find_first_not_of(" 0123456789ETABCDX-.") == string::npos; }
inline double width(string const& font, string const& t) { double w = 0; for (unsigned char c : t) w += width(font, c); return w; }

struct pt { double x, y; };
struct col { double r, g, b; bool operator==(col const& o) const { auto n = [](double a, double b) { return std::fabs(a - b) < 0.0051; }; return n(r, o.r) && n(g, o.g) && n(b, o.b); } };
struct mark {
  enum kind { text, stroke, fill } k;
  string s, font; double size, squash, gap;     // text: at is the left of the base line
  pt at; col c; double width;
  vector<vector<pt>> path;                 // one list of points for each part, curves by their ends
  bool curved;
  mark() : k(text), size(0), squash(1), gap(0), at(), c(), width(0), curved(false) {}
  pt lo() const { pt p = {1e9,1e9}; for (auto& v : path) for (auto& q : v) { p.x = std::min(p.x, q.x); p.y = std::min(p.y, q.y); } return p; }
  pt hi() const { pt p = {-1e9,-1e9}; for (auto& v : path) for (auto& q : v) { p.x = std::max(p.x, q.x); p.y = std::max(p.y, q.y); } return p; }
  double text_width() const { return marks::width(font, s) * size * squash / 1000; }
};
struct page { vector<mark> m; };
struct document { vector<page> pages; std::set<string> fonts; bool landscape; int w, h; document() : landscape(false), w(0), h(0) {} };

struct matrix { double a, b, c, d, e, f; matrix() : a(1), b(0), c(0), d(1), e(0), f(0) {} matrix(double a, double b, double c, double d, double e, double f) : a(a), b(b), c(c), d(d), e(e), f(f) {}
  pt operator()(pt p) const { return { a*p.x + c*p.y + e, b*p.x + d*p.y + f }; }
  matrix then(matrix const& n) const { return matrix(a*n.a + b*n.c, a*n.b + b*n.d, c*n.a + d*n.c, c*n.b + d*n.d, e*n.a + f*n.c + n.e, e*n.b + f*n.d + n.f); }
  matrix inverse() const { double D = a*d - b*c; matrix m(d/D, -b/D, -c/D, a/D, 0, 0); m.e = -(e*m.a + f*m.c); m.f = -(e*m.b + f*m.d); return m; } };

// --- Reading tokens, which are alike in the two languages
struct reader {
  string const& t; size_t i, end; char const* what;
  reader(string const& t, size_t i, size_t end, char const* what) : t(t), i(i), end(end), what(what) {}
  bool skip() { while (i < end) { if (isspace((unsigned char) t[i])) ++i; else if (t[i] == '%') while (i < end && t[i] != '\n') ++i; else return true; } return false; }
  string string_token() { string r; int depth = 1; ++i; for (;;) { if (i >= end) fail(str() << what << ": string without an end: (" << pbt::quote(r)); char c = t[i++];
      if (c == '\\') { if (i >= end) continue; c = t[i++]; if (c == 'n') r += '\n'; else if (c == 'r') r += '\r'; else if (c == 't') r += '\t'; else if (c == 'b') r += '\b'; else if (c == 'f') r += '\f'; else if (c >= '0' && c <= '7') { int v = c - '0'; for (int k=0; k<2 && i<end && t[i] >= '0' && t[i] <= '7'; ++k) v = v*8 + t[i++] - '0'; r += (char) v; } else if (c != '\n') r += c; }
      else if (c == '(') { ++depth; r += c; } else if (c == ')') { if (!--depth) return r; r += c; } else r += c; } }
  string word() { static char const* single = "[]{}"; if (strchr(single, t[i])) return string(1, t[i++]); size_t j = i++; while (i < end && !isspace((unsigned char) t[i]) && !strchr("()<>[]{}/%", t[i])) ++i; return t.substr(j, i-j); }
};
inline bool number(string const& w, double& v) { if (w.empty()) return false; char* e; v = strtod(w.c_str(), &e); return !*e && !isalpha((unsigned char) w[0]) && w.find_first_of("eExXnN") == string::npos; }

// --- PostScript
class ps {
  struct obj; typedef std::shared_ptr<obj> ref;
  struct obj { enum type { num, str, name, proc, bol, dict, font, mark } t; bool lit; double n; string s; vector<ref> v; std::map<string, ref> d; obj(type t) : t(t), lit(false), n(0) {} };
  struct gstate { matrix m; col c; double w; string font; double size; bool at; pt cp; vector<vector<pt>> path; bool curved; gstate() : c(), w(1), size(0), at(false), cp(), curved(false) {} };
  vector<ref> st; vector<ref> dicts; gstate g; vector<gstate> gs; document doc; bool shown; int steps; int saves;
  static ref num(double n) { ref r(new obj(obj::num)); r->n = n; return r; } static ref mk(string const& s) { ref r(new obj(obj::str)); r->s = s; return r; } static ref mkb(bool b) { ref r(new obj(obj::bol)); r->n = b; return r; }
  ref pop() { if (st.empty()) fail("PostScript: stack underflow"); ref r = st.back(); st.pop_back(); return r; }
  double popn() { ref r = pop(); if (r->t != obj::num) fail(string("PostScript: not a number: ") + r->s); return r->n; }
  string pops() { ref r = pop(); if (r->t != obj::str && r->t != obj::name) fail("PostScript: not a string"); return r->s; }
  static string key(ref r) { return r->t == obj::num ? "#" + std::to_string((long) r->n) : r->s; }
  page& pg() { return doc.pages.back(); }
  void need_cp() { if (!g.at) fail("PostScript: no current point"); }
  void moveto(pt p) { g.cp = p; g.at = true; g.path.push_back(vector<pt>(1, g.m(p))); }
  void lineto(pt p) { need_cp(); g.cp = p; g.path.back().push_back(g.m(p)); }
  void paint(mark::kind k) { mark m; m.k = k; m.c = g.c; m.width = g.w; m.path = g.path; m.curved = g.curved; pg().m.push_back(m); g.path.clear(); g.at = false; g.curved = false; }
  ref parse(reader& r, bool in) { (void) in; if (r.t[r.i] == '(') { return mk(r.string_token()); } if (r.t[r.i] == '<') fail("PostScript: hexadecimal string");
    if (r.t[r.i] == '/') { string w = r.word(); ref o(new obj(obj::name)); o->s = w.substr(1); o->lit = true; return o; }
    string w = r.word(); if (w == "{") { ref o(new obj(obj::proc)); for (;;) { if (!r.skip()) fail("PostScript: procedure without an end"); if (r.t[r.i] == '}') { ++r.i; return o; } o->v.push_back(parse(r, true)); } }
    if (w == "}") fail("PostScript: unmatched }"); double v; if (number(w, v)) return num(v); ref o(new obj(obj::name)); o->s = w; return o; }
  void call(ref p) { if (p->t == obj::proc) for (auto& x : p->v) exec(x, false); else exec(p, true); }
  ref lookup(string const& k) { for (size_t i=dicts.size(); i-- > 0; ) { auto f = dicts[i]->d.find(k); if (f != dicts[i]->d.end()) return f->second; } return ref(); }
  void exec(ref o, bool direct) { if (++steps > 2000000) fail("PostScript: endless"); if (o->t == obj::proc && !direct) { st.push_back(o); return; } if (o->t == obj::proc) { call(o); return; } if (o->t != obj::name || o->lit) { st.push_back(o); return; }
    if (ref f = lookup(o->s)) { if (f->t == obj::proc) call(f); else st.push_back(f); return; } op(o->s); }
  void op(string const& n) {
    auto bin = [&](double (*f)(double, double)) { double b = popn(), a = popn(); st.push_back(num(f(a, b))); };
    if (n == "add") bin([](double a, double b) { return a + b; }); else if (n == "sub") bin([](double a, double b) { return a - b; }); else if (n == "mul") bin([](double a, double b) { return a * b; }); else if (n == "div") bin([](double a, double b) { return a / b; }); else if (n == "idiv") bin([](double a, double b) { return std::trunc(a / b); });
    else if (n == "neg") st.push_back(num(-popn())); else if (n == "dup") { ref a = pop(); st.push_back(a); st.push_back(a); } else if (n == "pop") pop(); else if (n == "exch") { ref b = pop(), a = pop(); st.push_back(b); st.push_back(a); }
    else if (n == "copy") { size_t k = popn(); if (k > st.size()) fail("PostScript: copy"); vector<ref> t(st.end() - k, st.end()); st.insert(st.end(), t.begin(), t.end()); }
    else if (n == "index") { int k = popn(); if (k < 0 || k >= (int) st.size()) fail("PostScript: index"); st.push_back(st[st.size()-1-k]); }
    else if (n == "roll") { int j = popn(), k = popn(); if (k < 0 || k > (int) st.size()) fail("PostScript: roll"); if (k) { j = ((j % k) + k) % k; std::rotate(st.end() - k, st.end() - j, st.end()); } }
    else if (n == "def") { ref v = pop(), k = pop(); if (k->t != obj::name) fail("PostScript: def without a name"); dicts.back()->d[k->s] = v; } else if (n == "bind") {}
    else if (n == "true" || n == "false") st.push_back(mkb(n == "true")); else if (n == "string") { int k = popn(); st.push_back(mk(string(k, '\0'))); } else if (n == "dict") { popn(); st.push_back(ref(new obj(obj::dict))); }
    else if (n == "get") { ref k = pop(), c = pop(); if (c->t == obj::str) { int i = k->n; if (k->t != obj::num || i < 0 || i >= (int) c->s.size()) fail("PostScript: get beyond the end"); st.push_back(num((unsigned char) c->s[i])); } else if (c->t == obj::dict) { auto f = c->d.find(key(k)); if (f == c->d.end()) fail("PostScript: nothing in the dictionary for " + key(k)); st.push_back(f->second); } else fail("PostScript: get"); }
    else if (n == "put") { ref v = pop(), k = pop(), c = pop(); if (c->t == obj::str) { int i = k->n; if (i < 0 || i >= (int) c->s.size()) fail("PostScript: put beyond the end"); c->s[i] = (char) (int) v->n; } else if (c->t == obj::dict) c->d[key(k)] = v; else fail("PostScript: put"); }
    else if (n == "eq") { ref b = pop(), a = pop(); st.push_back(mkb(a->t == obj::num ? a->n == b->n : a->s == b->s)); } else if (n == "ge") { double b = popn(), a = popn(); st.push_back(mkb(a >= b)); } else if (n == "le") { double b = popn(), a = popn(); st.push_back(mkb(a <= b)); } else if (n == "and") { ref b = pop(), a = pop(); st.push_back(mkb(a->n && b->n)); }
    else if (n == "type") { ref a = pop(), r(new obj(obj::name)); r->s = a->t == obj::str ? "stringtype" : a->t == obj::num ? "integertype" : a->t == obj::proc ? "arraytype" : "othertype"; r->lit = true; st.push_back(r); }
    else if (n == "exec") call(pop()); else if (n == "if") { ref p = pop(); if (pop()->n) call(p); } else if (n == "ifelse") { ref f = pop(), t = pop(); call(pop()->n ? t : f); }
    else if (n == "repeat") { ref p = pop(); int k = popn(); for (int i=0; i<k; ++i) call(p); } else if (n == "for") { ref p = pop(); double l = popn(), i = popn(), a = popn(); for (; i > 0 ? a <= l : a >= l; a += i) { st.push_back(num(a)); call(p); } }
    else if (n == "forall") { ref p = pop(); string s = pops(); for (unsigned char c : s) { st.push_back(num(c)); call(p); } }
    else if (n == "gsave") gs.push_back(g); else if (n == "grestore") { if (gs.empty()) fail("PostScript: grestore without gsave"); g = gs.back(); gs.pop_back(); }
    else if (n == "save") { ++saves; gs.push_back(g); st.push_back(ref(new obj(obj::mark))); } else if (n == "restore") { if (pop()->t != obj::mark || gs.size() != 1) fail("PostScript: restore"); g = gs.back(); gs.pop_back(); if (!st.empty()) fail("PostScript: things left on the stack"); } else if (n == "showpage") { doc.pages.push_back(page()); }
    else if (n == "translate") { double y = popn(), x = popn(); g.m = matrix(1,0,0,1,x,y).then(g.m); } else if (n == "scale") { double y = popn(), x = popn(); g.m = matrix(x,0,0,y,0,0).then(g.m); } else if (n == "rotate") { double a = popn() * M_PI / 180; g.m = matrix(cos(a), sin(a), -sin(a), cos(a), 0, 0).then(g.m); }
    else if (n == "moveto") { double y = popn(), x = popn(); moveto({x, y}); } else if (n == "rmoveto") { double y = popn(), x = popn(); need_cp(); moveto({g.cp.x + x, g.cp.y + y}); } else if (n == "lineto") { double y = popn(), x = popn(); lineto({x, y}); } else if (n == "rlineto") { double y = popn(), x = popn(); need_cp(); lineto({g.cp.x + x, g.cp.y + y}); }
    else if (n == "currentpoint") { need_cp(); st.push_back(num(g.cp.x)); st.push_back(num(g.cp.y)); } else if (n == "newpath") { g.path.clear(); g.at = false; g.curved = false; } else if (n == "closepath") {}
    else if (n == "arc") { double b = popn(), a = popn(), r = popn(), y = popn(), x = popn(); if (a != 0 || b != 360) fail("PostScript: not a whole circle"); vector<pt> v; for (pt q : { pt{x+r,y}, pt{x,y+r}, pt{x-r,y}, pt{x,y-r}, pt{x+r,y} }) v.push_back(g.m(q)); if (g.at) g.path.back().insert(g.path.back().end(), v.begin(), v.end()); else g.path.push_back(v); g.cp = {x + r, y}; g.at = true; g.curved = true; }
    else if (n == "stroke") paint(mark::stroke); else if (n == "fill") paint(mark::fill);
    else if (n == "rectfill") { double h = popn(), w = popn(), y = popn(), x = popn(); mark m; m.k = mark::fill; m.c = g.c; vector<pt> v; for (pt q : { pt{x,y}, pt{x+w,y}, pt{x+w,y+h}, pt{x,y+h} }) v.push_back(g.m(q)); m.path.push_back(v); pg().m.push_back(m); }
    else if (n == "setlinewidth") g.w = popn(); else if (n == "setgray") { double v = popn(); g.c = {v, v, v}; } else if (n == "setrgbcolor") { double b = popn(), gr = popn(), r = popn(); g.c = {r, gr, b}; }
    else if (n == "findfont") { ref o(new obj(obj::font)); o->s = pops(); o->n = 1; st.push_back(o); } else if (n == "scalefont") { double k = popn(); ref f = pop(); ref o(new obj(*f)); o->n *= k; st.push_back(o); } else if (n == "setfont") { ref f = pop(); if (f->t != obj::font) fail("PostScript: setfont"); g.font = f->s; g.size = f->n; doc.fonts.insert(f->s); }
    else if (n == "stringwidth") { st.push_back(num(width(g.font, pops()) * g.size / 1000)); st.push_back(num(0)); }
    else if (n == "show") { string s = pops(); need_cp(); if (g.font.empty()) fail("PostScript: no font"); mark m; m.s = s; m.font = g.font; m.size = g.size * std::sqrt(std::fabs(g.m.c*g.m.c + g.m.d*g.m.d)); m.squash = std::sqrt(g.m.a*g.m.a + g.m.b*g.m.b) * g.size / m.size; m.at = g.m(g.cp); m.c = g.c; pg().m.push_back(m); g.cp.x += width(g.font, s) * g.size / 1000; g.path.push_back(vector<pt>(1, g.m(g.cp))); }
    else if (n == "charpath") { pop(); string s = pops(); need_cp(); pt p = g.cp; double w = width(g.font, s) * g.size / 1000; lineto({p.x + w, p.y + 0.7*g.size}); } else if (n == "pathbbox") { pt lo = {1e9,1e9}, hi = {-1e9,-1e9}; matrix k = g.m.inverse(); for (auto& v : g.path) for (auto& q : v) { pt z = k(q); lo.x = std::min(lo.x, z.x); lo.y = std::min(lo.y, z.y); hi.x = std::max(hi.x, z.x); hi.y = std::max(hi.y, z.y); } for (double v : { lo.x, lo.y, hi.x, hi.y }) st.push_back(num(v)); }
    else fail("PostScript: " + n + " is not defined");
  }
public:
  ps() : shown(false), steps(0), saves(0) { dicts.push_back(ref(new obj(obj::dict))); doc.pages.push_back(page()); }
  document read(string const& t, bool eps) {
    if (t.compare(0, 11, "%!PS-Adobe-") != 0) fail("PostScript: does not start as it should"); reader r(t, 0, t.size(), "PostScript");
    while (r.skip()) { ref o = parse(r, false); exec(o, false); }
    if (!st.empty()) fail("PostScript: things left on the stack"); if (gs.size()) fail("PostScript: gsave without grestore");
    if (!eps) { if (!doc.pages.back().m.empty()) fail("PostScript: marks after the last page"); doc.pages.pop_back(); }
    // structure
    vector<string> lines; std::istringstream is(t); for (string l; std::getline(is, l); ) lines.push_back(l); if (lines.back() != "%%EOF") fail("PostScript: no end of file comment, but " + pbt::quote(lines.back())); int pages = -1, seen = 0; std::set<string> res;
    for (auto& l : lines) { if (l.compare(0, 8, "%%Page: ") == 0) { ++seen; int a = 0, b = 0; int k = sscanf(l.c_str() + 8, "%d %d", &a, &b); if (a != seen || (k == 2 && b != seen)) fail("PostScript: " + l); } if (l.compare(0, 9, "%%Pages: ") == 0 && l.find("atend") == string::npos) pages = atoi(l.c_str() + 9); if (l.compare(0, 26, "%%DocumentNeededResources:") == 0 && l.find("atend") == string::npos) { std::istringstream w(l.substr(26)); string x; w >> x; while (w >> x) res.insert(x); } }
    if (pages != seen) fail(str() << "PostScript: says it has " << pages << " pages"); if (seen != (eps ? 0 : (int) doc.pages.size())) fail(str() << "PostScript: " << seen << " page comments"); if (res != doc.fonts) fail("PostScript: fonts used are not those it says are needed"); return doc;
  }
};

// --- PDF
class pdf {
  string const& t; std::map<int, string> objs; document doc; std::map<string, string> fonts;
  string field(string const& o, string const& k) { size_t p = 0; for (;;) { p = o.find("/" + k, p); if (p == string::npos) return ""; size_t e = p + 1 + k.size(); if (e < o.size() && (isalnum((unsigned char) o[e]))) { ++p; continue; } while (e < o.size() && isspace((unsigned char) o[e])) ++e; size_t f = e; if (o[e] == '[') f = o.find(']', e) + 1; else if (o[e] == '/') { f = e + 1; while (f < o.size() && !isspace((unsigned char) o[f]) && o[f] != '/') ++f; } else while (f < o.size() && o[f] != '/' && o[f] != '>' && o[f] != '\n') ++f; string v = o.substr(e, f - e); while (v.size() && isspace((unsigned char) v.back())) v.pop_back(); return v; } }
  int refer(string const& v) { int n = 0, g = -1; char c = 0; if (sscanf(v.c_str(), "%d %d %c", &n, &g, &c) != 3 || c != 'R' || g != 0 || !objs.count(n)) fail("PDF: bad reference " + pbt::quote(v)); return n; }
  struct gstate { matrix m; col s, f; double w, Tc, Tz, TL, size; string font; gstate() : s(), f(), w(1), Tc(0), Tz(1), TL(0), size(0) {} };
  void content(string const& c, page& pg, string& cm) {
    reader r(c, 0, c.size(), "PDF"); vector<string> a; vector<bool> is_str; gstate g; vector<gstate> gs; vector<vector<pt>> path; bool curved = false, intext = false; pt line = {0,0}, at = {0,0};
    bool inarr = false; vector<std::pair<bool, string>> arr;
    auto n = [&](size_t k) { if (a.size() <= k) fail("PDF: operator without its operands"); double v; if (is_str[a.size()-1-k] || !number(a[a.size()-1-k], v)) fail("PDF: not a number: " + a[a.size()-1-k]); return v; };
    auto show = [&](string const& s) { if (g.font.empty()) fail("PDF: no font"); mark m; m.s = s; m.font = g.font; m.size = g.size; m.squash = g.Tz; m.gap = g.Tc; m.at = g.m(at); m.c = g.f; pg.m.push_back(m); at.x += (width(g.font, s) * g.size / 1000 + g.Tc * s.size()) * g.Tz; };
    while (r.skip()) {
      if (c[r.i] == '(') { string s = r.string_token(); if (inarr) arr.push_back({true, s}); else { a.push_back(s); is_str.push_back(true); } continue; } if (c[r.i] == '<') fail("PDF: hexadecimal string");
      string w = r.word(); if (w == "[") { inarr = true; arr.clear(); continue; } if (w == "]") { inarr = false; continue; } double v; if (inarr) { if (!number(w, v)) fail("PDF: " + w + " in an array"); arr.push_back({false, w}); continue; } if (number(w, v) || w[0] == '/') { a.push_back(w); is_str.push_back(false); continue; }
      if (w == "q") gs.push_back(g); else if (w == "Q") { if (gs.empty()) fail("PDF: Q without q"); g = gs.back(); gs.pop_back(); }
      else if (w == "cm") { matrix m(n(5), n(4), n(3), n(2), n(1), n(0)); cm = str() << n(5) << " " << n(4) << " " << n(3) << " " << n(2) << " " << n(1) << " " << n(0); g.m = m.then(g.m); }
      else if (w == "w") g.w = n(0); else if (w == "G") g.s = {n(0), n(0), n(0)}; else if (w == "g") g.f = {n(0), n(0), n(0)}; else if (w == "RG") g.s = {n(2), n(1), n(0)}; else if (w == "rg") g.f = {n(2), n(1), n(0)};
      else if (w == "m") path.push_back(vector<pt>(1, g.m({n(1), n(0)}))); else if (w == "l") { if (path.empty()) fail("PDF: l without m"); path.back().push_back(g.m({n(1), n(0)})); } else if (w == "c") { if (path.empty()) fail("PDF: c without m"); n(5); path.back().push_back(g.m({n(1), n(0)})); curved = true; }
      else if (w == "re") { double x = n(3), y = n(2), W = n(1), H = n(0); vector<pt> p; for (pt q : { pt{x,y}, pt{x+W,y}, pt{x+W,y+H}, pt{x,y+H} }) p.push_back(g.m(q)); path.push_back(p); }
      else if (w == "S" || w == "f") { mark m; m.k = w == "S" ? mark::stroke : mark::fill; m.c = w == "S" ? g.s : g.f; m.width = g.w; m.curved = curved; if (w == "f" && !curved) for (auto& p : path) { m.path.assign(1, p); pg.m.push_back(m); } else { m.path = path; pg.m.push_back(m); } path.clear(); curved = false; }
      else if (w == "BT") { if (intext) fail("PDF: BT in text"); intext = true; line = at = {0, 0}; } else if (w == "ET") { if (!intext) fail("PDF: ET"); intext = false; }
      else if (w == "Tf") { if (a.size() < 2) fail("PDF: Tf"); string f = a[a.size()-2].substr(1); if (!fonts.count(f)) fail("PDF: font " + f + " is not in the resources"); g.font = fonts[f]; doc.fonts.insert(g.font); g.size = n(0); } else if (w == "Tc") g.Tc = n(0); else if (w == "Tz") g.Tz = n(0) / 100; else if (w == "TL") g.TL = n(0);
      else if (w == "Td" || w == "T*" || w == "Tj" || w == "TJ") { if (!intext) fail("PDF: " + w + " outside text"); if (w == "Td") { line.x += n(1); line.y += n(0); at = line; } else if (w == "T*") { line.y -= g.TL; at = line; } else if (w == "Tj") { if (a.empty() || !is_str.back()) fail("PDF: Tj without a string"); show(a.back()); } else for (auto& e : arr) { if (e.first) show(e.second); else at.x -= atof(e.second.c_str()) / 1000 * g.size * g.Tz; } }
      else fail("PDF: unknown operator " + w); a.clear(); is_str.clear(); }
    if (intext || gs.size() || !a.empty()) fail("PDF: the page ends in the middle");
  }
public:
  pdf(string const& t) : t(t) {}
  document read() {
    if (t.compare(0, 7, "%PDF-1.") != 0) fail("PDF: does not start as it should"); if (t.size() < 6 || t.substr(t.size()-6) != "%%EOF\n") fail("PDF: no end of file comment"); size_t sx = t.rfind("startxref\n"); if (sx == string::npos) fail("PDF: no startxref"); size_t x = atol(t.c_str() + sx + 10); if (t.compare(x, 5, "xref\n") != 0) fail(str() << "PDF: no table at " << x);
    int first, n; if (sscanf(t.c_str() + x + 5, "%d %d", &first, &n) != 2 || first) fail("PDF: table"); size_t p = t.find('\n', x + 5) + 1; string tr = t.substr(t.find("trailer", x)); if (atoi(field(tr, "Size").c_str()) != n) fail("PDF: wrong size in the trailer");
    for (int i=0; i<n; ++i, p += 20) { string e = t.substr(p, 20); long off = atol(e.c_str()); if (e.size() != 20 || e[19] != '\n' || e[10] != ' ' || e[16] != ' ' || e[17] != (i ? 'n' : 'f')) fail("PDF: table entry " + pbt::quote(e)); if (!i) continue; string h = std::to_string(i) + " 0 obj\n"; if (t.compare(off, h.size(), h) != 0) fail(str() << "PDF: object " << i << " is not at " << off); size_t e2 = t.find("endobj\n", off); string body = t.substr(off + h.size(), e2 - off - h.size()); size_t sm = body.find("stream\n"); if (sm != string::npos && body.find("endstream") != string::npos) { size_t s0 = off + h.size() + sm + 7; e2 = t.find("\nendstream\nendobj\n", s0); body = t.substr(off + h.size(), e2 - off - h.size()); } objs[i] = body; }
    if (t.compare(p, 7, "trailer") != 0) fail("PDF: the table is longer than it says"); string cat = objs[refer(field(tr, "Root"))]; if (field(cat, "Type") != "/Catalog") fail("PDF: catalogue"); refer(field(tr, "Info")); int pn = refer(field(cat, "Pages")); string pages = objs[pn]; if (field(pages, "Type") != "/Pages") fail("PDF: pages"); string kids = field(pages, "Kids"); vector<int> ks; { std::istringstream is(kids.substr(1, kids.size()-2)); int a, b; string R; while (is >> a >> b >> R) { if (R != "R" || b) fail("PDF: kids"); ks.push_back(a); } } if ((int) ks.size() != atoi(field(pages, "Count").c_str())) fail("PDF: wrong number of pages");
    int a, b; if (sscanf(field(pages, "MediaBox").c_str(), "[%d %d %d %d]", &a, &b, &doc.w, &doc.h) != 4 || a || b) fail("PDF: size of the page"); doc.landscape = field(pages, "Rotate") == "90";
    { size_t f = pages.find("/Font <<"); if (f == string::npos) fail("PDF: no fonts"); std::istringstream is(pages.substr(f + 8)); string w; while (is >> w && w[0] == '/') { int o, z; string R; is >> o >> z >> R; if (!objs.count(o) || R != "R") fail("PDF: font " + w); string fo = objs[o]; if (field(fo, "Type") != "/Font" || field(fo, "Name") != w) fail("PDF: font object of " + w + ": " + fo); fonts[w.substr(1)] = field(fo, "BaseFont").substr(1); } }
    for (int k : ks) { if (!objs.count(k)) fail("PDF: no page object"); string po = objs[k]; if (field(po, "Type") != "/Page" || refer(field(po, "Parent")) != pn) fail("PDF: page object"); string c = objs[refer(field(po, "Contents"))]; size_t sm = c.find("stream\n"); if (sm == string::npos) fail("PDF: contents without a stream"); int len = atoi(objs[refer(field(c.substr(0, sm), "Length"))].c_str()); string body = c.substr(sm + 7); if ((int) body.size() != len) fail(str() << "PDF: stream of " << body.size() << " bytes says it has " << len); doc.pages.push_back(page()); string cm; content(body, doc.pages.back(), cm); if (doc.landscape != (cm == string(str() << "0 1 -1 0 " << doc.w << " 0"))) fail("PDF: rotation " + cm); }
    std::set<string> have; for (auto& f : fonts) have.insert(f.second); for (auto& f : doc.fonts) if (!have.count(f)) fail("PDF: font"); return doc;
  }
};
}
#endif
