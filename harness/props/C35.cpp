// C35 - the formats, expressions, commands and music of methsearch
//! apps: methsearch
#include "methods.h"
#include "musicmodel.h"
using namespace model; using namespace pbt; using std::function; using std::map; using std::pair; using ringing::method;
typedef vector<string> strings; typedef long long integer;

static void discard() { throw pbt::discard_case(); }
struct error {}; struct suppress {}; struct abort_now {};
struct block { perm from; int what = 0; vector<mus::pattern> pats; };  // 0 course, 1 lead, 2 halflead, 3 2halflead, 4 rhalflead, 5 2rhalflead
struct ctx { int b = 0; gen::changes m; string pay; long number = 0; int status = 0; bool greek = false; int flags = method::M_DASH | method::M_FULL_SYMMETRY; vector<block> const* music = 0; map<string, string> const *over = 0, *under = 0; };

// -------------------------------------------------------------- variables
static perm lh(ctx const& c) { return course_head(c.b, c.m); }
static string dotted(gen::changes const& m) { string r; for (auto const& c : m) r += (r.empty() ? "" : ".") + full_pn(c, 'X'); return r; }
static gen::changes part(ctx const& c, int from, int to) { int L = c.m.size(); if (!from) return c.m; if (from > L || (to && (to > L || to < from))) throw error(); return gen::changes(c.m.begin() + from - 1, c.m.begin() + (to ? to : from)); }
static int blows(ctx const& c) { int L = c.m.size(), best = 0; for (int p=0; p<c.b; ++p) for (int i=0; i<L; ++i) { int k = 0; while (k < L && c.m[(i+k) % L][p] == p) ++k; best = std::max(best, k); } return best + 1; }
static integer statics(ctx const& c) { integer t = 0; int L = c.m.size(); for (int p=0; p+1<c.b; ++p) { auto together = [&](int i) { perm const& x = c.m[i % L]; return (x[p] == p || x[p] == p+1) && (x[p+1] == p || x[p+1] == p+1); }; int apart = 0; while (apart < L && together(apart)) ++apart; if (apart == L) discard(); int run = 0; for (int i=apart; i<=apart+L; ++i) if (i < apart+L && together(i)) ++run; else { if (run) t += run - 1; run = 0; } } return t; }
static string symmetries(ctx const& c) {
  int L = c.m.size(); bool P = false, M = true, G = L % 2 == 0, R = false; auto at = [&](int i) -> perm const& { return c.m[((i % L) + L) % L]; };
  for (int a=0; a<2*L; ++a) { bool r = true, p = a % 2 == 0; for (int i=0; i<L; ++i) { if (at(a - i) != reverse_change(at(i))) r = false; if (at(a - i) != at(i)) p = false; } P = P || p; R = R || r; }
  for (int i=0; i<L; ++i) { if (at(i) != reverse_change(at(i))) M = false; if (G && at(i + L/2) != reverse_change(at(i))) G = false; }
  return string(P ? "P" : "") + (M ? "M" : "") + (G ? "G" : "") + (R ? "R" : "");
}
static string old_code(ctx const& c) {
  static char const* five[][3] = { {"13254","13524","A"}, {"14523","14253","B"}, {"12354","12534","G"}, {"13245","13425","H"}, {"14325","14235","J"}, {"12543","12453","K"}, {"15342","13524","C"}, {"12435","14253","D"}, {"12543","15234","E"}, {"14325","13452","F"}, {"15432","15423","Q"}, {"14523","14532","R"}, {"12435","12453","S"}, {"12543","12534","T"}, {"14325","14352","U"}, {"15342","15324","V"}, {"14523","15423","M"}, {"15432","14532","N"}, {"12435","14235","W"}, {"14325","13425","X"}, {"12543","15243","Y"}, {"15342","13542","Z"} };
  static char const* six[][3] = { {"135264","G","L"}, {"156342","H","M"}, {"164523","J","N"}, {"142635","K","O"}, {"142563","P",""}, {"154632","S",""}, {"165324","R",""}, {"136245","Q",""}, {"152364","","T"}, {"165243","","V"}, {"146532","","U"}, {"134625","","W"} };
  static char const* fourths[][2] = { {"145362","X"}, {"162534","Y"}, {"136524","\xCE\xBC"}, {"152643","\xCE\xB8"}, {"164235","\xCE\xB4"}, {"146325","\xCE\xA8"}, {"154263","\xCE\xA3"}, {"135642","\xCE\xBB"} };
  if (c.m.empty()) return "?"; perm h = lh(c), e = apply(h, c.m.back()); string pl = full_pn(c.m.back());
  if (c.b == 5) { for (auto const& x : five) if (text(e) == x[0] && text(h) == x[1]) return x[2]; }
  if (c.b == 6) { if (pl == "12") pl = "12"; for (auto const& x : six) if (text(h) == x[0]) { string r = pl == "12" ? x[1] : pl == "16" ? x[2] : ""; if (r.size()) return r; } if (pl == "14") for (auto const& x : fourths) if (text(h) == x[0] && (c.greek || strlen(x[1]) == 1)) return x[1]; }
  return "?";
}
static string tenors(ctx const& c) { perm h = lh(c); int n = c.b; if (n < 2) throw error(); perm g = h; int k = 1; while (g[n-1] != n-2) { g = mul(g, h); if (++k > 1000) throw error(); } string r = sym(n-2); int b = n-2; do { b = g[b]; r += sym(b); } while (b != n-1); return r; }
// What happens above or below the bell in place 1, with the rest plain hunting
static gen::changes beside(ctx const& c, bool above) {
  gen::changes r; int t = 0, n = c.b;
  for (auto const& x : c.m) {
    int u = x[t], lo = std::min(t, u), hi = std::max(t, u); vector<int> pl; for (int p : places(x)) if (above ? p >= (t == u ? t : lo) && (p >= t || p >= u) : p <= hi) pl.push_back(p);
    vector<int> q; if (above) { if (lo % 2) q.push_back(0); for (int p : pl) q.push_back(p); } else { q = pl; if ((n - 1 - hi) % 2) q.push_back(n - 1); }
    std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); perm y; if (!from_places(n, q, y)) discard(); r.push_back(y); t = u;
  }
  return r;
}
static string work(ctx const& c, bool above) { gen::changes w = beside(c, above); map<string, string> const* t = above ? c.over : c.under; if (t) { auto i = t->find(dotted(w)); if (i != t->end()) return i->second; } return gen::to_method(w, c.b).format(c.flags); }
static integer music(ctx const& c) {
  integer t = 0; int L = c.m.size();
  for (block const& k : *c.music) {
    vector<pair<perm, bool>> rows; perm r = k.from; int len = 0;
    if (k.what >= 2 && L % 2) discard();
    auto fwd = [&](int from, int to, bool back) { for (int i=from; i<to; ++i) { rows.push_back(std::make_pair(r, back)); r = apply(r, c.m[i]); back = !back; } };
    auto rev = [&](int from, int to, bool back) { rows.push_back(std::make_pair(r, back)); for (int i=from; i>to; --i) { back = !back; r = apply(r, c.m[i]); rows.push_back(std::make_pair(r, back)); } };
    switch (k.what) { // the lead head is at backstroke
      case 0: { bool back = false; do { for (auto const& x : c.m) { r = apply(r, x); rows.push_back(std::make_pair(r, back)); back = !back; ++len; } if (len > 3000) discard(); } while (r != k.from); break; }
      case 1: fwd(0, L, true); break; case 2: fwd(0, L/2, true); break;
      case 3: fwd(L/2, L, L/2 % 2 == 0); break;               // begins with the row in the middle
      case 4: rev(L/2 - 2, -1, (L/2 - 1) % 2 == 0); break;     // ends with the lead head, and begins with the row before the middle
      case 5: rev(L - 2, L/2 - 1, false); break;               // begins with the lead end, and ends with the row in the middle
    }
    for (auto const& x : rows) for (auto const& p : k.pats) t += p.score(x.first, x.second);
  }
  return t;
}
static string wide(integer n, int w) { string r = std::to_string(n); while ((int)r.size() < w) r = " " + r; return r; }

struct var { char what; int n = 0, n2 = 0; bool has = false, has2 = false;
  string text() const { return (has ? std::to_string(n) : string()) + (has2 ? "," + std::to_string(n2) : string()) + what; }
  string value(ctx const& c) const {
    switch (what) {
      case 'p': return dotted(part(c, n, n2)); case 'q': return gen::to_method(part(c, n, n2), c.b).format(c.flags); case 'Q': return gen::to_method(c.m, c.b).format(c.flags | method::M_OMIT_LH);
      case 'h': if (n < 1 || n > (int)c.m.size()) throw error(); return full_pn(c.m[n-1], 'X'); case 'r': if (n > (int)c.m.size()) throw error(); return model::text(gen::rows(c.m, rounds(c.b))[n]);
      case 'l': return model::text(lh(c)); case 'L': return wide(c.m.size(), n); case 'b': return wide(blows(c), n); case 'o': return wide(order(lh(c)), n); case 'B': return wide(c.b, n); case 'G': return wide(cycles(lh(c)).size(), n);
      case 'u': { perm h = lh(c); int k = 0; for (int i=0; i<c.b; ++i) k += h[i] == i; return wide(k, n); }
      case 'd': return gen::to_method(c.m, c.b).lhcode(); case 'D': return old_code(c); case 'y': return symmetries(c); case 'O': return tenors(c); case 's': return wide(statics(c), n); case 'M': return wide(music(c), n);
      case 'C': return method::classname(gen::to_method(c.m, c.b).methclass()); case 'S': return method::stagename(c.b);
      case 'P': { if (n < 1 || n > c.b) throw error(); string r = sym(n-1); int p = n-1; for (auto const& x : c.m) r += sym(p = x[p]); return r; }
      case 'V': return work(c, true); case 'U': return work(c, false); case 'a': return c.pay; case '#': return wide(c.number, n); case '?': return wide(c.status, n);
    }
    throw std::logic_error("variable");
  }
};
struct what_for { bool hist = false, music = false, exec = true, require = false; int b = 0; mutable vector<var> before; };
static var gen_var(Src& s, what_for const& w, bool in_expr) {
  string all = "lLbouBGdDyOsCSPVUahrhr"; if (!w.hist || in_expr) all += "ppqqQ"; if (w.music) all += "MM"; if (!w.hist && !w.require) all += "#";
  var v; v.what = s.pickc(all.c_str());
  // Sometimes nearly the same as one before
  if (!in_expr && !w.before.empty() && s.chance(1,4) && all.find(w.before.back().what) != string::npos) { v = w.before.back(); if (!s.coin()) { if (v.has2) { v.n2 = v.n + s.below(8); if (!v.n2) v.has2 = false; } else if (v.has && v.n && (v.what == 'p' || v.what == 'q')) { v.has2 = true; v.n2 = v.n + s.below(8); } else if (v.has && v.what != 'P') v.n = s.range(1, 8); } return v; }
  bool width = string("LbouBGsM#").find(v.what) != string::npos;
  if (width && s.chance(1,4)) { v.has = true; v.n = s.below(9); }
  if (string("rhP").find(v.what) != string::npos) { v.has = true; v.n = v.what == 'P' ? s.range(s.chance(1,8) ? 0 : 1, s.chance(1,8) ? 12 : 6) : s.range(s.chance(1,8) ? 0 : 1, s.chance(1,6) ? 40 : 8); }
  if ((v.what == 'p' || v.what == 'q') && s.chance(1,3)) { v.has = true; v.n = s.range(s.chance(1,8) ? 0 : 1, 10); if (s.coin()) { v.has2 = true; v.n2 = s.chance(1,8) ? s.below(12) : v.n + s.below(8); if (v.n == 0) v.has2 = false, v.n2 = 0; if (v.n2 == 0) v.has2 = false; } }
  if (!in_expr) w.before.push_back(v); return v;
}

// ------------------------------------------------------------ expressions
struct value { bool num; integer i; string s; };
static value num(integer i) { return value{true, i, string()}; }
static value str_(string const& x) { return value{false, 0, x}; }
static string as_string(value const& v) { return v.num ? std::to_string(v.i) : v.s; }
static integer as_int(value const& v) {
  if (v.num) return v.i; string const& t = v.s; size_t i = 0; bool neg = false; for (char c : t) if (isspace((unsigned char)c)) discard();
  if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-'; if (i == t.size()) throw error(); integer n = 0; if (t.size() - i > 15) { for (size_t k=i; k<t.size(); ++k) if (!isdigit((unsigned char)t[k])) throw error(); discard(); } for (; i<t.size(); ++i) { if (!isdigit((unsigned char)t[i])) throw error(); n = n * 10 + (t[i] - '0'); } return neg ? -n : n;
}
static integer safe(__int128 x) { if (x > ((__int128)1 << 62) || x < -((__int128)1 << 62)) discard(); return (integer) x; }
typedef function<value(ctx&)> eval;
struct node { string text; int prec; eval f; };          // prec: 0 , 1 ?: 2 || 3 && 4 ~~ 5 == 6 < 7 + 8 * 9 primary
static string sp(Src& s) { return s.chance(1,3) ? "" : " "; }
static node gen_expr(Src& s, what_for const& w, int depth);
static string bracket(Src& s, node const& n, int at_least) { return n.prec < at_least || s.chance(1,12) ? "(" + sp(s) + n.text + sp(s) + ")" : n.text; }
static string literal_text(Src& s, int len) { string r; for (int k=s.below(len+1); k--; ) r += s.pickc("abcXYZ 0123456789.,:;+-*/%<>=&|~!?x_#@{}"); return r; }
static string lexeme(Src& s, string const& t) { return s.coin() ? "'" + t + "'" : "\"" + t + "\""; }

struct item { string text; function<string(ctx&)> f; bool exec = false; };
static vector<item> gen_items(Src& s, what_for const& w, int n, int where, int depth);   // where: 0 format, 1 command
static string run_items(vector<item> const& v, ctx& c) { string r; for (auto const& i : v) r += i.f(c); return r; }
static string items_text(vector<item> const& v) { string r; for (auto const& i : v) r += i.text; return r; }

static item gen_command(Src& s, what_for const& w, int depth) {
  item it; it.exec = true; if (s.chance(1,3)) { int k = s.below(200); it.text = str() << "$(exit " << k << ")"; it.f = [k](ctx& c) { c.status = k; return string(); }; return it; }
  bool nl = s.chance(1,3); int st = s.chance(1,4) ? s.below(100) : 0; vector<item> v = gen_items(s, w, s.range(0, 3), 1, depth);
  it.text = string("$(") + (nl ? "echo" : "printf $%s") + " '" + items_text(v) + "'" + (nl ? "; echo" : "") + (st ? string(str() << "; exit " << st) : string()) + ")";
  it.f = [v, nl, st](ctx& c) { string r = run_items(v, c); c.status = st; if (nl) r += "\n"; else if (r.size() && r[r.size()-1] == '\n') r.erase(r.size()-1); return r; };
  return it;
}
static node primary(Src& s, what_for const& w, int depth) {
  node n; n.prec = 9; int k = s.below(20);
  if (k < 5) { integer i = s.below(s.coin() ? 10 : 10000); n.text = std::to_string(i); n.f = [i](ctx&) { return num(i); }; }
  else if (k < 8) { string t = s.coin() ? literal_text(s, 5) : std::to_string(s.range(-50, 50)); n.text = lexeme(s, t); n.f = [t](ctx&) { return str_(t); }; }
  else if (k < 17 || depth <= 0) { var v = gen_var(s, w, true); n.text = "$" + v.text(); n.f = [v](ctx& c) { return str_(v.value(c)); }; }
  else if (k == 17) { node e = gen_expr(s, w, depth-1); n.text = "$[" + e.text + "]"; n.f = [e](ctx& c) { try { return str_(as_string(e.f(c))); } catch (error const&) { return str_("<ERROR>"); } }; }
  else if (k == 18 && w.exec) { item it = gen_command(s, w, depth-1); n.text = it.text; n.f = [it](ctx& c) { return str_(it.f(c)); }; }
  else { node e = gen_expr(s, w, depth-1); n.text = "(" + sp(s) + e.text + sp(s) + ")"; n.f = e.f; }
  return n;
}
static node gen_match(Src& s, what_for const& w) {
  node n; n.prec = 4; eval left; string lt; int b = w.b ? w.b : 6;
  if (s.chance(3,5)) { var v; v.what = s.pickc("lrr"); if (v.what == 'r') { v.has = true; v.n = s.range(0, 12); } lt = "$" + v.text(); left = [v](ctx& c) { return str_(v.value(c)); }; }
  else { perm r = mus::gen_row(s, b); string t = text(r); if (s.chance(1,6)) { t[s.below(t.size())] = t[s.below(t.size())]; } lt = lexeme(s, t); left = [t](ctx&) { return str_(t); }; }
  mus::pattern p; int tries = 60; do { if (!tries--) discard(); p = mus::gen(s, b, false); } while (p.what < 9 || p.text().find('[') != string::npos || p.text().find_first_of("$()\\") != string::npos || p.text().empty());
  n.text = lt + sp(s) + "~~" + sp(s) + lexeme(s, p.text());
  n.f = [left, p, b](ctx& c) { string t = as_string(left(c)); perm r; for (char x : t) { size_t k = string(symbols).find(x); if (k == string::npos) throw error(); r.push_back(k); } if (!is_perm(r)) throw error(); if ((int)r.size() != c.b || c.b != b) discard(); return num(p.times(r)); };
  return n;
}
static node gen_expr(Src& s, what_for const& w, int depth) {
  if (depth <= 0 || s.chance(1,5)) return primary(s, w, depth);
  int k = s.below(16); node n;
  if (k == 0 && w.b) return gen_match(s, w);
  if (k == 1) { node a = gen_expr(s, w, depth-1), b = gen_expr(s, w, depth-1); n.prec = 0; n.text = bracket(s, a, 0) + sp(s) + "," + sp(s) + bracket(s, b, 1); n.f = [a, b](ctx& c) { as_string(a.f(c)); return b.f(c); }; return n; }
  if (k < 4) { node a = gen_expr(s, w, depth-1), b = gen_expr(s, w, depth-1), d = gen_expr(s, w, depth-1); n.prec = 1; n.text = bracket(s, a, 2) + sp(s) + "?" + sp(s) + bracket(s, b, 1) + sp(s) + ":" + sp(s) + bracket(s, d, 1); n.f = [a, b, d](ctx& c) { return as_int(a.f(c)) ? b.f(c) : d.f(c); }; return n; }
  struct op { char const* t; int prec; }; static op const ops[] = { {"||",2}, {"&&",3}, {"==",5}, {"!=",5}, {"eq",5}, {"ne",5}, {"<",6}, {">",6}, {"<=",6}, {">=",6}, {"lt",6}, {"gt",6}, {"le",6}, {"ge",6}, {"+",7}, {"-",7}, {".",7}, {"*",8}, {"/",8}, {"%",8} };
  op o = ops[s.below(sizeof ops / sizeof *ops)]; node a = gen_expr(s, w, depth-1), b = gen_expr(s, w, depth-1); string t = o.t; n.prec = o.prec;
  bool gap = isalpha(t[0]) || t == "."; n.text = bracket(s, a, o.prec) + (gap ? " " : sp(s)) + t + (gap || t == "<" || t == ">" ? " " : sp(s)) + bracket(s, b, o.prec + 1);
  n.f = [a, b, t](ctx& c) -> value {
    if (t == "||") return num(as_int(a.f(c)) || as_int(b.f(c))); if (t == "&&") return num(as_int(a.f(c)) && as_int(b.f(c)));
    if (isalpha(t[0]) || t == ".") { string x, y; bool bad = false; try { x = as_string(a.f(c)); } catch (error const&) { bad = true; } try { y = as_string(b.f(c)); } catch (error const&) { bad = true; } if (bad) throw error(); if (t == ".") return str_(x + y); if (t == "eq") return num(x == y); if (t == "ne") return num(x != y); if (t == "lt") return num(x < y); if (t == "gt") return num(x > y); if (t == "le") return num(x <= y); return num(x >= y); }
    // (which of two operands is read first shows only in the status of commands)
    integer x, y; bool ex = false, ey = false; try { x = as_int(a.f(c)); } catch (error const&) { ex = true; x = 0; } try { y = as_int(b.f(c)); } catch (error const&) { ey = true; y = 0; } if (ex || ey) throw error();
    if (t == "==") return num(x == y); if (t == "!=") return num(x != y); if (t == "<") return num(x < y); if (t == ">") return num(x > y); if (t == "<=") return num(x <= y); if (t == ">=") return num(x >= y);
    if (t == "+") return num(safe((__int128)x + y)); if (t == "-") return num(safe((__int128)x - y)); if (t == "*") return num(safe((__int128)x * y)); if (!y) throw error(); return num(t == "/" ? x / y : x % y);
  };
  return n;
}
// Expressions which may ask for nothing to be printed, or the search to end
static node gen_top(Src& s, what_for const& w, int depth, bool may_stop, bool may_abort) {
  if (!may_stop || !s.chance(1,4)) return gen_expr(s, w, depth);
  node c = gen_expr(s, w, depth), e = gen_expr(s, w, depth), n; bool ab = may_abort && s.chance(1,3), then = s.coin(); string k = ab ? "abort" : "suppress"; n.prec = 1;
  n.text = bracket(s, c, 2) + " ? " + (then ? k : bracket(s, e, 1)) + " : " + (then ? bracket(s, e, 1) : k);
  n.f = [c, e, ab, then](ctx& x) -> value { if ((as_int(c.f(x)) != 0) == then) { if (ab) throw abort_now(); throw suppress(); } return e.f(x); };
  return n;
}
static item gen_literal(Src& s, int where) {
  item it; string t, v;
  for (int k=s.range(1, 4); k--; ) switch (s.below(8)) {
    case 0: if (where == 0) { static char const esc[] = "abfnrtv", val[] = "\a\b\f\n\r\t\v"; int e = s.below(7); t += string("\\") + esc[e]; v += val[e]; } break;
    case 1: if (where == 0) { int x = s.coin() ? s.range(1, 0x7f) : s.pick(vector<int>{0x24, 0x25, 0x5c, 0x29, 0x5b}); char b[8]; snprintf(b, sizeof b, s.coin() ? "\\x%02x" : "\\x%02X", x); t += b; v += char(x); } break;
    case 2: if (where == 0) { char x = s.pickc("\\$%()[]'\" ,.1"); t += string("\\") + x; v += x; } break;
    case 3: { char x = s.pickc("%$)"); t += string(s.coin() ? "$" : "%") + x; v += x; break; }
    default: { char x = s.pickc(where == 0 ? "abcxyzAB 0123.,;:()[]{}*?#@!&+-=/<>'\"~|^_" : "abcxyzAB 0123.,;:([]{}*?#@!&+-=/<>~|^_"); t += x; v += x; } }
  it.text = t; it.f = [v](ctx&) { return v; }; return it;
}
static vector<item> gen_items(Src& s, what_for const& w, int n, int where, int depth) {
  vector<item> r; bool had = false;
  for (int k=0; k<n; ++k) {
    item it; int q = s.below(10);
    if (q < 3) { it = gen_literal(s, where); if (it.text.size() && r.size() && !r.back().text.empty() && it.text == "") continue; }
    else if (q < 7) { var v = gen_var(s, w, false); it.text = string(s.chance(1,5) ? "%" : "$") + v.text(); it.f = [v](ctx& c) { try { return v.value(c); } catch (error const&) { return string("<ERROR>"); } }; }
    else if (q == 7 && w.exec && depth > 0 && where == 0) { it = gen_command(s, w, depth-1); had = true; if (s.chance(2,3)) { r.push_back(it); it = item(); var v; v.what = '?'; if (s.chance(1,3)) { v.has = true; v.n = s.below(6); } it.text = "$" + v.text(); it.f = [v](ctx& c) { return v.value(c); }; } }
    else if (depth > 0) { node e = gen_top(s, w, depth, where == 0, where == 0 && (r.empty() || w.hist)); it.text = "$[" + sp(s) + e.text + sp(s) + "]"; it.f = [e](ctx& c) { try { return as_string(e.f(c)); } catch (error const&) { return string("<ERROR>"); } }; }
    else continue;
    r.push_back(it);
  }
  (void)had; return r;
}

// ------------------------------------------------------------------ cases
static string word(Src& s) { string w; for (int k=s.range(1, 6); k--; ) w += s.pickc("abcdefgXYZ0123456789-"); return w; }
struct stream { bool tagged = false; int b = 0; vector<ctx> in; string text; };
static stream gen_stream(Src& s, bool tagged, int most) {
  stream t; t.tagged = tagged; t.b = s.range(4, s.chance(1,4) ? 10 : 7); int k = s.range(1, most); vector<gen::changes> before;
  for (int i=0; i<k; ++i) {
    ctx c; c.b = tagged ? s.range(4, 8) : t.b; bool again = false; if (before.size() && s.chance(1,4)) { c.m = s.pick(before); again = (int)c.m[0].size() == c.b; }
    if (!again) { if (s.chance(1,5) && (c.b == 5 || c.b == 6)) { // one with an old lead head code
        c.m.assign(1, gen_change(s, c.b)); perm l = change_of(c.b, vector<int>()), r = course_head(c.b, c.m); vector<perm> ends; for (char const* e : { "12", "16", "14", "1", "123", "145", "125" }) { vector<int> pl; for (char const* p=e; *p; ++p) pl.push_back(*p - '1'); perm x; if (pl.back() < c.b && from_places(c.b, pl, x)) ends.push_back(x); } perm x = s.pick(ends); static char const* h6[] = { "135264","156342","164523","142635","142563","154632","165324","136245","152364","165243","146532","134625","145362","162534","136524","152643","164235","146325","154263","135642" }; static char const* h5[] = { "13524","14253","12534","13425","14235","12453","15234","13452","15423","14532","14352","15324","15243","13542" };
        perm h; string ht = c.b == 6 ? h6[s.below(20)] : h5[s.below(14)]; for (char ch : ht) h.push_back(ch - '1'); c.m.clear(); perm want = model::apply(h, x), cur = rounds(c.b); // by adjacent swaps
        for (int a=0; a<c.b; ++a) { int p = std::find(cur.begin(), cur.end(), want[a]) - cur.begin(); for (; p > a; --p) { perm y = rounds(c.b); std::swap(y[p], y[p-1]); c.m.push_back(y); cur = model::apply(cur, y); } } if (c.m.empty()) { c.m.push_back(change_of(c.b, {1})); c.m.push_back(change_of(c.b, {1})); } c.m.push_back(x); (void)l; (void)r; }
      else c.m = gen::gen_method(s, c.b, 0, 20); }
    if (c.m.empty()) continue; before.push_back(c.m); for (int q=s.below(4); q--; ) c.pay += (c.pay.empty() ? "" : " ") + word(s);
    if (tagged || s.chance(1,8)) t.text += std::to_string(c.b) + ":"; string p = gen::spell(s, c.m, 0, c.m.size()); if (p.find_first_of(" \t\n") != string::npos) p = gen::spell_plain(c.m); t.text += p; if (c.pay.size()) t.text += (s.coin() ? "\t" : " ") + c.pay; t.text += "\n"; t.in.push_back(c);
  }
  return t;
}
static vector<block> gen_music(Src& s, int b, strings& argv, bool even) {
  vector<block> now(1), r; now[0].from = rounds(b); bool pending = false, any = false, reset = true; int n = s.below(6);
  mus::pattern crus; crus.what = 5; crus.name = "CRUs";
  for (int k=0; k<n; ++k) {
    if (s.chance(2,5)) {
      static char const* names[] = { "course", "lead", "halflead", "2halflead", "rhalflead", "2rhalflead" }; int what = s.below(even ? 6 : 2); string a = names[what]; vector<perm> rows; if (s.chance(2,3)) { rows.push_back(s.coin() ? gen_perm(s, b) : rounds(b)); if (s.chance(1,4)) rows.push_back(gen_perm(s, b)); if (rows.size() == 2 && rows[0] == rows[1]) rows.pop_back(); a += "=" + (rows.size() == 2 ? "{" + text(rows[0]) + "," + text(rows[1]) + "}" : text(rows[0])); }
      else { if (now.size() > 1 && now.back().from != now[0].from) continue; rows.push_back(now.back().from); }
      if (reset) now.clear(); reset = false; for (auto const& x : rows) { block q; q.from = x; q.what = what; bool dup = false; for (auto const& o : now) dup = dup || (o.from == x && o.what == what); if (dup) discard(); now.push_back(q); } argv.push_back("-M" + a); pending = true;
    } else { mus::pattern p; int tries = 20; do { if (!tries--) discard(); p = mus::gen(s, b); } while (p.text().find('=') != string::npos); argv.push_back("-M" + p.text()); for (auto q : now) { q.pats.assign(1, p); r.push_back(q); } pending = false; reset = true; any = true; }
  }
  if (!any || pending) for (auto q : now) { q.pats.assign(1, crus); r.push_back(q); }
  return r;
}
static int gen_pn_format(Src& s, strings& argv) {
  int f = method::M_DASH | method::M_FULL_SYMMETRY; if (!s.chance(1,3)) return f; string t; for (int k=s.range(1, 3); k--; ) { int q = s.below(7); static char const* n[7][3] = { {"dots",".","."}, {"external","ext","ext"}, {"lower-case","lcross","x"}, {"upper-case","ucross","X"}, {"std-symmetry","std-sym","std-sym"}, {"no-symmetry","no-sym","no-sym"}, {"plus-prefix","plus","+"} }; t += (t.empty() ? "" : ",") + string(n[q][s.below(3)]);
    switch (q) { case 0: f |= method::M_DOTS; break; case 1: f |= method::M_EXTERNAL; break; case 2: f |= method::M_LCROSS; break; case 3: f |= method::M_UCROSS; break; case 4: f &= ~method::M_FULL_SYMMETRY; f |= method::M_SYMMETRY; break; case 5: f &= ~method::M_FULL_SYMMETRY; break; case 6: f |= method::M_PLUS; } }
  argv.push_back("--pn-format=" + t); return f;
}
static strings env() { return strings(1, "SHELL=/bin/sh"); }

static void setup(Src& s, stream& t, what_for& w, strings& argv, vector<block>& mus, map<string, string>& over, map<string, string>& under, bool tagged) {
  argv = strings{ app("methsearch"), s.coin() ? "-I" : "--filter", "-A", "-U0", "-Fx" }; if (!tagged) { argv.push_back("-b" + std::to_string(t.b)); w.b = t.b; bool even = true; for (auto const& c : t.in) even = even && c.m.size() % 2 == 0; mus = gen_music(s, t.b, argv, even); w.music = true; }
  int f = gen_pn_format(s, argv); bool greek = s.chance(1,4); if (greek) argv.push_back("-Outf8");
  for (auto& c : t.in) { c.flags = f; c.greek = greek; c.music = &mus; }
  if (!tagged && s.chance(1,5)) for (int a=0; a<2; ++a) if (s.coin()) { map<string, string>& m = a ? over : under; string x; for (auto const& c : t.in) if (s.chance(2,3)) { gen::changes g = beside(c, a); string nm = word(s) + (s.coin() ? " " + word(s) : ""); if (m.insert(std::make_pair(dotted(g), nm)).second) x += (s.coin() ? gen::spell_plain(g) : gen::to_method(g, c.b).format(method::M_DASH | method::M_FULL_SYMMETRY)) + "\t" + nm + "\n"; }
    string file = scratch() + (a ? "/over" : "/under"); write_file(file, x); argv.push_back((a ? "--overwork-map=" : "--underwork-map=") + file); for (auto& c : t.in) (a ? c.over : c.under) = &m; s.label("work map"); }
}
static bool truth(node const& n, ctx& c, bool& stop) { try { return as_int(n.f(c)) != 0; } catch (error const&) { return false; } catch (suppress const&) { return false; } catch (abort_now const&) { stop = true; return false; } }

SUB(lines, 2500, 120000, "streams of methods on one or several numbers of bells with payloads, printed with formats of up to eight items (text, escapes, variables, expressions nested up to 3 deep, commands), with music, requirements, works to rename and forms of place notation: exactly what an interpreter of the documented language prints; non-trivial when something other than literal text is printed") {
  bool tagged = s.chance(1,3); stream t = gen_stream(s, tagged, 6); what_for w; strings argv; vector<block> mus; map<string, string> over, under; setup(s, t, w, argv, mus, over, under, tagged); w.exec = s.chance(1,4);
  vector<node> req; what_for wq(w); wq.require = true; wq.exec = false; if (s.chance(1,3)) for (int k=s.range(1, 2); k--; ) { node n = gen_top(s, wq, s.range(1, 3), true, req.empty() && s.chance(1,4)); req.push_back(n); argv.push_back((s.coin() ? "-Q" : "--require=") + n.text); }
  vector<item> fmt = gen_items(s, w, s.range(1, 8), 0, 3); string ft = items_text(fmt); if (ft.empty()) discard(); bool nl = !s.chance(1,6); argv.push_back("-R" + ft + (nl ? "" : "\\")); bool counted = s.chance(1,3); if (counted) argv.push_back("-C");
  string want; long number = 0; bool stop = false, lines = false;
  for (auto& c : t.in) { bool ok = true; for (auto const& n : req) if (ok) ok = truth(n, c, stop); if (stop) break; if (!ok) continue; c.number = ++number; try { string l = run_items(fmt, c); if (nl) l += "\n"; want += l; lines = true; } catch (suppress const&) {} catch (abort_now const&) { stop = true; break; } }
  s.nontrivial(lines && ft.find_first_of("$%") != string::npos); if (stop) { s.label("aborted"); if (counted) { counted = false; argv.pop_back(); } } if (want.find("<ERROR>") != string::npos) s.label("error"); if (w.music && ft.find("M") != string::npos) s.label("music"); if (ft.find("$(") != string::npos) s.label("command"); if (!req.empty()) s.label("requirement");
  if (counted) want += (number ? "\n" : "") + string(str() << "Found " << number << " methods\n");
  s.renote(cmdline(argv) + " <<< " + quote(t.text)); run_result r = run_ok(argv, t.text, "", env()); CHECK_EQ(r.status, 0, r.err); CHECK_EQ(r.out, want, "what was printed");
}

SUB(histogram, 900, 40000, "histograms of streams of methods by formats of up to four items: each combination of values once, with how often it occurs; non-trivial when one occurs more than once and there are several") {
  bool tagged = s.chance(1,3); stream t = gen_stream(s, tagged, 12); what_for w; w.hist = true; strings argv; vector<block> mus; map<string, string> over, under; setup(s, t, w, argv, mus, over, under, tagged); argv.push_back("-q"); w.exec = s.chance(1,4);
  vector<item> fmt = gen_items(s, w, s.range(1, 3), 0, 2); int at = s.below(fmt.size() + 1), wd = s.chance(1,3) ? s.range(0, 8) : -1; string ft; for (size_t i=0; i<=fmt.size(); ++i) { if ((int)i == at) ft += (s.coin() ? "$" : "%") + (wd >= 0 ? std::to_string(wd) : string()) + "c"; if (i < fmt.size()) ft += "|" + fmt[i].text; } argv.push_back((s.coin() ? "-H" : "--frequencies=") + ft);
  map<strings, long> h; for (auto& c : t.in) { strings v; try { for (auto const& i : fmt) v.push_back(i.f(c)); } catch (suppress const&) { s.label("suppressed"); continue; } catch (abort_now const&) { s.label("aborted"); break; } ++h[v]; }
  vector<string> want; bool many = false; for (auto const& x : h) { string l; for (size_t i=0; i<=fmt.size(); ++i) { if ((int)i == at) l += wide(x.second, wd); if (i < fmt.size()) l += "|" + x.first[i]; } want.push_back(l + "\n"); many = many || x.second > 1; }
  s.nontrivial(many && h.size() > 1); s.renote(cmdline(argv) + " <<< " + quote(t.text)); run_result r = run_ok(argv, t.text, "", env()); CHECK_EQ(r.status, 0, r.err);
  string o = r.out; 
  // as lines in any order
  vector<string> got; string all; for (auto const& x : want) all += x; bool lead = o.size() == all.size() + 1 && o[0] == '\n'; if (lead) o.erase(0, 1); if (o == all) return; vector<string> rest(want); size_t p = 0; while (p < o.size()) { size_t best = string::npos; for (size_t i=0; i<rest.size(); ++i) if (!o.compare(p, rest[i].size(), rest[i]) && (best == string::npos || rest[i].size() > rest[best].size())) best = i; CHECK(best != string::npos, "not wanted, from " << quote(o.substr(p)) << "; left: " << (rest.empty() ? string("none") : quote(rest[0]))); p += rest[best].size(); rest.erase(rest.begin() + best); } CHECK(rest.empty(), "missing " << quote(rest[0]));
}

static void mutate(Src& s, string& f) {
  for (int k=s.below(5); k--; ) { size_t at = s.below(f.size() + 1); switch (s.below(5)) { case 0: if (at < f.size()) f.erase(at, 1); break; case 1: f.insert(at, 1, s.pickc("$%[]()\\?:,.+-*/<>=!&|~'\" 0123456789xpqlrhPMac#")); break; case 2: if (f.size()) { size_t n = s.range(1, 6); f.erase(at, n); } break; case 3: f.insert(at, s.pick(strings{"$[", "$(", "]", ")", "suppress", "abort", "$[1?2:3]", " eq ", "~~", "\\x", "$3,5p", "'", "$9", "$[$(x)]"})); break; default: if (f.size()) { size_t b = s.below(f.size()); f.insert(at, f.substr(b, s.range(1, 8))); } } }
  string r; int digits = 0; for (char c : f) { digits = isdigit((unsigned char)c) ? digits + 1 : 0; if (digits <= 3 && c) r += c; } f = r;
}
SUB(any, 1500, 80000, "formats, histograms and requirements spoiled in up to four places, and of any text at all: no crash, and a message when they are refused; non-trivial when the format is accepted") {
  stream t = gen_stream(s, false, 3); what_for w; w.b = t.b; w.music = true; string f; int how = s.below(3); if (s.chance(1,6)) f = literal_text(s, 20); else if (how == 2) f = gen_top(s, w, 3, true, true).text; else { w.hist = how == 1; f = items_text(gen_items(s, w, s.range(1, 5), 0, 3)); } mutate(s, f); if (f.empty() || f.find("$(") != string::npos) { } 
  strings argv{ app("methsearch"), "-I", "-A", "-U0", "-Fx", "-b" + std::to_string(t.b), (how == 0 ? "-R" : how == 1 ? "-H" : "-Q") + f }; s.renote(cmdline(argv) + " <<< " + quote(t.text)); run_result r = run_ok(argv, t.text, scratch(), strings(1, "SHELL=/bin/true")); CHECK(r.status == 0 || r.status == 1, "status " << r.status); if (r.status) CHECK(!r.err.empty(), "refused without a message"); s.nontrivial(r.status == 0); s.label(r.status ? "refused" : "accepted");
}
