// gsiril.h - the gsiril language: programs as trees, an interpreter for them
// which uses nothing of the code under test, and a generator and printer.
#ifndef GSIRIL_H
#define GSIRIL_H
#include "model.h"
#include "methods.h"
#include <memory>
#include <map>

namespace gs {
using std::string; using std::vector; using model::perm; using pbt::Src; using std::map;
using pbt::str;

// ---------------------------------------------------------------------
// Row patterns, matched by trying every way

struct pattern {
  struct item { char kind; vector<int> bells; };   // '=' bell(s), '[' class, '?', '*'
  vector<item> items;
  string text() const { string r; for (auto const& i : items) { if (i.kind == '?' || i.kind == '*') r += i.kind; else if (i.kind == '=') r += model::sym(i.bells[0]); else { r += '['; for (int b : i.bells) r += model::sym(b); r += ']'; } } return r; }
  bool match(perm const& r, size_t i, size_t j, vector<int>* shown) const {
    if (i == items.size()) return j == r.size();
    item const& t = items[i];
    if (t.kind == '*') { size_t keep = shown ? shown->size() : 0;
      for (size_t k=j; k<=r.size(); ++k) { if (match(r, i+1, k, shown)) { if (shown) shown->insert(shown->begin() + keep, r.begin() + j, r.begin() + k); return true; } if (shown) shown->resize(keep); }
      return false; }
    if (j == r.size()) return false;
    if (t.kind == '?') { if (shown) shown->push_back(r[j]); if (match(r, i+1, j+1, shown)) return true; if (shown) shown->pop_back(); return false; }
    return std::find(t.bells.begin(), t.bells.end(), r[j]) != t.bells.end() && match(r, i+1, j+1, shown);
  }
  bool match(perm const& r) const { return match(r, 0, 0, 0); }
  // The bells in the places of wildcards
  bool masked(perm const& r, vector<int>& out) const {
    // every bell of the row which is not one of those named, as bells are
    // named at most once and there are no classes here
    if (!match(r)) return false;
    std::set<int> named; for (auto const& i : items) for (int b : i.bells) named.insert(b);
    out.clear(); for (int b : r) if (!named.count(b)) out.push_back(b); return true;
  }
};
// mask: no classes
inline pattern gen_pattern(Src& s, int n, bool mask) {
  pattern p; vector<int> left = model::gen_perm(s, n); int style = s.below(4);
  auto bell = [&](bool cls) { pattern::item i; i.kind = '='; i.bells.push_back(left.back()); left.pop_back(); if (cls && !left.empty()) { i.kind = '['; int k = s.range(1, std::min<int>(2, left.size())); while (k--) { i.bells.push_back(left.back()); left.pop_back(); } } p.items.push_back(i); };
  auto wild = [&](char c) { pattern::item i; i.kind = c; p.items.push_back(i); };
  if (style == 0) { if (s.coin()) { left.erase(std::find(left.begin(), left.end(), 0)); left.push_back(0); } bell(false); wild('*'); }
  else if (style == 1) { wild('*'); int k = s.range(1, 2); while (k-- && !left.empty()) bell(!mask && s.chance(1,3)); if (s.coin()) wild('*'); }
  else if (style == 2) { for (int i=0; i<n && !left.empty(); ++i) if (s.chance(2,3)) wild('?'); else bell(!mask && s.chance(1,3)); while ((int)p.items.size() < n) wild('?'); }
  else { int k = s.range(1, 3); bool star = false; while (k-- && !left.empty()) { if (!star && s.chance(1,3)) { wild('*'); star = true; } else if (s.coin()) wild('?'); else bell(!mask && s.coin()); } if (!star) wild('*'); }
  // too long to match is fine, unless it is to show rows
  if ((int)p.items.size() > n + 1) p.items.resize(n);
  return p;
}

// ---------------------------------------------------------------------
// Expressions

struct expr; typedef std::shared_ptr<expr> E;
struct part { char kind; string text; };   // 'l'iteral 'e'scape '@' '#' '$' 'v'ariable
struct expr {
  enum kind_t { PN, TRANSP, STR, LIST, REP, REPEAT, ALT, REV, SYM, NOP, SET, SETNOW, APPEND, INCR, ENDPROOF, BREAK, SWAP, MERGE, ECHO, SAVE,
    INT, BELLS, LENGTH, AT, POS, ROWNO, ARITH, CAT,
    FN, PATTERN, ROUNDS, PROVING, CMP, AND, OR, NOT, BOOL, DEFINED };
  kind_t kind; vector<E> k; long n; string s; vector<perm> ch; vector<part> parts; bool nonl, abort; pattern pat; string spelled;
  vector<bool> test;          // ALT: which of k (in pairs) have a test
  expr(kind_t kd) : kind(kd), n(0), nonl(false), abort(false) {}
};
inline E mk(expr::kind_t k) { return std::make_shared<expr>(k); }
inline E mk(expr::kind_t k, E a) { E e = mk(k); e->k.push_back(a); return e; }
inline E mk(expr::kind_t k, E a, E b) { E e = mk(k, a); e->k.push_back(b); return e; }
inline E mk_int(long n) { E e = mk(expr::INT); e->n = n; return e; }
inline E mk_sym(string const& n) { E e = mk(expr::SYM); e->s = n; return e; }
inline part lit(string const& t) { part p; p.kind = 'l'; p.text = t; return p; }
inline part sp(char k, string const& t = "") { part p; p.kind = k; p.text = t; return p; }
inline E mk_str(vector<part> const& p, bool nonl = false, bool abort = false) { E e = mk(expr::STR); e->parts = p; e->nonl = nonl; e->abort = abort; return e; }
inline E mk_str(string const& t) { return mk_str(vector<part>(1, lit(t))); }

struct stopped {};  struct broken {};  struct too_long {};
struct error { string what; };

struct world;
struct proof {
  world* w; perm r, last; map<perm,int> count; size_t size, dups, falsec; int max; bool proving, silent, mute; size_t max_length; long score;
  map<string,E> dyn; proof const* parent;
};
struct world {
  int n; int extents; perm rounds; size_t min_len, max_len; map<string,E> sym; bool has_mask; pattern mask; vector<E> music; map<string,vector<perm>> library;
  int quiet; bool everyrow_only, filter; string out, err; bool failed; int steps; string first;
  bool exited; int proofs; size_t longest; bool was_true, was_false, was_notround, was_aborted; std::set<string> used;
  world() : n(0), extents(1), min_len(0), max_len(0), has_mask(false), quiet(0), everyrow_only(false), filter(false), failed(false), steps(0), exited(false), proofs(0), longest(0), was_true(false), was_false(false), was_notround(false), was_aborted(false) { defaults(); }

  void defaults() {
    vector<part> p; p.push_back(sp('#')); p.push_back(lit(" rows ending in ")); p.push_back(sp('@')); sym["__summary__"] = mk_str(p);
    E summary = mk_sym("__summary__");
    E score = mk(expr::CMP, mk_sym("__score__"), mk_int(0)); score->s = ">"; p.clear(); p.push_back(lit("Music score: ")); p.push_back(sp('v', "__score__"));
    E alt = mk(expr::ALT, score, mk_str(p)); alt->test.push_back(true); E set = mk(expr::SET, mk(expr::ROWNO)); set->k[0]->s = "music"; set->s = "__score__"; sym["__music__"] = mk(expr::LIST, set, alt);
    sym["true"] = mk(expr::LIST, summary, mk(expr::LIST, mk_str("Touch is true"), mk_sym("__music__")));
    sym["notround"] = mk(expr::LIST, summary, mk_str("Is this OK?"));
    p.clear(); p.push_back(lit("Touch is false in ")); p.push_back(sp('$')); p.push_back(lit(" rows")); sym["false"] = mk(expr::LIST, summary, mk_str(p));
    p.clear(); p.push_back(lit("at least ")); p.push_back(sp('v', "min_length")); p.push_back(lit(" rows expected"));
    sym["tooshort"] = mk(expr::LIST, summary, mk(expr::LIST, mk_str(vector<part>(1, lit("Touch is too short: ")), true), mk_str(p)));
    p.clear(); p.push_back(lit("Touch exceeds maximum length of ")); p.push_back(sp('v', "max_length")); p.push_back(lit(" rows")); sym["toolong"] = mk_str(p, false, true);
    sym["conflict"] = mk(expr::LIST, summary, mk_str(vector<part>(1, lit("Touch not completed due to false row")), false, true));
    sym["rounds"] = sym["start"] = sym["finish"] = sym["abort"] = sym["everyrow"] = mk(expr::NOP);
  }
  void set_length(size_t lo, size_t hi) { min_len = lo; max_len = hi; if (lo || hi) { sym["min_length"] = mk_int(lo); sym["max_length"] = mk_int(hi); } }

  // -- evaluation
  E lookup(proof const& c, string const& name) { auto i = c.dyn.find(name); if (i != c.dyn.end()) return i->second; auto j = sym.find(name); if (j == sym.end()) throw error{ "Unknown symbol: " + name }; return j->second; }
  proof clone(proof const& c) { proof d(c); d.max = -1; d.max_length = 0; d.silent = true; d.mute = true; d.parent = &c; return d; }
  // How many ways a row has some music
  long matches(proof& c, E e) {
    if (e->kind == expr::PATTERN) return e->pat.match(c.r);
    if (e->s == "crus") { if (n < 6) return 0; perm const& r = c.r; for (int k=6; k<n; ++k) if (r[k] != k) return 0; return r[4] >= 3 && r[4] <= 5 && r[5] >= 3 && r[5] <= 5; }
    long len = e->k.empty() ? 4 : num(c, e->k[0]), dir = e->k.size() < 2 ? 0 : num(c, e->k[1]), got = 0;
    for (int p=0; p+len<=n; ++p) { if (e->s == "frontruns" && p) continue; if (e->s == "backruns" && p + len != n) continue; for (int d=-1; d<=1; d+=2) { if (dir && d * dir < 0) continue; bool ok = true; for (int i=1; i<len; ++i) if (c.r[p+i] != c.r[p+i-1] + d) ok = false; got += ok; } }
    return got;
  }
  void tick() { if (++steps > 60000) throw too_long(); }
  void print(proof const& c, string const& t) { if (!c.silent && !c.mute) out += t; }

  bool is_rounds(proof const& c) { auto i = c.count.find(c.r); int k = i == c.count.end() ? 0 : i->second; return c.r == rounds && k == extents; }
  void step(proof& c, perm const& next) {
    tick(); c.r = next; if (!c.proving) return;
    int k = ++c.count[c.r]; ++c.size; if (k > 1) ++c.dups; if (c.max != -1 && k > c.max) ++c.falsec;
    for (auto const& p : music) c.score += matches(c, p);
    bool ok = c.falsec == 0;
    { bool was = c.silent; if (everyrow_only && !filter) c.silent = false; run_sym(c, "everyrow", 1); c.silent = was; }
    if (c.max_length && c.size > c.max_length) run_sym(c, "toolong", 1);
    if (is_rounds(c)) run_sym(c, "rounds", 1);
    if (!ok) run_sym(c, "conflict", 1);
  }
  std::set<string> traced; bool trace_all = false;
  void run_sym(proof& c, string const& name, int dir) { if ((trace_all && name != "everyrow") || traced.count(name)) { if (!c.mute) out += model::text(c.r) + (trace_all || traced.size() > 1 ? "\t" + name : string()) + "\n"; } run(c, lookup(c, name), dir); }
  // The text of a string, with its variables put in
  string subst(proof& c, expr const& e, bool& none) {
    string r; none = false;
    for (auto const& p : e.parts) switch (p.kind) {
      case 'l': case 'e': r += p.text == "\\n" ? "\n" : p.text == "\\t" ? "\t" : p.kind == 'e' ? unescape(p.text) : p.text; break;
      case '@': if (has_mask) { vector<int> b; if (!mask.masked(c.r, b)) { none = true; return string(); } for (int x : b) r += model::sym(x); } else r += model::text(c.r); break;
      case '#': r += std::to_string(c.size); break;
      case '$': r += std::to_string(c.dups); break;
      case 'v': { E v = lookup(c, p.text); proof d(clone(c)); r += text(d, v); break; }
    }
    return r;
  }
  static string unescape(string const& t) {
    if (t[1] == 'n') return "\n"; if (t[1] == 't') return "\t"; if (t[1] == '\'') return "\"";
    if (t[1] == 'x' || t[1] == 'u' || t[1] == 'U') { unsigned long v = strtoul(t.c_str() + 2, 0, 16); string r;
      if (v < 0x80) r += char(v); else if (v < 0x800) { r += char(0xC0 | v >> 6); r += char(0x80 | (v & 63)); } else if (v < 0x10000) { r += char(0xE0 | v >> 12); r += char(0x80 | (v >> 6 & 63)); r += char(0x80 | (v & 63)); }
      else { r += char(0xF0 | v >> 18); r += char(0x80 | (v >> 12 & 63)); r += char(0x80 | (v >> 6 & 63)); r += char(0x80 | (v & 63)); } return r; }
    return t.substr(1);
  }
  // As a string
  string text(proof& c, E e) {
    tick();
    switch (e->kind) {
      case expr::STR: { bool none; return subst(c, *e, none); }
      case expr::SYM: return text(c, lookup(c, e->s));
      case expr::FN: if (e->s == "stagename") { static char const* st[] = { "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus" }; return st[num(c, e->k[0]) - 3]; }
        if (e->s == "methname") return e->k[0]->spelled;
        { string r; bool dot = false; for (auto const& k : e->k) for (auto const& x : block(c, k)) { string q = model::full_pn(x, 'X'); if (q == "X") { r += q; dot = false; } else { if (dot) r += "."; r += q; dot = true; } } return r; }
      case expr::CAT: { string a = text(c, e->k[0]); return a + text(c, e->k[1]); }
      default: return std::to_string(num(c, e));
    }
  }
  long num(proof& c, E e) {
    tick();
    switch (e->kind) {
      case expr::INT: return e->n; case expr::BELLS: return n; case expr::LENGTH: return c.size;
      case expr::ROWNO: return e->s == "music" ? c.score : (long)c.size;
      case expr::AT: return c.r[num(c, e->k[0])-1] + 1;
      case expr::POS: { int b = num(c, e->k[0]) - 1; return std::find(c.r.begin(), c.r.end(), b) - c.r.begin() + 1; }
      case expr::SYM: return num(c, lookup(c, e->s));
      case expr::ARITH: { long a = num(c, e->k[0]), b = num(c, e->k[1]); switch (e->s[0]) { case '+': return a + b; case '-': return a - b; case '*': return a * b; default: if (b == 0) throw error{ "Division by zero" }; return e->s[0] == '/' ? a / b : a % b; } }
      case expr::INCR: { long v = num(c, lookup(c, e->s)) + e->n; c.dyn[e->s] = mk_int(v); return v; }
      default: abort();
    }
  }
  enum type_t { T_BOOL, T_INT, T_STR };
  type_t type(proof& c, E e) { switch (e->kind) { case expr::SYM: return type(c, lookup(c, e->s)); case expr::STR: case expr::CAT: case expr::FN: return T_STR;
    case expr::PATTERN: case expr::ROUNDS: case expr::PROVING: case expr::CMP: case expr::AND: case expr::OR: case expr::NOT: case expr::BOOL: case expr::DEFINED: return T_BOOL; default: return T_INT; } }
  template <class T> static bool compare(string const& op, T const& a, T const& b) { return op == "==" ? a == b : op == "!=" ? a != b : op == ">" ? a > b : op == "<" ? a < b : op == ">=" ? a >= b : a <= b; }
  bool truth(proof& c, E e) {
    tick();
    switch (e->kind) {
      case expr::FN: return matches(c, e) > 0;
      case expr::PATTERN: return e->pat.match(c.r); case expr::ROUNDS: return is_rounds(c); case expr::PROVING: return c.proving; case expr::BOOL: return e->n;
      case expr::DEFINED: return c.dyn.count(e->s) || sym.count(e->s);
      case expr::NOT: return !truth(c, e->k[0]); case expr::AND: return truth(c, e->k[0]) && truth(c, e->k[1]); case expr::OR: return truth(c, e->k[0]) || truth(c, e->k[1]);
      case expr::SYM: return truth(c, lookup(c, e->s));
      case expr::LIST: run(c, e->k[0], 1); return truth(c, e->k[1]);
      case expr::CMP: { type_t a = type(c, e->k[0]), b = type(c, e->k[1]);
        if (a == T_BOOL) { bool x = truth(c, e->k[0]), y = truth(c, e->k[1]); return compare(e->s, x, y); }
        if (a == T_INT && b == T_INT) { long x = num(c, e->k[0]), y = num(c, e->k[1]); return compare(e->s, x, y); }
        string x = text(c, e->k[0]), y = text(c, e->k[1]); return compare(e->s, x, y); }
      default: abort();
    }
  }
  vector<perm> block(proof& c, E e) {
    tick();
    switch (e->kind) {
      case expr::PN: return e->ch;
      case expr::FN: { vector<perm> m = library[e->n ? e->spelled : text(c, e->k[0])]; if (e->s == "loadm") m.pop_back(); else if (e->s == "loadlh") m.erase(m.begin(), m.end() - 1); return m; }
      case expr::LIST: { vector<perm> a = block(c, e->k[0]), b = block(c, e->k[1]); a.insert(a.end(), b.begin(), b.end()); return a; }
      case expr::REP: { vector<perm> r, a = block(c, e->k[0]); for (long i=0; i<e->n; ++i) r.insert(r.end(), a.begin(), a.end()); return r; }
      case expr::REV: { vector<perm> a = block(c, e->k[0]); return vector<perm>(a.rbegin(), a.rend()); }
      case expr::SYM: return block(c, lookup(c, e->s));
      case expr::MERGE: { vector<perm> a = block(c, e->k[0]), b = block(c, e->k[1]); long off;
        if (e->s == "") off = (long)a.size() - (long)b.size(); else if (e->s == "<<") off = (long)a.size() - e->n - 1; else off = e->n - 1;
        if (off < 0 || off + b.size() > a.size()) throw error{ "Replacement block overruns the block its applied to" };
        std::copy(b.begin(), b.end(), a.begin() + off); return a; }
      default: abort();
    }
  }
  E value(proof& c, E e) { // what := keeps
    switch (e->kind) { case expr::STR: { bool none; string t = subst(c, *e, none); E r = mk(expr::STR); r->parts.push_back(lit(t)); r->nonl = e->nonl || none; r->abort = e->abort; return r; }
      case expr::SYM: return value(c, lookup(c, e->s)); case expr::CAT: case expr::FN: return mk_str(text(c, e));
      default: if (type(c, e) == T_BOOL) { E r = mk(expr::BOOL); r->n = truth(c, e); return r; } return mk_int(num(c, e)); }
  }
  void run(proof& c, E e, int dir) {
    tick();
    switch (e->kind) {
      case expr::NOP: return;
      case expr::PN: case expr::FN: case expr::MERGE: { vector<perm> b = block(c, e); if (dir < 0) std::reverse(b.begin(), b.end()); for (auto const& x : b) step(c, model::apply(c.r, x)); return; }
      case expr::TRANSP: step(c, model::mul(c.r, e->ch[0])); return;
      case expr::SWAP: { perm p = model::rounds(n); std::swap(p[e->n], p[e->k.empty() ? e->n + 1 : e->k[0]->n]); step(c, model::mul(c.r, p)); return; }
      case expr::STR: case expr::ECHO: { bool none; string t = subst(c, *e, none); bool nl = !e->nonl && !none; if (nl) t += "\n";
        proof const& to = e->kind == expr::ECHO && c.parent ? *c.parent : c; print(to, t); if (e->abort) throw stopped(); return; }
      case expr::LIST: if (dir > 0) run(c, e->k[0], dir); run(c, e->k[1], dir); if (dir <= 0) run(c, e->k[0], dir); return;
      case expr::REP: case expr::REPEAT: {
        E old; auto i = c.dyn.find("loop_counter"); if (i != c.dyn.end()) old = i->second; else if (sym.count("loop_counter")) old = sym["loop_counter"];
        auto restore = [&]() { if (old) c.dyn["loop_counter"] = old; else c.dyn.erase("loop_counter"); };
        try { for (long j=1; e->kind == expr::REPEAT || j <= e->n; ++j) { c.dyn["loop_counter"] = mk_int(j); run(c, e->k[0], dir); } } catch (broken) {} catch (...) { restore(); throw; }
        restore(); return; }
      case expr::ALT: for (size_t i=0; i<e->test.size(); ++i) { bool ok = true; if (e->test[i]) { ok = false; proof d(clone(c)); try { ok = truth(d, e->k[2*i]); } catch (stopped) {} catch (broken) {} } if (ok) { run(c, e->k[2*i+1], dir); return; } } return;
      case expr::REV: run(c, e->k[0], -dir); return;
      case expr::SYM: run_sym(c, e->s, dir); return;
      case expr::SET: c.dyn[e->s] = e->k[0]; return;
      case expr::SETNOW: c.dyn[e->s] = value(c, e->k[0]); return;
      case expr::APPEND: { string a = text(c, lookup(c, e->s)); a += text(c, e->k[0]); c.dyn[e->s] = mk_str(a); return; }
      case expr::INCR: num(c, e); return;
      case expr::SAVE: if (!c.parent) { E v = lookup(c, e->s); sym[e->s] = v; } return;
      case expr::ENDPROOF: if (c.proving) c.last = c.r; c.proving = false; return;
      case expr::BREAK: throw broken();
      case expr::INT: return;
      default: abort();
    }
  }
  proof new_proof() { proof c; c.w = this; c.r = rounds; c.size = c.dups = c.falsec = 0; c.max = extents; c.proving = true; c.silent = everyrow_only || filter || quiet >= 2; c.mute = false; c.max_length = max_len; c.score = 0; c.parent = 0; return c; }
  void final_sym(proof& c, string const& n) { try { run_sym(c, n, 1); } catch (stopped) {} catch (broken) {} }
  void prove(E e) {
    ++proofs; proof c = new_proof();
    try { run_sym(c, "start", 1); run(c, e, 1); run_sym(c, "finish", 1); }
    catch (stopped) { final_sym(c, "abort"); failed = true; was_aborted = true; longest = std::max(longest, c.size); return; }
    longest = std::max(longest, c.size);
    if (c.falsec) { was_false = true; final_sym(c, "false"); failed = true; }
    else if ((c.proving ? c.r : c.last) != rounds) { was_notround = true; final_sym(c, "notround"); failed = true; }
    else if (min_len && c.size < min_len) { final_sym(c, "tooshort"); failed = true; }
    else { was_true = true; if (quiet) c.silent = true; final_sym(c, "true"); }
  }
};

// ---------------------------------------------------------------------
// Printing

struct printer {
  Src& s; int n; bool msiril; bool comments;
  printer(Src& src, int bells) : s(src), n(bells), msiril(false), comments(true) {}
  bool ci = false;
  string nm(string const& t) { if (!ci) return t; string r(t); for (char& c : r) if (s.chance(1,3)) c = toupper(c); return r; }
  string kw(string const& t) { return nm(t); }
  string sp0() { return s.chance(1,6) ? " " : ""; }
  string nl() { return comments && s.chance(1,12) ? (s.coin() ? "\n" : " // or so\n  ") : sp0(); }

  // precedence: 0 assign 1 list 2 or 3 and 4 cmp 5 merge 6 shift 7 add 8 mul 9 unary 10 atom
  int level(expr const& e) {
    switch (e.kind) { case expr::SET: case expr::SETNOW: case expr::APPEND: return 0; case expr::LIST: return 1; case expr::OR: return 2; case expr::AND: return 3; case expr::CMP: return 4; case expr::MERGE: return 5;
      case expr::ARITH: return e.s == "/" ? 10 : e.s == "+" || e.s == "-" ? 7 : 8; case expr::CAT: case expr::REP: return 8; case expr::REPEAT: case expr::REV: case expr::NOT: case expr::INCR: case expr::ECHO: case expr::SAVE: case expr::DEFINED: return 9; default: return 10; }
  }
  string at_least(E e, int lv) { if (level(*e) < lv || s.chance(1,12)) return "(" + nl() + (*this)(e) + sp0() + ")"; return (*this)(e); }
  // Whether * would multiply it
  static bool may_be_int(E e) { switch (e->kind) { case expr::LIST: return may_be_int(e->k[1]); case expr::SYM: return e->s[0] != 'm' && e->s[0] != 'r'; case expr::INCR: case expr::INT: case expr::ARITH: case expr::AT: case expr::POS: case expr::ROWNO: case expr::BELLS: case expr::LENGTH: case expr::SWAP: return true; default: return false; } }
  string operator()(E e) {
    switch (e->kind) {
      case expr::NOP: return "";
      case expr::PN: return e->spelled;
      case expr::TRANSP: return "'" + model::text(e->ch[0]) + "'";
      case expr::SWAP: return kw("swap") + "(" + std::to_string(e->n + 1) + (e->k.empty() ? string() : "," + sp0() + std::to_string(e->k[0]->n + 1)) + ")";
      case expr::STR: return string_lit(*e);
      case expr::ECHO: return kw("echo") + " " + string_lit(*e);
      case expr::LIST: return at_least(e->k[0], 2) + sp0() + "," + nl() + at_least(e->k[1], 1);
      case expr::REP: { string c = std::to_string(e->n); int how = s.below(4); E k = e->k[0]; if (may_be_int(k) || e->nonl) how = 2; // * makes no block
        if (how == 0) return c + sp0() + "*" + sp0() + at_least(k, 9);
        if (how == 1) return at_least(k, 10) + " * " + c;
        string t = at_least(k, 9); return c + (isdigit(t[0]) ? " " : sp0()) + t; }
      case expr::REPEAT: { string t = at_least(e->k[0], 9); return kw("repeat") + string(t[0] == '(' || t[0] == '{' ? sp0() : " ") + t; }
      case expr::ALT: { string r = "{" + nl(); for (size_t i=0; i<e->test.size(); ++i) { if (i) r += ";" + nl(); if (e->test[i]) r += (*this)(e->k[2*i]) + sp0() + ":" + nl(); r += (*this)(e->k[2*i+1]); } if (s.chance(1,6)) r += ";"; return r + nl() + "}"; }
      case expr::REV: return "~" + at_least(e->k[0], 9);
      case expr::SYM: return nm(e->s);
      case expr::SET: return nm(e->s) + sp0() + "=" + sp0() + (*this)(e->k[0]);
      case expr::SETNOW: return nm(e->s) + sp0() + ":=" + sp0() + (*this)(e->k[0]);
      case expr::APPEND: return nm(e->s) + sp0() + ".=" + sp0() + (*this)(e->k[0]);
      case expr::INCR: return string(e->n > 0 ? "++" : "--") + nm(e->s);
      case expr::SAVE: return kw("save") + " " + nm(e->s);
      case expr::ENDPROOF: return kw("endproof"); case expr::BREAK: return kw("break");
      case expr::MERGE: return at_least(e->k[0], 6) + " & " + at_least(e->k[1], 7) + (e->s.empty() ? string() : " " + e->s + " " + std::to_string(e->n));
      case expr::INT: return e->n < 0 ? "(0 - " + std::to_string(-e->n) + ")" : s.chance(1,12) ? "0" + std::to_string(e->n) : std::to_string(e->n);
      case expr::BELLS: return kw("bells"); case expr::LENGTH: return kw("length"); case expr::ROWNO: return e->s == "music" ? kw("music") + "()" : kw("rowno") + "()";
      case expr::AT: return kw("at") + "(" + (*this)(e->k[0]) + ")"; case expr::POS: return kw("pos") + "(" + (*this)(e->k[0]) + ")";
      // a slash must not have another on the same line
      case expr::ARITH: { int l = level(*e); if (e->s == "/") return "(" + at_least(e->k[0], 8) + " /\n" + at_least(e->k[1], 9) + ")"; return at_least(e->k[0], l) + " " + e->s + " " + at_least(e->k[1], l + 1); }
      case expr::CAT: return at_least(e->k[0], 9) + " . " + at_least(e->k[1], 8);
      case expr::PATTERN: return "/" + e->pat.text() + "/"; case expr::ROUNDS: return kw("rounds"); case expr::PROVING: return kw("proving");
      case expr::CMP: return at_least(e->k[0], 5) + " " + e->s + " " + at_least(e->k[1], 5);
      case expr::FN: { string r = nm(e->s) + sp0() + "("; for (size_t i=0; i<e->k.size(); ++i) r += (i ? "," + sp0() : "") + at_least(e->k[i], 2); return r + ")"; }
      case expr::AND: return at_least(e->k[0], 4) + " && " + at_least(e->k[1], 3); case expr::OR: return at_least(e->k[0], 3) + " || " + at_least(e->k[1], 2);
      case expr::NOT: return "!" + at_least(e->k[0], 9); case expr::BOOL: return kw(e->n ? "true" : "false");
      case expr::DEFINED: return s.coin() ? kw("defined") + "(" + nm(e->s) + ")" : kw("defined") + " " + nm(e->s);
    }
    return "";
  }
  string string_lit(expr const& e) {
    string r = "\""; for (auto const& p : e.parts) switch (p.kind) { case 'v': r += "${" + nm(p.text) + "}"; break; case '@': case '#': case '$': r += p.kind; break; default: r += p.text; }
    if (e.abort) r += "$$"; if (e.nonl) r += "\\"; return r + "\"";
  }
};

// ---------------------------------------------------------------------
// Generating

struct maker {
  Src& s; int n; vector<string> pns, revs, seqs, strs, ints; // symbols of each class, in order of definition
  map<string,int> order; bool musical; int depth_limit;
  maker(Src& src, int bells) : s(src), n(bells), musical(false), depth_limit(4) {}

  vector<string> titles, loaded; map<string,string> names; // names: of symbols holding methods
  E load(string const& fn) { E e = mk(expr::FN, mk_str(s.pick(titles))); e->s = fn; return e; }
  E music(bool fns = true) {
    if (!fns || s.chance(1,2)) { E e = mk(expr::PATTERN); e->pat = gen_pattern(s, n, false); return e; }
    E e = mk(expr::FN); static char const* f[] = { "runs", "frontruns", "backruns", "crus" }; e->s = f[s.below(4)];
    if (e->s != "crus") { if (s.chance(2,3)) { e->k.push_back(mk_int(s.range(2, n + 1))); if (s.coin()) { long d = s.range(-1, 1); e->k.push_back(mk_int(d)); } } }
    return e;
  }
  string spell(vector<perm> const& c, size_t from, size_t to) {
    string r; bool prev_x = true;
    for (size_t i=from; i<to; ++i) { bool x; string t = model::gen_spelling(s, c[i], &x);
      if (!x && s.chance(1,10)) { vector<int> pl = model::places(c[i]); t = ""; for (size_t q=0; q<pl.size(); ++q) { if (pl[q] == n-1 && s.coin()) t += s.coin() ? "{N}" : "{ N }"; else if (s.chance(1,3)) t += "{N-" + std::to_string(n - 1 - pl[q]) + "}"; else if (q+2 < pl.size() && pl[q+2] == pl[q] + 2 && pl[q] + 2 < 10) { t += model::sym(pl[q]) + ".." + model::sym(pl[q+2]); q += 2; } else t += model::sym(pl[q]); } }
      if (i > from && !x && !prev_x) r += "."; else if (i > from && s.chance(1,10)) r += "."; r += t; prev_x = x; }
    return r;
  }
  E pn(vector<perm> const& c) {
    E e = mk(expr::PN); e->ch = c; size_t m = c.size(); bool pal = m % 2 == 1; for (size_t i=0; i<m/2; ++i) if (c[i] != c[m-1-i]) pal = false;
    if (pal && (m > 1 ? s.chance(3,4) : s.chance(1,4))) e->spelled = "&" + spell(c, 0, m/2 + 1); else e->spelled = "+" + spell(c, 0, m);
    return e;
  }
  E gen_pn() {
    vector<perm> c; int len = s.chance(1,3) ? 1 : s.range(1, 6); int style = s.below(3);
    if (style == 0) { perm a = model::rounds(n), b = model::rounds(n); for (int i=0; i+1<n; i+=2) std::swap(a[i], a[i+1]); for (int i=1; i+1<n; i+=2) std::swap(b[i], b[i+1]); for (int i=0; i<len; ++i) c.push_back(i % 2 ? b : a); }
    else { for (int i=0; i<len; ++i) c.push_back(model::gen_change(s, n)); if (style == 1) for (int i=len-2; i>=0; --i) c.push_back(c[i]); }
    return pn(c);
  }
  string word() { static char const* w[] = { "Cambridge", "p", "- ", "bob", "London: ", "(x)", "a/b", "*", "e=mc", "", "  ", "{}", "[1]", "q;r", "+", "& " }; return w[s.below(16)]; }
  E gen_str(bool may_abort = false) {
    vector<part> p; int k = s.range(0, 4); bool at = false;
    for (int i=0; i<k; ++i) switch (s.below(8)) {
      case 0: case 1: p.push_back(lit(word())); break; case 2: case 3: p.push_back(sp('@')); at = true; break; case 4: p.push_back(sp('#')); break;
      case 5: p.push_back(sp('$')); p.push_back(lit(" ")); break;
      case 6: { static char const* esc[] = { "\\n", "\\t", "\\'", "\\@", "\\#", "\\$", "\\\\", "\\z", "\\x41", "\\xe9", "\\u20AC", "\\U0001F514" }; part q; q.kind = 'e'; q.text = esc[s.below(12)]; p.push_back(q); break; }
      default: if (!strs.empty() && s.coin()) p.push_back(sp('v', s.pick(strs))); else if (!ints.empty()) p.push_back(sp('v', s.pick(ints))); else p.push_back(lit("v")); }
    return mk_str(p, s.chance(1,4), may_abort && !at && s.chance(1,3));
  }
  // integers
  E gen_int(int d) {
    switch (s.below(d > 0 ? 10 : 6)) {
      case 0: return mk_int(s.below(4) ? s.below(10) : s.below(1000)); case 1: return s.coin() ? mk(expr::BELLS) : mk(expr::LENGTH); case 2: return mk(expr::AT, mk_int(s.range(1, n))); case 3: return mk(expr::POS, mk_int(s.range(1, n))); case 4: return mk(expr::ROWNO);
      case 5: if (!ints.empty()) return mk_sym(s.pick(ints)); return mk_int(1);
      default: { static char const* op[] = { "+", "-", "*", "%", "+", "-", "/" }; E e = mk(expr::ARITH, gen_int(d-1), gen_int(d-1)); e->s = op[s.below(7)]; if (e->s == "%" || e->s == "/") e->k[1] = mk_int(s.range(1, 9)); return e; }
    }
  }
  E gen_strval(int d) { switch (s.below(5)) { case 4: if (d > 0) { E e = mk(expr::FN); if (s.coin()) { e->s = "stagename"; E a = s.coin() ? mk(expr::BELLS) : mk_int(s.range(3, 12)); e->k.push_back(a); return e; } if (!loaded.empty() && s.coin()) { e->s = "methname"; e->k.push_back(mk_sym(s.pick(loaded))); e->k[0]->spelled = names[e->k[0]->s]; return e; } e->s = "pnstr"; int k = s.range(1, 2); while (k--) e->k.push_back(block(1)); return e; }
      case 0: if (!strs.empty()) return mk_sym(s.pick(strs)); case 1: if (d > 0) return mk(expr::CAT, gen_strval(d-1), s.chance(1,3) ? gen_int(0) : gen_strval(d-1)); default: return plain_str(); } }
  E plain_str() { E e = gen_str(); e->nonl = false; for (size_t i=0; i<e->parts.size(); ) if (e->parts[i].kind == 'e') e->parts.erase(e->parts.begin() + i); else ++i; return e; }
  E gen_bool(int d) {
    int w = s.below(d > 0 ? 13 : 8);
    switch (w) {
      case 0: case 1: case 2: return music(s.chance(1,3)); case 3: return mk(expr::ROUNDS); case 4: return mk(expr::PROVING); case 5: { E e = mk(expr::BOOL); e->n = s.coin(); return e; }
      case 6: { E e = mk(expr::DEFINED); e->s = s.coin() || strs.empty() ? "nosuch" : s.pick(strs); return e; }
      case 7: case 8: { static char const* op[] = { "==", "!=", "<", ">", "<=", ">=" }; int t = s.below(8); E e;
        if (t == 0 && d > 0) { auto nf = [&]() { E b = gen_bool(0); if (b->kind == expr::FN) b = mk(expr::ROUNDS); return b; }; e = mk(expr::CMP, nf(), nf()); e->s = op[s.below(2)]; } else if (t == 1) { e = mk(expr::CMP, gen_int(0), gen_strval(0)); if (s.coin()) std::swap(e->k[0], e->k[1]); e->s = op[s.below(2)]; }
        else if (t == 2) { e = mk(expr::CMP, gen_strval(0), gen_strval(0)); e->s = op[s.below(6)]; } else { e = mk(expr::CMP, gen_int(1), gen_int(1)); e->s = op[s.below(6)]; } return e; }
      case 9: return mk(expr::NOT, gen_bool(d-1)); case 10: return mk(expr::AND, gen_bool(d-1), gen_bool(d-1)); case 11: return mk(expr::OR, gen_bool(d-1), gen_bool(d-1));
      default: { E e = mk(expr::PATTERN); e->pat = gen_pattern(s, n, false); return mk(expr::LIST, s.chance(1,4) ? echo() : block(1), e); }
    }
  }
  E echo() { E e = gen_str(); e->kind = expr::ECHO; return e; }
  // Only place notation
  E block(int d) {
    switch (s.below(d > 0 ? 8 : 3)) {
      case 0: case 1: return gen_pn(); case 2: if (!pns.empty()) return mk_sym(s.pick(pns)); return gen_pn();
      case 3: case 4: return mk(expr::LIST, block(d-1), block(d-1)); case 5: { E e = mk(expr::REP, block(d-1)); e->n = s.range(0, 4); e->nonl = true; return e; } case 6: return mk(expr::REV, block(d-1));
      default: { E e = mk(expr::MERGE, block(d-1), pn(vector<perm>(1, model::gen_change(s, n)))); if (s.coin()) { e->s = s.coin() ? "<<" : ">>"; e->n = s.range(e->s == ">>" ? 1 : 0, 2); } if (s.chance(1,8)) e->k[1] = gen_pn(); return e; }
    }
  }
  // What can be rung backwards
  E reversible(int d) {
    switch (s.below(d > 0 ? 8 : 4)) {
      case 0: return block(d); case 1: return gen_str(); case 2: if (!revs.empty()) return mk_sym(s.pick(revs)); return gen_pn(); case 3: { E e = mk(expr::TRANSP); e->ch.push_back(model::gen_perm(s, n)); if (s.coin()) e->ch[0] = model::rounds(n); return e; }
      case 4: return mk(expr::REV, reversible(d-1)); case 5: { E e = mk(expr::REP, reversible(d-1)); e->n = s.range(0, 4); return e; } default: return mk(expr::LIST, reversible(d-1), reversible(d-1)); }
  }
  E alternatives(int d, bool rings) {
    E e = mk(expr::ALT); int k = s.range(1, 3);
    for (int i=0; i<k; ++i) { bool t = i + 1 < k || s.chance(2,3); e->test.push_back(t); e->k.push_back(t ? gen_bool(2) : E()); E v = s.chance(1,8) ? mk(expr::NOP) : rings ? seq(d-1) : quiet_seq(d-1); if (!t && v->kind == expr::NOP) v = gen_str(); e->k.push_back(v); }
    return e;
  }
  E assign() {
    switch (s.below(7)) {
      case 0: if (!ints.empty()) { E e = mk(expr::INCR); e->s = s.pick(ints); e->n = s.coin() ? 1 : -1; return e; }
      case 1: if (!strs.empty()) { E e = mk(expr::APPEND, gen_strval_below(s.below(strs.size()))); e->s = strs[last_index]; return e; }
      case 2: if (!strs.empty()) { E e = mk(expr::SETNOW, gen_strval_below(s.below(strs.size()))); e->s = strs[last_index]; return e; }
      case 3: if (!ints.empty()) { E e = mk(expr::SETNOW, gen_int(2)); e->s = s.pick(ints); return e; }
      case 4: if (!ints.empty() && s.chance(1,3)) { E e = mk(expr::SAVE); e->s = s.pick(ints); return e; }
      default: if (!seqs.empty()) { size_t i = s.below(seqs.size()); vector<string> keep(seqs); seqs.resize(i); E v = seq(1); seqs = keep; E e = mk(expr::SET, v); e->s = seqs[i]; return e; }
        if (!revs.empty()) { size_t i = s.below(revs.size()); vector<string> keep(revs); revs.resize(i); E v = reversible(1); revs = keep; E e = mk(expr::SET, v); e->s = revs[i]; return e; }
        return gen_str();
    }
  }
  size_t last_index;
  E gen_strval_below(size_t i) { last_index = i; vector<string> keep(strs); strs.resize(i); E e = gen_strval(1); strs = keep; return e; }
  // Anything
  E seq(int d) {
    switch (s.below(d > 0 ? 16 : 6)) {
      case 0: case 1: return reversible(d); case 2: if (!seqs.empty()) return mk_sym(s.pick(seqs)); if (!pns.empty()) return mk_sym(s.pick(pns)); return gen_pn(); case 3: return gen_str(); case 4: return assign();
      case 5: { E e = mk(expr::SWAP); e->n = s.below(n-1); if (s.coin()) { long j = s.below(n); if (j != e->n) e->k.push_back(mk_int(j)); } return e; }
      case 6: if (s.chance(1,4)) return mk(expr::ENDPROOF); case 7: case 8: case 9: return mk(expr::LIST, seq(d-1), seq(d-1)); case 10: { E e = mk(expr::REP, seq(d-1)); e->n = s.range(0, 5); return e; }
      case 11: case 12: return alternatives(d, true);
      case 13: { // repeat until something
        E c = mk(expr::CMP, mk_sym("loop_counter"), mk_int(s.range(1, 8))); c->s = ">="; E t = mk(expr::OR, c, gen_bool(1)); if (s.coin()) std::swap(t->k[0], t->k[1]); if (s.chance(1,4)) t = c; E a = mk(expr::ALT, t, s.coin() ? mk(expr::BREAK) : mk(expr::LIST, gen_str(), mk(expr::BREAK))); a->test.push_back(true);
        E body = s.coin() ? mk(expr::LIST, block(1), a) : mk(expr::LIST, a, block(1)); if (s.coin()) body = mk(expr::LIST, body, gen_str()); return mk(expr::REPEAT, body); }
      case 14: if (!titles.empty() && s.coin()) { static char const* f[] = { "load", "loadm", "loadlh" }; E e = load(f[s.below(3)]); if (s.chance(1,4)) { e->s = "load"; e = mk(expr::MERGE, e, pn(vector<perm>(1, model::gen_change(s, n)))); } return e; } return s.coin() ? mk(expr::REV, reversible(d-1)) : block(d);
      default: return mk(expr::LIST, seq(d-1), gen_str()); }
  }
  // What rings nothing: for the symbols that are called during the proof
  E quiet_seq(int d, bool may_abort = false) {
    switch (s.below(d > 0 ? 6 : 2)) { case 0: return gen_str(may_abort); case 1: { E e = s.coin() && !ints.empty() ? mk(expr::INCR) : gen_str(may_abort); if (e->kind == expr::INCR) { e->s = s.pick(ints); e->n = 1; } return e; } case 2: case 3: return mk(expr::LIST, quiet_seq(d-1, may_abort), quiet_seq(d-1, may_abort)); case 4: return alternatives_quiet(d, may_abort); default: return assign_quiet(); }
  }
  E alternatives_quiet(int d, bool may_abort) { E e = mk(expr::ALT); int k = s.range(1, 2); for (int i=0; i<k; ++i) { bool t = i + 1 < k || s.chance(2,3); e->test.push_back(t); e->k.push_back(t ? gen_bool_quiet(1) : E()); e->k.push_back(quiet_seq(d-1, may_abort)); } return e; }
  E gen_bool_quiet(int d) { for (int i=0; i<20; ++i) { E e = gen_bool(d); if (!rings(e)) return e; } E e = mk(expr::BOOL); e->n = 1; return e; }
  static bool rings(E e) { if (!e) return false; switch (e->kind) { case expr::LIST: case expr::PN: case expr::MERGE: case expr::TRANSP: case expr::SWAP: return true; default: for (auto const& k : e->k) if (rings(k)) return true; return false; } }
  E assign_quiet() { if (strs.empty()) return gen_str(); E e = mk(expr::SETNOW, gen_strval_below(s.below(strs.size()))); e->s = strs[last_index]; return e; }
};
}
#endif
