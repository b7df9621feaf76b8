// script.h - gsiril scripts with settings and symbols, for C30 and C32
#ifndef SCRIPT_H
#define SCRIPT_H
#include "gsiril.h"
namespace gs {
using namespace pbt;
struct script {
  Src& s; world w; maker m; printer p; vector<string> argv; string text; string note; map<string,string> names; bool msiril;
  script(Src& src, int n) : s(src), m(src, n), p(src, n), msiril(false) { w.n = n; w.rounds = model::rounds(n); }
  void put(string const& t) { text += t; text += s.chance(1,4) ? "; " : s.chance(1,10) ? " // " + string(s.coin() ? "note" : "prove") + "\n" : s.chance(1,12) ? ";\n\n" : "\n"; }
  // a statement with a slash must not be followed by a comment or another on its line
  void put_line(string const& t) { text += t + (s.chance(1,6) ? ";\n" : "\n"); }
  void define(string const& name, E e) { string t = p(e); put_line(name + (t.empty() ? string(s.coin() ? " =" : "=") : string(s.coin() ? " = " : "=") + t)); if (!w.sym.count(name) && w.first.empty()) w.first = name; w.sym[name] = e; }
};
inline script* config(Src& s, int n) {
  script* c = new script(s, n); world& w = c->w;
  vector<std::pair<string,string>> opts; // option, statement
  bool has_b = false; int k = s.below(4);
  auto either = [&](string const& o, string const& st) { if (s.chance(1,3)) { c->argv.push_back(o); return true; } c->put_line(st); return false; };
  bool r_opt = false; string row; if (s.chance(1,4)) { w.rounds = model::gen_perm(s, n); row = model::text(w.rounds); r_opt = s.chance(1,3); }
  if (r_opt) { c->argv.push_back(s.coin() ? "-b" + std::to_string(n) : "--bells=" + std::to_string(n)); c->argv.push_back("-r" + row); has_b = true; } else has_b = either("-b" + std::to_string(n), std::to_string(n) + " bells");
  if (!row.empty() && !r_opt) c->put_line("rounds '" + row + "'");
  if (s.chance(1,4)) { w.extents = s.range(1, 3); either("-n" + std::to_string(w.extents), std::to_string(w.extents) + " extents"); }
  if (s.chance(1,4)) { int lo = s.range(1, 30), hi = s.coin() ? lo : s.range(lo, 60); w.set_length(lo, hi); string d = std::to_string(lo) + "-" + std::to_string(hi); either("--length=" + (lo == hi ? std::to_string(lo) : d), lo == hi ? std::to_string(lo) + " rows" : std::to_string(lo) + " to " + std::to_string(hi) + " rows"); }
  else if (s.chance(1,20)) { int hi = s.range(1, 40); w.set_length(0, hi); c->argv.push_back("--length=-" + std::to_string(hi)); }
  w.everyrow_only = s.chance(1,8); if (w.everyrow_only) { c->argv.push_back("-E"); w.sym["everyrow"] = mk_str(vector<part>(1, sp('@'))); }
  if (s.chance(1,5)) { pattern m = gen_pattern(s, n, true); bool opt = s.chance(1,3) && has_b; if (opt) { c->argv.push_back("--row-mask=" + m.text()); w.has_mask = true; w.mask = m; } else { c->put_line("row_mask /" + m.text() + "/"); if (!w.everyrow_only) { w.has_mask = true; w.mask = m; } } }
  if (s.chance(1,6)) { w.quiet = s.range(1, 2); for (int i=0; i<w.quiet; ++i) c->argv.push_back(s.coin() ? "-q" : "--quiet"); }
  if (s.chance(1,6)) { string t = "music "; int q = s.range(1, 3); for (int i=0; i<q; ++i) { E e = c->m.music(); w.music.push_back(e); t += (i ? ", " : "") + c->p(e); } c->put_line(t); s.label("music"); }
  if (s.chance(1,5) && n > 3) { string f = "* " + std::to_string(n) + "\n"; int q = s.range(1, 3); static char const* nm[] = { "Alpha", "Bravo", "Charlie" };
    for (int i=0; i<q; ++i) { vector<perm> m; int len = s.range(1, 8); while (len--) m.push_back(model::gen_change(s, n)); bool dup = false; for (auto const& l : w.library) if (l.second == m) dup = true; if (dup) continue; string title(gen::to_method(m, n, nm[i]).fullname()); w.library[title] = m; c->m.titles.push_back(title); c->names[title] = nm[i]; f += string(nm[i]) + " z +" + gen::spell_plain(m) + "\n"; }
    string fn = scratch() + "/lib.txt"; write_file(fn, f); c->argv.push_back((s.coin() ? "-L" : "--library=") + fn); s.label("library"); c->note = f; }
  (void)k; return c;
}
inline void symbols_for(script& c) {
  Src& s = c.s; maker& m = c.m; int k;
  k = s.below(3); for (int i=0; i<k; ++i) { string n = "i" + std::to_string(i); E e = mk_int(s.below(20)); c.define(n, e); m.ints.push_back(n); }
  k = s.below(3); for (int i=0; i<k; ++i) { string n = "s" + std::to_string(i); E e = m.plain_str(); c.define(n, e); m.strs.push_back(n); }
  if (!m.titles.empty()) { k = s.range(1, 2); for (int i=0; i<k; ++i) { string n = "md" + std::to_string(i), t = s.pick(m.titles); bool whole = s.coin(); vector<perm> ch = c.w.library[t]; if (!whole) ch.pop_back(); if (ch.empty()) continue; E e = mk(expr::PN); e->ch = ch; e->spelled = string(whole ? "load" : "loadm") + "(\"" + t + "\")"; c.put_line(n + " := " + e->spelled); if (c.w.first.empty()) c.w.first = n; c.w.sym[n] = e; m.pns.push_back(n); m.loaded.push_back(n); m.names[n] = c.names[t]; } }
  k = s.range(1, 3); for (int i=0; i<k; ++i) { string n = "m" + std::to_string(i); E e = m.block(2); c.define(n, e); m.pns.push_back(n); }
  k = s.below(3); for (int i=0; i<k; ++i) { string n = "r" + std::to_string(i); E e = m.reversible(2); c.define(n, e); m.revs.push_back(n); }
  k = s.below(4); for (int i=0; i<k; ++i) { string n = "q" + std::to_string(i); E e = m.seq(2); c.define(n, e); m.seqs.push_back(n); }
  static char const* ev[] = { "start", "finish", "everyrow", "rounds", "conflict", "true", "notround", "false", "tooshort", "toolong", "abort" };
  k = s.below(4); for (int i=0; i<k; ++i) { string n = ev[s.below(11)]; E e = n == "start" || n == "finish" ? (s.coin() ? m.quiet_seq(2, s.chance(1,4)) : m.seq(1)) : s.chance(1,6) ? mk(expr::NOP) : m.quiet_seq(2, s.chance(1,4)); c.define(n, e); s.label(n); }
}
}
#endif
