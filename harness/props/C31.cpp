// C31 - gsiril's statements, settings and modes
//! apps: gsiril
#include "gsiril.h"
using namespace model; using namespace pbt; using namespace gs;

struct st { enum kind_t { DEF, DEFQ, DEFNOW, ECHO, WARN, FAIL, PROVE, IF, FOREACH, IMPORT, NOTE, EXTENTS, LENGTH } kind; string name; E e; vector<E> items; vector<vector<st>> blocks; long a, b; bool abs;
  st(kind_t k) : kind(k), a(0), b(0), abs(false) {} };

struct writer {
  Src& s; int n; maker m; printer p; vector<string> ints, strs, pns, arrays; int depth, imports; std::map<string,string> files; string dir; std::set<string> made; bool allow_import, prefix_only; string lib;
  writer(Src& src, int bells) : s(src), n(bells), m(src, bells), p(src, bells), depth(0), imports(0), allow_import(true) {
    dir = scratch(); static char const* names[] = { "i0", "count", "x_y", "s0", "Name", "t_1", "m0", "lead", "plain3" };
    ints.assign(names, names + 3); strs.assign(names + 3, names + 6); pns.assign(names + 6, names + 9); }
  void fold() { for (auto* v : { &ints, &strs, &pns }) for (auto& x : *v) for (char& c : x) c = tolower(c); }
  // only what has surely been defined may be used
  void refresh() { m.ints.clear(); m.strs.clear(); m.pns.clear(); for (auto const& x : ints) if (made.count(x)) m.ints.push_back(x); for (auto const& x : strs) if (made.count(x)) m.strs.push_back(x); for (auto const& x : pns) if (made.count(x)) m.pns.push_back(x); }
  void below(vector<string>& v, vector<string> const& all, size_t i) { vector<string> r; for (size_t j=0; j<i; ++j) if (made.count(all[j])) r.push_back(all[j]); v = r; }
  st definition() {
    refresh(); st r(st::DEF); int t = s.below(3); r.kind = s.chance(1,4) ? st::DEFQ : s.chance(1,4) ? st::DEFNOW : st::DEF; size_t i = s.below(3);
    if (t == 0) { r.name = ints[i]; below(m.ints, ints, i); m.strs.clear(); r.e = r.kind == st::DEFNOW ? m.gen_int(2) : mk_int(s.below(30)); if (r.kind == st::DEFNOW && s.coin() && made.count(r.name)) { r.e = mk(expr::ARITH, mk_sym(r.name), mk_int(s.range(1, 5))); r.e->s = s.coin() ? "+" : "*"; } }
    else if (t == 1) { r.name = strs[i]; below(m.strs, strs, i); r.e = m.plain_str(); if (r.kind == st::DEFNOW && s.coin() && made.count(r.name)) r.e = mk(expr::CAT, mk_sym(r.name), r.e); }
    else { r.name = pns[i]; r.kind = r.kind == st::DEFNOW ? st::DEF : r.kind; below(m.pns, pns, i); r.e = m.block(1); }
    refresh(); return r;
  }
  void note(vector<st> const& b) { for (auto const& x : b) if (x.kind == st::DEF || x.kind == st::DEFQ || x.kind == st::DEFNOW) made.insert(x.name); }
  E cond() { refresh(); return m.gen_bool_quiet(2); }
  vector<st> block(int len) { vector<st> r; std::set<string> keep(made); ++depth; while (len--) r.push_back(statement()); --depth; inner = made; made = keep; return r; }
  std::set<string> inner;
  st statement() {
    refresh();
    for (;;) switch (s.below(16)) {
      case 0: case 1: case 2: case 3: { st r = definition(); made.insert(r.name); return r; }
      case 4: case 5: { st r(st::ECHO); int t = s.below(5); r.e = t == 0 ? m.gen_int(1) : t == 1 ? m.gen_strval(1) : m.gen_str(); return r; }
      case 6: { st r(st::PROVE); r.e = m.seq(s.range(1, 2)); if (s.coin()) { // use the values
          vector<part> v; for (auto const& x : made) if (std::find(pns.begin(), pns.end(), x) == pns.end()) { v.push_back(lit(x + "=")); v.push_back(sp('v', x)); v.push_back(lit(" ")); } r.e = mk(expr::LIST, r.e, mk_str(v)); } return r; }
      case 7: case 8: if (depth > 2) break; { st r(st::IF); int k = s.range(1, 3); for (int i=0; i<k; ++i) { r.items.push_back(i && i + 1 == k && s.coin() ? E() : cond()); r.blocks.push_back(block(s.range(0, 3))); }
          // what is after a branch that's taken is not looked at
          if (k > 1 && s.chance(1,4)) { E yes = mk(expr::BOOL); yes->n = 1; r.items[0] = yes; for (int i=1; i<k; ++i) if (r.items[i] && s.coin()) { r.items[i] = mk_sym("nosuch"); s.label("if with a bad condition not reached"); } } return r; }
      case 9: if (depth > 2) break; { st r(st::FOREACH); r.name = "each" + std::to_string(depth); int k = s.range(1, 4); int t = s.below(3); for (int i=0; i<k; ++i) r.items.push_back(t == 0 ? mk_int(s.below(50)) : t == 1 ? m.plain_str() : s.coin() && !m.strs.empty() ? mk_sym(s.pick(m.strs)) : m.plain_str()); r.a = t == 0; r.b = s.below(k + 1); if (s.chance(2,3)) r.b = 0;
        vector<string> keep = strs, keepi = ints; if (t == 0) ints.push_back(r.name); else strs.push_back(r.name); made.insert(r.name); r.blocks.push_back(block(s.range(1, 3))); made.erase(r.name); strs = keep; ints = keepi; st e(st::ECHO); e.e = mk_str(vector<part>(1, sp('v', r.name))); if (s.coin()) r.blocks[0].push_back(e); return r; }
      case 10: case 11: if (!allow_import || imports >= 3 || depth) break; { st r(st::IMPORT); r.name = "mod" + std::to_string(imports++); r.a = s.below(4); r.b = s.chance(1,3) ? s.range(3, 9) : 0; r.abs = s.coin(); ++depth; vector<st> b; int k = s.range(0, 4); if (r.b && r.b != n) { // on another number of bells: nothing but strings
            while (k--) { st d(st::DEF); d.name = strs[s.below(3)]; d.e = mk_str(m.word()); b.push_back(d); made.insert(d.name); } } else while (k--) b.push_back(s.chance(1,5) ? statement() : definition()), note(vector<st>(1, b.back())); --depth; r.blocks.push_back(b); return r; }
      case 12: return st(st::NOTE); case 13: if (!s.chance(1,3)) break; { st r(st::EXTENTS); r.a = s.range(1, 3); return r; } case 14: if (!s.chance(1,3)) break; { st r(st::LENGTH); r.a = s.range(1, 20); r.b = s.coin() ? r.a : s.range(r.a, 40); return r; }
      default: if (s.chance(1,6)) { st r(st::WARN); r.e = m.gen_str(); return r; } if (s.chance(1,12)) { st r(st::FAIL); r.e = m.gen_str(); return r; } }
  }
  string sep() { return s.chance(1,6) ? " // note, {prove\n" : s.chance(1,8) ? "\n\n" : "\n"; }
  string def(st const& t) { string v = p(t.e); string op = t.kind == st::DEF ? "=" : t.kind == st::DEFQ ? "?=" : ":="; return p.nm(t.name) + p.sp0() + op + " " + v; }
  string print(vector<st> const& b, string const& in) {
    string r; for (auto const& t : b) { r += in; bool slash = false; string x;
      switch (t.kind) {
        case st::DEF: case st::DEFQ: case st::DEFNOW: x = def(t); break;
        case st::ECHO: x = p.kw("echo") + " " + p(t.e); break; case st::WARN: x = p.kw("warn") + " " + p(t.e); break; case st::FAIL: x = p.kw("error") + " " + p(t.e); break;
        case st::PROVE: x = p.kw("prove") + " " + p(t.e); break;
        case st::IF: for (size_t i=0; i<t.items.size(); ++i) { if (!t.items[i]) x += in + p.kw("else") + "\n"; else x += (i ? in + p.kw("elseif") : p.kw("if")) + " " + p(t.items[i]) + "\n"; x += print(t.blocks[i], in + "  "); } x += in + p.kw("endif"); break;
        case st::FOREACH: { auto arr = [&](size_t i, size_t j) { string q = "["; for (size_t k=i; k<j; ++k) q += (k > i ? "," : "") + p.sp0() + p(t.items[k]); return q + p.sp0() + "]"; };
          x = p.kw("foreach") + " " + (t.b ? arr(0, t.b) + " . " : "") + arr(t.b, t.items.size()) + " " + p.kw("as") + " " + p.nm(t.name) + "\n" + print(t.blocks[0], in + "  ") + in + p.kw("endfor"); break; }
        case st::IMPORT: { static char const* ext[] = { "", ".gsir", ".sir", ".x" }; string f = t.name + ext[t.a], d = dir; string text; if (t.b) text = std::to_string(t.b) + " bells\n"; int keep = p.n; text += print(t.blocks[0], ""); p.n = keep; files[f] = text; string call = t.name + (t.a == 3 ? ".x" : s.chance(1,3) ? ext[t.a] : ""); bool path = t.abs; if (path) call = dir + "/" + call; x = p.kw("import") + " " + (call == t.name && s.coin() ? call : "\"" + call + "\""); break; }
        case st::NOTE: x = s.coin() ? "// echo \"no\"" : ""; break;
        case st::EXTENTS: x = std::to_string(t.a) + " " + p.kw("extents"); break; case st::LENGTH: x = std::to_string(t.a) + (t.a == t.b ? "" : " " + p.kw("to") + " " + std::to_string(t.b)) + " " + p.kw("rows"); break; }
      (void)slash; if (t.kind == st::NOTE || x.find('/') != string::npos) r += x + "\n"; else if (s.chance(1,6) && t.kind != st::IF && t.kind != st::FOREACH) r += x + "; "; else r += x + sep(); }
    if (!r.empty() && r[r.size()-1] != '\n') r += "\n"; return r;
  }
};
struct failed_stmt {};
struct machine {
  world& w; bool one, determine; string err; bool proved; bool done;
  machine(world& x) : w(x), one(false), determine(false), proved(false), done(false) {}
  void define(string const& n, E e) { if (!w.sym.count(n) && w.first.empty()) w.first = n; w.sym[n] = e; }
  void prove(E e) { if (one && proved) throw gs::error{ "Already done proof" }; proved = true; if (determine) w.out += std::to_string(w.n) + " bells\n"; w.prove(e); }
  void run(vector<st> const& b, writer& g) {
    for (auto const& t : b) { w.tick(); switch (t.kind) {
      case st::DEF: define(t.name, t.e); break;
      case st::DEFQ: if (!w.sym.count(t.name)) define(t.name, t.e); break;
      case st::DEFNOW: { proof c = w.new_proof(); E v = w.value(c, t.e); define(t.name, v); break; }
      case st::ECHO: case st::WARN: case st::FAIL: { proof c = w.new_proof(); bool none = false; string o; bool nonl = false; if (t.e->kind == expr::STR) { o = w.subst(c, *t.e, none); nonl = t.e->nonl || none; } else o = w.text(c, t.e); o += nonl ? "" : "\n"; if (t.kind == st::ECHO) { if (w.quiet < 2) w.out += o; } else err += o; if (t.kind == st::FAIL) throw failed_stmt(); break; }
      case st::PROVE: prove(t.e); break;
      case st::IF: for (size_t i=0; i<t.items.size(); ++i) { bool ok = true; if (t.items[i]) { proof c = w.new_proof(); c.silent = true; ok = w.truth(c, t.items[i]); } if (ok) { g.s.label("if branch " + std::to_string(i)); run(t.blocks[i], g); break; } } break;
      case st::FOREACH: for (E x : t.items) { define(t.name, x); run(t.blocks[0], g); } break;
      case st::IMPORT: { string keep = w.first; run(t.blocks[0], g); w.first = keep; g.s.label("import"); break; }
      case st::NOTE: break; case st::EXTENTS: w.extents = t.a; break; case st::LENGTH: w.set_length(t.a, t.b); break; } } }
};
static void check_run(Src& s, writer& g, machine& mc, vector<string> const& opts, string const& text, int want) {
  vector<string> argv(1, app("gsiril")); argv.insert(argv.end(), opts.begin(), opts.end()); string in = text; int how = s.below(3);
  if (how == 0) { argv.push_back("-e"); argv.push_back(in.empty() ? " " : in); in = "quit"; } else if (how == 1) { string f = scratch() + "/script"; write_file(f, in); argv.push_back("--script-file=" + f); in = "quit"; }
  string note = cmdline(opts) + "\n" + text; for (auto const& f : g.files) { write_file(g.dir + "/" + f.first, f.second); note += "--- " + f.first + "\n" + f.second; } s.renote(note);
  vector<string> env(1, "GSIRIL_LIBRARY_PATH=" + string(s.coin() ? "/nonexistent:" : "") + g.dir);
  run_result r = run_ok(argv, in, "/", env);
  CHECK(r.out == mc.w.out, "gsiril prints:\n" << r.out << "but expected:\n" << mc.w.out << "with errors " << r.err << "for " << note);
  CHECK(r.status == want, "status " << r.status << ", expected " << want << ", with errors " << r.err << "for " << note);
  if (want == 2) CHECK(r.err.size() > mc.err.size() && r.err.substr(0, mc.err.size()) == mc.err, "errors " << r.err << ", expected at least " << mc.err); else CHECK(r.err == mc.err, "errors " << r.err << ", expected " << mc.err << " for " << note);
}

SUB(statements, 6000, 120000, "programs of definitions, conditional and immediate definitions, if, foreach, echo, warn, error, import, settings and proofs on 3 to 8 bells, nested and in modules, with -D, -S, -m, -P, -I, -q, -E, tracing and one proof allowed: everything printed and the exit status, as an interpreter in the harness works them out; non-trivial when there is a proof, and a branch or module or option") {
  int n = s.range(3, 8); writer g(s, n); world w; w.n = n; w.rounds = model::rounds(n); machine mc(w); vector<string> opts; vector<st> modules;
  bool ci = s.chance(1,4); if (ci) { opts.push_back(s.coin() ? "-I" : "--case-insensitive"); g.p.ci = true; g.fold(); s.label("-I"); }
  bool bells_opt = s.chance(2,3); if (bells_opt) opts.push_back("-b" + std::to_string(n));
  if (s.chance(1,6)) { w.quiet = s.range(1, 2); opts.push_back(w.quiet == 1 ? "-q" : "-qq"); } else if (s.chance(1,10)) { mc.determine = true; w.quiet = 2; opts.push_back("--determine-bells"); }
  if (s.chance(1,10)) { w.everyrow_only = true; opts.push_back("-E"); }
  if (s.chance(1,8)) { mc.one = true; opts.push_back("--prove-one"); }
  if (s.chance(1,6)) { if (s.coin()) { w.trace_all = true; opts.push_back("--trace-all-symbols"); } else { int k = s.range(1, 2); while (k--) { string t = s.pick(s.coin() ? g.pns : g.strs); if (!w.traced.insert(t).second) break; opts.push_back("--trace-symbol=" + t); } } s.label("trace"); }
  vector<string> dopts, mopts; std::set<string> early; int status = 0; bool fatal = false;
  try {
    if (s.chance(1,4)) { int k = s.range(1, 2); while (k--) { string nm = g.strs[s.below(3)], v = s.chance(1,4) ? "a@b $" : g.m.word(); opts.push_back((s.coin() ? "-S" : "--string=") + g.p.nm(nm) + "=" + v); w.sym[nm] = mk_str(v); g.made.insert(nm); s.label("-S"); } }
    if (s.chance(1,3)) { int k = s.range(1, 3); while (k--) { st d = g.definition(); if (!bells_opt && d.e->kind != expr::STR && d.e->kind != expr::INT) continue; g.p.comments = false; string t = g.def(d); g.p.comments = true; if (!bells_opt && t.find('@') != string::npos) continue; if (!bells_opt && d.kind == st::DEFNOW) continue; g.made.insert(d.name); opts.push_back((s.coin() ? "-D" : "--define=") + t); mc.run(vector<st>(1, d), g); s.label("-D"); } }
    if (bells_opt && s.chance(1,4)) { st t(st::IMPORT); t.name = "first"; t.a = s.below(4); vector<st> b; int k = s.range(0, 3); while (k--) { b.push_back(g.definition()); g.note(vector<st>(1, b.back())); } static char const* ext[] = { "", ".gsir", ".sir", ".x" }; string f = t.name + ext[t.a]; g.files[f] = g.print(b, ""); opts.push_back((s.coin() ? "-m" : "--module=") + string(s.coin() ? g.dir + "/" : "") + (t.a == 3 || s.coin() ? f : t.name)); mc.run(b, g); s.label("-m"); }
    if (w.everyrow_only) w.sym["everyrow"] = mk_str(vector<part>(1, sp('@')));
    early = g.made; w.first.clear();
    string text; if (!bells_opt) { if (s.chance(1,4)) { g.files["bells.gsir"] = std::to_string(n) + " " + g.p.kw("bells") + "\n"; text = g.p.kw("import") + " bells\n"; } else text = std::to_string(n) + " " + g.p.kw("bells") + "\n"; }
    vector<st> b; int k = s.range(2, 9); while (k--) b.push_back(g.statement());
    // which symbol comes first is plain only if a new one is defined before anything else
    bool clear = !b.empty() && b[0].kind == st::DEF && !early.count(b[0].name); bool pfirst = clear && s.chance(1,4);
    text += g.print(b, ""); if (pfirst) { opts.push_back("-P"); s.label("-P"); }
    string psym; if (!pfirst && s.chance(1,6)) { vector<string> ok; for (auto const& x : b) if (x.kind == st::DEF && (x.e->kind == expr::STR || std::find(g.pns.begin(), g.pns.end(), x.name) != g.pns.end())) ok.push_back(x.name); if (!ok.empty()) { psym = s.pick(ok); opts.push_back((s.coin() ? "-P" : "--prove=") + psym); s.label("-P name"); } }
    s.renote(cmdline(opts) + "\n" + text);
    E first_value; if (pfirst) first_value = b[0].e;
    try { mc.run(b, g); if (pfirst) { if (!mc.proved) { w.sym["__first__"] = first_value; mc.prove(mk_sym("__first__")); } } else if (!psym.empty()) { E e = w.lookup(proof{}, psym); (void)e; mc.prove(mk_sym(psym)); } if (mc.one && !mc.proved) fatal = true; }
    catch (failed_stmt) { status = 1; s.label("error statement"); } catch (gs::error const&) { fatal = true; }
    if (fatal) status = 2; else if (w.failed && !mc.determine) status = 1;
    check_run(s, g, mc, opts, text, status);
    s.nontrivial(mc.proved && (text.find("if ") != string::npos || !g.files.empty() || opts.size() > 1)); if (fatal) s.label("fatal");
  } catch (gs::too_long) { s.discard(); } catch (gs::stopped) { s.discard(); } catch (gs::broken) { s.discard(); }
}

SUB(filter, 4000, 80000, "streams of methods on 4 to 8 bells, with payloads, blank lines, unreadable lines and methods on other numbers of bells, filtered by programs that prove something made of each lead, with every choice of symbols: the methods printed, their place notation and payloads, and what the program prints itself; non-trivial when some of the methods are printed and some are not") {
  int n = s.range(4, 8); writer g(s, n); world w; w.n = n; w.rounds = model::rounds(n); w.filter = true; machine mc(w); vector<string> argv(1, app("gsiril")); g.allow_import = false;
  argv.push_back("--filter"); argv.push_back("-b" + std::to_string(n)); if (s.chance(1,5)) { argv.push_back("-qq"); w.quiet = 2; } bool every = s.chance(1,10); if (every) { argv.push_back("-E"); w.everyrow_only = true; w.sym["everyrow"] = mk_str(vector<part>(1, sp('@'))); }
  string lead = "m", lh = "lh", pay; bool whole = s.chance(1,4); if (s.chance(1,5)) { lead = "Lead_1"; argv.push_back("--lead-symbol=" + lead); } if (s.chance(1,5)) { lh = "end2"; argv.push_back("--lh-symbol=" + lh); } if (whole) argv.push_back("--lead-includes-lh"); if (s.coin()) { pay = "pay"; argv.push_back("--payload-symbol=" + pay); }
  // the program
  vector<st> b; E lead_e = mk_sym(lead), lh_e = mk_sym(lh), plain = whole ? lead_e : mk(expr::LIST, lead_e, lh_e);
  E call = mk(expr::LIST, lead_e, g.m.pn(vector<perm>(1, gen_change(s, n)))); if (whole) { call = mk(expr::MERGE, lead_e, g.m.pn(vector<perm>(1, gen_change(s, n)))); }
  { st d(st::DEF); d.name = "p"; d.e = plain; b.push_back(d); d.name = "b"; d.e = call; b.push_back(d); } E part = mk_sym("p");
  if (s.coin()) part = mk(expr::LIST, mk_sym(s.coin() ? "p" : "b"), mk_sym("b")); if (s.chance(1,3)) part = mk(expr::LIST, part, g.m.quiet_seq(1));
  E prove; int shape = s.below(3); if (shape == 0) { prove = mk(expr::REP, part); prove->n = s.range(1, n); } else if (shape == 1) { E a = mk(expr::ALT, mk(expr::ROUNDS), mk(expr::BREAK)); a->test.push_back(true); E c = mk(expr::CMP, mk_sym("loop_counter"), mk_int(n)); c->s = ">="; a = mk(expr::ALT, mk(expr::OR, mk(expr::ROUNDS), c), mk(expr::BREAK)); a->test.push_back(true); prove = mk(expr::REPEAT, mk(expr::LIST, part, a)); } else prove = g.m.block(2);
  if (s.coin()) { prove = mk(expr::REP, mk_sym("p")); prove->n = n - 1; }
  bool change_pay = !pay.empty() && s.coin(); if (change_pay) { st d(st::DEFNOW); d.name = pay; d.e = mk(expr::CAT, mk(expr::CAT, mk_str("<"), mk_sym(pay)), mk_str(">")); b.push_back(d); }
  if (s.chance(1,3)) { st e(st::ECHO); vector<gs::part> v(1, lit("next ")); if (!pay.empty()) v.push_back(sp('v', pay)); e.e = mk_str(v); b.push_back(e); }
  if (s.chance(1,4)) { st x(st::EXTENTS); x.a = s.range(1, 2); b.push_back(x); } if (s.chance(1,6)) { st x(st::LENGTH); x.a = s.range(1, 40); x.b = s.range(x.a, 100); b.push_back(x); }
  int how = s.below(3); if (how == 0) { st d(st::PROVE); d.e = prove; b.push_back(d); } else { st d(st::DEF); d.name = "touch"; d.e = prove; if (how == 1) b.insert(b.begin(), d); else b.push_back(d); argv.push_back(how == 1 ? "-P" : "-Ptouch"); }
  bool two = how == 0 && s.chance(1,5); if (two) { st d(st::PROVE); d.e = g.m.block(1); b.push_back(d); } if (s.chance(1,6)) { argv.push_back("--prove-one"); mc.one = true; }
  string text = g.print(b, ""); if (s.coin()) { argv.push_back("-e"); argv.push_back(text); } else { string f = scratch() + "/script.gsir"; write_file(f, text); argv.push_back("-f"); argv.push_back(f); }
  // the stream
  string in = s.chance(1,4) ? "\xef\xbb\xbf" : ""; int lines = s.range(2, 7), yes = 0, no = 0, err = 0; bool fatal = false; vector<std::pair<vector<perm>,string>> want; string expected_out; vector<string> kept;
  struct piece { bool method; string text; vector<perm> ch; string pay; }; vector<piece> wanted;
  try {
    for (int i=0; i<lines; ++i) {
      if (s.chance(1,8)) in += s.coin() ? "\n" : "  \t\n";
      if (s.chance(1,8)) { in += s.coin() ? "hello there\n" : "17 oops\n"; ++err; continue; }
      if (s.chance(1,8)) { in += std::to_string(n + 1) + ":&-1-1,2 another\n"; continue; }
      gen::changes m = gen::gen_method(s, n, 0, 12); if (s.coin()) { m.clear(); int len = s.range(2, 8); perm hunt[2]; for (int h=0; h<2; ++h) { hunt[h] = model::rounds(n); for (int q=h; q+1<n; q+=2) std::swap(hunt[h][q], hunt[h][q+1]); } for (int q=0; q<len; ++q) m.push_back(hunt[q % 2]); if (s.coin()) m.back() = gen_change(s, n); }
      if (m.empty()) continue; string pn; size_t k = m.size(); bool pal = k % 2 == 0; for (size_t q=0; pal && q<k/2; ++q) if (m[q] != m[k-2-q]) pal = false;
      if (pal && s.coin()) pn = "&" + gen::spell_plain(vector<perm>(m.begin(), m.begin() + k/2)) + "," + (s.coin() ? "+" : "") + gen::spell_plain(vector<perm>(m.end()-1, m.end())); else pn = (s.coin() ? "+" : "") + gen::spell_plain(m);
      string payload = s.chance(1,4) ? "" : g.m.word(); while (!payload.empty() && isspace((unsigned char)payload[0])) payload.erase(0, 1); while (!payload.empty() && isspace((unsigned char)payload[payload.size()-1])) payload.erase(payload.size()-1);
      in += (s.chance(1,6) ? " " : "") + (s.chance(1,6) ? std::to_string(n) + ":" : string()) + pn + (payload.empty() ? "" : s.coin() ? "\t" : " ") + payload + (s.chance(1,6) ? " " : "") + (s.chance(1,10) ? "\r\n" : "\n");
      // what should be done
      if (fatal) continue; auto pe = [&](vector<perm> const& c) { E e = mk(expr::PN); e->ch = c; return e; };
      w.sym[lh] = pe(vector<perm>(m.end() - 1, m.end())); w.sym[lead] = pe(whole ? m : vector<perm>(m.begin(), m.end() - 1)); if (!pay.empty()) w.sym[pay] = mk_str(payload);
      w.out.clear(); w.failed = false; mc.proved = false;
      try { mc.run(b, g); if (how == 1) mc.prove(prove); if (how == 2) mc.prove(mk_sym("touch")); } catch (gs::error const&) { fatal = true; }
      if (!w.out.empty()) { piece p; p.method = false; p.text = w.out; wanted.push_back(p); }
      if (fatal) continue;
      if (!w.failed) { ++yes; piece p; p.method = true; p.ch = m; p.pay = change_pay ? "<" + payload + ">" : payload; wanted.push_back(p); } else ++no;
    }
  } catch (gs::too_long) { s.discard(); } catch (gs::stopped) { s.discard(); } catch (gs::broken) { s.discard(); }
  string note = cmdline(argv) + "\n--- stream\n" + in; s.renote(note); s.nontrivial(yes && no); if (fatal) s.label("fatal"); if (yes) s.label("some pass");
  run_result r = run_ok(argv, in); size_t at = 0;
  for (auto const& p : wanted) {
    if (!p.method) { CHECK(r.out.compare(at, p.text.size(), p.text) == 0, "expected " << quote(p.text) << " at " << quote(r.out.substr(at)) << " of " << quote(r.out) << "\n" << r.err); at += p.text.size(); continue; }
    size_t e = r.out.find('\n', at), t = r.out.find('\t', at); CHECK(e != string::npos && t != string::npos && t < e, "a method should be printed at " << quote(r.out.substr(at)) << " of " << quote(r.out) << "\n" << r.err); gen::changes got;
    string pn = r.out.substr(at, t - at); CHECK(gen::read_pn(pn, n, got) && got == p.ch, "method " << pn << " printed instead of " << gen::spell_plain(p.ch) << ": " << r.out); CHECK(pn[0] == '+' || pn[0] == '&', "no sign before " << pn);
    CHECK_EQ(r.out.substr(t + 1, e - t - 1), p.pay, "payload in " << r.out); at = e + 1; }
  CHECK_EQ(r.out.substr(at), string(), "more printed than expected: " << r.err); CHECK_EQ(r.status, fatal ? 2 : 0, "status, with " << r.err); if (!err && !fatal) CHECK_EQ(r.err, string(), "errors");
}

SUB(microsiril, 3000, 60000, "programs in the language of MicroSIRIL on 3 to 8 bells: the first symbol is proved, symbols have odd characters and any case, and comments follow one stroke: what is printed, and the exit status; non-trivial when the proof has three or more rows") {
  int n = s.range(3, 8); writer g(s, n); world w; w.n = n; w.rounds = model::rounds(n); machine mc(w); g.p.ci = true; g.p.comments = false; vector<string> names, argv(1, app("gsiril"));
  argv.push_back(s.coin() ? "--msiril" : s.coin() ? "--sirilic" : "--msiril"); bool sirilic = argv.back() == "--sirilic";
  static char const* nm[] = { "touch", "p!", "b-1", "c%d", "s_x", "q7", "a-!" }; int k = s.range(2, 7); for (int i=0; i<k; ++i) names.push_back(nm[i]);
  auto str_of = [&]() { E e; do { e = g.m.gen_str(); for (size_t i=0; i<e->parts.size(); ) { auto const& p = e->parts[i]; if (p.kind == 'v' || p.kind == 'e' || (p.kind == 'l' && p.text.find('_') != string::npos)) e->parts.erase(e->parts.begin() + i); else ++i; } if (s.chance(1,6)) e->parts.push_back(sp('$')), e->parts.push_back(lit("{x}")); } while (0); return e; };
  std::function<E(int,int)> any = [&](int d, int from) -> E { switch (s.below(d > 0 ? 8 : 4)) { case 0: case 1: return g.m.gen_pn(); case 2: return str_of(); case 3: if (from < k) return mk_sym(names[s.range(from, k-1)]); { E e = mk(expr::TRANSP); e->ch.push_back(gen_perm(s, n)); return e; } case 4: { E e = mk(expr::REP, any(d-1, from)); e->n = s.range(0, 4); e->nonl = true; return e; } default: return mk(expr::LIST, any(d-1, from), any(d-1, from)); } };
  string text; auto line = [&](string const& t) { text += t + (s.chance(1,4) ? " / " + string(s.coin() ? "notes" : "prove \"x\"") + "\n" : s.chance(1,6) ? ";\n" : "\n"); };
  line(std::to_string(n) + " " + g.p.kw("bells")); if (s.chance(1,5)) { w.extents = s.range(1, 2); line(std::to_string(w.extents) + " " + g.p.kw("extents")); }
  vector<std::pair<string,E>> defs; for (int i=0; i<k; ++i) defs.push_back(std::make_pair(names[i], any(i ? 2 : 3, i + 1))); for (int i=k-1; i>1; --i) std::swap(defs[i], defs[s.range(1, i)]);
  static char const* ev[] = { "start", "finish", "everyrow", "rounds", "conflict", "true", "notround", "false", "abort" }; int q = s.below(3); while (q--) defs.push_back(std::make_pair(string(ev[s.below(9)]), str_of()));
  for (auto const& d : defs) { line(g.p.nm(d.first) + g.p.sp0() + "= " + g.p(d.second)); w.sym[d.first] = d.second; }
  E what = w.sym[names[0]]; bool explicitly = s.chance(1,4); try {
    if (explicitly) { string f = s.pick(names); line(g.p.kw("prove") + " " + g.p.nm(f)); w.prove(mk_sym(f)); } else w.prove(what);
  } catch (gs::too_long) { s.discard(); } catch (gs::stopped) { s.discard(); } catch (gs::broken) { s.discard(); }
  (void)sirilic; s.renote(cmdline(argv) + "\n" + text); s.nontrivial(w.longest >= 3); run_result r = run_ok(argv, text);
  CHECK(r.out == w.out, "gsiril prints:\n" << r.out << "but expected:\n" << w.out << r.err << "for " << text); CHECK_EQ(r.status, w.failed ? 1 : 0, "status"); CHECK_EQ(r.err, string(), "errors");
}
