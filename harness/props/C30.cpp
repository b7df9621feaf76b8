// C30 - gsiril proves compositions
//! apps: gsiril
#include "gsiril.h"
#include "lib.h"
#include "script.h"
using namespace model; using namespace pbt; using namespace gs;

static void compare(script& c, Src& s) {
  world& w = c.w; vector<string> argv(1, app("gsiril")); argv.insert(argv.end(), c.argv.begin(), c.argv.end()); string in = c.text; int how = s.below(4); string shown = in;
  if (how == 0) { argv.push_back(s.coin() ? "-e" : "--expression=" + in); if (argv.back() == "-e") argv.push_back(in); in = "quit"; }
  else if (how == 1) { string f = scratch() + "/a.sir"; write_file(f, in); argv.push_back("-f"); argv.push_back(f); in = "quit"; }
  if (s.chance(1,3)) { string b = argv[0]; argv.erase(argv.begin()); std::rotate(argv.begin(), argv.begin() + 0, argv.end()); argv.insert(argv.begin(), b); }
  s.renote(cmdline(c.argv) + "\n" + c.text + (c.note.empty() ? string() : "--- library\n" + c.note));
  run_result r = run_ok(argv, in);
  int want = w.exited ? 2 : w.failed ? 1 : 0;
  CHECK(r.out == w.out, "gsiril prints:\n" << r.out << "but expected:\n" << w.out << "with errors " << r.err << "for " << cmdline(c.argv) << " of\n" << c.text);
  CHECK(r.status == want, "status " << r.status << ", expected " << want << " with errors " << r.err << " for " << cmdline(c.argv) << " of\n" << c.text);
  if (want != 2) CHECK(r.err.empty(), "errors " << r.err << " for\n" << c.text); else CHECK(!r.err.empty(), "an error without a message");
  s.nontrivial(w.longest >= 3 && (w.was_true || w.was_false || w.was_notround || w.was_aborted)); if (w.was_true) s.label("true"); if (w.was_false) s.label("false"); if (w.was_notround) s.label("not round"); if (w.was_aborted) s.label("aborted"); if (w.exited) s.label("error");
}
static void prove(script& c, E e, string const& text) { (void)text; world& w = c.w; try { w.prove(e); } catch (gs::error const&) { w.exited = true; } }

SUB(composition, 8000, 150000, "gsiril scripts on 3 to 8 bells with up to a dozen symbols and three proofs, made of place notation, rows, strings, repeats, loops, alternatives, reversal, replacement, assignment and the symbols called during a proof, with settings given as options or statements: everything printed, and the exit status, as an interpreter in the harness works them out; non-trivial when a proof has three or more rows") {
  int n = s.range(3, 8); std::unique_ptr<script> cp(config(s, n)); script& c = *cp; world& w = c.w;
  try {
    symbols_for(c);
    int k = s.range(1, 3);
    for (int i=0; i<k && !w.exited; ++i) {
      E e = c.m.seq(s.range(1, 4)); bool last = i + 1 == k;
      if (s.chance(1,3)) e = mk(expr::LIST, e, c.m.seq(2));
      if (s.chance(1,5)) { E t = mk_str(vector<part>(1, sp('@'))); w.n = n; if (s.coin()) { string q = "\"" ; } c.put_line("echo " + c.p.string_lit(*t)); bool none; proof pc = w.new_proof(); string o = w.subst(pc, *t, none); if (w.quiet < 2 ) w.out += o + (none ? "" : "\n"); }
      if (last && s.chance(1,6)) { string nm = "z"; c.define(nm, e); c.argv.push_back(s.coin() ? "-P" + nm : "--prove=" + nm); prove(c, mk_sym(nm), ""); s.label("-P"); }
      else if (k == 1 && last && s.chance(1,10) && !w.first.empty()) { c.define("z", e); c.argv.push_back("-P"); prove(c, w.sym[w.first], ""); s.label("-P first"); }
      else { string t = c.p(e); c.put_line("prove " + t); prove(c, e, t); }
    }
  } catch (gs::too_long) { s.discard(); } catch (gs::stopped) { s.discard(); } catch (gs::broken) { s.discard(); }
  if (s.chance(1,10)) c.text += "end\nprove +x\n";
  compare(c, s);
}
