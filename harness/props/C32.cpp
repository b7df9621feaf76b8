// C32 - gsiril survives any program, and its limits hold
//! apps: gsiril
#include "gsiril.h"
#include "lib.h"
#include "script.h"
using namespace model; using namespace pbt; using namespace gs;

static string valid(Src& s, vector<string>& argv) {
  int n = s.range(3, 8); std::unique_ptr<script> c(config(s, n)); symbols_for(*c); int k = s.range(1, 3);
  for (int i=0; i<k; ++i) { E e = c->m.seq(s.range(1, 4)); c->put_line("prove " + c->p(e)); }
  argv = c->argv; return c->text;
}
static string tokens(Src& s) {
  static char const* t[] = { "prove", "echo", "bells", "extents", "rows", "to", "rounds", "row_mask", "import", "if", "elseif", "else", "endif", "foreach", "endfor", "as", "music", "end", "quit", "version", "warn", "error", "save", "repeat", "break", "endproof", "defined", "true", "false", "length", "proving", "everyrow", "start", "finish", "conflict",
    "=", "?=", ":=", ".=", ".", ",", ";", "\n", "(", ")", "{", "}", "[", "]", ":", "*", "/", "//", "+", "-", "%", "&", "&&", "||", "!", "!=", "==", "<", ">", "<=", ">=", "<<", ">>", "++", "--", "~", "'", "\"", "$", "@", "#", "\\",
    "at(1)", "pos(0)", "rowno()", "swap(1)", "swap(1,9)", "load(\"x\")", "stagename(6)", "stagename(99)", "stagename(0)", "music()", "runs(4)", "runs(0)", "runs(0-3)", "frontruns(99)", "backruns()", "crus()", "methname(a)", "pnstr(+1)", "pnstr(a)",
    "+12", "&-1-1,+2", "+x", "&.1", "+{N}", "+{N-9}", "+{999}", "+1..N", "&", "'123456'", "'1'", "''", "'21x'", "/1*/", "/*", "/[12]?*/", "/[1/", "//x", "\"@ # $\"", "\"${a}\"", "\"${\"", "\"$$\"", "\"\\x\"", "\"\\uFFFFFFFF\"", "\"\\U00110000\"", "0", "1", "2", "6", "99999999999999999999", "a", "b", "p", "__first__", "loop_counter", "bells" };
  int n = s.range(1, 40); string r; if (s.coin()) r = std::to_string(s.range(2, 12)) + " bells\n"; while (n--) { r += t[s.below(sizeof(t)/sizeof(*t))]; r += s.chance(1,6) ? "" : s.chance(1,6) ? "\n" : " "; } return r;
}
static string damage(Src& s, string t) {
  int k = s.range(1, 6); while (k--) { if (t.empty()) break; size_t i = s.below(t.size()), l = s.range(1, 8); switch (s.below(6)) { case 0: t.erase(i, l); break; case 1: t.insert(i, 1, char(s.range(1, 255))); break; case 2: t[i] = s.pickc("(){}[]\"'/\\*,;=$@#~!&+-.0123456789\n abcxX"); break; case 3: { size_t j = s.below(t.size()); t.insert(j, t.substr(i, l * 3)); break; } case 4: t.insert(i, tokens(s)); break; default: t.resize(i); } } return t;
}

SUB(any_program, 12000, 300000, "programs of random words of the language, and valid programs with bytes and pieces changed, run in each way that gsiril can be with a limit on nodes: it ends by itself with one of its four statuses, saying why unless the status is 0 or 1; non-trivial when the program is longer than twenty bytes") {
  vector<string> argv, opts(1, app("gsiril")); string text; int kind = s.below(3); if (kind == 0) text = tokens(s); else { text = damage(s, valid(s, argv)); if (s.coin()) opts.insert(opts.end(), argv.begin(), argv.end()); }
  opts.push_back("--node-limit=20000"); opts.push_back("--disable-import"); if (s.chance(1,4)) opts.push_back("-v"); if (s.chance(1,8)) opts.push_back("--msiril"); if (s.chance(1,8)) opts.push_back("-I"); if (s.chance(1,8)) opts.push_back("-b" + std::to_string(s.range(0, 40))); if (s.chance(1,8)) opts.push_back("-P"); if (s.chance(1,10)) opts.push_back("--determine-bells"); if (s.chance(1,10)) opts.push_back("--trace-all-symbols"); if (s.chance(1,20)) opts.push_back("--no-init-file");
  bool inter = s.chance(1,4), filter = !inter && s.chance(1,8); string in = text; for (char& c : text) if (!c) c = ' ';
  if (inter) opts.push_back("-i"); else if (filter) { opts.push_back("--filter"); opts.push_back("-b6"); opts.push_back("-e" + (text.empty() ? string("1") : text)); in = damage(s, "&-1-1-1,2 foo\n+x.14,2\tbar\n&3.1.5.1,1\n"); } else if (s.chance(1,4)) { opts.push_back("-D" + text); in = ""; }
  s.renote(cmdline(opts) + "\n" + quote(in)); s.nontrivial(text.size() > 20); s.label(inter ? "interactive" : filter ? "filter" : "plain");
  run_result r = run(opts, in, "/", vector<string>(), 20);
  CHECK(!r.timed_out, "gsiril did not finish"); CHECK(!r.crashed, "gsiril crashed: status " << r.status << " " << r.err); CHECK(r.status >= 0 && r.status <= 3, "status " << r.status << " " << r.err); if (r.status >= 2) CHECK(!r.err.empty() || !r.out.empty(), "no message with status " << r.status); s.label("status " + std::to_string(r.status));
}

SUB(node_limit, 3000, 60000, "valid programs: run with no limit, the number of nodes is counted; with a limit above it everything is the same, and with one at or below it the program stops with an error having printed the beginning of the same; non-trivial when there are fifty nodes or more") {
  vector<string> argv; string text = valid(s, argv); vector<string> base(1, app("gsiril")); base.insert(base.end(), argv.begin(), argv.end()); s.renote(cmdline(argv) + "\n" + text);
  auto with = [&](string const& o) { vector<string> a(base); a.push_back(o); return run_ok(a, text); };
  run_result first = with("--node-limit=60000"); if (first.err.find("Node count") != string::npos) s.discard();
  run_result c = with("--print-node-count"); CHECK_EQ(c.out, first.out, "output with nodes counted"); if (c.status > 1) { s.label("error"); s.discard(); }
  size_t at = c.err.rfind("Executed "); CHECK(at != string::npos, "count of nodes in " << c.err); long nodes = strtol(c.err.c_str() + at + 9, 0, 10); s.nontrivial(nodes >= 50); if (nodes < 1) s.discard();
  run_result above = with("--node-limit=" + std::to_string(nodes + 1)); CHECK(above.out == c.out && above.status == c.status, "with a limit above " << nodes << ": " << above.out << above.err << " instead of " << c.out);
  long lim = s.coin() ? nodes : s.range(1, (int)std::min(nodes, 1000000L)); run_result below = with("--node-limit=" + std::to_string(lim)); CHECK_EQ(below.status, 2, "status with a limit of " << lim << " for " << nodes << " nodes: " << below.out << below.err); CHECK(c.out.compare(0, below.out.size(), below.out) == 0, "printed " << below.out << " which does not begin " << c.out);
}

SUB(explosive, 1500, 30000, "programs of a few dozen symbols each of which uses the one before it twice, as blocks, as static blocks of changes, as numbers, as conditions or as text, so that they would execute thousands of millions of nodes: the limit on nodes stops them; non-trivial always") {
  struct shape { char const* base; vector<string> forms; char const* use; }; static vector<shape> const shapes = {
    { "+x, +14", { "P, P", "(P, P)", "P, +x, P", "~P, P" }, "prove L & +16" }, { "+x, +14", { "P, P", "P, ~P" }, "blk = L & (+16 >> 3)\nprove blk" },
    { "0", { "P + P", "P - P", "P * P", "(P) + P", "P + 0 + P" }, "val := L" }, { "0", { "P + P", "P - P" }, "if L == 1\nendif" }, { "0", { "P + P", "P * P" }, "prove L == 1 && rounds" }, { "0", { "P + P" }, "echo \"a\" . L" },
    { "true", { "P && P", "(P) && P", "!P || P" }, "if L\nendif" }, { "false", { "P || P", "P && true || P" }, "if L\nendif" }, { "\"a\"", { "P . P", "P . \"b\" . P" }, "echo L" }, { "\"a\"", { "P . P" }, "if L == \"b\"\nendif" }, { "\"\"", { "P . P" }, "text := L" } };
  size_t k = s.below(shapes.size()); shape const& h = shapes[k]; int depth = s.range(22, 45); string text = "6 bells\ns0 = " + string(h.base) + "\n"; string one = s.pick(h.forms);
  for (int i=1; i<=depth; ++i) { string f = s.coin() ? one : s.pick(h.forms), line = "s" + std::to_string(i) + " = "; for (char c : f) if (c == 'P') line += "s" + std::to_string(i - 1); else line += c; text += line + "\n"; if (s.chance(1,20)) text += "other" + std::to_string(i) + " = s" + std::to_string(i) + "\n"; }
  for (char const* c = h.use; *c; ++c) if (*c == 'L') text += "s" + std::to_string(depth); else text += *c; text += "\n"; int limit = s.range(100, 20000); s.renote("--node-limit=" + std::to_string(limit) + "\n" + text);
  run_result r = run({ app("gsiril"), "--node-limit=" + std::to_string(limit) }, text, "/", vector<string>(), 20);
  CHECK(!r.timed_out, "the limit did not stop the program"); CHECK(!r.crashed, "crashed: " << r.err); CHECK_EQ(r.status, 2, "status: " << r.out << r.err); CHECK(r.err.find("Node count") != string::npos, "message " << r.err); s.nontrivial(); s.label(str() << k);
}
