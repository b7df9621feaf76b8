// C40 - methodlib: methods picked out of libraries
//! apps: methodlib musgrep
#include "methods.h"
#include <ringing/xmlout.h>
#include <ringing/methodset.h>
#include <set>
using namespace lib; using namespace model; using namespace pbt; using gen::changes;
namespace {
typedef std::pair<int, changes> key;
struct entry { key k; string name; string title() const { return gen::to_method(k.second, k.first, name).fullname(); } };
string word(Src& s, int most = 5) { string w; int len = s.range(1, most); for (int i=0; i<len; ++i) w += s.pickc("abcde"); w[0] = toupper(w[0]); return w; }
// A library file of the entries; the kind is 0 for XML, 1 for MicroSIRIL
void write_library(Src& s, string const& fn, vector<entry> const& es, int kind) {
  if (kind == 0) { ringing::xmlout out(fn); for (auto const& e : es) { ringing::methodset one; one.append(gen::to_method(e.k.second, e.k.first, e.name)); out.append(*one.begin()); } return; }
  string f; int b = 0; for (auto const& e : es) { if (e.k.first != b) { b = e.k.first; f += "* S" + std::to_string(b) + "\n"; } f += e.name + " z +" + gen::spell_plain(e.k.second) + "\n"; } write_file(fn, f);
}
struct answer { entry e; string text; };
bool same_line(string line, answer const& a, bool inc_bells) {
  if (inc_bells) { string p = std::to_string(a.e.k.first) + ":"; if (line.compare(0, p.size(), p)) return false; line.erase(0, p.size()); }
  string::size_type t = line.find('\t'); string pn = line.substr(0, t), text = t == string::npos ? "<none>" : line.substr(t + 1); if (text != a.text || pn.find(' ') != string::npos) return false;
  try { return gen::from_method(ringing::method(pn, a.e.k.first)) == a.e.k.second; } catch (std::exception const&) { return false; }
}
string show(vector<answer> const& v) { string t; for (auto const& a : v) t += std::to_string(a.e.k.first) + ":" + gen::spell_plain(a.e.k.second) + " " + a.text + "; "; return t; }
}

SUB(libraries, 1500, 25000, "XML and MicroSIRIL libraries which share methods, given on the command line, in METHOD_LIBRARY, or found by METHOD_LIBRARY_PATH; every filter, titles as options and read from input with comments, blank lines and tabbed fields, suffixes, and each form of output: the lines printed are the methods asked for, each once, in the order asked, named by the first library to have them, and the status says whether all were found; non-trivial if some but not all of 4 or more methods are printed") {
  string dir = scratch(); vector<key> pool; int np = s.range(1, 8); std::set<key> distinct; static int const stages[] = { 4, 5, 6, 6, 7, 8 }; int fixed = s.chance(1,3) ? stages[s.below(6)] : 0;
  for (int i=0; i<np; ++i) { int b = fixed ? fixed : stages[s.below(6)]; changes c = gen::gen_method(s, b, 0, 8); if (s.coin()) { changes t(c.rbegin() + 1, c.rend()); c.insert(c.end(), t.begin(), t.end()); c.push_back(gen_change(s, b)); } key k(b, c); if (distinct.insert(k).second) pool.push_back(k); }
  // the libraries
  int nl = s.range(1, 3), env_lib = s.chance(1,3) ? nl - 1 : -1; bool path = s.chance(1,4); vector<string> libs; vector<entry> all; std::set<key> seen; vector<string> env; bool shared = false; string note;
  for (int i=0; i<nl; ++i) { vector<entry> es; int k = s.range(1, 5); for (int j=0; j<k; ++j) { entry e; e.k = s.pick(pool); e.name = word(s) + (s.chance(1,4) ? " " + word(s) : ""); es.push_back(e); }
    int kind = s.coin(); if (kind) { for (auto& e : es) std::replace(e.name.begin(), e.name.end(), ' ', '-'); } string fn = "lib" + std::to_string(i) + (kind ? ".txt" : ".xml"); write_library(s, dir + "/" + fn, es, kind); libs.push_back(path ? fn : dir + "/" + fn);
    for (auto const& e : es) { note += str() << "lib" << i << " has " << e.k.first << ":" << gen::spell_plain(e.k.second) << " " << e.name << "; "; if (seen.insert(e.k).second) all.push_back(e); else shared = true; } }
  std::set<string> titles; for (auto const& e : all) if (!titles.insert(e.title()).second) s.discard();
  if (path) env.push_back(string("METHOD_LIBRARY_PATH=") + (s.coin() ? dir : s.coin() ? "/nonexistent:" + dir : dir + ":/nonexistent")); else if (s.chance(1,8)) env.push_back(string("METHOD_LIBRARY_PATH=") + ("/nonexistent")); if (env_lib >= 0) env.push_back(string("METHOD_LIBRARY=") + (libs[env_lib]));
  vector<string> o; auto opt = [&](string const& a, string const& b) { o.push_back(s.coin() ? a : b); }; auto opta = [&](char c, string const& l, string const& v) { if (s.coin()) o.push_back("--" + l + "=" + v); else if (s.coin() || v.empty() || v[0] == '-') o.push_back(string("-") + c + v); else { o.push_back(string("-") + c); o.push_back(v); } };
  int bells = s.chance(1,4) ? s.pick(pool).first : 0, length = s.chance(1,5) ? (int)s.pick(pool).second.size() : 0; bool inc = s.coin(); if (bells) opta('b', "bells", std::to_string(bells)); if (length) opta('l', "length", std::to_string(length)); if (inc) opt("-B", "--print-bells");
  int how = s.below(4), form = s.below(4); if (form == 3 && how != 2) form = 0; // 0 name, 1 full, 2 pn only, 3 payload
  if (form == 1) opt("-f", "--full-title"); if (form == 2) opt("-P", "--pn-only"); if (form == 3) opt("-a", "--copy-payload");
  auto passes = [&](entry const& e) { return (!bells || e.k.first == bells) && (!length || (int)e.k.second.size() == length); }; auto text_of = [&](entry const& e) { return form == 1 ? e.title() : form == 2 ? string("<none>") : e.name; };
  vector<answer> want; bool ordered = how == 1 || how == 2, ok = ordered; string in; int missing = 0; string prefix; if (how == 3) { prefix = s.pick(all).title(); prefix = s.chance(1,6) ? word(s, 2) : prefix.substr(0, s.range(1, prefix.size())); o.push_back("--starts-with=" + prefix); }
  if (!ordered) { for (auto const& e : all) if (e.title().compare(0, prefix.size(), prefix) == 0 && passes(e)) { want.push_back({e, text_of(e)}); ok = true; } }
  else {
    vector<string> suf; bool use = s.coin(); if (use) { int k = s.range(1, 3); for (int i=0; i<k; ++i) { string t = s.pick(all).title(); vector<size_t> sp; for (size_t p=0; (p = t.find(' ', p)) != string::npos; ++p) sp.push_back(p); suf.push_back(s.chance(1,3) || sp.empty() ? "" : t.substr(sp[s.below(sp.size())] + 1)); } string j; for (size_t i=0; i<suf.size(); ++i) j += (i ? ":" : "") + suf[i]; if (j.empty()) use = false; else opta('S', "method-suffixes", j); if (!use) suf.clear(); } if (suf.empty()) suf.push_back("");
    int k = how == 1 ? s.range(1, 4) : s.range(0, 5); for (int i=0; i<k; ++i) { string t = s.pick(all).title(); if (use && s.coin()) for (auto const& x : suf) if (x.size() && t.size() > x.size() + 1 && t.compare(t.size() - x.size() - 1, string::npos, " " + x) == 0) { t.erase(t.size() - x.size() - 1); break; } if (s.chance(1,8)) t = word(s) + " " + t;
      string pay; if (form == 3 && s.chance(3,4)) { pay = word(s) + (s.coin() ? " " + word(s) : "") + (s.chance(1,4) ? "\t" + word(s) : ""); }
      if (how == 1) opta('t', "title", t); else { while (s.chance(1,4)) in += s.coin() ? "\n" : s.coin() ? "# " + word(s) + "\n" : " \t \n"; in += t + (pay.size() ? "\t" + pay : "") + (s.chance(1,5) ? "  " : "") + (s.chance(1,6) ? "# " + word(s) : "") + (s.chance(1,8) ? "\r\n" : "\n"); }
      entry const* found = 0; for (auto const& x : suf) { string full = t + (x.size() ? " " + x : ""); for (auto const& e : all) if (e.title() == full) { found = &e; break; } if (found) break; }
      if (!found) { ok = false; ++missing; s.label("not found"); } else if (!passes(*found)) ok = false; else want.push_back({*found, form == 3 ? pay : form == 0 && use ? t : text_of(*found)}); }
    if (how == 2) { opt("-T", "--read-titles"); if (in.size() && s.chance(1,6) && in[in.size()-2] != '\r') in.erase(in.size()-1); } if (use) s.label("suffixes"); }
  for (int i=0; i<nl; ++i) if (i != env_lib) o.push_back(libs[i]);
  vector<string> argv(1, app("methodlib")); argv.insert(argv.end(), o.begin(), o.end()); for (auto const& e : env) note += e + "; "; s.note(cmdline(argv) + (in.size() ? " < " + quote(in) : "") + "; " + note); s.nontrivial(all.size() >= 4 && want.size() && want.size() < all.size()); if (shared) s.label("shared methods"); s.label(how == 0 ? "all" : how == 1 ? "titles" : how == 2 ? "titles read" : "prefix"); s.label(str() << "form " << form);
  run_result r = run_ok(argv, in, "", env, 20); vector<string> got; { std::istringstream is(r.out); string l; while (getline(is, l)) got.push_back(l); }
  CHECK_EQ(r.status, ok ? 0 : 1, "status: " << r.err); CHECK_EQ(got.size(), want.size(), "lines of " << quote(r.out) << ", for " << show(want));
  vector<bool> used(want.size()); for (size_t i=0; i<got.size(); ++i) { bool found = false; for (size_t j=ordered ? i : 0; j<want.size() && !found; ++j) { if (!used[j] && same_line(got[i], want[j], inc)) { used[j] = true; found = true; } if (ordered) break; } CHECK(found, "line " << i << ", " << quote(got[i]) << ", is not one of those wanted: " << show(want)); }
  int said = 0; for (size_t p=0; (p = r.err.find("ethod not found", p)) != string::npos; ++p) ++said; CHECK_EQ(said, missing, "messages about methods not found: " << quote(r.err));
}

SUB(robust, 1500, 20000, "options at random, libraries missing, empty, or damaged, and titles of any text: methodlib ends by itself with status 0, or with status 1 and, unless nothing matched, a message; non-trivial when a library of methods is given") {
  string dir = scratch(); vector<string> argv(1, app("methodlib")); static char const* op[] = { "-B", "-f", "-P", "-a", "-T", "-b6", "-b1", "-b-3", "-b99", "-l7", "-l-2", "-tCambridge Surprise Minor", "-t", "-S:", "-SSurprise Minor", "--starts-with=A", "--starts-with=", "-bx", "-lq", "-x", "--bells", "--title=" }; for (int k=s.below(4); k--; ) argv.push_back(op[s.below(s.chance(1,3) ? 22 : 6)]);
  bool had = s.chance(5,6); if (had) { vector<entry> es; for (int k=s.range(1, 3); k--; ) { entry e; int b = s.range(4, 6); e.k = key(b, gen::gen_method(s, b, 0, 8)); e.name = word(s); es.push_back(e); } int kind = s.coin(); write_library(s, dir + "/a", es, kind); if (s.coin()) argv.push_back("-t" + es[0].title()); if (s.chance(1,4)) { string t = read_file(dir + "/a"); for (int k=s.range(1, 6); k--; ) { if (!t.empty() && s.coin()) t.erase(s.below(t.size()), s.range(1, 3)); else t.insert(s.below(t.size() + 1), 1, s.pickc("<>/\"& *+x:\n0 ")); } write_file(dir + "/a", t); } argv.push_back(dir + "/a"); }
  if (s.chance(1,6)) { string bad = dir + "/b"; switch (s.below(4)) { case 0: break; case 1: write_file(bad, ""); break; case 2: write_file(bad, "<?xml version=\"1.0\"?>\n<methods/>\n"); break; default: bad = dir; } argv.push_back(bad); }
  string in; if (s.coin()) for (int k=s.range(1, 30); k--; ) in += s.pickc("ABab \t\n#\r\0:"); s.renote(cmdline(argv) + " < " + quote(in)); s.nontrivial(had);
  run_result r = run(argv, in, "", {}, 20); CHECK(!r.timed_out, "did not finish"); CHECK(!r.crashed, "crashed: " << r.status << " " << r.err); CHECK(r.status == 0 || r.status == 1, "status " << r.status); s.label(str() << r.status);
}
