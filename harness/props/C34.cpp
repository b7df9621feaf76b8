// C34 - what methsearch lists, counts, filters and looks up
//! apps: methsearch
#include "msearch.h"
using namespace model; using namespace pbt; using std::map; using std::set; using ringing::method;
typedef vector<string> strings;

static strings lines(string const& t) { strings r; std::istringstream is(t); string l; while (getline(is, l)) r.push_back(l); return r; }
static strings operator+(strings a, strings const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static string join(strings const& v) { string r; for (auto const& x : v) r += x + "\n"; return r; }
// A search which is answered by some methods; those in the order found
static strings listing(Src& s, ms::query& q, strings& argv, double limit, bool some = true) {
  q = ms::gen_query(s, limit); argv = strings(1, app("methsearch")) + q.args(s); s.renote(cmdline(argv)); run_result r = run_ok(argv); if (r.status) s.discard(); strings l = lines(r.out); if (some && l.empty()) s.discard(); return l;
}
static string pn_of(string const& line) { return line.substr(0, line.find('\t')); }
static string spelled(Src& s, string const& pn, int b) { ms::changes m; CHECK(gen::read_pn(pn, b, m), "unreadable: " << quote(pn)); return gen::spell(s, m, 0, m.size()); }
static string counted(size_t n) { return str() << "Found " << n << " methods\n"; }

SUB(order, 700, 30000, "a search and the same one started at a method found, limited to a number of methods, in random order from a seed, and repeated for one method at a time: the methods listed are the rest, the first so many, the same in another order, and some of the same; non-trivial when there are at least three methods") {
  ms::query q; strings argv, all = listing(s, q, argv, 1200); s.nontrivial(all.size() >= 3); size_t n = all.size(); set<string> have(all.begin(), all.end());
  auto go = [&](strings const& a) { strings v = argv + a; s.renote(cmdline(v)); run_result r = run_ok(v); CHECK_EQ(r.status, 0, r.err); return lines(r.out); };
  auto same = [&](strings const& got, strings const& want, char const* what) { for (size_t i=0; i<got.size() && i<want.size(); ++i) CHECK_EQ(got[i], want[i], what << ": method " << i); CHECK_EQ(got.size(), want.size(), what << ": number of methods"); };
  auto num = [&](char const* o, size_t k) { return strings(1, str() << o << "=" << k); };
  int kind = s.below(6);
  if (kind < 2) { if (q.E) s.discard(); size_t k = s.below(n); strings a(1, "--start-at=" + spelled(s, pn_of(all[k]), q.b)), want(all.begin() + k, all.end()); if (s.chance(1,3)) { size_t m = s.range(1, n); a = a + num("--limit", m); if (want.size() > m) want.resize(m); } s.label(k ? "started later" : "started at the first"); same(go(a), want, "started at a method"); }
  else if (kind == 2) { size_t k = s.range(1, n + 2); s.label(k < n ? "limited" : "limit beyond the last"); strings want(all.begin(), all.begin() + std::min(k, n)); same(go(num("--limit", k)), want, "limited"); }
  else if (kind < 5) { strings a = strings(1, "--random") + num("--seed", s.below(100000)); strings r = go(a); set<string> got(r.begin(), r.end()); CHECK_EQ(r.size(), n, "in random order"); CHECK(got == have, "in random order: other methods"); s.label(r == all ? "random: same order" : "random: another order"); same(go(a), r, "random again"); if (s.coin()) { size_t k = s.range(1, n + 1); strings want(r.begin(), r.begin() + std::min(k, n)); same(go(a + num("--limit", k)), want, "random and limited"); } }
  else { size_t k = s.range(1, 8); bool open = s.coin(); strings a = strings(1, "--random") + num("--seed", s.below(100000)); a = open ? a + strings(1, "--loop") + num("--limit", k) : a + num("--loop", k); strings r = go(a); CHECK_EQ(r.size(), k, "one at a time"); for (auto const& l : r) CHECK(have.count(l), "one at a time: found " << quote(l)); s.label("loop"); same(go(a), r, "loop again"); }
}

SUB(counts, 500, 20000, "a search with every combination of counts, node counts, quiet, histogram, output file, options from a file, and ways to write the place notation: the listing, the histogram and the counts are what the methods found make them; non-trivial when some are found and there is a count or histogram") {
  ms::query q; strings argv, all = listing(s, q, argv, 1200, false); size_t n = all.size();
  bool count = s.coin(), raw = s.chance(1,3), nodes = s.chance(1,3), quiet = s.chance(1,3), file = s.chance(1,4), hist = s.chance(1,3), fmt = s.chance(1,3), resp = s.chance(1,4); string out = scratch() + "/list"; strings a;
  if (count) a.push_back(s.coin() ? "-C" : "--count"); if (raw) a.push_back("--raw-count"); if (nodes) a.push_back("--node-count"); if (quiet) a.push_back(s.coin() ? "-q" : "--quiet"); if (hist) a.push_back("-H$l $c"); if (file) a.push_back("-o" + out); if (fmt) a.push_back("-R$q;$l"); bool ru = !hist && !fmt && s.chance(1,4); if (ru) a.push_back("-u");
  map<string, int> h; string want_list; for (auto const& l : all) { size_t t = l.find('\t'); ++h[l.substr(t+1)]; }
  s.nontrivial(n && (count || raw || hist));
  for (size_t i=0; i+1<a.size(); ++i) std::swap(a[i], a[i + s.below(a.size()-i)]);
  strings v = argv + a;
  if (resp) { // some of them from a file
    size_t from = s.range(1, v.size()), to = s.range(from, v.size()); string f; for (size_t i=from; i<to; ++i) { string w; bool dq = v[i].find('\'') == string::npos && s.coin(); if (v[i].find_first_of(" $*?!\"'\\|(){}<>") != string::npos || s.chance(1,4)) { w = dq ? "'" + v[i] + "'" : string(); if (!dq) s.discard(); } else w = v[i]; f += w + s.pickc(" \n\t"); } write_file(scratch() + "/opts", f); v.erase(v.begin() + from, v.begin() + to); v.insert(v.begin() + from, "@" + scratch() + "/opts"); s.label("response file"); }
  s.renote(cmdline(v)); run_result r = run_ok(v); CHECK_EQ(r.status, 0, r.err); string o = r.out;
  string listed; if (!quiet) { if (file) { listed = read_file(out); } else { for (size_t i=0, p=0; i<n; ++i) { p = o.find('\n', 0); CHECK(p != string::npos, "only " << i << " methods listed"); listed += o.substr(0, p+1); o.erase(0, p+1); } } strings ls = lines(listed); CHECK_EQ(ls.size(), n, "methods listed"); for (size_t i=0; i<n; ++i) { size_t t = all[i].find('\t'); if (!fmt) CHECK_EQ(ls[i], all[i], "method " << i); else { size_t u = ls[i].rfind(';'); CHECK(u != string::npos, "line " << ls[i]); CHECK_EQ(ls[i].substr(u+1), all[i].substr(t+1), "lead head"); ms::changes m, w; CHECK(gen::read_pn(ls[i].substr(0, u), q.b, m) && gen::read_pn(all[i].substr(0, t), q.b, w) && m == w, "place notation " << ls[i]); } } }
  auto blank = [&](bool want, char const* where) { if (file && !quiet) want = o.size() && o[0] == '\n'; if (want) { CHECK(o.size() && o[0] == '\n', "no blank line before " << where << ": " << quote(o)); o.erase(0, 1); } };
  if (hist) { blank(!quiet && n, "the histogram"); map<string, int> g; for (size_t i=0; i<h.size(); ++i) { size_t p = o.find('\n'); CHECK(p != string::npos, "histogram of only " << i << " lines"); string l = o.substr(0, p); o.erase(0, p+1); size_t sp = l.find(' '); CHECK(sp != string::npos, "line " << quote(l)); CHECK(g.insert(std::make_pair(l.substr(0, sp), atoi(l.c_str() + sp))).second, "twice: " << l); } CHECK(g == h, "frequencies"); }
  if (count || raw || nodes) { blank(n && (!quiet || hist), "the counts"); string w; if (raw) w = str() << n << "\n"; else if (count) w = counted(n); CHECK_EQ(o.substr(0, w.size()), w, "count"); o.erase(0, w.size()); if (nodes) { unsigned long k; int len = 0; CHECK(sscanf(o.c_str(), "Searched %lu nodes\n%n", &k, &len) == 1 && len == (int)o.size(), "nodes: " << quote(o)); CHECK(k >= 1 && (n == 0 || k > n), "nodes: " << k); o.clear(); run_result r2 = run_ok(argv + strings(1, "-q") + strings(1, "--node-count")); unsigned long k2; CHECK(sscanf(r2.out.c_str(), "Searched %lu nodes", &k2) == 1, r2.out); CHECK_EQ(k, k2, "nodes"); } }
  CHECK_EQ(o, string(), "more output");
}

// Names and payloads
static string word(Src& s) { string w; w += s.pickc("ABCDEFGHKLMNPRSTW"); for (int k=s.range(2, 8); k--; ) w += s.pickc("abcdefghiklmnoprstuvwy"); return w; }
static string payload(Src& s) { string w; for (int k=s.below(4); k--; ) { if (w.size()) w += s.coin() ? "  " : " "; w += s.coin() ? word(s) : std::to_string(s.below(1000)); } return w; }

struct given { ms::changes m; int b; string pay; ms::answer a; };
static bool reads(string const& p, given const& g) { try { return gen::from_method(method(p, g.b)) == g.m; } catch (std::exception const&) { return false; } }

SUB(filter, 900, 40000, "streams of methods, some of which answer a query, some nearly, and some of another length or number of bells, with and without -b, each with a payload, for queries of every kind, inverted or not, limited or not, with requirements: those that answer the query (or do not), in order, with their payloads, and their number; non-trivial when some do and some do not") {
  bool stages = s.chance(1,4); ms::query q; strings argv(1, app("methsearch")); vector<given> in; map<int, ms::query> at;
  if (!stages) { q = ms::gen_query(s, 3000); argv = argv + q.args(s); at[q.b] = q; }
  else { q.U = s.chance(1,6) ? 2 : 1; q.A = true; q.sym = s.coin(); if (s.coin()) q.p = s.range(2, 4); if (s.chance(1,4)) q.l = s.range(2, 3); if (s.chance(1,5)) q.j = s.range(1, 3); if (s.coin()) q.A = false; if (s.chance(1,4)) q.r = true; else if (s.chance(1,4)) q.c = true; if (s.coin()) { q.level_given = true; q.level = (ms::level_t)s.range(ms::none, ms::course); } if (s.chance(1,4)) q.f = true;
    for (int b=4; b<=7; ++b) { ms::query x(q); x.b = b; x.zb = b-1; x.ready(); at[b] = x; } q = at[4]; strings a = q.args(s); for (auto const& x : a) if (x != "-b4" && x != "--bells=4" && x != "-Z-4" && x != "-Z1-4") argv.push_back(x); s.label("no -b"); }
  bool all = !stages && s.chance(1,3); vector<ms::changes> every; if (all) { q.each([&](ms::changes const& m) { every.push_back(m); }); }
  int k = s.range(1, 40); size_t yes = 0, no = 0;
  for (int i=0; i<k; ++i) { given g; g.b = stages ? s.range(4, 7) : q.b; ms::query const& x = at[g.b]; bool ok = true; int how = s.below(12);
    if (how == 0) { if (stages && s.coin()) { g.b = s.coin() ? 3 : 8; } g.m = gen::gen_method(s, g.b, 0, 20); } else if (all && every.size()) g.m = s.pick(every); else ok = x.some(s, g.m); if (!ok) continue;
    if (how == 1 && g.m.size()) g.m[s.below(g.m.size())] = gen_change(s, g.b); if (how == 2 && g.m.size() > 1) g.m.pop_back(); if (g.m.empty()) continue;
    g.pay = payload(s); g.a = at.count(g.b) ? at[g.b].answer_to(g.m) : ms::no; if (stages && g.b == 3) g.a = ms::either; if (stages && g.b == 8) { if (how) continue; g.a = ms::either; } (g.a == ms::yes ? yes : no) += g.a != ms::either; in.push_back(g); }
  string text; for (auto const& g : in) { if (s.chance(1,10)) text += "\n"; if (stages || s.chance(1,6)) text += std::to_string(g.b) + ":"; { string w = gen::spell(s, g.m, 0, g.m.size()); if (w.find_first_of(" \t\n") != string::npos) w = s.coin() ? gen::spell_plain(g.m) : gen::to_method(g.m, g.b).format(s.coin() ? method::M_DASH|method::M_FULL_SYMMETRY : method::M_SYMMETRY); text += w; } if (g.pay.size()) text += (s.coin() ? "\t" : " ") + g.pay; text += "\n"; }
  if (stages && s.chance(1,4)) { text += "x14,12\n"; s.label("line without number of bells"); } else if (!stages && s.chance(1,6)) { text += std::to_string(q.b + 1) + ":" + gen::spell_plain(gen::gen_method(s, q.b + 1, 0, 10)) + "\n"; s.label("line for another number of bells"); }
  bool inv = s.chance(1,3), quiet = s.chance(1,8), count = s.coin(), raw = !count && s.chance(1,3); size_t lim = s.chance(1,5) ? s.range(1, 4) : 0; argv.push_back(s.coin() ? "-I" : "--filter"); if (inv) argv.push_back("--invert-filter"); if (quiet) argv.push_back("-q"); if (count) argv.push_back("-C"); if (raw) argv.push_back("--raw-count"); if (lim) argv.push_back("--limit=" + std::to_string(lim));
  int fmt = s.below(4); if (fmt == 1) argv.push_back("-R$B:$p $a"); if (fmt == 2) argv.push_back("-R$p\\t$[$a]"); if (fmt == 3 && !quiet) argv.push_back("--pn-format=" + s.pick(strings{".", "ext", "x,no-sym", "no-symmetry,+", "std-sym,dots", "X"})); if (fmt == 3 && quiet) fmt = 0;
  // a further requirement
  int req = s.below(5); vector<std::function<bool(given const&)>> also; if (req == 0) { int z = s.range(1, 7); argv.push_back("-Q$o == " + std::to_string(z)); also.push_back([z](given const& g) { return (int)order(course_head(g.b, g.m)) == z; }); } else if (req == 1) { string z = s.coin() ? "Ab" : "5"; argv.push_back("--require=$a gt '" + z + "'"); also.push_back([z](given const& g) { return g.pay > z; }); } if (req <= 1 && s.chance(1,3)) { argv.push_back("-Q$B%2"); also.push_back([](given const& g) { return g.b % 2 == 1; }); }
  for (auto& g : in) for (auto const& f : also) if (!f(g) && g.a != ms::no) { g.a = ms::no; if (g.a == ms::yes) --yes, ++no; }
  s.renote(cmdline(argv) + " <<< " + quote(text)); s.nontrivial(yes && no); s.label(inv ? "inverted" : "not inverted"); if (lim) s.label("limited");
  run_result r = run_ok(argv, text);
  if (r.status) { if (r.err.find("No such method can exist") != string::npos && !yes) { s.label("cannot exist"); return; } if (r.err.find("inconsistent with the specified symmetries") != string::npos || r.err.find("not compatible with the symmetries") != string::npos) { s.label("inconsistent"); bool differ = false; if (q.have_mask && !q.floating && (q.sym || q.skew || q.dbl)) { ms::query::orbits t = q.tie(); for (int i=0; i<q.L; ++i) for (int k=0; k<i; ++k) if (t.rep[i] == t.rep[k] && q.mask[i].given && q.mask[k].given) differ = true; } CHECK(differ || !yes, r.err); return; } fail(str() << "status " << r.status << ": " << r.err); }
  size_t i = 0, n = 0; string o = r.out; auto wanted = [&](ms::answer a) { return a == ms::either ? ms::either : (a == ms::yes) != inv ? ms::yes : ms::no; };
  if (!quiet) {
    size_t tail = count || raw ? 1 : 0; strings ls = lines(o); CHECK(ls.size() >= tail, "no count: " << quote(o)); if (tail && ls.size() > 1) { CHECK(ls[ls.size()-2].empty(), "blank line before the count: " << quote(o)); ++tail; }
    for (size_t l=0; l+tail<ls.size(); ++l, ++n) {
      string p, pay, t = ls[l]; size_t c = t.find_first_of(fmt == 1 ? " " : "\t"); CHECK(c != string::npos, "line " << quote(t)); p = t.substr(0, c); pay = t.substr(c+1); int b = stages ? 0 : q.b; if (fmt == 1) { size_t d = p.find(':'); CHECK(d != string::npos, "line " << quote(t)); b = atoi(p.c_str()); p.erase(0, d+1); }
      // which one is it?
      for (;; ++i) { CHECK(i < in.size(), "listed, but not in this order in the stream, or not wanted: " << quote(t)); ms::changes m; if (in[i].pay == pay && (!b || b == in[i].b) && (fmt == 3 ? reads(p, in[i]) : gen::read_pn(p, in[i].b, m) && m == in[i].m) && wanted(in[i].a) != ms::no) break; CHECK(wanted(in[i].a) != ms::yes, "missing " << in[i].b << ":" << gen::spell_plain(in[i].m) << " " << in[i].pay); }
      ++i;
    }
    if (lim) CHECK(n <= lim, "more than the limit: " << n); if (!lim || n < lim) for (; i<in.size(); ++i) CHECK(wanted(in[i].a) != ms::yes, "missing " << in[i].b << ":" << gen::spell_plain(in[i].m) << " " << in[i].pay);
    if (count || raw) CHECK_EQ(ls.back() + "\n", count ? counted(n) : std::to_string(n) + "\n", "count");
  } else if (count || raw) { size_t lo = 0, hi = 0; for (auto const& g : in) { lo += wanted(g.a) == ms::yes; hi += wanted(g.a) != ms::no; } if (lim) { lo = std::min(lo, lim); hi = std::min(hi, lim); } int c = -1; sscanf(r.out.c_str(), count ? "Found %d methods" : "%d", &c); CHECK(c >= (int)lo && c <= (int)hi, "count is " << quote(r.out) << " and not between " << lo << " and " << hi); } else CHECK_EQ(r.out, string(), "quiet");
}

SUB(libraries, 500, 20000, "searches with libraries of named methods, some of which they find: named ones, unnamed ones, the libraries as a filter (inverted or not), and names, classes and stages of methods, with a name for those unnamed; non-trivial when some have names and some do not") {
  ms::query q; strings argv, all = listing(s, q, argv, 600); map<string, string> name; vector<std::pair<string,string>> lib; set<string> used; string f = str() << "* S" << q.b << "\n"; vector<ms::changes> libm; set<ms::changes> inlib;
  auto add = [&](ms::changes const& m) { if (!inlib.insert(m).second) return; string w; do w = word(s); while (!used.insert(w).second); f += w + " z +" + gen::spell_plain(m) + "\n"; name[gen::spell_plain(m)] = w; libm.push_back(m); };
  for (auto const& l : all) if (s.chance(1,3)) { ms::changes m; CHECK(gen::read_pn(pn_of(l), q.b, m), l); add(m); }
  for (int k=s.below(6); k--; ) { ms::changes m; if (s.coin()) m = gen::gen_method(s, q.b, 0, 16); else if (!q.some(s, m)) continue; if (m.size()) add(m); }
  bool other = s.chance(1,3); if (other) { f += str() << "* P" << q.b + 1 << "\n"; f += word(s) + " z +" + gen::spell_plain(gen::gen_method(s, q.b + 1, 0, 12)) + "\n"; }
  string fn = scratch() + "/lib.txt"; bool none = libm.empty() && !other; if (none) s.discard(); write_file(fn, f); strings v = argv; size_t found = 0; for (auto const& l : all) { ms::changes m; gen::read_pn(pn_of(l), q.b, m); found += inlib.count(m); } s.nontrivial(found && found < all.size());
  strings env; if (s.coin()) v.push_back("-L" + fn); else env.push_back("METHOD_LIBRARY=" + fn);
  int kind = s.below(4); string un = s.coin() ? word(s) : ""; if (un.size()) v.push_back("--unnamed-name=" + un); v.push_back("-R$p\t$n\t$N\t$C\t$S"); bool named = kind == 0, unnamed = kind == 1, filt = kind == 2, inv = filt && s.coin(); if (named) v.push_back("--named"); if (unnamed) v.push_back("--unnamed"); if (filt) v.push_back("--filter-lib"); if (inv) v.push_back("--invert-filter");
  s.label(named ? "named" : unnamed ? "unnamed" : filt ? inv ? "inverted library" : "library" : "names"); s.renote(cmdline(v) + " with " + quote(f)); run_result r = run_ok(v, "", "", env); CHECK_EQ(r.status, 0, r.err);
  std::multiset<string> want, got, may; for (auto const& l : all) { ms::changes m; gen::read_pn(pn_of(l), q.b, m); bool in = inlib.count(m); if ((named && !in) || (unnamed && in) || filt) continue; want.insert(gen::spell_plain(m)); }
  if (filt) for (auto const& m : libm) { ms::answer a = q.answer_to(m); if (a == ms::either) may.insert(gen::spell_plain(m)); else if ((a == ms::yes) != inv) want.insert(gen::spell_plain(m)); }
  for (auto const& l : lines(r.out)) { strings c; string t = l + "\t"; for (size_t p; (p = t.find('\t')) != string::npos; t.erase(0, p+1)) c.push_back(t.substr(0, p)); CHECK_EQ(c.size(), 5u, "line " << quote(l)); ms::changes m; bool ok = gen::read_pn(c[0], q.b, m); if (filt && inv && !ok) continue; CHECK(ok, "line " << quote(l)); string p = gen::spell_plain(m); if (!may.count(p)) got.insert(p);
    bool in = inlib.count(m); string w = in ? name[p] : un.size() ? un : "Untitled"; method M = gen::to_method(m, q.b, w); string cl = method::classname(M.methclass());
    if (c[4] == method::stagename(q.b)) { CHECK_EQ(c[3], cl, "class of " << p); if (in || !(filt && inv && other)) { CHECK_EQ(c[1], w, "name of " << p); CHECK_EQ(c[2], string(M.fullname()), "title of " << p); } } else CHECK(filt && inv && other, "stage of " << p << ": " << c[4]); }
  if (!(filt && inv && other)) { for (auto const& p : got) CHECK(want.count(p), "listed " << p); for (auto const& p : want) CHECK(got.count(p), "not listed " << p); CHECK_EQ(got.size(), want.size(), "methods listed"); }
  else for (auto const& p : want) CHECK(got.count(p), "not listed " << p);
}

SUB(row_match, 500, 20000, "searches with rows required to match patterns, with and without a start row and parts: the methods are those of the same search whose rows match (in some part); non-trivial when some do and some do not") {
  ms::query q; strings argv, all = listing(s, q, argv, 1200); int k = s.range(1, 3); vector<std::pair<int, string>> req; set<int> used; strings v = argv;
  while (k--) { int at = s.chance(1,12) ? 0 : s.range(0, q.L); if (!used.insert(at).second) continue; ms::changes m; CHECK(gen::read_pn(pn_of(s.pick(all)), q.b, m), "line"); perm r = gen::rows(m, q.start)[at]; if (q.pends.size() > 1) r = mul(s.pick(q.pends), r); string t = text(r), p; if (s.chance(1,6)) { r = gen_perm(s, q.b); t = text(r); }
    if (s.coin()) { for (char c : t) p += s.coin() ? c : '?'; } else { int n = s.range(1, 2); bool front = s.coin(); p = front ? t.substr(0, n) + "*" : "*" + t.substr(t.size() - n); } req.push_back(std::make_pair(at, p)); v.push_back("--row-match=" + std::to_string(at) + "=" + p); }
  auto match = [](string const& t, string const& p) { std::function<bool(size_t, size_t)> go = [&](size_t i, size_t j) { if (j == p.size()) return i == t.size(); if (p[j] == '*') { for (size_t e=i; e<=t.size(); ++e) if (go(e, j+1)) return true; return false; } return i < t.size() && (p[j] == '?' || p[j] == t[i]) && go(i+1, j+1); }; return go(0, 0); };
  strings want; for (auto const& l : all) { ms::changes m; gen::read_pn(pn_of(l), q.b, m); vector<perm> r = gen::rows(m, q.start); bool ok = true; for (auto const& x : req) { bool any = false; for (auto const& g : q.pends) any = any || match(text(mul(g, r[x.first])), x.second); ok = ok && any; } if (ok) want.push_back(l); }
  if (q.E) s.discard(); s.nontrivial(want.size() && want.size() < all.size()); if (q.pends.size() > 1) s.label("parts"); if (q.have_start) s.label("start row"); s.renote(cmdline(v)); run_result r = run_ok(v); CHECK_EQ(r.status, 0, r.err); strings got = lines(r.out); for (size_t i=0; i<got.size() && i<want.size(); ++i) CHECK_EQ(got[i], want[i], "method " << i); CHECK_EQ(got.size(), want.size(), "number of methods");
}
