// C33 - methsearch finds exactly the methods asked for
//! apps: methsearch
#include "msearch.h"
using namespace model; using namespace pbt; using std::map; using std::set;

static vector<string> lines(string const& t) { vector<string> r; std::istringstream is(t); string l; while (getline(is, l)) r.push_back(l); return r; }

static void one_search(Src& s, ms::query const& q) {
  vector<string> argv(1, app("methsearch")), a = q.args(s); argv.insert(argv.end(), a.begin(), a.end()); s.renote(cmdline(argv));
  set<ms::changes> want, may; long n = 0; q.each([&](ms::changes const& m) { ++n; ms::answer x = q.accepts(m); if (x == ms::yes) want.insert(m); else if (x == ms::either) may.insert(m); });
  s.label(str() << "U" << q.U << " G" << q.G); if (!want.empty()) { static char const* cn[] = { "", "surprise", "treble bob", "delight", "strict delight", "thirds", "fourths", "exercise", "strict exercise", "tria", "tessera" }; if (q.cls) s.label(str() << "found " << cn[q.cls]); if (q.cps) s.label("found CPS"); if (!q.groups.empty()) s.label("found by falseness groups"); if (q.hl == 5) s.label("found regular half leads"); if (q.offc) s.label("found offset cyclic"); if (q.parity) s.label("found by parity"); if (q.ext) s.label("found viable"); }
  s.label(n ? want.empty() ? "none found" : "some found" : "nothing to enumerate"); s.nontrivial(!want.empty() && (long)want.size() < n);
  run_result r = run_ok(argv);
  if (r.status) {
    if (r.err.find("No such method can exist") != string::npos) { CHECK(want.empty(), "said that no such method can exist, but there are " << want.size() << ", e.g. " << gen::spell_plain(*want.begin())); s.label("cannot exist"); return; }
    if (r.err.find("inconsistent with the specified symmetries") != string::npos) { CHECK(q.have_mask && !q.floating && (q.sym || q.skew || q.dbl), "mask called inconsistent"); ms::query::orbits o = q.tie(); bool differ = false; for (int i=0; i<q.L; ++i) for (int k=0; k<i; ++k) if (o.rep[i] == o.rep[k] && q.mask[i].given && q.mask[k].given) differ = true; CHECK(differ, "mask called inconsistent: " << r.err); s.label("inconsistent mask"); return; }
    if (r.err.find("not compatible with the symmetries") != string::npos) { CHECK(want.empty(), "changes called incompatible, but there are " << want.size()); return; }
    fail(str() << "status " << r.status << ": " << r.err);
  }
  set<ms::changes> got;
  for (auto const& l : lines(r.out)) { size_t t = l.find('\t'); CHECK(t != string::npos, "line " << quote(l)); ms::changes m; CHECK(gen::read_pn(l.substr(0, t), q.b, m), "unreadable: " << quote(l)); CHECK(got.insert(m).second, "listed twice: " << l); CHECK_EQ(l.substr(t+1), text(course_head(q.b, m)), "lead head of " << l); CHECK(want.count(m) || may.count(m), "found " << l << " which does not answer the query"); }
  for (auto const& m : want) CHECK(got.count(m), "did not find " << gen::spell_plain(m) << " (" << got.size() << " found, " << want.size() << " expected)");
}

SUB(search, 1500, 60000, "queries on 3 to 6 bells with 0 to 3 hunt bells, plain, treble dodging and little, symmetric in each way, with limits on places, points, lead heads, half leads, falseness, parts, masks and prefixes: the methods listed are those of an independent enumeration that answer the query, each once; non-trivial when some methods answer it and some do not") { one_search(s, ms::gen_query(s)); }
SUB(major, 300, 6000, "queries for symmetrical and double treble dodging methods on 6 to 12 bells, all but a few of whose changes are given: surprise, delight, exercise and the other old classes, falseness groups and clear proof scales on 8 bells, sections with an even number of rows of each parity, regular half leads and offset cyclic methods; the methods listed are those of an independent enumeration that answer the query; non-trivial when some methods answer it and some do not") { one_search(s, ms::gen_major(s)); }

// The known findings, each by one query: the methods found are to be those that
// answer it or, as was found, so many others or so few of them
static void known(Src& s, ms::query& q, std::initializer_list<char const*> args, size_t found, size_t right, char const* key, bool all = true) {
  q.strict = true; vector<string> argv(1, app("methsearch")); argv.insert(argv.end(), args.begin(), args.end()); s.renote(cmdline(argv)); s.nontrivial();
  set<ms::changes> want; if (all) q.each([&](ms::changes const& m) { if (q.accepts(m) != ms::no) want.insert(m); });
  run_result r = run_ok(argv); CHECK_EQ(r.status, 0, r.err); vector<string> ls = lines(r.out); size_t ok = 0;
  for (auto const& l : ls) { ms::changes m; CHECK(gen::read_pn(l.substr(0, l.find('\t')), q.b, m), "unreadable: " << quote(l)); if (!all && q.accepts(m) != ms::no) want.insert(m); ok += want.count(m); }
  string msg = str() << "found " << ls.size() << " methods, of which " << ok << " answer the query; " << want.size() << " do";
  if (ls.size() == ok && ok == want.size()) return;
  fail(msg, ls.size() == found && ok == right ? key : "");
}
SUB(start_row, 1, 1, "the query -b4 -A, whose answers were found to include methods in which rounds comes twice; always non-trivial") { ms::query q; q.zb = 3; q.A = true; q.ready(); known(s, q, { "-b4", "-A" }, 48, 44, "start-row"); }
SUB(sections, 1, 1, "the query -b6 -G1 -k -y -p2, whose answers were found to include methods with a section that is not symmetric; always non-trivial") { ms::query q; q.b = 6; q.zb = 5; q.G = 1; q.skew = q.y = true; q.p = 2; q.ready(); known(s, q, { "-b6", "-G1", "-k", "-y", "-p2" }, 817, 450, "sections", false); }
SUB(symmetry_point, 1, 1, "a query for rotational treble dodging methods with two hunt bells, most of which were not found; always non-trivial") {
  ms::query q; q.b = 6; q.zb = 5; q.U = 2; q.G = 1; q.skew = q.A = q.r = true; q.ready(); ms::changes c; gen::read_pn("3456.1236", 6, c); for (int i=0; i<2; ++i) { ms::slot& m = q.mask[11*i]; m.given = true; m.qa = m.qb = false; m.a.push_back(c[i]); } q.have_mask = true;
  known(s, q, { "-b6", "-U2", "-G1", "-k", "-A", "-r", "-m3456.??????????.1236.????????????" }, 2, 2, "symmetry-point"); }
