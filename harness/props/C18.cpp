// C18 - method libraries: what is in the file is what is read
#include "methods.h"
#include <ringing/library.h>
#include <ringing/litelib.h>
#include <ringing/mslib.h>
#include <ringing/cclib.h>
#include <ringing/peal.h>
#include <fstream>
using namespace lib; using namespace model; using namespace pbt;
using model::perm; using gen::changes;
using ringing::library; using ringing::library_entry; using ringing::litelib; using ringing::mslib; using ringing::cclib;

static void registered() { static bool done; if (!done) { done = true; cclib::registerlib(); mslib::registerlib(); } }

struct entry { string name, base, pn; int bells; changes ch; };

static string word(Src& s, bool cap = true) {
  string w; int len = s.range(1, 8); for (int i=0; i<len; ++i) w += s.pickc("abcdefghiklmnorstuwz"); if (cap) w[0] = toupper(w[0]);
  if (s.chance(1,12)) w += "'s"; return w;
}
static string words(Src& s, int n) { string r; for (int i=0; i<n; ++i) r += (i ? " " : "") + word(s, i == 0 || s.coin()); return r; }

static void same_changes(library_entry const& e, entry const& w) {
  method m = e.meth(); CHECK_EQ((int) m.bells(), w.bells, "bells of the method of " << quote(w.name)); changes got = gen::from_method(m); CHECK_EQ(got.size(), w.ch.size(), "length of " << quote(w.name) << " read from " << quote(e.pn()));
  CHECK(got == w.ch, "changes of " << quote(w.name) << " read from " << quote(e.pn()) << " are " << gen::spell_plain(got));
}
// Everything about a library that is the same for all the formats
static void check_library(Src& s, library const& l, vector<entry> const& want, bool again) {
  vector<library_entry> got; for (library::const_iterator i = l.begin(), e = l.end(); i != e; ++i) { got.push_back(*i); CHECK(got.size() <= want.size(), "more entries than the file has: " << quote(i->name()) << " pn " << quote(i->pn())); }
  CHECK_EQ(got.size(), want.size(), "number of entries");
  for (size_t i=0; i<want.size(); ++i) { auto const& e = got[i]; auto const& w = want[i];
    CHECK_EQ(e.name(), w.name, "name of entry " << i); CHECK_EQ(e.base_name(), w.base, "base name of " << quote(w.name)); CHECK_EQ(e.bells(), w.bells, "bells of " << quote(w.name)); if (w.pn.size()) CHECK_EQ(e.pn(), w.pn, "place notation of entry " << i); same_changes(e, w);
    method m = e.meth(); CHECK_EQ(string(m.name()), w.base, "name of the method"); CHECK_EQ(e.fullname(), m.fullname(), "full name"); }
  if (again && want.size()) {
    size_t n = 0; for (library::const_iterator i = l.begin(); i != l.end(); i++) { CHECK(n < want.size(), "second time round"); CHECK_EQ(i->name(), want[n].name, "second time round"); CHECK_EQ(i->pn(), got[n].pn(), "second time round"); ++n; } CHECK_EQ(n, want.size(), "second time round");
    if (s.chance(1,3)) { std::list<string> names(1, "one"); CHECK_EQ(l.dir(names), (int) want.size(), "number of names"); CHECK_EQ(names.size(), want.size() + 1, "list of names"); std::list<method> all; CHECK_EQ(l.mdir(all), (int) want.size(), "number of methods"); CHECK_EQ(all.size(), want.size(), "list of methods"); auto a = names.begin(); auto b = all.begin(); for (size_t i=0; i<want.size(); ++i, ++b) { CHECK_EQ(*++a, want[i].name, "name listed"); CHECK(gen::from_method(*b) == want[i].ch && b->bells() == want[i].bells, "changes of the method listed " << i); CHECK_EQ(string(b->name()), want[i].base, "name of the method listed"); } }
    int k = s.below(want.size()); size_t f = 0; while (!(want[f].ch == want[k].ch && want[f].bells == want[k].bells)) ++f;
    library_entry e = l.find(gen::to_method(want[k].ch, want[k].bells)); CHECK(!e.null(), "find the method of entry " << k); CHECK_EQ(e.name(), want[f].name, "the first with the changes of entry " << k);
    string t = got[k].fullname(); f = 0; while (got[f].fullname() != t) ++f; e = l.find(t); CHECK(!e.null(), "find " << quote(t)); CHECK_EQ(e.name(), want[f].name, "the first called " << quote(t)); CHECK(e.meth() == got[f].meth(), "the first called " << quote(t));
    string n2 = want[k].name, lc; for (char& c : n2) { lc += tolower(c); c = s.coin() ? toupper(c) : tolower(c); } bool st = s.coin();
    auto low = [](string x) { for (char& c : x) c = tolower(c); return x; }; f = 0; while (!(low(want[f].name) == lc && (!st || want[f].bells == want[k].bells))) ++f;
    if (n2.size()) { method m = st ? l.load(n2, want[k].bells) : l.load(n2); CHECK(gen::from_method(m) == want[f].ch && m.bells() == want[f].bells, "load " << quote(n2)); CHECK_EQ(string(m.name()), want[f].base, "load " << quote(n2)); }
    bool threw = false; try { l.load(n2 + "zq", 0); } catch (ringing::library_base::invalid_name const&) { threw = true; } CHECK(threw, "load of a name that is not there");
    CHECK(l.find(n2 + "zq").null(), "find of a title that is not there");
    CHECK(!l.empty(), "empty");
  } else if (again) CHECK(l.empty(), "empty");
}
static string eol(Src& s, int style) { return style == 1 ? "\r\n" : "\n"; }

SUB(lite, 10000, 100000, "files and streams of lines of place notation with and without numbers of bells, payloads, indentation, blank lines, a byte order mark, either line ending and perhaps no last one, read for one number of bells or for any; non-trivial if at least two entries are read and one line is not") {
  int want_b = s.chance(1,2) ? 0 : s.range(3, 10); int n = s.below(9); int style = s.below(4) == 3; bool isname = s.coin(); bool bom = s.chance(1,3);
  vector<entry> want; string f; int skipped = 0; if (bom) f += "\xef\xbb\xbf";
  for (int i=0; i<n; ++i) {
    if (s.chance(1,8)) { f += s.coin() ? "" : s.coin() ? "  " : "\t"; f += "\n"; }
    int b = want_b && s.chance(2,3) ? want_b : s.range(3, 10); bool prefix = want_b && b == want_b ? s.coin() : s.chance(5,6); changes m = gen::gen_method(s, b, 0, 16);
    entry e; e.bells = b; e.ch = m; e.pn = gen::spell_plain(m); string pay; int k = s.below(5);
    if (k == 4) { method x = gen::to_method(m, b, words(s, s.range(1,2))); pay = x.fullname(); e.base = string(x.name()); } else if (k) { pay = words(s, k); e.base = pay; }
    if (!isname) e.name = e.base = ""; else e.name = pay;
    if (want_b && !prefix && b != want_b) { prefix = true; }
    f += s.chance(1,6) ? (s.coin() ? " " : "\t ") : ""; if (prefix) f += std::to_string(b) + ":"; f += e.pn; if (pay.size()) { f += s.coin() ? "\t" : s.coin() ? "  " : " "; f += pay; }
    if (s.chance(1,8)) f += s.coin() ? "  " : "\t"; if (i+1 < n || !s.chance(1,4)) f += eol(s, style); else s.label("no last end of line");
    bool read = want_b ? b == want_b : prefix; if (read) { e.name = isname ? pay : ""; want.push_back(e); want.back().pn = e.pn; want.back().base = e.base; want.back().name = e.name; } else ++skipped;
  }
  s.note(str() << want_b << " " << (isname ? "names " : "") << quote(f)); s.nontrivial(want.size() >= 2 && skipped); if (bom) s.label("byte order mark");
  auto payloads = [&](library const& l) { size_t i = 0; for (library::const_iterator j = l.begin(); j != l.end(); ++j, ++i) { CHECK(j->has_facet<litelib::payload>(), "payload"); if (isname) CHECK_EQ(j->get_facet<litelib::payload>(), want[i].name, "payload"); CHECK(!j->has_facet<ringing::rw_ref>(), "reference"); } };
  if (s.coin()) { string fn = scratch() + "/lite.txt"; write_file(fn, f); litelib l(want_b, fn, isname ? litelib::payload_is_name : 0); CHECK(l.good(), "good"); check_library(s, l, want, true); payloads(l); s.label("file"); }
  else { std::istringstream is(f); litelib l(want_b, is, isname ? litelib::payload_is_name : 0); check_library(s, l, want, false); s.label("stream"); }
}

SUB(lite_payloads, 10000, 100000, "payloads of any printable text: what is read is the text with its ends trimmed, and a name that ends in class and stage gives the name it was made from; non-trivial if the payload has class or stage words inside it") {
  int b = s.range(4, 10); method m = gen::to_method(gen::gen_method(s, b, 0, 20), b);
  string name; int k = s.range(1, 4); bool inside = false; for (int i=0; i<k; ++i) { if (i) name += ' '; if (s.chance(1,3)) { name += s.pick(vector<string>{"Bob", "Place", "Treble", "Surprise", "Little", "Minor", "Major", "Royal", "Slow", "Course", "Triples", "Doubles"}); inside = true; } else name += word(s); }
  // the name proper must not itself end as a class does
  name += " " + word(s); m.name(name); string title = m.fullname(); s.note(quote(title)); s.nontrivial(inside); s.label(method::classname(m.methclass()));
  string line = std::to_string(b) + ":" + m.format(method::M_LCROSS) + "\t" + title; std::istringstream is(line); litelib l(0, is, litelib::payload_is_name); library::const_iterator i = l.begin(); CHECK(i != l.end(), "an entry");
  CHECK_EQ(i->name(), title, "name"); CHECK_EQ(i->base_name(), name, "base name of " << quote(title)); CHECK_EQ(i->fullname(), title, "full name"); CHECK_EQ(string(i->meth().name()), name, "name of the method");
}

// MicroSIRIL
SUB(microsiril, 10000, 100000, "MicroSIRIL files of several sections: half leads with lead head codes, codes giving the lead end, and whole leads, with headers of any class code, either line ending and trailing space, read by name, by guess, and through the search path; non-trivial if there are two sections with entries of different numbers of bells") {
  vector<entry> want; string f; std::set<int> stages; int sections = s.range(1, 3); string nl = s.chance(1,4) ? "\r\n" : "\n";
  for (int k=0; k<sections; ++k) { int b = s.range(4, 12); f += "*" + words(s, 1).substr(0, s.below(2)); f += " "; for (int j=s.below(3); j>0; --j) f += s.pickc("SDTPBbsd"); f += std::to_string(b); if (s.coin()) f += " " + std::to_string(s.below(999)); f += nl; int n = s.range(k ? 0 : 1, 4);
    for (int i=0; i<n; ++i) { entry e; e.bells = b; e.name = e.base = word(s) + (s.chance(1,3) ? "_" + word(s) : ""); string lh; int h = s.range(1, 8); changes half; for (int j=0; j<h; ++j) half.push_back(gen_change(s, b)); string trail = s.chance(1,6) ? "\t" : "";
      int how = s.below(4); string pn;
      if (how == 0) { pn = "+" + gen::spell_plain(half); e.ch = half; lh = string(1, s.pickc("abfpqgmrsz")); }
      else { perm le = rounds(b); int at; if (how == 1) { int p; do { le = gen_change(s, b); p = places(le).size(); } while (!p); lh = full_pn(le, 'x') + "z"; }
        else { at = how == 2 ? 1 : 0; lh = string(1, at ? s.pickc("abcdefpq") : s.pickc("ghjklmrst")); if (s.chance(1,3)) lh += s.pickc("1234"); vector<int> pl(1, at); if (at) pl.insert(pl.begin(), 0); if ((b - at - 1) % 2) pl.push_back(b-1); if (!from_places(b, pl, le)) s.discard(); }
        e.ch = half; e.ch.insert(e.ch.end(), half.rbegin() + 1, half.rend()); e.ch.push_back(le); pn = "&" + gen::spell_plain(half); }
      f += e.name + " " + lh + " " + pn + trail; if (!(k+1 == sections && i+1 == n && s.coin())) f += nl; want.push_back(e); stages.insert(b); }
    if (s.chance(1,3) && f[f.size()-1] == '\n') f += "\n"; }
  registered(); string dir = scratch(), fn = "lib" + std::to_string(s.below(13)) + (s.coin() ? ".txt" : ""); write_file(dir + "/" + fn, f); s.note(quote(f)); s.nontrivial(stages.size() > 1);
  int how = s.below(3); if (how == 0) { mslib l(dir + "/" + fn); CHECK(l.good(), "good"); check_library(s, l, want, true); s.label("named"); }
  else { if (how == 2) { library::setpath(s.coin() ? "/nonexistent:" + dir : dir + ":/nonexistent"); s.label("path"); } else s.label("guessed"); library l(how == 2 ? fn : dir + "/" + fn); library::setpath(""); CHECK(l.good(), "good"); check_library(s, l, want, true); }
}

// Central Council collections
struct col { string head; string::size_type width; };
static string pad_to(string x, size_t w) { while (x.size() < w) x += ' '; return x; }

SUB(council, 12000, 120000, "Central Council files of several tables: method tables, principles, differentials and blocks, each of the three layouts of place notation, wrapped names, any of the columns for peals, references and page numbers, left blank or cut short; every entry's names, changes and facets are those of the table; non-trivial if there are two tables and an entry is wrapped or has a peal") {
  struct more { int ref; bool t, h, rw, cc; ringing::peal::date td, hd; string place, rwr, ccc; };
  vector<entry> want; vector<more> facets; string f = "Copyright Central Council of Church Bell Ringers\n\n"; int tables = s.range(1, 3); bool wrapped = false, peals = false, named2 = s.chance(1,4); string nl = s.chance(1,5) ? "\r\n" : "\n"; int used = 0;
  for (int t=0; t<tables; ++t) {
    int b = s.range(4, 12); char const* mains[] = { "Surprise", "Delight", "Treble Bob", "Treble Place", "Alliance", "Hybrid", "", "Plain" }; int cls = s.below(8); int kind = cls >= 6 ? s.below(4) : 0; // methods, principles, differentials, blocks
    if (kind == 0 && cls == 6) cls = 7; if (kind) cls = 6;
    bool little = kind == 0 && s.chance(1,4), diff = kind == 2 || (kind == 0 && s.chance(1,6)); string main = mains[cls];
    string title; if (diff && kind != 2) title += "Differential "; if (little) title += "Little "; if (main.size()) title += main + " "; title += string(method::stagename(b)) + (kind == 0 ? " methods" : kind == 1 ? " principles" : kind == 2 ? " differentials" : " blocks"); if (s.coin()) title = string(s.below(20), ' ') + title; f += title + nl; if (s.coin()) f += nl;
    int layout = s.below(3); bool tower = s.coin(), place = tower && s.coin(), hand = s.chance(1,3), rw = s.chance(1,3), cc = s.chance(1,3);
    int namew = s.range(8, 24), now = s.range(4, 7); int n = s.range(t ? 0 : 1, 4); vector<string> c1, c2, c3, c4; vector<entry> es; vector<more> ms; vector<string> shown;
    for (int i=0; i<n; ++i) { entry e; e.bells = b; more m = more(); m.ref = ++used + (s.chance(1,8) ? 5000 : 0);
      string base = words(s, s.range(1, 3)), in = base, full = base; if (kind == 0 && s.chance(1,10)) base = in = full = words(s, 1) + " " + (s.coin() ? "Place" : "Bob") + "s";
      if (cls < 6 && main.find(' ') == string::npos && s.chance(1,6)) base = in = full = words(s, 1) + " " + (s.coin() ? "Place" : s.coin() ? "Slow Course" : "Bob");
      if (kind == 2) { if (s.coin()) in += " Differential"; full += " Differential"; }
      if (kind == 3) { if (s.coin()) in += " Block"; full += " Block"; }
      if (kind == 0) { if (diff) { if (little || s.coin()) { in += " Differential"; } full += " Differential"; } if (little) { in += " Little"; full += " Little"; }
        if (cls == 7) { string k = s.pick(vector<string>{"Bob", "Place", "Slow Course", ""}); if (diff) { full = base + " Differential" + (little ? " Little" : ""); in = full; } if (k.size()) { in += " " + k; full = in; } }
        else if (main != "Hybrid") full += " " + main; }
      e.base = base; e.name = full; shown.push_back(in); perm x = gen_change(s, b);
      if (layout == 0) { int h = s.range(1, 8); changes half; for (int j=0; j<h; ++j) half.push_back(gen_change(s, b)); perm hl = gen_change(s, b), le = gen_change(s, b); e.ch = half; e.ch.push_back(hl); e.ch.insert(e.ch.end(), half.rbegin(), half.rend()); e.ch.push_back(le); c1.push_back(gen::spell_plain(half)); c2.push_back(full_pn(hl, 'x')); c3.push_back(full_pn(le, 'x')); }
      else if (layout == 1) { int h = s.range(1, 8); changes half; for (int j=0; j<h; ++j) half.push_back(gen_change(s, b)); perm hl = gen_change(s, b); changes sh(1, x); sh.insert(sh.end(), half.begin(), half.end()); c1.push_back(gen::spell_plain(sh)); c2.push_back(full_pn(hl, 'x')); c3.push_back(""); e.ch = sh; e.ch.push_back(hl); e.ch.insert(e.ch.end(), half.rbegin(), half.rend()); }
      else { int h = s.range(2, 12); for (int j=0; j<h; ++j) e.ch.push_back(gen_change(s, b)); c1.push_back(gen::spell_plain(e.ch)); c2.push_back(""); c3.push_back(""); }
      c4.push_back(text(gen_perm(s, b)));
      auto date = [&]() { return ringing::peal::date(s.range(1, 31), s.range(1, 12), s.coin() ? s.range(1, 99) : s.range(1715, 2020)); };
      if (tower && s.chance(2,3)) { m.t = true; m.td = date(); if (place && s.coin()) m.place = s.coin() ? words(s, 2) : "St. " + word(s); peals = true; } if (hand && s.coin()) { m.h = true; m.hd = date(); peals = true; }
      if (rw && s.coin()) { m.rw = true; m.rwr = std::to_string(s.range(1900, 2017)) + "/" + std::to_string(s.below(1200)); } if (cc && s.coin()) { m.cc = true; m.ccc = s.coin() ? std::to_string(s.range(1,999)) : "TDMM" + std::to_string(s.below(99)); }
      es.push_back(e); ms.push_back(m); }
    // header
    auto wmax = [](vector<string> const& v, size_t m) { for (auto& x : v) m = std::max(m, x.size()); return m + 1; };
    size_t w1 = wmax(c1, 8), w2 = wmax(c2, 3), w3 = wmax(c3, 3), w4 = wmax(c4, 3); string head = pad_to(" No.", now) + pad_to("Name", namew) + pad_to("Notation", w1); if (layout < 2) head += pad_to("hl", w2); if (layout == 0) head += pad_to("le", w3); head += "lh";
    size_t tail = head.size() - 2 + w4; head = pad_to(head, tail); struct extra { string h; int w; int what; }; vector<extra> ex; if (tower) ex.push_back({"Tower bells", 13, 0}); if (place) ex.push_back({"Place", 20, 1}); if (hand) ex.push_back({"Handbells", 12, 2}); if (rw) ex.push_back({"RW ref", 11, 3}); if (cc) ex.push_back({"CCC", 9, 4});
    for (auto& x : ex) head += pad_to(x.h, x.w); if (s.coin()) while (head.back() == ' ') head.pop_back();
    f += head + nl; if (s.coin()) f += nl; 
    for (int i=0; i<n; ++i) { auto& m = ms[i]; string no = std::to_string(m.ref); bool right = s.coin(); if (right) while ((int) no.size() < now-1) no = " " + no; string l = pad_to(no, now);
      bool wrap = (int) shown[i].size() > namew - 2; if (wrap) { wrapped = true; f += l + shown[i] + nl; l = string(now + namew, ' '); } else l += pad_to(shown[i], namew);
      l += pad_to(c1[i], w1); if (layout < 2) l += pad_to(c2[i], w2); if (layout == 0) l += pad_to(c3[i], w3); l += c4[i]; l = pad_to(l, tail);
      auto dt = [&](ringing::peal::date d) { bool z = s.coin(); string r; r += (z && d.day < 10 ? "0" : "") + std::to_string(d.day); r += "." + string(z && d.month < 10 ? "0" : "") + std::to_string(d.month); r += "." + std::to_string(d.year); return r; };
      for (auto& x : ex) { string v; if (x.what == 0 && m.t) v = dt(m.td); if (x.what == 1) v = m.place = m.place.substr(0, 19); if (x.what == 2 && m.h) v = dt(m.hd); if (x.what == 3 && m.rw) v = m.rwr; if (x.what == 4 && m.cc) v = m.ccc; l += pad_to(v, x.w); }
      while (m.place.size() && m.place.back() == ' ') m.place.pop_back();
      if (s.coin()) while (l.back() == ' ') l.pop_back(); f += l; if (!(t+1 == tables && i+1 == n && s.coin())) f += nl; want.push_back(es[i]); facets.push_back(m); }
    if (s.coin()) f += nl;
  }
  registered(); string fn = scratch() + "/cc.txt"; write_file(fn, f); s.note(f); s.nontrivial(tables > 1 && (wrapped || peals)); if (wrapped) s.label("wrapped"); if (peals) s.label("peals");
  library l; if (named2) l = cclib(fn); else l = library(fn); CHECK(l.good(), "good"); check_library(s, l, want, true);
  size_t i = 0; for (library::const_iterator j = l.begin(); j != l.end(); ++j, ++i) { auto const& m = facets[i]; string w = quote(want[i].name);
    CHECK(j->has_facet<cclib::ref>(), "number of " << w); CHECK_EQ(j->get_facet<cclib::ref>(), m.ref, "number of " << w);
    auto pl = [&](bool has, bool want, ringing::peal const* p, ringing::peal::date d, string place, string what) { CHECK_EQ(has, want, what << " of " << w); if (p) { CHECK(p->when().day == d.day && p->when().month == d.month && p->when().year == d.year, what << " of " << w << ": " << p->when().day << "." << p->when().month << "." << p->when().year); CHECK_EQ(p->where(), place, what << " of " << w); } };
    ringing::peal p; bool ht = j->has_facet<ringing::first_tower_peal>(); if (ht) p = j->get_facet<ringing::first_tower_peal>(); pl(ht, m.t, ht ? &p : 0, m.td, m.place, "tower bell peal");
    bool hh = j->has_facet<ringing::first_hand_peal>(); if (hh) p = j->get_facet<ringing::first_hand_peal>(); pl(hh, m.h, hh ? &p : 0, m.hd, "", "handbell peal");
    CHECK_EQ(j->has_facet<ringing::rw_ref>(), m.rw, "reference of " << w); if (m.rw) CHECK_EQ(j->get_facet<ringing::rw_ref>(), m.rwr, "reference of " << w);
    CHECK_EQ(j->has_facet<ringing::cc_collection_id>(), m.cc, "page of " << w); if (m.cc) CHECK_EQ(j->get_facet<ringing::cc_collection_id>(), m.ccc, "page of " << w);
    if (!m.h) { bool threw = false; try { j->get_facet<ringing::first_hand_peal>(); } catch (std::runtime_error const&) { threw = true; } CHECK(threw, "a facet that is not there"); } }
}

// Anything at all in the file
static void exercise(library& l) {
  if (!l.good()) return; int k = 0; try { for (library::const_iterator i = l.begin(); i != l.end() && k < 500; ++i, ++k) {
    try { i->name(); i->bells(); i->pn(); if (i->bells() <= 30) { i->base_name(); i->fullname(); i->meth(); } } catch (std::exception const&) {}
    try { if (i->has_facet<ringing::first_tower_peal>()) i->get_facet<ringing::first_tower_peal>(); if (i->has_facet<ringing::first_hand_peal>()) i->get_facet<ringing::first_hand_peal>(); if (i->has_facet<ringing::rw_ref>()) i->get_facet<ringing::rw_ref>(); if (i->has_facet<ringing::cc_collection_id>()) i->get_facet<ringing::cc_collection_id>(); if (i->has_facet<cclib::ref>()) i->get_facet<cclib::ref>(); } catch (std::exception const&) {} } } catch (std::exception const&) {}
  CHECK(k < 500, "endless");
}
SUB(damaged, 15000, 200000, "files of the three formats with characters changed, added or removed and lines cut, doubled or exchanged, and files of nothing but such lines: reading and asking about every entry gives an answer or an exception; non-trivial if at least three places were damaged") {
  string f; int what = s.below(3);
  if (what == 0) f = "8:x3x4.2\tFirst Little Bob Major\n\xef\xbb\xbf" "6:x16 Minor\n:x\n99:1\nx 4\n5:3.1\n";
  else if (what == 1) f = "*S8 12\nCambridge b x3x4x25x36x4x5x6x7\nKent lz +34.1.5\nLong 12z x1x1x\n*6\nAbc g x1x1x1\nD  x\n";
  else f = "Copyright notice\nDifferential Surprise Minor methods\n No. Name      Notation  hl le lh     Tower bells  Place      Handbells   RW ref  CCC\n   1 Cambrid   x3x4x2x3  3  2  142635 1.2.1900     Here       3.4.1950    1/2     77\n   2 Something very long\n               x1x1x1x1  3  2  142635\nPlain Doubles principles\n No. Name      Notation  hl lh\n   1 Grand     3.1.5.1.5 1  12345\nMinor blocks\n No. Name      Notation  lh  \n   1 Odd       x.1.34.x  123456\n";
  int k = s.range(0, 8); s.nontrivial(k >= 3); for (int i=0; i<k; ++i) { int at = s.below(f.size()+1); switch (s.below(6)) { case 0: f.insert(at, 1, s.chance(1,4) ? (char) s.below(256) : s.pickc(" \n\t*:,.x19+z&\r")); break; case 1: if (at < (int)f.size()) f[at] = s.pickc(" \n:,.x19+z*\t"); break; case 2: f.erase(at, s.range(1, 20)); break; case 3: { size_t e = f.find('\n', at); if (e != string::npos) f.erase(at, e - at); break; }
      case 4: { size_t e = f.find('\n', at); if (e != string::npos) { string l = f.substr(e+1, f.find('\n', e+1) - e); f.insert(s.below(f.size()), l); } break; } default: f.insert(at, string(s.range(1, 30), ' ')); } }
  registered(); string fn = scratch() + "/lib" + std::to_string(s.below(20)) + ".txt"; write_file(fn, f); s.note(quote(f)); s.label(what == 0 ? "lite" : what == 1 ? "MicroSIRIL" : "council");
  if (what == 0) { litelib l(s.below(9), fn, s.coin() ? litelib::payload_is_name : 0); exercise(l); } else if (what == 1 && s.coin()) { mslib l(fn); exercise(l); } else if (s.coin()) { cclib l(fn); exercise(l); } else { library l(fn); exercise(l); }
}
