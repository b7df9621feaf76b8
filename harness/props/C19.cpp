// C19 - XML libraries: what is written is what is read, however it is spelt
#include "methods.h"
#include <ringing/library.h>
#include <ringing/xmllib.h>
#include <ringing/xmlout.h>
#include <ringing/peal.h>
using namespace lib; using namespace model; using namespace pbt;
using model::perm; using gen::changes;
using ringing::library; using ringing::library_entry; using ringing::xmllib; using ringing::xmlout; using ringing::peal;

struct fixed_entry : library_entry::impl {       // an entry to be written
  method m; bool has_t, has_h; peal t, h; string rw, cc;
  fixed_entry(method const& m) : m(m), has_t(false), has_h(false) {}
  library_entry::impl* clone() const { return new fixed_entry(*this); }
  string name() const { return m.fullname(); } string base_name() const { return m.name(); }
  string pn() const { return m.format(method::M_LCROSS); } int bells() const { return m.bells(); } method meth() const { return m; }
  bool readentry(ringing::library_base&) { return false; }
  ringing::shared_pointer<ringing::library_facet_base> get_facet(ringing::library_facet_id const& id) const {
    ringing::shared_pointer<ringing::library_facet_base> r;
    if (id == ringing::first_tower_peal::id && has_t) r.reset(new ringing::first_tower_peal(t)); if (id == ringing::first_hand_peal::id && has_h) r.reset(new ringing::first_hand_peal(h));
    if (id == ringing::rw_ref::id && rw.size()) r.reset(new ringing::rw_ref(rw)); if (id == ringing::cc_collection_id::id && cc.size()) r.reset(new ringing::cc_collection_id(cc)); return r; }
};
static string word(Src& s) { string w; int len = s.range(1, 7); for (int i=0; i<len; ++i) w += s.pickc("abcdeinorstu"); w[0] = toupper(w[0]); return w; }
static string any_name(Src& s, bool& odd) { string r = word(s); int k = s.below(4); for (int i=0; i<k; ++i) { switch (s.below(4)) { case 0: r += " " + word(s); break; case 1: { r += s.pick(vector<string>{"&", "<", ">", "\"", "'", "]]>", "&amp;", "\xc3\xa9", "\xe2\x80\x99", "<!--", "%", ";"}); odd = true; break; } default: r += s.pickc("!-,.0123"); } } return r; }
// The same text in one of the ways XML has of writing it
static string xml_text(Src& s, string const& t) {
  if (t.size() && s.chance(1,6) && t.find("]]>") == string::npos) { size_t k = s.below(t.size()+1); while (k < t.size() && (t[k] & 0xc0) == 0x80) ++k; string a; for (char c : t.substr(k)) { if (c == '&') a += "&amp;"; else if (c == '<') a += "&lt;"; else if (c == '>') a += "&gt;"; else a += c; } return "<![CDATA[" + t.substr(0, k) + "]]>" + a; }
  string r; for (unsigned char c : t) { if (s.chance(1,20) && c < 0x80) r += "&#" + std::to_string((int)c) + ";"; else if (c == '&') r += "&amp;"; else if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '"' && s.coin()) r += "&quot;"; else r += (char) c; if (c < 0x80 && s.chance(1,30)) r += "<!-- x -->"; } return r;
}
static string gap(Src& s) { switch (s.below(6)) { case 0: return ""; case 1: return "\n  "; case 2: return "<!-- between --> "; case 3: return "<?p i?>"; default: return "\n"; } }
static string elt(Src& s, string const& n, string const& v) { if (v.empty()) return "<" + n + "/>"; return "<" + n + (s.chance(1,8) ? " a='1'" : "") + ">" + xml_text(s, v) + "</" + n + ">"; }

// What the document says of a method: the elements of that name, as attributes and text
struct elem { std::map<string, string> at; string text; };
static vector<elem> elems(string const& doc, string const& name) {
  vector<elem> v; for (size_t i=0; (i = doc.find('<', i)) != string::npos; ++i) { size_t e = i + 1; while (e < doc.size() && (isalnum((unsigned char) doc[e]) || strchr("-_:.", doc[e]))) ++e; string n = doc.substr(i + 1, e - i - 1); if (n.find(':') != string::npos) n.erase(0, n.find(':') + 1); if (n != name) continue; elem x; bool closed = false;
    for (;;) { while (e < doc.size() && isspace((unsigned char) doc[e])) ++e; if (e >= doc.size()) break; if (doc[e] == '/') { closed = true; ++e; continue; } if (doc[e] == '>') { ++e; break; } size_t q = doc.find('=', e); if (q == string::npos) break; string k = doc.substr(e, q - e); while (k.size() && isspace((unsigned char) k.back())) k.pop_back(); size_t a = doc.find_first_of("'\"", q); if (a == string::npos) break; size_t b = doc.find(doc[a], a + 1); if (b == string::npos) break; x.at[k] = doc.substr(a + 1, b - a - 1); e = b + 1; }
    if (!closed) { size_t z = doc.find('<', e); x.text = doc.substr(e, z == string::npos ? z : z - e); while (x.text.size() && isspace((unsigned char) x.text.back())) x.text.pop_back(); while (x.text.size() && isspace((unsigned char) x.text[0])) x.text.erase(0, 1); } v.push_back(x); }
  return v;
}

SUB(roundtrip, 8000, 80000, "methods of all kinds and lengths on 3 to 16 bells, named or not, with any characters in the names, and with first performances and references, written and read again: same number in the same order, same changes, names, numbers of bells and titles; non-trivial if there are two methods and a name has characters special to XML") {
  int n = s.range(0, 5); vector<changes> ch; vector<method> ms; bool odd = false; string fn = scratch() + "/m.xml"; string note; int b = s.range(3, 12); bool mixed = s.coin();
  { xmlout out(fn); for (int i=0; i<n; ++i) { if (mixed) b = s.chance(1,6) ? s.range(13, 16) : s.range(3, 12); string kind; changes c = gen::gen_method(s, b, &kind); s.label(kind); string name = s.chance(1,6) ? "" : any_name(s, odd); method m = gen::to_method(c, b, name); note += str() << b << ":" << gen::spell_plain(c) << " " << quote(name) << "; ";
      fixed_entry* e = new fixed_entry(m); library_entry le(e); if (s.chance(1,3)) { e->has_t = true; e->t = peal(peal::date(s.below(31), s.range(1,12), s.range(1700,2000)), s.coin() ? word(s) : ""); } if (s.chance(1,4)) { e->has_h = true; e->h = peal(peal::date(1, 2, 1999), ""); } if (s.chance(1,4)) e->rw = "1999/12"; if (s.chance(1,4)) e->cc = "TD" + word(s);
      out.append(le); ch.push_back(c); ms.push_back(m); }
    if (s.coin()) out.flush(); }
  s.note(note); s.nontrivial(n > 1 && odd); xmllib l(xmllib::filename, fn); CHECK(l.good(), "good"); int k = 0;
  for (library::const_iterator i = l.begin(); i != l.end(); ++i, ++k) { CHECK(k < n, "too many methods"); CHECK_EQ(i->bells(), (int) ms[k].bells(), "bells"); CHECK(gen::from_method(i->meth()) == ch[k], "changes of method " << k << " read from " << quote(i->pn())); CHECK_EQ(i->base_name(), string(ms[k].name()), "base name"); CHECK_EQ(i->name(), ms[k].fullname(), "title"); CHECK_EQ(i->fullname(), ms[k].fullname(), "full name"); CHECK_EQ(string(i->meth().name()), string(ms[k].name()), "name"); }
  CHECK_EQ(k, n, "number of methods");
  if (n) { string doc = read_file(fn); vector<elem> lh = elems(doc, "lead-head"), cl = elems(doc, "classes"), cc = elems(doc, "cc-class"), co = elems(doc, "lhcode"), st = elems(doc, "stage"); CHECK(lh.size() == (size_t) n && cl.size() == lh.size() && cc.size() == lh.size() && co.size() == lh.size() && st.size() == lh.size(), "classification elements in " << quote(doc));
    static char const* const kinds[] = { "", "principle", "plain/bob", "plain/place", "treble-dodging/treble-bob", "treble-dodging/surprise", "treble-dodging/delight", "treble-place", "alliance", "hybrid", "slow-course" };
    for (int i=0; i<n; ++i) { method const& m = ms[i]; int c = m.methclass(), kind = c & method::M_MASK; string code = m.lhcode(); vector<perm> r = gen::rows(ch[i], model::rounds(m.bells())); CHECK_EQ(st[i].text, std::to_string(m.bells()), "stage"); CHECK_EQ(lh[i].text, model::text(r.back()), "lead head of method " << i); CHECK_EQ(cl[i].text, string(method::classname(kind)), "class of method " << i); CHECK_EQ(cc[i].at["class"], string(kinds[kind]), "class of method " << i); CHECK_EQ(cc[i].at["little"], string(c & method::M_LITTLE ? "true" : ""), "whether method " << i << " is little"); CHECK_EQ(cc[i].at["differential"], string(c & method::M_DIFFERENTIAL ? "true" : ""), "whether method " << i << " is differential"); bool none = code.empty() || code[0] == 'z'; CHECK_EQ(co[i].at["code"], none ? "" : code, "lead head code of method " << i); CHECK_EQ(co[i].at["xsi:nil"], string(none ? "true" : ""), "lead head code of method " << i); if (c & method::M_DIFFERENTIAL) s.label("differential"); } }
  if (n) { k = s.below(n); int f = 0; while (ch[f] != ch[k]) ++f; library_entry e = l.find(ms[k]); CHECK(!e.null(), "find the method"); CHECK_EQ(e.base_name(), string(ms[f].name()), "find the method"); f = 0; while (ms[f].fullname() != ms[k].fullname()) ++f; e = l.find(ms[k].fullname()); CHECK(!e.null(), "find the title"); CHECK(gen::from_method(e.meth()) == ch[f], "find the title"); }
}

struct perf { bool has; int d, m, y; string text, xml; };
static perf gen_perf(Src& s, bool cc) {
  perf p = perf(); if (!s.coin()) return p; p.has = true; vector<string> parts = cc ? vector<string>{"room", "building", "town", "county", "region", "country"} : vector<string>{"dedication", "place", "county", "country"}; string loc; int sel = s.below(64);
  for (size_t i=0; i<parts.size(); ++i) if (sel >> i & 1) { string v = word(s); if (s.chance(1,5)) v += " & " + word(s); loc += elt(s, parts[i], v) + gap(s); p.text += (p.text.size() ? ", " : "") + v; }
  bool date = s.chance(3,4); if (date) { p.d = s.range(1, 31); p.m = s.range(1, 12); p.y = s.range(1700, 2020); char b[20]; snprintf(b, 20, "%04d-%02d-%02d", p.y, p.m, p.d); string a = elt(s, "date", b), c = loc.size() ? "<location>" + gap(s) + loc + "</location>" : ""; p.xml = s.chance(1,4) ? c + gap(s) + a : a + gap(s) + c; } else p.xml = loc.size() ? "<location>" + loc + "</location>" : "";
  return p;
}
static void check_perf(library_entry const& e, perf const& t, perf const& h) {
  CHECK_EQ(e.has_facet<ringing::first_tower_peal>(), t.has, "tower bell peal"); CHECK_EQ(e.has_facet<ringing::first_hand_peal>(), h.has, "handbell peal");
  auto same = [](peal const& p, perf const& w, char const* what) { CHECK(p.when().day == w.d && p.when().month == w.m && p.when().year == w.y, what << " date " << p.when().day << "." << p.when().month << "." << p.when().year); CHECK_EQ(p.where(), w.text, what << " place"); };
  if (t.has) same(e.get_facet<ringing::first_tower_peal>(), t, "tower bell peal"); if (h.has) { same(e.get_facet<ringing::first_hand_peal>(), h, "handbell peal"); ringing::shared_pointer<ringing::library_facet_base> f = e.get_facet(ringing::first_hand_peal::id); CHECK(f->get_id() == ringing::first_hand_peal::id, "the handbell peal knows what it is"); }
}

SUB(documents, 12000, 120000, "documents of both kinds, written with any mixture of comments, entities, character data sections and spaces, with elements in any order, place notation as one block, two palindromes or a notation with its symmetry, stages of each method or of their set, and first performances: every method is read, with its changes, names, number of bells, dates and places; non-trivial if there are two methods and a first performance") {
  bool cc = s.coin(); struct want { changes ch; int b; string name, title; perf t, h; }; vector<want> w; string f = "<?xml version='1.0' encoding='UTF-8'?>" + gap(s) + (cc ? "<collection xmlns='http://www.cccbr.org.uk/methods/schemas/2007/05/methods'>" : "<methods xmlns='http://methods.ringing.org/NS/method'>"); int perfs = 0; bool odd = false; int sets = cc ? s.below(4) : 1;
  if (cc) f += "<collectionName>All</collectionName>" + gap(s);
  for (int t=0; t<sets; ++t) { int b = s.range(4, 12); bool props = cc && s.coin(); if (cc) { f += "<methodSet>" + gap(s); if (s.coin()) f += "<notes>None</notes>"; if (props) f += "<properties>" + gap(s) + "<stage>" + std::to_string(b) + "</stage></properties>"; }
    int n = s.below(4); for (int i=0; i<n; ++i) { want m; m.b = b; if (!props && s.coin()) b = m.b = s.range(4, 12); int form = s.below(3); string pn; vector<string> es;
      if (form == 0) { m.ch = gen::gen_method(s, m.b, 0, 20); pn = gen::spell_plain(m.ch); es.push_back(cc ? elt(s, "notation", pn) : "<pn>" + gap(s) + elt(s, "block", pn) + gap(s) + "</pn>"); if (cc && s.coin()) es.push_back(elt(s, "symmetry", s.pick(vector<string>{"rotational", "double rotational", "asymmetric", "palindromic"}))); }
      else { changes a, c; int h1 = s.range(1, 8), h2 = form == 1 ? 1 : s.range(1, 8); for (int j=0; j<h1; ++j) a.push_back(gen_change(s, m.b)); for (int j=0; j<h2; ++j) c.push_back(gen_change(s, m.b)); string pa = gen::spell_plain(a), pc = gen::spell_plain(c); for (changes* x : {&a, &c}) { m.ch.insert(m.ch.end(), x->begin(), x->end()); m.ch.insert(m.ch.end(), x->rbegin()+1, x->rend()); }
        if (cc) { es.push_back(elt(s, "notation", pa + "," + pc)); es.push_back(elt(s, "symmetry", s.pick(vector<string>{"palindromic", "palindromic double rotational", "palindromic, rotational"}))); } else es.push_back("<pn>" + gap(s) + elt(s, "symblock", pa) + gap(s) + elt(s, "symblock", pc) + "</pn>"); }
      m.name = any_name(s, odd); m.title = m.name + " " + method::stagename(m.b); es.push_back(elt(s, "name", m.name)); es.push_back(elt(s, "title", m.title)); if (!props || s.chance(1,4)) es.push_back("<stage>" + std::to_string(m.b) + "</stage>");
      m.t = gen_perf(s, cc); m.h = gen_perf(s, cc); perfs += m.t.has + m.h.has; if (m.t.has) { string e = cc ? "firstTowerbellPeal" : "first-tower"; es.push_back("<" + e + ">" + gap(s) + m.t.xml + "</" + e + ">"); } if (m.h.has) { string e = cc ? "firstHandbellPeal" : "first-hand"; es.push_back("<" + e + ">" + m.h.xml + "</" + e + ">"); }
      if (s.coin()) es.push_back("<leadHead>134256</leadHead>"); if (s.coin()) for (int j=es.size()-1; j>0; --j) std::swap(es[j], es[s.below(j+1)]);
      f += "<method id='m1'>"; for (auto& e : es) f += gap(s) + e; f += gap(s) + "</method>" + gap(s); w.push_back(m); if (s.chance(1,8)) f += "<other><method/></other>"; }
    if (cc) f += "</methodSet>" + gap(s); }
  f += cc ? "</collection>" : "</methods>"; f += gap(s) == "" ? "" : "\n"; string fn = scratch() + "/m.xml"; write_file(fn, f); s.note(f); s.nontrivial(w.size() > 1 && perfs); s.label(cc ? "collection" : "methods"); if (w.empty()) s.label("empty");
  library l; if (s.coin()) { l = xmllib(xmllib::filename, fn); } else { static bool reg = false; if (!reg) { reg = true; xmllib::registerlib(); } l = library(fn); } CHECK(l.good(), "good");
  vector<library_entry> got; for (library::const_iterator i = l.begin(); i != l.end(); ++i) { CHECK(got.size() < w.size(), "too many methods"); got.push_back(*i); } CHECK_EQ(got.size(), w.size(), "number of methods");
  for (size_t i=0; i<w.size(); ++i) { auto const& e = got[i]; CHECK_EQ(e.bells(), w[i].b, "bells of " << i); CHECK_EQ(e.name(), w[i].title, "title of " << i); CHECK_EQ(e.base_name(), w[i].name, "name of " << i); CHECK(gen::from_method(e.meth()) == w[i].ch, "changes of " << i << " read from " << quote(e.pn())); check_perf(e, w[i].t, w[i].h); }
}

SUB(damaged, 15000, 150000, "documents of both kinds with elements removed, renamed, emptied or moved, characters changed, and files that are not XML: reading and asking about every method gives an answer or an exception; non-trivial if the document is still XML") {
  string f = s.coin() ? "<methods xmlns='http://methods.ringing.org/NS/method'><method><name>A</name><title>A Minor</title><stage>6</stage><pn><symblock>x1x1</symblock><symblock>2</symblock></pn><first-tower><date>1999-01-02</date><location><place>P</place></location></first-tower></method><method><name/><title>B</title><stage>5</stage><pn><block>3.1.5</block></pn><first-hand/></method></methods>"
    : "<collection><collectionName>A</collectionName><methodSet><properties><stage>6</stage></properties><method><name>A</name><title>A Minor</title><notation>x1x1,2</notation><symmetry>palindromic</symmetry><firstTowerbellPeal><date>1999-01-02</date></firstTowerbellPeal></method></methodSet><methodSet><method><stage>5</stage><notation>3.1.5</notation><firstHandbellPeal><location/></firstHandbellPeal></method></methodSet></collection>";
  int k = s.range(1, 5); bool balanced = true; for (int i=0; i<k; ++i) { if (s.chance(2,3)) { // an element
      vector<std::pair<size_t,size_t>> els; for (size_t p=0; (p = f.find('<', p)) != string::npos; ++p) if (p+1 < f.size() && isalpha(f[p+1])) { size_t e = p+1; while (e < f.size() && (isalnum(f[e]) || f[e] == '-')) ++e; string n = f.substr(p+1, e-p-1), c = "</" + n + ">"; size_t q = f.find(c, e); if (q != string::npos) els.push_back({p, q + c.size()}); }
      if (els.empty()) break; auto x = s.pick(els); string t = f.substr(x.first, x.second - x.first); switch (s.below(4)) { case 0: f.erase(x.first, t.size()); break; case 1: { f.replace(x.first, t.size(), "<other/>"); break; } case 2: { size_t a = t.find('>'), z = t.rfind("</"); if (a != string::npos && z != string::npos && z > a) f.replace(x.first, t.size(), t.substr(0, a+1) + (s.coin() ? "" : s.pick(vector<string>{"0", "x", "-5", ",", "&#38;", "99", "1999-", "<a/>"})) + t.substr(z)); break; } default: f.insert(x.first, t); } }
    else { balanced = false; int at = s.below(f.size()+1); if (s.coin()) f.insert(at, 1, s.chance(1,3) ? (char) s.range(1, 255) : s.pickc("<>&;/'\" ")); else if (at < (int) f.size()) f.erase(at, s.range(1, 6)); } }
  if (s.chance(1,20)) f = s.coin() ? "" : "not XML"; string fn = scratch() + "/m.xml"; write_file(fn, f); s.note(quote(f)); s.nontrivial(balanced); if (!balanced) s.label("not XML");
  try { xmllib l(xmllib::filename, fn); int n = 0; for (library::const_iterator i = l.begin(); i != l.end() && n < 100; ++i, ++n) { for (int q=0; q<6; ++q) try { switch (q) { case 0: i->name(); i->base_name(); break; case 1: if (i->bells() < 40) i->fullname(); break; case 2: i->pn(); break; case 3: if (i->has_facet<ringing::first_tower_peal>()) i->get_facet<ringing::first_tower_peal>(); break; case 4: if (i->has_facet<ringing::first_hand_peal>()) i->get_facet<ringing::first_hand_peal>(); break; default: if (i->has_facet<ringing::rw_ref>()) fail("a reference"); } } catch (std::exception const&) {} } CHECK(n < 100, "endless"); s.label("read"); } catch (std::exception const&) { s.label("refused"); }
}
