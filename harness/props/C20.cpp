// C20 - sets of methods in memory
#include "methods.h"
#include <ringing/methodset.h>
#include <ringing/litelib.h>
#include <ringing/mslib.h>
#include <ringing/xmllib.h>
#include <ringing/xmlout.h>
#include <ringing/peal.h>
using namespace lib; using namespace model; using namespace pbt;
using model::perm; using gen::changes;
using ringing::library; using ringing::library_entry; using ringing::litelib; using ringing::methodset;

struct held { string name; bool pay, ref; string payload, refv; held() : pay(false), ref(false) {} };
typedef std::pair<int, changes> key;
typedef std::map<key, held> state;
static key key_of(method const& m) { return key(m.bells(), gen::from_method(m)); }
static string show_key(key const& k) { return str() << k.first << ":" << gen::spell_plain(k.second); }

static void check_entry(library_entry const& e, key const& k, held const& h) {
  string w = show_key(k); CHECK(key_of(e.meth()) == k, "method of " << w); CHECK_EQ(e.bells(), k.first, "bells of " << w); CHECK_EQ(e.name(), h.name, "name of " << w); CHECK_EQ(e.base_name(), h.name, "base name of " << w); CHECK_EQ(string(e.meth().name()), h.name, "name of the method of " << w);
  CHECK(key_of(method(e.pn(), e.bells())) == k, w << " gives its place notation as " << quote(e.pn())); CHECK_EQ(e.fullname(), gen::to_method(k.second, k.first, h.name).fullname(), "full name of " << w);
  CHECK_EQ(e.has_facet<litelib::payload>(), h.pay, "payload of " << w); if (h.pay) CHECK_EQ(e.get_facet<litelib::payload>(), h.payload, "payload of " << w); CHECK_EQ(e.has_facet<ringing::rw_ref>(), h.ref, "reference of " << w); if (h.ref) CHECK_EQ(e.get_facet<ringing::rw_ref>(), h.refv, "reference of " << w);
}
static void check_all(methodset const& m, state const& st) {
  std::set<key> seen; CHECK_EQ(m.size(), st.size(), "size"); for (methodset::const_iterator i = m.begin(); i != m.end(); ++i) { key k = key_of(i->meth()); state::const_iterator f = st.find(k); CHECK(f != st.end(), show_key(k) << " is not a method of the set"); CHECK(seen.insert(k).second, show_key(k) << " appears twice"); check_entry(*i, k, f->second); }
  CHECK_EQ(seen.size(), st.size(), "methods found by iterating"); CHECK_EQ(m.empty(), st.empty(), "empty");
}
static string word(Src& s) { string w; int len = s.range(1, 5); for (int i=0; i<len; ++i) w += s.pickc("abcde"); w[0] = toupper(w[0]); return w; }

SUB(histories, 10000, 100000, "histories of appending methods, entries of other libraries and ranges, importing files, choosing the facets to keep, setting facets of entries found or met, clearing, finding and copying: always one entry for each distinct method, with the name and facets it was first given; non-trivial if a method is appended again under another name and a facet is set") {
  methodset m; state st; string note; bool again = false, set = false; vector<std::pair<key, string>> pool; bool keep_pay = false; string dir = scratch(); static bool reg = false; if (!reg) { reg = true; ringing::xmllib::registerlib(); ringing::mslib::registerlib(); } int files = 0;
  int np = s.range(1, 6); for (int i=0; i<np; ++i) { int b = s.range(3, 8); changes c = i && s.chance(1,3) ? pool[s.below(i)].first.second : gen::gen_method(s, b, 0, 8); b = c[0].size(); if (s.chance(1,4)) { c.push_back(gen_change(s, b)); } pool.push_back({key(b, c), word(s)}); }
  auto insert = [&](key const& k, held const& h) { if (!st.insert({k, h}).second) { if (st[k].name != h.name) again = true; } };
  vector<std::pair<library_entry, key>> kept;
  int ops = s.range(1, 14); for (int o=0; o<ops; ++o) { int op = s.below(11); auto const& p = s.pick(pool); string name = s.chance(1,3) ? word(s) : p.second; method x = gen::to_method(p.first.second, p.first.first, name);
    switch (op) {
      case 0: case 1: { note += "append " + show_key(p.first) + " " + name + "; "; m.append(x); held h; h.name = name; insert(p.first, h); break; }
      case 2: { int k = s.range(1, 4); string f; vector<std::pair<key, held>> add; for (int i=0; i<k; ++i) { auto const& q = s.pick(pool); string n = word(s); f += std::to_string(q.first.first) + ":" + gen::spell_plain(q.first.second) + "\t" + n + "\n"; held h; h.name = n; if (keep_pay) { h.pay = true; h.payload = n; } add.push_back({q.first, h}); } note += "append lines " + quote(f) + "; "; std::istringstream is(f); litelib l(0, is, litelib::payload_is_name);
        if (s.coin()) CHECK_EQ(m.append(l.begin(), l.end()), (size_t) k, "number appended"); else for (library::const_iterator i = l.begin(); i != l.end(); ++i) { if (s.coin()) m.push_back(*i); else m.append(*i); } for (auto& a : add) insert(a.first, a.second); break; }
      case 3: if (!keep_pay && s.coin()) { note += "keep payloads; "; m.store_facet<litelib::payload>(); keep_pay = true; } break;
      case 4: { note += "find " + show_key(p.first) + "; "; library_entry e = m.find(x); CHECK_EQ(e.null(), !st.count(p.first), "finding"); if (!e.null()) { check_entry(e, p.first, st[p.first]); kept.push_back({e, p.first}); if (s.coin()) { string v = word(s); note += "set reference " + v + "; "; e.set_facet<ringing::rw_ref>(v); st[p.first].ref = true; st[p.first].refv = v; set = true; } } break; }
      case 5: { if (st.empty()) break; int k = s.below(st.size()); note += str() << "set the payload of entry " << k << "; "; string v = word(s); methodset::const_iterator i = m.begin(); for (int j=0; j<k; ++j) ++i; library_entry e = *i; key q = key_of(e.meth()); e.set_facet<litelib::payload>(v); st[q].pay = true; st[q].payload = v; set = true; break; }
      case 6: if (s.chance(1,3)) { note += "clear; "; kept.clear(); m.clear(); st.clear(); } break;
      case 7: { note += "copied through the range constructor; "; methodset c(m.begin(), m.end()); state t; for (auto& q : st) { held h; h.name = q.second.name; t[q.first] = h; } check_all(c, t); methodset d; d.store_facet<litelib::payload>(); d.store_facet<ringing::rw_ref>(); CHECK_EQ(d.append(m.begin(), m.end()), st.size(), "number appended"); check_all(d, st); break; }
      case 8: { if (st.empty()) break; int k = s.below(st.size()); state::iterator i = st.begin(); std::advance(i, k); method y = gen::to_method(i->first.second, i->first.first, i->second.name); string t = y.fullname(); note += "find " + t + "; "; library_entry e = m.find(t); CHECK(!e.null(), "finding " << t); CHECK_EQ(e.fullname(), t, "finding"); if (i->second.name.size()) { method z = m.load(i->second.name, i->first.first); CHECK_EQ(string(z.name()), i->second.name, "load"); } break; }
      case 9: case 10: { string fn = dir + "/f" + std::to_string(files++) + ".xml"; vector<std::pair<key, held>> add; { ringing::xmlout out(fn); int k = s.range(1, 3); for (int i=0; i<k; ++i) { auto const& q = s.pick(pool); string n = word(s); methodset one; one.append(gen::to_method(q.first.second, q.first.first, n)); out.append(*one.begin()); held h; h.name = n; add.push_back({q.first, h}); note += "from a file: " + show_key(q.first) + " " + n + "; "; } }
        size_t got; if (op == 9) got = m.import_library(fn); else { string env = s.coin() ? fn : fn + ":" + fn; setenv("METHOD_LIBRARY", env.c_str(), 1); got = m.import_libraries_from_env(); unsetenv("METHOD_LIBRARY"); if (env != fn) got /= 2; } CHECK_EQ(got, add.size(), "number imported"); for (auto& a : add) insert(a.first, a.second); break; }
    }
    s.renote(note); if (s.chance(1,3)) check_all(m, st); for (auto& k : kept) check_entry(k.first, k.second, st[k.second]); }
  check_all(m, st); s.nontrivial(again && set); if (again) s.label("again"); if (set) s.label("facet set"); s.label(st.size() > 2 ? "many" : "few");
  bool threw = false; try { m.import_library(dir + "/none"); } catch (std::exception const&) { threw = true; } CHECK(threw, "importing a file that is not there"); check_all(m, st);
}
