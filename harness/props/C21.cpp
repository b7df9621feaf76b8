// C21 - lines of methods: what is written can be read by whoever comes next
#include "methods.h"
#include <ringing/methodset.h>
#include <ringing/method_stream.h>
#include <ringing/litelib.h>
#include <ringing/libout.h>
#include <iostream>
using namespace lib; using namespace model; using namespace pbt;
using model::perm; using gen::changes;
using ringing::library; using ringing::library_entry; using ringing::litelib; using ringing::methodset; using ringing::method_stream;

struct capture { std::streambuf* old; std::ostringstream os; capture() : old(std::cout.rdbuf(os.rdbuf())) {} ~capture() { std::cout.rdbuf(old); } };
static string word(Src& s) { string w; int len = s.range(1, 6); for (int i=0; i<len; ++i) w += s.pickc("abcdeinorst:,.'-&+0123"); w[0] = s.pickc("ABCDEFG"); return w; }

SUB(streams, 40000, 400000, "methods of all kinds, named and not, with and without payloads, written as lines in each form with or without the number of bells, perhaps to two outputs at once, and read again: the same methods in the same order, with the text the form promises; non-trivial if there are two methods with different numbers of bells or texts") {
  bool bells = s.coin(); method_stream::name_form form = (method_stream::name_form) s.below(5); int n = s.below(6); int b = s.range(3, 12); methodset in[6]; vector<changes> ch; vector<string> names, pays, want; std::set<string> distinct; string note = str() << "form " << form << (bells ? " bells: " : ": ");
  for (int i=0; i<n; ++i) { if (bells) b = s.range(3, s.chance(1,6) ? 20 : 10); changes c = gen::gen_method(s, b, 0, 16); string name = s.chance(1,6) ? "" : word(s); for (int k=s.below(3); k>0 && name.size(); --k) name += " " + word(s); method m = gen::to_method(c, b, name); in[i].append(m); library_entry e = *in[i].begin(); string pay; bool has = s.coin(); if (has) { pay = s.chance(1,6) ? "" : word(s) + " " + word(s); e.set_facet<litelib::payload>(pay); }
    ch.push_back(c); switch (form) { case method_stream::payload_or_name: want.push_back(has ? pay : name); break; case method_stream::payload: want.push_back(has ? pay : ""); break; case method_stream::name: want.push_back(name); break; case method_stream::full_title: want.push_back(m.fullname()); break; default: want.push_back(""); } distinct.insert(want.back()); distinct.insert(std::to_string(b)); note += str() << b << ":" << gen::spell_plain(c) << " " << quote(name) << " " << (has ? quote(pay) : "-") << "; "; }
  s.note(note); s.nontrivial(n > 1 && distinct.size() > 2); s.label(str() << "form " << form); string text, copy; methodset other;
  { capture c; int how = s.below(3); if (how == 0) { method_stream out(bells, form); for (int i=0; i<n; ++i) out.append(*in[i].begin()); }
    else if (how == 1) { method_stream out(bells, form); for (int i=0; i<n; ++i) std::copy(in[i].begin(), in[i].end(), std::back_inserter(out)); out.flush(); }
    else { ringing::multilibout out; CHECK(out.empty(), "nothing to write to"); out.add(new method_stream(bells, form)); methodset* o = new methodset(other); out.add(o); CHECK(!out.empty(), "two to write to"); for (int i=0; i<n; ++i) out.append(in[i].begin(), in[i].end()); out.flush(); s.label("two outputs"); CHECK(n == 0 || other.size() >= 1, "the second output has nothing"); }
    text = c.os.str(); }
  CHECK_EQ(std::count(text.begin(), text.end(), '\n'), n, "lines in " << quote(text)); std::istringstream is(text); litelib l(bells ? 0 : b, is); int k = 0;
  for (library::const_iterator i = l.begin(); i != l.end(); ++i, ++k) { CHECK(k < n, "too many methods read from " << quote(text)); CHECK(gen::from_method(i->meth()) == ch[k], "changes of method " << k << " read from " << quote(i->pn())); CHECK_EQ(i->bells(), (int) ch[k][0].size(), "bells"); CHECK_EQ(i->get_facet<litelib::payload>(), want[k], "text of method " << k << " in " << quote(text)); } CHECK_EQ(k, n, "methods read from " << quote(text));
}
