// C26: the pointers the library is built on
#include "pbt.h"
#include <set>
#include <memory>
#include <ringing/pointers.h>
#include <ringing/lexical_cast.h>
using namespace pbt; using std::string; using std::vector;
static std::set<void*>* live_set;
struct thing { int v; thing(int v) : v(v) { live_set->insert(this); } thing(thing const& o) : v(o.v) { live_set->insert(this); } virtual ~thing() { live_set->erase(this); } virtual thing* clone() const { return new thing(*this); } virtual int kind() const { return 0; } };
struct other : thing { other(int v) : thing(v) {} other* clone() const override { return new other(*this); } int kind() const override { return 1; } };
static thing* gen(Src& s, int v) { return s.coin() ? new other(v) : new thing(v); }
static string show_log(vector<string> const& l) { string r; for (auto& x : l) r += x + " "; return r; }

// The model: which object each handle has.  For values, each has its own.
struct obj { int v, kind; };
typedef std::shared_ptr<obj> mobj;

template <class P> static void run(Src& s, bool shared, char const* name) {
  std::set<void*> live; live_set = &live; vector<string> log;
  { vector<P> h(1 + s.below(4)); vector<mobj> m(h.size()); int ops = s.range(1, 25), next = 1, big = 0;
    for (int k=0; k<ops; ++k) { size_t i = s.below(h.size()), j = s.below(h.size()); int op = s.below(9); auto fresh = [&](thing*& t) { t = gen(s, next); mobj o(new obj{next++, t->kind()}); return o; }; 
      if (op == 0) { thing* t; mobj o = fresh(t); h[i].reset(t); m[i] = o; log.push_back(str() << "reset" << i << "=" << o->v); }
      else if (op == 1) { h[i] = h[j]; m[i] = shared || !m[j] ? m[j] : mobj(new obj(*m[j])); log.push_back(str() << i << "=" << j); }
      else if (op == 2) { if (i != j) { h[i].swap(h[j]); std::swap(m[i], m[j]); } log.push_back(str() << "swap" << i << "," << j); }
      else if (op == 3) { h[i].reset(); m[i].reset(); log.push_back(str() << "clear" << i); }
      else if (op == 4) { if (m[i]) { h[i]->v = next; m[i]->v = next++; log.push_back(str() << "set" << i); } }
      else if (op == 5) { if (h.size() < 6) { h.push_back(h[i]); m.push_back(shared || !m[i] ? m[i] : mobj(new obj(*m[i]))); log.push_back(str() << "copy" << i); ++big; } }
      else if (op == 6) { if (h.size() > 1) { h.erase(h.begin() + i); m.erase(m.begin() + i); log.push_back(str() << "erase" << i); } }
      else if (op == 7) { thing* t; mobj o = fresh(t); P p(t); h[i] = p; m[i] = o; log.push_back(str() << "make" << i); }
      else { P const p(h[i]); P q(p); h[j] = q; m[j] = shared || !m[i] ? m[i] : mobj(new obj(*m[i])); log.push_back(str() << "via" << i << "," << j); }
      for (size_t a=0; a<h.size(); ++a) { P const& c = h[a]; bool have = c ? true : false, nothave = !c; CHECK(have == !!m[a] && nothave == !m[a], name << " " << a << " is " << (have ? "not " : "") << "null: " << show_log(log)); if (!m[a]) continue; CHECK(live.count(const_cast<thing*>(c.get())), name << " " << a << " has an object already destroyed: " << show_log(log)); int v = c->v, kind = (*c).kind(); CHECK(v == m[a]->v && kind == m[a]->kind, name << " " << a << " has " << v << " not " << m[a]->v << ": " << show_log(log)); if (shared) for (size_t b=0; b<h.size(); ++b) { P const& d = h[b]; bool eq = c == d, ne = c != d; CHECK(eq == (m[a] == m[b]) && ne != eq, name << "s compare wrongly: " << show_log(log)); } }
      std::set<obj*> distinct; for (auto& o : m) if (o) distinct.insert(o.get()); CHECK(live.size() <= distinct.size(), live.size() << " objects for " << distinct.size() << " values in " << name << "s: " << show_log(log)); if (shared) CHECK_EQ(live.size(), distinct.size(), "objects; " << show_log(log)); }
    s.note(string(name) + " " + show_log(log)); s.nontrivial(log.size() > 2); }
  CHECK(live.empty(), live.size() << " objects never destroyed by " << name << "s: " << show_log(log)); s.label(name);
}

SUB(pointers, 60000, 3000000, "Histories of making, copying, assigning (to themselves too), swapping, resetting, changing and destroying cloning, shared and copy on write pointers to objects of two classes: each holds what it should, values are independent and shared objects are one, objects have the right class, live as long as needed, and are destroyed once; non-trivial: more than two operations") {
  int k = s.below(3); if (k == 0) run<ringing::cloning_pointer<thing>>(s, false, "cloning_pointer"); else if (k == 1) run<ringing::shared_pointer<thing>>(s, true, "shared_pointer"); else run<ringing::cow_pointer<thing>>(s, false, "cow_pointer");
}

SUB(scoped, 20000, 500000, "Histories of resetting, releasing and swapping scoped pointers; non-trivial: more than two operations") {
  std::set<void*> live; live_set = &live; vector<string> log; vector<thing*> out;
  { ringing::scoped_pointer<thing> a, b(gen(s, 1)); thing* ma = 0; thing* mb = b.get(); int ops = s.range(1, 12); for (int k=0; k<ops; ++k) { auto& p = s.coin() ? a : b; thing*& mp = &p == &a ? ma : mb; int op = s.below(4); log.push_back(str() << op << (&p == &a)); if (op == 0) { thing* t = gen(s, k); p.reset(t); mp = t; } else if (op == 1) { p.reset(); mp = 0; } else if (op == 2) { thing* t = p.release(); CHECK(t == mp, "release"); if (t) out.push_back(t); mp = 0; } else { bool have = p ? true : false; CHECK(have == !!mp && p.get() == mp, "scoped pointer"); if (mp) { CHECK(live.count(mp), "destroyed early"); CHECK(p->kind() == (*p).kind(), ""); } } CHECK_EQ(live.size(), out.size() + !!ma + !!mb, "objects alive after " << show_log(log)); } }
  CHECK_EQ(live.size(), out.size(), "objects alive at the end: " << show_log(log)); for (auto t : out) { CHECK(live.count(t), "a released object was destroyed: " << show_log(log)); delete t; } s.note(show_log(log)); s.nontrivial(log.size() > 2);
}

SUB(casts, 60000, 1000000, "Text made from values and turned back into them; text which is not wholly a value is refused; non-trivial: every case") {
  int v = (int) s.bits64(); unsigned u = (unsigned) s.bits64(); if (s.coin()) { v %= 100; u %= 100; } string t = ringing::make_string() << v, w = ringing::make_string() << "a" << u << 'c' << string("d"); CHECK_EQ(t, std::to_string(v), "make_string"); CHECK_EQ(w, "a" + std::to_string(u) + "cd", "make_string"); int back = ringing::lexical_cast<int>(t); CHECK_EQ(back, v, "lexical_cast from " << t); unsigned ub = ringing::lexical_cast<unsigned>(std::to_string(u)); CHECK_EQ(ub, u, "lexical_cast"); string st = ringing::lexical_cast<string>(v); CHECK_EQ(st, t, "lexical_cast to text"); int sp = ringing::lexical_cast<int>(" " + t + (s.coin() ? " " : "")); CHECK_EQ(sp, v, "lexical_cast of text with spaces");
  static char const* junk[] = { "x", " x", ".5", "-", " 1", "\t2", "e1", "0x" }; string bad = s.chance(1, 6) ? string() : s.chance(1, 4) ? std::to_string(v) + std::to_string(1000000000u + s.below(1000000000)) + "0" : t + junk[s.below(8)]; if (bad.find_first_not_of("-0123456789") == string::npos && bad.size() < 11) bad = "q"; s.note(quote(t + "|" + bad)); s.nontrivial(); bool threw = false; try { ringing::lexical_cast<int>(bad); } catch (std::bad_cast const&) { threw = true; } CHECK(threw, "lexical_cast accepted " << quote(bad));
}

static int* calls_to; static void custom_a(thing*& t) { ++calls_to[0]; delete t; t = 0; } static void custom_b(thing*& t) { ++calls_to[1]; delete t; t = 0; }
SUB(deletors, 20000, 500000, "Histories of shared pointers some of which were made with deleting functions of their own, copied, assigned, swapped, reset and destroyed: each object is destroyed by the function it came with, once, when its last pointer goes; non-trivial: more than two operations and an object with a function of its own") {
  std::set<void*> live; live_set = &live; vector<string> log; int calls[2] = { 0, 0 }, want[2] = { 0, 0 }; calls_to = calls; bool custom = false; typedef ringing::shared_pointer<thing> P; typedef std::shared_ptr<int> M; auto make = [&](int how) { return M(new int(how), [&want](int* h) { if (*h) ++want[*h - 1]; delete h; }); };
  { vector<P> h(1 + s.below(3)); vector<M> m(h.size()); int ops = s.range(1, 15), next = 1; for (int k=0; k<ops; ++k) { size_t i = s.below(h.size()), j = s.below(h.size()); int op = s.below(6); log.push_back(str() << op << i << j);
      if (op == 0) { h[i].reset(gen(s, next++)); m[i] = make(0); } else if (op == 1) { h[i] = h[j]; m[i] = m[j]; } else if (op == 2) { if (i != j) { h[i].swap(h[j]); m[i].swap(m[j]); } } else if (op == 3) { h[i].reset(); m[i].reset(); }
      else { int how = s.range(1, 2); custom = true; P p(gen(s, next++), how == 1 ? custom_a : custom_b); M q = make(how); if (op == 5) { thing* t = gen(s, next++); p.reset(t); q = make(0); } h[i] = p; m[i] = q; }
      for (int f=0; f<2; ++f) CHECK_EQ(calls[f], want[f], "calls of deleting function " << f << ": " << show_log(log)); for (size_t a=0; a<h.size(); ++a) CHECK(!h[a] == !m[a], "null: " << show_log(log)); } }
  for (int f=0; f<2; ++f) CHECK_EQ(calls[f], want[f], "calls of deleting function " << f << " at the end: " << show_log(log)); CHECK(live.empty(), "objects never destroyed: " << show_log(log)); s.note(show_log(log)); s.nontrivial(log.size() > 2 && custom);
}
