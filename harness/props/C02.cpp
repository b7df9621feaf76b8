// C02 - bells and rows survive being written and read, and other text is refused
#include "lib.h"
#include <sstream>
using namespace lib; using namespace model; using namespace pbt;
using model::perm;

// The text of one bell at p, by the documented rules; returns its end or npos
static size_t model_bell(string const& t, size_t p, string const& syms, int fold, int& b) {
  if (p >= t.size()) return string::npos;
  char c = t[p];
  if (c == '{') {
    size_t q = p + 1;
    while (q < t.size() && isspace((unsigned char)t[q])) ++q;
    size_t d = q; long v = 0;
    while (q < t.size() && isdigit((unsigned char)t[q])) { v = std::min(100000L, v*10 + t[q]-'0'); ++q; }
    if (q == d) return string::npos;
    while (q < t.size() && isspace((unsigned char)t[q])) ++q;
    if (q >= t.size() || t[q] != '}' || v < 1 || v > 256) return string::npos;
    b = v - 1; return q + 1;
  }
  if ((unsigned char)c < 128) { if (fold > 0) c = toupper(c); if (fold < 0) c = tolower(c); }
  size_t k = c ? syms.find(c) : string::npos;
  if (k == string::npos) {
    char alt = c=='I' ? '1' : c=='1' ? 'I' : c=='O' ? '0' : c=='0' ? 'O' : 0;
    if (alt) k = syms.find(alt);
  }
  if (k == string::npos) return string::npos;
  b = k; return p + 1;
}
static int folding(string const& syms) {
  string u = syms, l = syms; for (char& c : u) c = toupper(c); for (char& c : l) c = tolower(c);
  return u == syms ? 1 : l == syms ? -1 : 0;
}
struct symbols_guard {
  symbols_guard(char const* s) { bell::set_symbols(s); }
  ~symbols_guard() { bell::set_symbols(0); }
};
static string gen_symbols(Src& s) {
  switch (s.below(6)) {
    case 0: return "1234567890et";
    case 1: return "1234567890ETABCD";
    case 2: return "1234567890etABCD";
    case 3: { string r = "ABCDEFGHJKLMNPQRSTUVWXYZ"; return r.substr(0, s.range(4, r.size())); }
    case 4: { string r = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"; return r.substr(0, s.range(30, r.size())); }
    default: { string all = "123456789ABCDEFGHJKLMNPQRSTUVWXYZ!#$%&*+"; std::vector<char> v(all.begin(), all.end()); string r;
      int n = s.range(4, 30); for (int i=0; i<n; ++i) { int k = s.below(v.size()); r += v[k]; v.erase(v.begin()+k); } return r; }
  }
}

SUB(round_trip, 120000, 1200000, "a row on 1 to 200 bells written to a stream after other output flags and read back from a string and from a stream with text after it, with the usual symbols or another symbol set; non-trivial with 5 or more bells") {
  int n = s.chance(1,6) ? s.range(34, 200) : s.range(1, 33);
  bool custom = s.chance(1,4); string syms = model::symbols;
  if (custom) syms = gen_symbols(s);
  symbols_guard g(custom ? syms.c_str() : 0);
  perm p = gen_perm(s, n);
  string want;
  for (int x : p) want += x < (int)syms.size() ? string(1, syms[x]) : "{" + std::to_string(x+1) + "}";
  s.note((custom ? "symbols " + syms + " " : string()) + want);
  s.nontrivial(n >= 5); s.label(custom ? "other symbols" : "usual symbols"); if (n > 33) s.label("more than 33 bells");
  row R = to_row(p);
  std::ostringstream os; os << R;
  CHECK_EQ(os.str(), want, "written row");
  if (n <= (int)syms.size()) CHECK_EQ(R.print(), want, "printed row");
  CHECK(row(want) == R, "row from string"); CHECK(row(want.c_str()) == R, "row from C string");
  row a(3); a = want; CHECK(a == R, "row assigned from string"); a = row(2); a = want.c_str(); CHECK(a == R, "row assigned from C string");
  string after = s.pick(vector<string>{"", " x", "\n1234", " 21", ",", ")", ".1"});
  bool skip = s.coin();
  std::istringstream is((skip ? " \t" : "") + want + after);
  row b; is >> b;
  CHECK(!!is || is.eof(), "stream state"); CHECK(!is.fail(), "stream state");
  CHECK(b == R, "row read from a stream: " << b);
  string rest; is.clear(); std::getline(is, rest, '\0');
  CHECK_EQ(rest, after, "text after the row");
  // one bell at a time
  std::istringstream bs(want); char const* c = want.c_str();
  for (int i=0; i<n; ++i) {
    bell x; bs >> x; CHECK_EQ((int)x, p[i], "bell from stream");
    char const* e; bell y = bell::read_extended(c, &e); CHECK_EQ((int)y, p[i], "bell from text"); c = e;
    std::ostringstream o; o << bell(p[i]);
    CHECK_EQ((int)bell::read_extended(o.str().c_str()), p[i], "bell round trip");
  }
  CHECK_EQ(*c, '\0', "all text used");
}

SUB(symbols, 30000, 300000, "every character against the bell symbols, for the usual symbol set and others; non-trivial for other sets") {
  bool custom = s.chance(3,4); string syms = model::symbols;
  if (custom) syms = gen_symbols(s);
  symbols_guard g(custom ? syms.c_str() : 0);
  int fold = folding(syms);
  s.note(syms); s.nontrivial(custom);
  for (int c=0; c<256; ++c) {
    if (fold < 0 && (c=='I' || c=='O')) continue;    // not specified
    int b = -1; string t(1, (char)c);
    bool want = c != '{' && model_bell(t, 0, syms, fold, b) != string::npos;
    if (c == '{') want = syms.find('{') != string::npos;
    CHECK_EQ(bell::is_symbol((char)c), want, "is " << quote(t) << " a symbol");
    int got = -1;
    try { got = (int)bell::read_char((char)c); } catch (bell::invalid const&) { got = -2; }
    CHECK_EQ(got, want ? b : -2, "reading " << quote(t));
  }
  for (int b=0; b<(int)syms.size(); ++b) CHECK_EQ(bell(b).to_char(), syms[b], "symbol of bell " << b+1);
}

SUB(any_text, 150000, 1500000, "text made of symbols, braces, digits, spaces and arbitrary bytes, often a valid row with a few edits; it is read as the row it denotes or refused with the library's own exceptions; non-trivial when it has three or more characters and is not plain rounds") {
  string t;
  if (s.coin()) {
    int n = s.range(0, 14); perm p = gen_perm(s, n);
    for (int x : p) { string q = sym(x); if (s.chance(1,8)) q = "{" + string(s.below(2), ' ') + std::to_string(x+1) + string(s.below(2), ' ') + "}"; else if (s.chance(1,6)) q[0] = tolower(q[0]); else if (q == "1" && s.chance(1,6)) q = "i"; else if (q == "0" && s.chance(1,6)) q = "O"; t += q; }
    for (int k = s.below(3); k > 0 && !t.empty(); --k) {
      int at = s.below(t.size());
      switch (s.below(3)) { case 0: t.erase(at, 1); break; case 1: t.insert(at, 1, s.pickc("1234{}0 }ETXZ,?I")); break; default: t[at] = s.pickc("12345{}0 OI"); }
    }
  } else {
    int n = s.below(12);
    for (int i=0; i<n; ++i) switch (s.below(6)) {
      case 0: t += "{" + std::to_string(s.below(20)) + "}"; break;
      case 1: t += s.pick(vector<string>{"{", "}", "{}", "{ }", "{0}", "{256}", "{257}", "{1", "{300}", "{4294967297}", "{99999999999999999999}", "{x}", "{1x}"}); break;
      case 2: t += (char)(1 + s.below(255)); break;
      default: t += s.pickc("1234567890ETABCD"); }
  }
  s.note(quote(t)); s.nontrivial(t.size() >= 3);
  vector<int> p; size_t at = 0; bool bad_bell = false;
  while (at < t.size()) { int b; size_t e = model_bell(t, at, model::symbols, 1, b); if (e == string::npos) { bad_bell = true; break; } p.push_back(b); at = e; }
  bool ok = !bad_bell && is_perm(p);
  s.label(ok ? "valid row" : bad_bell ? "invalid bell" : "not a permutation");
  string what;
  try { row r(t); what = "row"; CHECK(ok, "accepted as " << r); CHECK_EQ(from_row(r), p, "row read"); }
  catch (bell::invalid const&) { what = "bell::invalid"; }
  catch (row::invalid const&) { what = "row::invalid"; }
  CHECK_EQ(what == "row", ok, "outcome: " << what);
  { int b = -1; size_t e = model_bell(t, 0, model::symbols, 1, b); int got = -1; char const* end = 0;
    try { got = (int)bell::read_extended(t.c_str(), &end); } catch (bell::invalid const&) {}
    CHECK_EQ(got, e == string::npos ? -1 : b, "first bell");
    if (e != string::npos) CHECK_EQ((size_t)(end - t.c_str()), e, "end of the first bell");
    std::istringstream bs(t); bell x(77); bs >> x;
    if (e != string::npos && t.find(' ') == string::npos) CHECK(!bs.fail() && (int)x == b, "first bell from a stream");
    if (e == string::npos && t.find_first_of(" \t\n\v\f\r") == string::npos) CHECK(bs.fail(), "first bell from a stream"); }
  // From a stream: the longest run of bell text, or failure; the target keeps its value on failure
  std::istringstream is(t); row r = row::reverse_rounds(5), before = r;
  is >> r;
  if (!is.fail()) { CHECK(is_perm(from_row(r)), "row from stream is a row"); CHECK(r.bells() > 0, "row from stream"); }
  else CHECK(r == before, "failed read changed the row");
  if (ok && !p.empty() && t.find(' ') == string::npos) CHECK(!is.fail() && from_row(r) == p, "row from stream");
}

SUB(vectors, 60000, 600000, "vectors of bells, some of them not permutations; non-trivial when not a permutation") {
  int n = s.range(0, 20); perm p = gen_perm(s, n);
  for (int k = s.below(3); k > 0 && n; --k) p[s.below(n)] = s.below(n + 3);
  if (s.chance(1,5)) p.push_back(s.below(n+2));
  s.note(show(p)); bool ok = is_perm(p); s.nontrivial(!ok);
  vector<bell> v(p.begin(), p.end()); bool got = true;
  try { row r(v); CHECK_EQ(from_row(r), p, "row"); } catch (row::invalid const&) { got = false; }
  CHECK_EQ(got, ok, "row from bells");
}
