// pbt.h - a small property-based testing framework for the checks in /verif.
//
// A property is a set of sub-checks.  Each sub-check is a function of a `Src`,
// which hands out random choices.  All the randomness of a case is the
// sequence of choices drawn, so a case can be replayed and shrunk by editing
// that sequence.  Cases run in forked workers, so that a crash or an endless
// loop in the code under test is a failing case and not the end of the run.
#ifndef PBT_H
#define PBT_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <map>

namespace pbt {

typedef std::vector<uint32_t> choices_t;

struct discard_case {};
struct case_failure {
  std::string msg;    // what went wrong
  std::string key;    // identifies a known finding ("" if it cannot be one)
};

class Src {
public:
  Src(uint64_t seed) : rng(seed), replaying(false), pos(0), nontriv(false) {}
  Src(choices_t const& c)
    : rng(0), rec(), src(c), replaying(true), pos(0), nontriv(false) {}

  // A number in [0,n).  Shrinks towards 0.
  uint32_t below(uint32_t n);
  // A number in [lo,hi].  Shrinks towards lo.
  int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
  // True with probability num/den.  Shrinks towards false.
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
  bool coin() { return below(2) == 1; }
  template <class T> T const& pick(std::vector<T> const& v)
    { return v[below(v.size())]; }
  char pickc(char const* s) { return s[below(strlen(s))]; }
  uint64_t bits64();

  // Describe the case; the notes identify it when counting distinct cases
  void note(std::string const& s);
  void renote(std::string const& s) { notes.clear(); note(s); }
  // Count the case under a label
  void label(std::string const& l) { labels.push_back(l); }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void trivial() { nontriv = false; }
  // Not a case after all
  void discard() { throw discard_case(); }

  choices_t const& recorded() const { return rec; }

  std::string notes;
  std::vector<std::string> labels;

private:
  uint64_t rng;
  choices_t rec, src;
  bool replaying;
  size_t pos;
public:
  bool nontriv;
};

struct str {
  std::ostringstream os;
  template <class T> str& operator<<(T const& t) { os << t; return *this; }
  operator std::string() const { return os.str(); }
};

[[noreturn]] void fail(std::string const& msg, std::string const& key = "");

#define CHECK(cond, ...) \
  do { if (!(cond)) ::pbt::fail(::pbt::str() << "expected " #cond ": " << __VA_ARGS__); } while (0)
#define CHECK_EQ(a, b, ...) \
  do { auto const& va_ = (a); auto const& vb_ = (b); \
       if (!(va_ == vb_)) ::pbt::fail(::pbt::str() << #a " = <" << ::pbt::show(va_) \
         << "> but expected <" << ::pbt::show(vb_) << ">: " << __VA_ARGS__); } while (0)

template <class T> std::string show(T const& t)
  { std::ostringstream os; os << t; return os.str(); }
inline std::string show(std::string const& s) { return s; }
template <class T> std::string show(std::vector<T> const& v) {
  std::ostringstream os;
  for (size_t i=0; i<v.size(); ++i) os << (i?" ":"") << show(v[i]);
  return os.str();
}
template <class A, class B> std::string show(std::pair<A,B> const& p)
  { return show(p.first) + ":" + show(p.second); }

// Printable form of arbitrary text
std::string quote(std::string const& s);

typedef void (*case_fn)(Src&);
struct sub {
  char const* name;
  unsigned long quick, thorough;  // numbers of cases
  case_fn fn;
  char const* rule;     // how cases are made, and what is non-trivial
  int cpu_limit;        // CPU seconds after which a case counts as endless
};
struct registrar { registrar(sub const&); };

#define SUB(name, quick, thorough, rule) SUB_CPU(name, quick, thorough, 30, rule)
#define SUB_CPU(name, quick, thorough, cpu, rule) \
  static void case_##name(::pbt::Src& s); \
  static ::pbt::registrar reg_##name(::pbt::sub{#name, quick, thorough, case_##name, rule, cpu}); \
  static void case_##name(::pbt::Src& s)

// ---------------------------------------------------------------------
// Running programs

struct run_result {
  int status;        // exit status, or 128+signal
  bool timed_out;    // hit its CPU limit
  bool crashed;      // ended by a signal or a sanitizer report
  std::string out, err;
};
// Runs a program with stdin from `in`, in directory `cwd` if not empty.
run_result run(std::vector<std::string> const& argv, std::string const& in = "",
               std::string const& cwd = "",
               std::vector<std::string> const& env = std::vector<std::string>(),
               int cpu_limit = 20);
// As run, but a crash or endless run is a failed case.
run_result run_ok(std::vector<std::string> const& argv, std::string const& in = "",
               std::string const& cwd = "",
               std::vector<std::string> const& env = std::vector<std::string>(),
               int cpu_limit = 20);
std::string cmdline(std::vector<std::string> const& argv);
// The path of a program under test, as built by the driver
std::string app(std::string const& name);
// A scratch directory of this process, emptied for every case
std::string const& scratch();
void write_file(std::string const& path, std::string const& contents);
std::string read_file(std::string const& path);

int main(int argc, char** argv);

} // namespace pbt

using pbt::Src;

#endif
