// pbt.cpp - see pbt.h
#include "pbt.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fstream>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <poll.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <cxxabi.h>

namespace pbt {

using std::string;
using std::vector;

// ---------------------------------------------------------------------
// Choices

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static uint64_t fnv(string const& s) {
  uint64_t h = 14695981039346656037ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// The choices drawn so far by the running case, for when it crashes
enum { max_choices = 1 << 16, max_labels = 96, label_len = 56,
       max_samples = 3, sample_len = 1200, table_size = 1 << 18,
       msg_len = 6000, notes_len = 12000 };

struct slot {
  volatile uint64_t cur;            // the running case
  uint64_t executed, discarded, nontriv, distinct, table_full, known;
  uint32_t nchoices;
  uint32_t choices[max_choices];
  uint32_t nlabels;
  struct { char name[label_len]; uint64_t n; } labels[max_labels];
  uint32_t nsamples;
  char samples[max_samples][sample_len];
  uint64_t fail_at;                 // ~0 if none
  char msg[msg_len], key[200], notes[notes_len];
  int result;                       // of a single evaluation
  uint64_t table[table_size];
};
enum { RES_NONE, RES_OK, RES_DISCARD, RES_FAIL };

static slot* my_slot = 0;

uint32_t Src::below(uint32_t n) {
  if (n == 0) { fprintf(stderr, "pbt: below(0)\n"); abort(); }
  uint32_t v = 0;
  if (replaying) {
    if (pos < src.size()) v = src[pos] < n ? src[pos] : n - 1;
    ++pos;
  } else if (n > 1) {
    v = (uint32_t)((splitmix(rng) >> 32) * (uint64_t)n >> 32);
  }
  rec.push_back(v);
  if (rec.size() >= max_choices) throw discard_case();
  if (my_slot) {
    my_slot->choices[rec.size()-1] = v;
    my_slot->nchoices = rec.size();
  }
  return v;
}

static void put(char* d, size_t n, string const& s) {
  size_t k = std::min(n - 1, s.size());
  memcpy(d, s.data(), k); d[k] = 0;
}

void Src::note(string const& s) {
  notes += s; notes += '\n';
  if (my_slot) put(my_slot->notes, notes_len, notes);
}

uint64_t Src::bits64() {
  uint64_t x = below(1u<<16);
  x = x << 16 | below(1u<<16);
  x = x << 16 | below(1u<<16);
  return x << 16 | below(1u<<16);
}

void fail(string const& msg, string const& key) {
  case_failure f; f.msg = msg; f.key = key;
  throw f;
}

string quote(string const& s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; sprintf(b, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r + '"';
}

static vector<sub>& subs() { static vector<sub> v; return v; }
registrar::registrar(sub const& s) { subs().push_back(s); }

static double now() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------------
// Scratch directories and programs

static string out_dir = "/verif/out", bin_dir = "/verif/build/bin";
static string scratch_base, scratch_dir;
static bool scratch_used = false;

static void rm_tree(string const& d) {
  if (DIR* dir = opendir(d.c_str())) {
    while (dirent* e = readdir(dir)) {
      string n = e->d_name;
      if (n == "." || n == "..") continue;
      string p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p);
      else unlink(p.c_str());
    }
    closedir(dir);
    rmdir(d.c_str());
  }
}

string const& scratch() {
  if (scratch_dir.empty()) {
    scratch_dir = scratch_base + "/" + std::to_string(getpid());
    mkdir(scratch_dir.c_str(), 0777);
  }
  scratch_used = true;
  return scratch_dir;
}

static void clear_scratch() {
  if (!scratch_used) return;
  rm_tree(scratch_dir);
  mkdir(scratch_dir.c_str(), 0777);
  scratch_used = false;
}

void write_file(string const& path, string const& contents) {
  std::ofstream f(path.c_str(), std::ios::binary);
  f << contents;
}
string read_file(string const& path) {
  std::ifstream f(path.c_str(), std::ios::binary);
  std::ostringstream os; os << f.rdbuf();
  return os.str();
}

string app(string const& name) { return bin_dir + "/" + name; }

string cmdline(vector<string> const& argv) {
  string r;
  for (size_t i=0; i<argv.size(); ++i) {
    string a = argv[i];
    if (i == 0) { size_t k = a.rfind('/'); if (k != string::npos) a = a.substr(k+1); }
    bool plain = !a.empty();
    for (char c : a) if (!isalnum((unsigned char)c) && !strchr("-_./=,:+%@", c)) plain = false;
    if (i) r += ' ';
    if (plain) r += a; else {
      r += '\'';
      for (char c : a) if (c == '\'') r += "'\\''"; else r += c;
      r += '\'';
    }
  }
  return r;
}

run_result run(vector<string> const& argv, string const& in, string const& cwd,
               vector<string> const& env, int cpu_limit) {
  run_result r; r.status = -1; r.timed_out = r.crashed = false;
  int pi[2], po[2], pe[2];
  if (pipe(pi) || pipe(po) || pipe(pe)) { perror("pipe"); _exit(97); }
  vector<char*> a;
  for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str()));
  a.push_back(0);
  static char e0[] = "LC_ALL=C", e1[] = "PATH=/usr/bin:/bin", e2[] = "TERM=dumb",
    e3[] = "ASAN_OPTIONS=detect_leaks=0:hard_rss_limit_mb=3000:exitcode=99:handle_abort=1",
    e4[] = "UBSAN_OPTIONS=print_stacktrace=1:exitcode=99";
  vector<char*> e; // the first of a name counts
  for (auto& s : env) e.push_back(const_cast<char*>(s.c_str()));
  e.push_back(e0); e.push_back(e1); e.push_back(e2);
  e.push_back(e3); e.push_back(e4);
  e.push_back(0);
  pid_t pid = vfork();
  if (pid < 0) { perror("fork"); _exit(97); }
  if (pid == 0) {
    dup2(pi[0], 0); dup2(po[1], 1); dup2(pe[1], 2);
    for (int fd = 3; fd < 64; ++fd) close(fd);
    if (!cwd.empty() && chdir(cwd.c_str())) _exit(126);
    struct rlimit rl; rl.rlim_cur = cpu_limit; rl.rlim_max = cpu_limit + 2;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 64 << 20; setrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    struct itimerval z; memset(&z, 0, sizeof z);
    setitimer(ITIMER_PROF, &z, 0);
    execve(a[0], &a[0], &e[0]);
    _exit(127);
  }
  close(pi[0]); close(po[1]); close(pe[1]);
  fcntl(pi[1], F_SETFL, O_NONBLOCK);
  size_t w = 0;
  if (in.empty()) { close(pi[1]); pi[1] = -1; }
  bool o = true, er = true; char buf[65536];
  size_t const cap = 32u << 20;
  double t0 = now();
  while (o || er) {
    struct pollfd p[3]; int n = 0, io=-1, ie=-1, ii=-1;
    if (o) { io = n; p[n].fd = po[0]; p[n].events = POLLIN; p[n++].revents = 0; }
    if (er) { ie = n; p[n].fd = pe[0]; p[n].events = POLLIN; p[n++].revents = 0; }
    if (pi[1] >= 0) { ii = n; p[n].fd = pi[1]; p[n].events = POLLOUT; p[n++].revents = 0; }
    int rc = ::poll(p, n, 5000);
    if (rc < 0 && errno != EINTR) break;
    if (now() - t0 > 240) { kill(pid, SIGKILL); r.timed_out = true; break; }
    if (rc <= 0) continue;
    if (io >= 0 && p[io].revents) {
      ssize_t k = read(po[0], buf, sizeof buf);
      if (k <= 0) o = false; else if (r.out.size() < cap) r.out.append(buf, k);
      else kill(pid, SIGXCPU);
    }
    if (ie >= 0 && p[ie].revents) {
      ssize_t k = read(pe[0], buf, sizeof buf);
      if (k <= 0) er = false; else if (r.err.size() < cap) r.err.append(buf, k);
    }
    if (ii >= 0 && p[ii].revents) {
      ssize_t k = write(pi[1], in.data() + w, in.size() - w);
      if (k > 0) w += k;
      if (w == in.size() || (k < 0 && errno != EAGAIN)) { close(pi[1]); pi[1] = -1; }
    }
  }
  if (pi[1] >= 0) close(pi[1]);
  close(po[0]); close(pe[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  if (WIFSIGNALED(st)) {
    r.status = 128 + WTERMSIG(st);
    if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) r.timed_out = true;
    else r.crashed = true;
  } else {
    r.status = WEXITSTATUS(st);
    if (r.status == 99 || r.err.find("runtime error:") != string::npos
        || r.err.find("ERROR: AddressSanitizer") != string::npos) r.crashed = true;
  }
  if (r.status == 127 || r.status == 126) {
    fprintf(stderr, "pbt: cannot run %s\n", argv[0].c_str()); _exit(97);
  }
  return r;
}

static string crash_key(string const& report) {
  // the innermost function of the code under test
  std::istringstream is(report); string line;
  while (getline(is, line)) {
    size_t k = line.find(" in "), f = line.find("/repo/");
    if (line.find('#') == string::npos || k == string::npos || f == string::npos) continue;
    string fn = line.substr(k + 4, f - k - 4);
    while (!fn.empty() && fn.back() == ' ') fn.pop_back();
    return "crash:" + fn;
  }
  return "crash";
}

static string tail(string const& s, size_t n) {
  return s.size() <= n ? s : s.substr(0, n) + "\n[...]";
}

run_result run_ok(vector<string> const& argv, string const& in, string const& cwd,
                  vector<string> const& env, int cpu_limit) {
  run_result r = run(argv, in, cwd, env, cpu_limit);
  if (r.timed_out) fail("the program did not finish: " + cmdline(argv), "hang");
  if (r.crashed)
    fail("the program crashed (status " + std::to_string(r.status) + "): "
         + cmdline(argv) + "\n" + tail(r.err, 3500), crash_key(r.err));
  return r;
}

// ---------------------------------------------------------------------
// Running cases

static std::set<string> known_keys;
static uint64_t the_seed = 1;
static sub const* the_sub = 0;

struct outcome { int result; string msg, key, notes; };

static string demangle(char const* n) {
  int st; char* d = abi::__cxa_demangle(n, 0, 0, &st);
  string s = d ? d : n; free(d); return s;
}

// Runs one case in this process
static outcome run_case(sub const& sb, Src& s) {
  outcome o;
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sb.cpu_limit;
  setitimer(ITIMER_PROF, &it, 0);
  try {
    sb.fn(s);
    o.result = RES_OK;
  }
  catch (discard_case const&) { o.result = RES_DISCARD; }
  catch (case_failure const& f) { o.result = RES_FAIL; o.msg = f.msg; o.key = f.key; }
  catch (std::exception const& e) {
    o.result = RES_FAIL;
    o.msg = "unexpected exception " + demangle(typeid(e).name()) + ": " + e.what();
    o.key = "exception:" + demangle(typeid(e).name());
  }
  catch (...) { o.result = RES_FAIL; o.msg = "unexpected exception"; o.key = "exception"; }
  it.it_value.tv_sec = 0;
  setitimer(ITIMER_PROF, &it, 0);
  o.notes = s.notes;
  clear_scratch();
  return o;
}

static uint64_t case_seed(sub const& sb, uint64_t i) {
  uint64_t x = the_seed * 0x2545f4914f6cdd1dull ^ fnv(sb.name) ^ (i * 0x9e3779b97f4a7c15ull);
  splitmix(x);
  return splitmix(x);
}

template <class T> T* shared() {
  void* p = mmap(0, sizeof(T), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(97); }
  return static_cast<T*>(p);
}

struct global { volatile uint64_t bound; volatile int stop; };
static global* glob = 0;

static void silence(string const& errfile) {
  int fd = open(errfile.c_str(), O_CREAT|O_WRONLY|O_TRUNC|O_APPEND, 0666);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 1); dup2(nul, 0); close(nul);
}

static void count_case(slot* sl, Src& s) {
  if (s.nontriv) {
    ++sl->nontriv;
    uint64_t h = 0;
    if (s.notes.empty()) { for (uint32_t c : s.recorded()) { h ^= c + 1; h *= 1099511628211ull; } }
    else h = fnv(s.notes);
    if (!h) h = 1;
    uint64_t x = h; size_t k = splitmix(x) % table_size;
    if (sl->distinct < table_size * 3 / 4) {
      while (sl->table[k] && sl->table[k] != h) k = (k + 1) % table_size;
      if (!sl->table[k]) { sl->table[k] = h; ++sl->distinct; }
    } else ++sl->table_full;
    if (sl->nsamples < max_samples && !s.notes.empty())
      put(sl->samples[sl->nsamples++], sample_len, s.notes);
  }
  for (auto const& l : s.labels) {
    uint32_t i = 0;
    while (i < sl->nlabels && l.compare(0, label_len-1, sl->labels[i].name)) ++i;
    if (i == sl->nlabels) {
      if (i == max_labels) continue;
      put(sl->labels[i].name, label_len, l); ++sl->nlabels;
    }
    ++sl->labels[i].n;
  }
}

static void worker(sub const& sb, slot* sl, uint64_t from, uint64_t n, unsigned step,
                   string const& errfile) {
  silence(errfile);
  my_slot = sl;
  for (uint64_t i = from; i < n; i += step) {
    if (glob->stop || i > glob->bound) break;
    sl->cur = i; sl->nchoices = 0; sl->notes[0] = 0;
    Src s(case_seed(sb, i));
    outcome o = run_case(sb, s);
    if (o.result == RES_DISCARD) { ++sl->discarded; continue; }
    ++sl->executed;
    count_case(sl, s);
    if (o.result == RES_FAIL) {
      if (known_keys.count(o.key)) { ++sl->known;
        s.labels.assign(1, "known finding " + o.key); s.nontriv = false; count_case(sl, s);
        continue; }
      if (sl->fail_at == ~0ull) {
        put(sl->msg, msg_len, o.msg); put(sl->key, sizeof sl->key, o.key);
        put(sl->notes, notes_len, o.notes);
        sl->fail_at = i;
      }
      uint64_t b = glob->bound;
      while (i < b && !__sync_bool_compare_and_swap(&glob->bound, b, i)) b = glob->bound;
      break;
    }
  }
  sl->cur = ~0ull;
  if (!scratch_dir.empty()) rm_tree(scratch_dir);
  _exit(0);
}

static string describe_end(int st, string const& report) {
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
    return "the case did not finish within its CPU limit";
  if (WIFSIGNALED(st))
    return string("the code under test was ended by signal ") + strsignal(WTERMSIG(st))
      + "\n" + tail(report, 3500);
  return "the code under test ended the process with status "
    + std::to_string(WEXITSTATUS(st)) + "\n" + tail(report, 3500);
}
static string end_key(int st, string const& report) {
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) return "hang";
  return crash_key(report);
}

static slot* eval_slot = 0;

// Runs one case in a child
static outcome eval(sub const& sb, choices_t const& c, choices_t* used = 0) {
  if (!eval_slot) eval_slot = shared<slot>();
  eval_slot->result = RES_NONE; eval_slot->nchoices = 0; eval_slot->notes[0] = 0;
  string errfile = scratch_base + "/eval.err";
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(97); }
  if (pid == 0) {
    silence(errfile);
    my_slot = eval_slot;
    Src s(c);
    outcome o = run_case(sb, s);
    put(eval_slot->msg, msg_len, o.msg); put(eval_slot->key, sizeof eval_slot->key, o.key);
    put(eval_slot->notes, notes_len, o.notes);
    eval_slot->result = o.result;
    if (!scratch_dir.empty()) rm_tree(scratch_dir);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  rm_tree(scratch_base + "/" + std::to_string(pid));
  outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && eval_slot->result != RES_NONE) {
    o.result = eval_slot->result; o.msg = eval_slot->msg; o.key = eval_slot->key;
    o.notes = eval_slot->notes;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
    fprintf(stderr, "pbt: harness error while evaluating a case\n"); exit(97);
  } else {
    string report = read_file(errfile);
    o.result = RES_FAIL; o.msg = describe_end(st, report); o.key = end_key(st, report);
    o.notes = eval_slot->notes;
  }
  if (used) used->assign(eval_slot->choices, eval_slot->choices + eval_slot->nchoices);
  return o;
}

static bool bad(outcome const& o) { return o.result == RES_FAIL && !known_keys.count(o.key); }

static bool shortlex_less(choices_t const& a, choices_t const& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

static choices_t shrink(sub const& sb, choices_t best, outcome& bo, unsigned& evals) {
  double t0 = now(), limit = 25;
  bool hang = bo.key == "hang";
  unsigned budget = hang ? 6 : 4000;
  auto attempt = [&](choices_t const& c) {
    if (evals >= budget || now() - t0 > limit) return false;
    ++evals;
    choices_t used;
    outcome o = eval(sb, c, &used);
    if (!bad(o)) return false;
    if (used.size() > c.size()) used.resize(c.size());
    if (!shortlex_less(used, best)) { if (!shortlex_less(c, best)) return false; used = c; }
    best = used; bo = o;
    return true;
  };
  bool progress = true;
  while (progress && evals < budget && now() - t0 < limit) {
    progress = false;
    // delete chunks
    for (size_t k : {32, 16, 8, 4, 3, 2, 1})
      for (size_t i = 0; i < best.size() && i + k <= best.size(); ) {
        size_t at = best.size() - k - i;   // from the end
        choices_t c(best); c.erase(c.begin() + at, c.begin() + at + k);
        if (attempt(c)) progress = true; else ++i;
        if (evals >= budget || now() - t0 > limit) return best;
      }
    // zero chunks
    for (size_t k : {8, 4, 2, 1})
      for (size_t i = 0; i + k <= best.size(); ++i) {
        bool any = false;
        for (size_t j = i; j < i + k; ++j) any |= best[j] != 0;
        if (!any) continue;
        choices_t c(best); std::fill(c.begin() + i, c.begin() + i + k, 0);
        if (attempt(c)) progress = true;
      }
    // lower values
    for (size_t i = 0; i < best.size(); ++i) {
      uint32_t lo = 0;   // fails to reproduce at lo (zero has been tried)
      while (i < best.size() && best[i] > lo + 1) {
        uint32_t mid = lo + (best[i] - lo) / 2;
        choices_t c(best); c[i] = mid;
        if (attempt(c)) progress = true; else lo = mid;
      }
      if (i < best.size() && best[i] > 0) {
        choices_t c(best); --c[i];
        if (attempt(c)) progress = true;
        // lower a choice and delete what it governs
        if (i < best.size() && best[i] > 0)
          for (size_t k = 1; k <= 6 && i + 1 + k <= best.size(); ++k) {
            choices_t d(best); --d[i]; d.erase(d.begin() + i + 1, d.begin() + i + 1 + k);
            if (attempt(d)) { progress = true; break; }
          }
      }
    }
  }
  return best;
}

static string json(string const& s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; sprintf(b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + '"';
}

struct sub_report {
  uint64_t executed, discarded, nontriv, distinct, known; bool truncated, table_full;
  std::map<string,uint64_t> labels; vector<string> samples; double wall;
  bool failed; string msg, key, notes, replay; unsigned shrinks; unsigned reproduced;
};

static sub_report run_sub(sub const& sb, string const& prop, uint64_t n, unsigned W,
                          double deadline) {
  sub_report rep = sub_report(); double t0 = now();
  glob->bound = ~0ull; glob->stop = 0;
  vector<slot*> slots(W);
  vector<pid_t> pid(W, 0);
  vector<string> err(W);
  unsigned live = 0;
  fflush(stdout); fflush(stderr);
  auto start = [&](unsigned w, uint64_t from) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(97); }
    if (p == 0) worker(sb, slots[w], from, n, W, err[w]);
    pid[w] = p; ++live;
  };
  for (unsigned w = 0; w < W; ++w) {
    slots[w] = shared<slot>(); slots[w]->fail_at = ~0ull; slots[w]->cur = ~0ull;
    err[w] = scratch_base + "/worker" + std::to_string(w) + ".err";
    start(w, w);
  }
  uint64_t crashes = 0;
  while (live) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(5000);
      if (now() > deadline && !glob->stop) { glob->stop = 1; rep.truncated = true; }
      continue;
    }
    for (unsigned w = 0; w < W; ++w) if (pid[w] == p) {
      pid[w] = 0; --live;
      rm_tree(scratch_base + "/" + std::to_string(p));
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w]->cur == ~0ull) break;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { fprintf(stderr, "pbt: harness error in a worker\n%s\n", tail(read_file(err[w]), 2000).c_str()); exit(97); }
      string report = read_file(err[w]);
      string key = end_key(st, report);
      uint64_t at = slots[w]->cur;
      ++slots[w]->executed;
      if (known_keys.count(key)) {
        ++slots[w]->known; ++crashes;
        if (crashes < 200) start(w, at + W);
      } else {
        if (slots[w]->fail_at == ~0ull) {
          slots[w]->fail_at = at;
          put(slots[w]->msg, msg_len, describe_end(st, report));
          put(slots[w]->key, sizeof slots[w]->key, key);
        }
        if (at < glob->bound) glob->bound = at;
      }
      break;
    }
  }
  int fw = -1;
  std::unordered_set<uint64_t> all;
  for (unsigned w = 0; w < W; ++w) {
    slot* sl = slots[w];
    rep.executed += sl->executed; rep.discarded += sl->discarded; rep.nontriv += sl->nontriv;
    rep.known += sl->known; if (sl->table_full) rep.table_full = true;
    for (size_t k = 0; k < table_size; ++k) if (sl->table[k]) all.insert(sl->table[k]);
    for (uint32_t i = 0; i < sl->nlabels; ++i) rep.labels[sl->labels[i].name] += sl->labels[i].n;
    for (uint32_t i = 0; i < sl->nsamples; ++i) if (i == 0) rep.samples.push_back(sl->samples[i]);
    if (sl->fail_at != ~0ull && (fw < 0 || sl->fail_at < slots[fw]->fail_at)) fw = w;
  }
  rep.distinct = all.size();
  if (fw >= 0) {
    slot* sl = slots[fw];
    rep.msg = sl->msg; rep.key = sl->key; rep.notes = sl->notes;
    choices_t c(sl->choices, sl->choices + sl->nchoices);
    // Replay it first
    outcome o; bool rp = true;
    for (int k = 0; k < 3 && rp; ++k) {
      o = eval(sb, c);
      if (o.result != RES_FAIL) rp = false; else if (!bad(o)) rp = false; else ++rep.reproduced;
    }
    string file = out_dir + "/" + prop + "-" + sb.name + ".replay";
    if (rp) {
      rep.failed = true;
      choices_t m = shrink(sb, c, o, rep.shrinks);
      outcome f = eval(sb, m);
      if (bad(f)) { c = m; o = f; }
      rep.msg = o.msg; rep.key = o.key; if (!o.notes.empty()) rep.notes = o.notes;
      else rep.notes.clear();
    } else file += ".unreproduced";
    rep.replay = file;
    std::ofstream f(file.c_str());
    f << "property " << prop << "\nsub " << sb.name << "\nseed " << the_seed
      << "\ncase " << sl->fail_at << "\nchoices";
    for (uint32_t x : c) f << ' ' << x;
    f << "\n--- case\n" << rep.notes << "--- failure\n" << rep.msg << "\n--- key\n" << rep.key << "\n";
    f << "--- to replay\n/verif/check " << prop << " --replay " << file << "\n";
  }
  for (unsigned w = 0; w < W; ++w) munmap(slots[w], sizeof(slot));
  rep.wall = now() - t0;
  return rep;
}

int main(int argc, char** argv) {
  string prop = "X00", tier = "quick", only, jsonf, replayf; uint64_t cases = 0; double wall = 300;
  unsigned W = 8; bool list = false;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i]; auto val = [&]() { if (++i >= argc) exit(96); return string(argv[i]); };
    if (a == "--prop") prop = val(); else if (a == "--tier") tier = val();
    else if (a == "--seed") the_seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--out") out_dir = val(); else if (a == "--bin") bin_dir = val();
    else if (a == "--known") known_keys.insert(val());
    else if (a == "--json") jsonf = val(); else if (a == "--sub") only = val();
    else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") W = atoi(val().c_str());
    else if (a == "--wall") wall = atof(val().c_str());
    else if (a == "--replay") replayf = val();
    else if (a == "--list") list = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 96; }
  }
  if (list) { for (auto& s : subs()) printf("%s %lu %lu\n", s.name, s.quick, s.thorough); return 0; }
  signal(SIGPIPE, SIG_IGN);
  mkdir(out_dir.c_str(), 0777);
  scratch_base = out_dir + "/scratch-" + prop + "-" + std::to_string(getpid());
  mkdir(scratch_base.c_str(), 0777);
  glob = shared<global>();
  struct cleaner { ~cleaner() { rm_tree(scratch_base); } } cl;

  if (!replayf.empty()) {
    std::ifstream f(replayf.c_str()); string line, sn; choices_t c;
    while (getline(f, line)) {
      std::istringstream is(line); string k; is >> k;
      if (k == "sub") is >> sn;
      else if (k == "choices") { uint32_t x; while (is >> x) c.push_back(x); break; }
    }
    for (auto& s : subs()) if (s.name == sn) {
      outcome o = eval(s, c);
      printf("%s\n%s\n", o.notes.c_str(), o.result == RES_FAIL ? ("FAILED: " + o.msg + "\nkey: " + o.key).c_str()
             : o.result == RES_DISCARD ? "discarded" : "passed");
      return o.result == RES_FAIL ? 1 : 0;
    }
    fprintf(stderr, "no such sub-check: %s\n", sn.c_str());
    return 96;
  }

  double deadline = now() + wall;
  std::ostringstream js; bool first = true, failed = false;
  js << "{\"subs\":[";
  for (auto& s : subs()) {
    if (!only.empty() && only != s.name) continue;
    uint64_t n = cases && s.quick > 1 ? cases : tier == "thorough" ? s.thorough : s.quick;
    sub_report r = run_sub(s, prop, n, W, deadline);
    fprintf(stderr, "%s %-24s %8llu run %7llu discarded %8llu distinct non-trivial %6.1fs%s%s\n",
            prop.c_str(), s.name, (unsigned long long)r.executed, (unsigned long long)r.discarded,
            (unsigned long long)r.distinct, r.wall, r.truncated ? " (stopped by the wall guard)" : "",
            r.failed ? " FAILED" : !r.replay.empty() ? " UNREPRODUCIBLE" : "");
    for (auto& l : r.labels)
      if (getenv("PBT_LABELS")) fprintf(stderr, "      %-50s %8llu\n", l.first.c_str(), (unsigned long long)l.second);
    if (!r.replay.empty()) {
      fprintf(stderr, "--- case\n%s--- %s\n%s\n--- key %s\n", r.notes.c_str(),
              r.failed ? "failure" : "failure that did not reproduce", r.msg.c_str(), r.key.c_str());
    }
    js << (first ? "" : ",\n") << "{\"name\":" << json(s.name) << ",\"rule\":" << json(s.rule)
       << ",\"executed\":" << r.executed << ",\"discarded\":" << r.discarded
       << ",\"nontrivial\":" << r.nontriv << ",\"distinct_nontrivial\":" << r.distinct
       << ",\"known\":" << r.known << ",\"truncated\":" << (r.truncated ? "true" : "false")
       << ",\"table_full\":" << (r.table_full ? "true" : "false") << ",\"wall\":" << r.wall
       << ",\"failed\":" << (r.failed ? "true" : "false")
       << ",\"unreproduced\":" << (!r.failed && !r.replay.empty() ? "true" : "false")
       << ",\"key\":" << json(r.key)
       << ",\"msg\":" << json(r.msg) << ",\"notes\":" << json(r.notes)
       << ",\"replay\":" << json(r.replay) << ",\"shrink_evals\":" << r.shrinks << ",\"labels\":{";
    bool f1 = true;
    for (auto& l : r.labels) { js << (f1 ? "" : ",") << json(l.first) << ":" << l.second; f1 = false; }
    js << "},\"samples\":["; f1 = true;
    for (auto& x : r.samples) { js << (f1 ? "" : ",") << json(x); f1 = false; }
    js << "]}";
    first = false;
    if (r.failed) { failed = true; break; }
  }
  js << "]}\n";
  if (!jsonf.empty()) write_file(jsonf, js.str());
  return failed ? 1 : 0;
}

} // namespace pbt

extern "C" const char* __asan_default_options()
  { return "detect_leaks=0:exitcode=99:hard_rss_limit_mb=3500:allocator_may_return_null=0:handle_abort=1:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options()
  { return "print_stacktrace=1:exitcode=99"; }

int main(int argc, char** argv) { return pbt::main(argc, argv); }
