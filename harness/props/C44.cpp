// C44 - ringmethod: the sound of rows
//! apps: ringmethod
#include "model.h"
#include "lib.h"
#include <ringing/mathutils.h>
#include <complex>
#include <map>
using namespace model; using namespace pbt;
namespace {
string num(double d) { std::ostringstream os; os << d; return os.str(); }
unsigned le(string const& t, size_t at, int n) { unsigned v = 0; for (int i=n; i--; ) v = v << 8 | (unsigned char) t[at + i]; return v; }
struct strike { long t; int bell; };
// What five partials of each bell sound like after the bells have been struck; z turns and decays at each sample
vector<double> synthesise(int n, int rate, double nominal, vector<strike> st, long samples) {
  static int const scale[] = { 0, 2, 4, 5, 7, 9, 11 }; struct partial { std::complex<double> z, step; double ampl; }; vector<vector<partial>> bells(n);
  for (int b=0; b<n; ++b) { int up = n - 1 - b; double f = nominal * pow(2, up / 7 + scale[up % 7] / 12.0), a = pow(1.02, b + 1); static double const semis[] = { -24, -12, -9, -5, 0 };
    for (int k=0; k<5; ++k) { double w = 2 * M_PI * f * pow(2, semis[k] / 12) / rate, d = exp(-(k ? 2.5 : 0.5) / rate); partial p; p.z = 0; p.step = d * std::complex<double>(cos(w), sin(w)); p.ampl = a; bells[b].push_back(p); } }
  std::stable_sort(st.begin(), st.end(), [](strike const& a, strike const& b) { return a.t < b.t; }); size_t next = 0; vector<double> v(samples);
  for (long t=0; t<samples; ++t) {
    for (; next < st.size() && st[next].t == t; ++next) for (auto& p : bells[st[next].bell]) p.z = p.ampl * p.step / std::abs(p.step);
    double sum = 0; for (auto& b : bells) for (auto& p : b) if (p.z != 0.0) { p.z *= p.step; sum -= p.z.imag(); } v[t] = sum * 1000;
  }
  return v;
}
// A number of eighths, so that it is exact
double eighths(Src& s, int lo, int hi) { return s.range(lo * 8, hi * 8) / 8.0; }
struct where { double mean[2], dev[2]; };
}

SUB(sound, 1400, 26000, "rows rung on 1 to 16 bells at various sample rates, speeds, pitches and handstroke leads, with offsets and deviations for some or all of the bells at either stroke: the header, the length, and every sample compared with an independent synthesis of the strikes at their times; non-trivial = at least 20 strikes, and an offset or deviation or a handstroke lead that is not 1") {
  int n = s.chance(1,4) ? s.range(9, 16) : s.range(1, 8); int rows = s.range(0, 8); if (s.chance(1,15)) rows = 0; int speed = s.chance(1,4) ? s.range(1, 400) : s.range(100, 240); int nominal = s.chance(1,3) ? 587 : s.range(20, 2000);
  double sep = speed * 60 / 2500.0 / (2 * n + 1); int least = (int)(2.0 / sep) + 1; int rate = s.chance(1,4) ? s.range(least, least + 20) : s.range(least, std::max(least, 3000)); if (rate * (rows * n * sep + 5) * n > 900000) s.discard();
  vector<string> argv(1, app("ringmethod")); vector<vector<string>> o; auto opt = [&](char const* a, string const& b, string const& v) { string const S = a; vector<string> x; switch (s.below(v[0] == '-' ? 2 : 3)) { case 0: x = { S + v }; break; case 1: x = { "--" + b + "=" + v }; break; default: x = { S, v }; } o.push_back(x); };
  opt("-b", "bells", std::to_string(n)); if (rate == 22050) s.discard(); opt("-r", "sample-rate", std::to_string(rate));
  if (speed != 180 || s.coin()) { int h = speed / 60, m = speed % 60; string t; switch (s.below(4)) { case 0: t = std::to_string(speed); break; case 1: t = std::to_string(speed) + "m"; break; case 2: t = str() << h << (s.coin() ? "h" : ":") << (m < 10 && s.coin() ? "0" : "") << m << (s.coin() ? "m" : ""); break; default: t = m ? string(str() << h << "h" << m) : string(str() << h << "h"); } opt("-s", "peal-speed", t); }
  if (nominal != 587 || s.coin()) opt("-f", "frequency", std::to_string(nominal));
  double lead = 1; if (s.coin()) { lead = eighths(s, -1, 3); opt("-h", "handstroke-lead", num(lead)); } double dev = 0; if (s.chance(1,3)) { dev = s.chance(1,4) ? eighths(s, 0, 6) : s.range(0, 8) / 16.0; opt("-d", "deviation", num(dev)); }
  long seed = 0; { seed = s.chance(1,6) ? 0 : s.range(1, 100000); o.push_back({ "--seed=" + std::to_string(seed) }); }
  for (size_t i=0; i+1<o.size(); ++i) std::swap(o[i], o[i + s.below(o.size() - i)]);
  std::map<int, where> wh; for (int b=0; b<n; ++b) wh[b] = { { 0, 0 }, { -1, -1 } }; int k = s.coin() ? 0 : s.range(1, 4); bool wild = s.chance(1,4);
  for (int i=0; i<k; ++i) { int b = s.below(n); string t = b < 9 || s.coin() ? (s.coin() ? text(perm(1, b)) : std::to_string(b + 1)) : std::to_string(b + 1); t += "="; bool two = s.chance(1,3); auto& w = wh[b]; for (int st=0; st<(two ? 2 : 1); ++st) { if (st) t += ";"; bool m = s.chance(3,4), d = s.chance(1,3); if (m) { w.mean[st] = wild ? eighths(s, -20, 20) : s.range(-6, 6) / 16.0; t += num(w.mean[st]); } if (d) { w.dev[st] = s.range(0, 8) / 8.0; t += "," + num(w.dev[st]); } } if (!two) { w.mean[1] = w.mean[0]; w.dev[1] = w.dev[0]; } opt("-o", "offset", t); }
  for (auto const& x : o) argv.insert(argv.end(), x.begin(), x.end());
  vector<perm> rs; string in; for (int i=0; i<rows; ++i) { int m = s.chance(1,8) ? s.range(1, n) : n; perm p = s.chance(1,8) ? rounds(m) : gen_perm(s, m); in += text(p); in += s.chance(1,8) ? " " : "\n"; if (s.chance(1,20)) in += "\n"; p = [&] { perm q = p; for (int b=m; b<n; ++b) q.push_back(b); return q; }(); rs.push_back(p); }
  s.renote(cmdline(argv) + " < " + quote(in));
  // The strikes
  srand(seed ? seed : 1); vector<strike> st; long read = 0, eof = 0; bool late = false; for (int r=0; r<rows; ++r) { long last = read; for (int i=0; i<n; ++i) { auto const& w = wh[rs[r][i]]; int half = r % 2; double off = ringing::random_normal_deviate(w.mean[half], w.dev[half] < 0 ? dev : w.dev[half]); double x = (i + r * n + r / 2 * lead + off) * sep * rate; if (fabs(x) > 1e-9 && fabs(x - std::round(x)) < 1e-6) s.discard(); long ts = x < 0 ? 0 : (long) x; eof = ts + 5L * rate; if (ts < read) late = true; long at = std::max(ts, read); last = std::max(last, at); st.push_back({ at, rs[r][i] }); } if (r == rows - 1) eof = std::max(eof, read + 1); read = last + 1; }
  if (!rows) eof = 0; if (eof > 400000) s.discard(); s.label(late ? "a bell due before the row before has ended" : "in time"); if (late) s.label("late"); if (wild) s.label("wild offsets"); if (!rows) s.label("no rows");
  auto r = run(argv, in, "", {}, 60); CHECK(r.status == 0, "exit status " << r.status << ": " << r.err); CHECK_EQ(r.err, string(), "messages");
  string const& w = r.out; CHECK(w.size() >= 44, "no header: " << w.size() << " bytes"); CHECK_EQ(w.substr(0, 4) + w.substr(8, 8), string("RIFFWAVEfmt "), "the header"); CHECK_EQ(le(w, 16, 4), 16u, "length of the format"); CHECK_EQ(le(w, 20, 2), 1u, "PCM"); CHECK_EQ(le(w, 22, 2), 1u, "channels");
  CHECK_EQ(le(w, 24, 4), (unsigned) rate, "sample rate in the header"); CHECK_EQ(le(w, 28, 4), 2u * rate, "bytes a second in the header"); CHECK_EQ(le(w, 32, 2), 2u, "bytes in a sample"); CHECK_EQ(le(w, 34, 2), 16u, "bits in a sample"); CHECK_EQ(w.substr(36, 4), string("data"), "the data");
  CHECK_EQ((long)(w.size() - 44), 2 * eof, "bytes of sound"); vector<double> v = synthesise(n, rate, nominal, st, eof); bool clipped = false;
  for (long t=0; t<eof; ++t) { int got = (short) le(w, 44 + 2 * t, 2); double want = std::max(-32768.0, std::min(32767.0, v[t])); if (want != v[t]) clipped = true; CHECK(fabs(got - want) < 1.01 + 1e-7 * fabs(want) * sqrt((double) t), "sample " << t << " is " << got << ", not " << want); }
  if (clipped) s.label("clipped"); if (st.size() >= 20 && (k || dev > 0 || lead != 1)) s.nontrivial();
}

SUB(rates, 12, 160, "rows rung at the usual sample rate and speed, and at the rates of discs: the header and the length of the sound; always non-trivial") {
  int n = s.range(4, 12); vector<string> argv = { app("ringmethod"), "-b", std::to_string(n) }; static int const rates[] = { 22050, 22050, 44100, 48000, 96000, 8000, 192000 }; int rate = rates[s.below(7)]; if (rate != 22050) argv.push_back("-r" + std::to_string(rate)); string in; int rows = s.range(1, 3); for (int i=0; i<rows; ++i) in += text(gen_perm(s, n)) + "\n";
  s.renote(cmdline(argv)); double x = (n - 1 + (rows - 1) * n + (rows - 1) / 2) * (180 * 60 / 2500.0 / (2 * n + 1)) * rate; if (fabs(x - std::round(x)) < 1e-5) s.discard(); string w = run_ok(argv, in, "", {}, 100).out; CHECK(w.size() > 44, "no sound"); CHECK_EQ(le(w, 24, 4), (unsigned) rate, "sample rate in the header"); CHECK_EQ(le(w, 28, 4), 2u * rate, "bytes a second in the header"); CHECK_EQ((long) (w.size() - 44), 2 * ((long) x + 5L * rate), "bytes of sound"); s.nontrivial();
}

SUB(misuse, 500, 9000, "options which are impossible or cannot be read, and rows with more bells than there are: refused with a message and no crash, and what can be rung before them is; non-trivial = refused") {
  int n = s.range(1, 8); vector<string> argv = { app("ringmethod") }; string in = text(gen_perm(s, n)) + "\n", bad; bool row = false; bool b = true;
  switch (s.below(14)) {
    case 0: b = false; break; case 1: b = false; bad = "-b" + std::to_string(s.range(-3, 0)); break; case 2: b = false; bad = "--bells=" + std::to_string(s.range(257, 100000)); break;
    case 3: bad = "-r" + std::to_string(s.range(-9, 0)); break; case 4: bad = "--peal-speed=" + std::to_string(s.range(-9, 0)); break; case 5: bad = "-f" + std::to_string(s.range(-9, 0)); break; case 6: bad = "-d-0.5"; break;
    case 7: bad = "-o" + string(s.pick(vector<string>{ "1", "=1", "1=x", "1=0.5,x", "1=0.5,-1", "1=1;x", "1=,", "-1=1", "0,1", "1000=1", "00=1" })); break; case 8: bad = "-s" + string(s.pick(vector<string>{ "x", "3x", "h", "3h4x", ":", "2:3:4" })); break; case 9: bad = "-h" + string(s.pick(vector<string>{ "x", "1x", "." })); break; case 10: bad = "-d" + string(s.pick(vector<string>{ "x", "1..", "0,1" })); break; case 11: bad = "extra"; break;
    default: { row = true; int m = s.range(n + 1, n + 6); int good = s.below(4); in.clear(); while (good--) in += text(gen_perm(s, n)) + "\n"; in += text(gen_perm(s, m)) + "\n"; in += text(gen_perm(s, n)) + "\n"; }
  }
  if (b) argv.push_back("-b" + std::to_string(n)); if (!bad.empty()) argv.insert(argv.begin() + 1 + s.below(argv.size()), bad); if (bad.compare(0, 2, "-r")) argv.insert(argv.begin() + 1, "-r2000"); s.renote(cmdline(argv) + " < " + quote(in)); auto r = run(argv, in, "", {}, 60); CHECK(r.status == 1, "exit status " << r.status << ": " << r.err); CHECK(!r.err.empty(), "no message"); if (!row) CHECK(r.out.size() == 0 || bad == "extra", "output"); s.nontrivial(); s.label(row ? "rows" : bad.substr(0, 2));
}

SUB(deviates, 300, 6000, "four thousand normal deviates of some mean and deviation after seeding at random: their average, spread, skewness, and the share of them within one and two deviations of the mean are those of a normal distribution; non-trivial = a deviation that is not 0") {
  double mean = eighths(s, -10, 10), sd = eighths(s, 0, 10); unsigned seed = s.range(1, 1000000); s.renote(str() << "mean " << mean << ", deviation " << sd << ", seed " << seed); srand(seed); int const N = 4000; double a = 0, b = 0, c = 0; int in1 = 0, in2 = 0;
  for (int i=0; i<N; ++i) { double x = ringing::random_normal_deviate(mean, sd) - mean; if (sd == 0) { CHECK(x == 0, "not the mean"); continue; } x /= sd; a += x; b += x * x; c += x * x * x; in1 += fabs(x) < 1; in2 += fabs(x) < 2; }
  if (sd == 0) return; s.nontrivial(); a /= N; b /= N; c /= N; CHECK(fabs(a) < 6 / sqrt(N), "mean is out by " << a << " deviations"); CHECK(fabs(b - 1) < 6 * sqrt(2.0 / N), "variance is out by a factor of " << b); CHECK(fabs(c) < 6 * sqrt(15.0 / N), "skewness " << c);
  CHECK(fabs(in1 / (double) N - 0.6827) < 6 * sqrt(0.6827 * 0.3173 / N), in1 << " of " << N << " within a deviation of the mean"); CHECK(fabs(in2 / (double) N - 0.9545) < 6 * sqrt(0.9545 * 0.0455 / N), in2 << " of " << N << " within two deviations of the mean");
}
