// C13 - music: which rows match, how often, and what they score
#include "lib.h"
#include "wild.h"
#include <ringing/music.h>
using namespace lib; using namespace model; using namespace pbt;
using model::perm; using ringing::music; using ringing::music_details; using ringing::row_wildcard;
using ringing::eHandstroke; using ringing::eBackstroke; using ringing::eBoth;

static vector<perm> gen_rows(Src& s, int n, vector<wild::pat> const& ps, size_t max_rows) {
  vector<perm> v; size_t k = s.range(1, max_rows);
  while (v.size() < k) {
    if (!ps.empty() && s.chance(2,3)) { // a row made to fit a pattern, if it can be
      wild::pat const& p = s.pick(ps); perm r(n, -1); vector<bool> used(n); int j = 0, rest = 0; for (auto const& i : p) rest += !i.star; bool ok = true;
      int slack = std::max(0, n - rest); vector<int> slots; for (auto const& i : p) { if (i.star) { int t = s.below(slack + 1); slack -= t; j += t; continue; } if (j >= n) break; if (!i.any && !i.set.empty()) { vector<int> c; for (int b : i.set) if (!used[b]) c.push_back(b); if (c.empty()) ok = false; else { r[j] = s.pick(c); used[r[j]] = true; } } ++j; }
      vector<int> left; for (int b=0; b<n; ++b) if (!used[b]) left.push_back(b); for (size_t a=0; a+1<left.size(); ++a) std::swap(left[a], left[a + s.below(left.size()-a)]);
      size_t l = 0; for (int& x : r) if (x < 0) x = left[l++]; (void) ok; v.push_back(r);
    } else { perm r = gen_perm(s, n); if (s.chance(1,4)) { r = rounds(n); if (s.coin()) std::reverse(r.begin(), r.end()); for (int t = s.below(3); t > 0; --t) { int a = s.below(n), b = s.below(n); std::swap(r[a], r[b]); } } v.push_back(r); }
  }
  return v;
}

SUB(matches, 30000, 600000, "lists of up to 6 patterns on 1 to 14 bells with scores for each stroke, added in all ways, before or after the number of bells is known, and rows many of which are made to fit: count of each pattern, totals, bells on wildcards, after each row and after a whole list; non-trivial if some pattern with a star matches some rows only") {
  int n = s.range(1, 14); vector<wild::pat> ps; int k = s.below(7); vector<int> sh, sb; string d;
  for (int i=0; i<k; ++i) { ps.push_back(wild::gen(s, n)); sh.push_back(s.range(-5, 9)); sb.push_back(s.coin() ? sh[i] : s.range(-5, 9)); }
  music mu(s.coin() ? n : 0); bool late = mu.bells() == 0; vector<string> ts;
  for (int i=0; i<k; ++i) { ts.push_back(wild::text(ps[i], &s)); d += str() << " " << sh[i] << "," << sb[i] << ":" << ts[i]; }
  vector<perm> rows = gen_rows(s, n, ps, 12); string dr; for (auto& r : rows) dr += " " + text(r); s.note(str() << n << " bells:" << d << " on" << dr); s.label(late ? "bells set late" : "bells known");
  auto md = [&](int i) { music_details m(ts[i], sh[i], sb[i]); if (sh[i] == sb[i] && s.coin()) { m = music_details("1", 3); m.set(ts[i], sh[i]); } else if (s.coin()) m.set(ts[i], sh[i], sb[i]); return m; };
  if (s.chance(1,8)) { mu.push_back(music_details("*", 2)); mu.process_row(row(n)); if (s.coin() && !late) mu.clear(); else { mu.clear(n); late = false; } CHECK_EQ(mu.size(), 0u, "patterns after clear"); s.label("cleared"); }
  int i = 0; while (i < k) { switch (s.below(4)) { case 0: mu.push_back(md(i++)); break; case 1: mu.append(md(i++)); break;
    case 2: { vector<music_details> v; int c = s.range(1, k-i); while (c--) v.push_back(md(i++)); mu.append(v.begin(), v.end()); break; } default: { music o(n); int c = s.range(1, k-i); while (c--) o.push_back(md(i++)); mu.append(o); } } }
  if (late) { if (s.chance(1,4)) mu.set_bells(n + s.below(3)); mu.set_bells(n); } if (s.chance(1,8)) { music o(mu); mu = music(3); mu = o; s.label("copied"); }
  CHECK_EQ((int) mu.size(), k, "number of patterns"); CHECK_EQ((int) mu.bells(), n, "bells"); CHECK_EQ(mu.get_count(), 0u, "count to begin with");
  vector<int> h(k), b(k); bool back = s.coin(), back0 = back, nt = false;
  auto check = [&](string const& when) { int ch = 0, cb = 0, th = 0, tb = 0; auto it = mu.begin(); for (int i=0; i<k; ++i, ++it) {
      CHECK_EQ((int) it->count(eHandstroke), h[i], "handstroke count of " << ts[i] << when); CHECK_EQ((int) it->count(eBackstroke), b[i], "backstroke count of " << ts[i] << when); CHECK_EQ((int) it->count(), h[i] + b[i], "count of " << ts[i] << when);
      CHECK_EQ(it->total(eHandstroke), h[i]*sh[i], "handstroke score of " << ts[i] << when); CHECK_EQ(it->total(eBackstroke), b[i]*sb[i], "backstroke score" << when); CHECK_EQ(it->total(), h[i]*sh[i] + b[i]*sb[i], "score" << when); CHECK_EQ(it->get(), ts[i], "pattern");
      ch += h[i]; cb += b[i]; th += h[i]*sh[i]; tb += b[i]*sb[i]; }
    CHECK_EQ((int) mu.get_count(), ch + cb, "total count" << when); CHECK_EQ((int) mu.get_count(eHandstroke), ch, "handstrokes" << when); CHECK_EQ((int) mu.get_count(eBackstroke), cb, "backstrokes" << when);
    CHECK_EQ(mu.get_score(), th + tb, "total score" << when); CHECK_EQ(mu.get_score(eHandstroke), th, "handstroke score" << when); CHECK_EQ(mu.get_score(eBackstroke), tb, "backstroke score" << when); };
  for (auto const& r : rows) { bool any = false; vector<std::set<vector<int>>> w; for (int i=0; i<k; ++i) { w.push_back(wild::matches(ps[i], r)); if (!w[i].empty()) { any = true; ++(back ? b : h)[i]; } }
    CHECK_EQ(mu.process_row(to_row(r), back), any, "whether " << text(r) << " matches anything"); auto it = mu.begin();
    for (int i=0; i<k; ++i, ++it) { vector<int> got; for (bell x : it->last_wildcard_matches()) got.push_back(x); if (w[i].empty()) { CHECK(got.empty(), "wildcards of " << ts[i] << ", which does not match " << text(r)); } else CHECK(w[i].count(got), "bells on the wildcards of " << ts[i] << " in " << text(r) << ": " << text(got)); }
    check(" after " + text(r)); back = !back; }
  for (int i=0; i<k; ++i) nt |= wild::has_star(ps[i]) && h[i] + b[i] && h[i] + b[i] < (int) rows.size(); s.nontrivial(nt);
  vector<row> rr; for (auto& r : rows) rr.push_back(to_row(r)); if (s.coin()) { mu.process_rows(rr.begin(), rr.end(), back0); check(" after the whole list"); }
  if (n <= 7) { int want = 0; auto it = mu.begin(); for (int i=0; i<k; ++i, ++it) { int c = 0; perm r = rounds(n); if (n <= 5) { do c += wild::matches_one(ps[i], r); while (std::next_permutation(r.begin(), r.end())); CHECK_EQ((int) it->possible_matches(n), c, "possible matches of " << ts[i]); } else c = it->possible_matches(n); CHECK_EQ(it->possible_score(n), c * std::max(sh[i], sb[i]), "possible score"); want += c * std::max(sh[i], sb[i]); } CHECK_EQ(mu.get_possible_score(), want, "total possible score"); }
  mu.reset_music(); h.assign(k, 0); b.assign(k, 0); check(" after a reset");
}

static int runs(perm const& r, int len, int from, int to) { int c = 0; for (int i=from; i+len<=to; ++i) { bool u = true, d = true; for (int j=1; j<len; ++j) { u &= r[i+j] == r[i] + j; d &= r[i+j] == r[i] - j; } c += u + d; } return c; }

SUB(named, 32000, 320000, "named music on 3 to 20 bells with a score in each documented form, and rows with runs, roll-ups and the named rows: the score of each row against the definition of the name; non-trivial if some row scores") {
  int n = s.range(3, 20); int what = s.below(9); string name; int len = s.range(3, n);
  switch (what) { case 0: name = "rounds"; break; case 1: name = "queens"; break; case 2: name = "kings"; break; case 3: name = "tittums"; break; case 4: name = "reverse-rounds"; break; case 5: name = "CRUs"; break;
    case 6: name = str() << "front-" << len << "-runs"; break; case 7: name = str() << "back-" << len << "-runs"; break; default: name = str() << len << "-runs"; }
  int sh = 1, sb = 1; string pre; auto num = [&](int v) { string t = str() << v; if (v >= 0 && s.chance(1,4)) t = "+" + t; return t; };
  switch (s.below(3)) { case 0: sh = sb = s.range(-20, 120); pre = num(sh) + ":"; break; case 1: sh = s.range(-20, 120); sb = s.range(-20, 120); pre = num(sh) + "," + num(sb) + ":"; break; default: ; }
  music mu(n); int add = s.below(3); if (add == 0) { mu.add_named_music(name, sh, sb); } else if (add == 1 && sh == sb) mu.add_named_music(name, sh); else mu.add_scored_music_string(pre + "<" + name + ">");
  s.label(name.find("runs") == string::npos ? name : what == 6 ? "front runs" : what == 7 ? "back runs" : "runs"); s.note(str() << n << " bells: " << pre << name);
  for (int t=0; t<12; ++t) {
    perm r = rounds(n); vector<int> odd, even; for (int i=0; i<n; ++i) (i % 2 ? even : odd).push_back(i);
    perm queens(odd); queens.insert(queens.end(), even.begin(), even.end()); perm kings(odd.rbegin(), odd.rend()); kings.insert(kings.end(), even.begin(), even.end()); perm tit; for (int i=0; i<(n+1)/2; ++i) { tit.push_back(i); if ((n+1)/2 + i < n) tit.push_back((n+1)/2 + i); } perm rev(r.rbegin(), r.rend());
    int kind = s.below(7); switch (kind) { case 0: r = s.coin() ? r : rev; break; case 1: r = s.pick(vector<perm>{ queens, kings, tit }); break;
      case 2: { r = gen_perm(s, n); for (int i=n-1; i>5; --i) { auto p = std::find(r.begin(), r.end(), i); std::swap(*p, r[i]); } if (n > 5 && s.coin()) for (int i=5; i>3; --i) { int b = s.range(3, 5); auto p = std::find(r.begin(), r.begin() + 6, b); std::swap(*p, r[i]); } break; }
      case 3: { perm q = s.coin() ? r : rev; int a = s.below(n), l = s.range(1, n - a); perm run(q.begin()+a, q.begin()+a+l), rest(q.begin(), q.begin()+a); rest.insert(rest.end(), q.begin()+a+l, q.end()); for (size_t x=0; x+1<rest.size(); ++x) std::swap(rest[x], rest[x + s.below(rest.size()-x)]); int at = s.pick(vector<int>{ 0, (int) rest.size(), (int) s.below(rest.size()+1) }); rest.insert(rest.begin() + at, run.begin(), run.end()); r = rest; break; }
      case 4: { int a = s.below(n), b = s.below(n); std::swap(r[a], r[b]); break; } case 5: { int a = s.below(n); std::rotate(r.begin(), r.begin()+a, r.end()); break; } default: r = gen_perm(s, n); }
    int want = 0; switch (what) { case 0: want = r == rounds(n); break; case 1: want = r == queens; break; case 2: want = r == kings; break; case 3: want = r == tit; break; case 4: want = r == rev; break;
      case 5: if (n >= 6) { want = 1; for (int i=6; i<n; ++i) want &= r[i] == i; int at = n - (n - 6) - 2; for (int i=at; i<at+2; ++i) want &= r[i] >= 3 && r[i] <= 5; } break;
      case 6: want = runs(r, len, 0, len); break; case 7: want = runs(r, len, n-len, n); break; default: want = runs(r, len, 0, n); }
    bool back = s.coin(); mu.reset_music(); CHECK_EQ(mu.process_row(to_row(r), back), want > 0, text(r)); CHECK_EQ((int) mu.get_count(), want, text(r)); CHECK_EQ(mu.get_score(), want * (back ? sb : sh), text(r)); s.nontrivial(want > 0);
  }
}

SUB(scored, 32000, 320000, "texts with an optional score for each stroke and a pattern, and texts that are nearly so: accepted with the documented meaning, or refused with an exception; non-trivial if accepted with a score") {
  int n = s.range(3, 12); wild::pat p = wild::gen(s, n); string t = wild::text(p, &s), full; int sh = 1, sb = 1; bool ok = true; music mu(n); auto num = [&](int v) { string u = str() << v; if (v >= 0 && s.chance(1,4)) u = "+" + u; return u; };
  int how = s.below(6); switch (how) { case 0: full = t; break; case 1: case 2: sh = sb = s.range(-300, 300); full = num(sh) + ":" + t; break; case 3: case 4: sh = s.range(-300, 300); sb = s.range(-300, 300); full = num(sh) + "," + num(sb) + ":" + t; break;
    default: ok = false; full = s.pick(vector<string>{ "1,2,3:" + t, "<nothing>", "<2-runs>", str() << "<" << n+1 << "-runs>", "<x-runs>", "<front-runs>", "<4-runsx>", "3:<Queens>", "5;" + t, "1:2:" + t, ":" + t }); }
  s.note(str() << n << " bells: " << full); if (full.size() <= 2 && how) s.discard(); bool threw = false; s.nontrivial(ok && how); s.label(str() << how);
  try { mu.add_scored_music_string(full); } catch (std::exception const&) { threw = true; }
  CHECK_EQ(threw, !ok, "refused"); if (threw) return; CHECK_EQ(mu.size(), 1u, "patterns"); CHECK_EQ(mu.begin()->get(), t, "pattern");
  perm r = gen_perm(s, n); vector<wild::pat> ps(1, p); r = gen_rows(s, n, ps, 1)[0]; bool m = wild::matches_one(p, r); mu.process_row(to_row(r), false); CHECK_EQ(mu.get_score(), m ? sh : 0, "handstroke score of " << text(r)); mu.reset_music(); mu.process_row(to_row(r), true); CHECK_EQ(mu.get_score(), m ? sb : 0, "backstroke score of " << text(r));
}
