#include "plan.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <set>
#include <sstream>
using sim::Rng;

std::string Plan::str() const {
  std::ostringstream o;
  o << "sim-replay 1\nproperty " << prop << "\nscenario " << scn << "\nbinary " << bin << "\nseed " << seed << "\nn " << n << "\nedges";
  for (auto& x : e) o << ' ' << x.first << '-' << x.second;
  o << "\n";
  for (auto& x : p) o << "param " << x.first << ' ' << x.second << "\n";
  if (!blob.empty()) {
    o << "blob ";
    for (unsigned char c : blob) { char b[3]; snprintf(b, 3, "%02x", c); o << b; }
    o << "\n";
  }
  o << "sched " << cfg.sched_seed << ' ' << cfg.strategy << ' ' << cfg.mean << "\nteam " << cfg.threads << ' ' << cfg.short_teams << ' ' << cfg.nonmono
    << "\nheap " << cfg.fill << ' ' << cfg.fail_at << ' ' << cfg.fail_forever << "\nclock " << cfg.clock_mode << "\nbudget " << cfg.budget
    << "\nstrict " << cfg.mem_strict << ' ' << cfg.ro_strict << "\ntraced " << has_trace << "\n";
  if (has_trace) {
    o << "preempt";
    for (auto& x : trace.preempt) o << ' ' << x.first << ':' << x.second;
    o << "\nforced";
    for (auto& x : trace.forced) o << ' ' << x.first << ':' << x.second;
    o << "\ndraws";
    for (auto& x : trace.draws) o << ' ' << x.first << ':' << x.second;
    o << "\n";
  }
  if (!expect_kind.empty()) o << "expect-kind " << expect_kind << "\nexpect-hash " << expect_hash << "\nexpect-msg " << expect_msg << "\n";
  return o.str();
}
bool Plan::parse(const std::string& text, Plan& q, std::string& err) {
  std::istringstream in(text);
  std::string line;
  bool first = true;
  q = Plan();
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (first) { if (k != "sim-replay") { err = "not a replay file"; return false; } first = false; continue; }
    auto pairs = [&](char sep, std::vector<std::pair<uint64_t, uint64_t>>& v) {
      std::string t;
      while (s >> t) { auto c = t.find(sep); v.emplace_back(strtoull(t.c_str(), 0, 10), strtoull(t.c_str() + c + 1, 0, 10)); }
    };
    std::vector<std::pair<uint64_t, uint64_t>> v;
    if (k == "property") s >> q.prop;
    else if (k == "scenario") s >> q.scn;
    else if (k == "binary") s >> q.bin;
    else if (k == "seed") s >> q.seed;
    else if (k == "n") s >> q.n;
    else if (k == "edges") { pairs('-', v); for (auto& x : v) q.e.emplace_back(x.first, x.second); }
    else if (k == "param") { std::string a; int64_t b; s >> a >> b; q.p[a] = b; }
    else if (k == "blob") { std::string h; s >> h; for (size_t i = 0; i + 1 < h.size(); i += 2) q.blob += (char)strtol(h.substr(i, 2).c_str(), 0, 16); }
    else if (k == "sched") s >> q.cfg.sched_seed >> q.cfg.strategy >> q.cfg.mean;
    else if (k == "team") s >> q.cfg.threads >> q.cfg.short_teams >> q.cfg.nonmono;
    else if (k == "heap") s >> q.cfg.fill >> q.cfg.fail_at >> q.cfg.fail_forever;
    else if (k == "clock") s >> q.cfg.clock_mode;
    else if (k == "budget") s >> q.cfg.budget;
    else if (k == "strict") s >> q.cfg.mem_strict >> q.cfg.ro_strict;
    else if (k == "traced") s >> q.has_trace;
    else if (k == "preempt") { pairs(':', v); for (auto& x : v) q.trace.preempt.emplace_back(x.first, x.second); }
    else if (k == "forced") { pairs(':', v); for (auto& x : v) q.trace.forced[x.first] = x.second; }
    else if (k == "draws") { pairs(':', v); for (auto& x : v) q.trace.draws[x.first] = x.second; }
    else if (k == "expect-kind") s >> q.expect_kind;
    else if (k == "expect-hash") s >> q.expect_hash;
    else if (k == "expect-msg") { q.expect_msg = line.size() > 11 ? line.substr(11) : ""; }
    else { err = "unknown line: " + k; return false; }
  }
  if (first) { err = "empty file"; return false; }
  if (q.n < 1 || q.n > 2000000) { err = "bad n"; return false; }
  for (auto& x : q.e) if (x.first < 0 || x.first >= x.second || x.second >= q.n) { err = "bad edge"; return false; }
  return true;
}

// ------------------------------------------------------------------ graph families
static const int NFAM = 18;
int family_count() { return NFAM; }
typedef std::vector<std::pair<int, int>> Edges;

static void family(Rng& r, int fam, int n, Edges& e) {
  auto add = [&](int u, int v) { if (u != v && u >= 0 && v >= 0 && u < n && v < n) e.emplace_back(std::min(u, v), std::max(u, v)); };
  switch (fam) {
    case 0: {  // random sparse
      int64_t m = (int64_t)(n * (0.3 + 3 * r.unit()));
      for (int64_t i = 0; i < m && n > 1; i++) add(r.below(n), r.below(n));
      break;
    }
    case 1:  // chain
      for (int i = 0; i + 1 < n; i++) add(i, i + 1);
      break;
    case 2: {  // several chains, interleaved
      int k = 1 + r.below(std::max(1, n / 2));
      for (int i = 0; i + k < n; i++) add(i, i + k);
      break;
    }
    case 3: break;  // no edges
    case 4:  // random tree (parent larger)
      for (int i = 0; i + 1 < n; i++) add(i, i + 1 + r.below(n - i - 1));
      break;
    case 5:  // forest, deep-ish
      for (int i = 0; i + 1 < n; i++) if (!r.chance(1, 8)) add(i, i + 1 + r.below(std::min(n - i - 1, 4)));
      break;
    case 6: {  // grid
      int w = 1 + r.below(std::max(1, (int)(n / 2)));
      for (int i = 0; i < n; i++) { if ((i + 1) % w) add(i, i + 1); add(i, i + w); }
      break;
    }
    case 7:  // arrow: everything feeds the last, or first feeds everything
      if (r.chance(1, 2)) for (int i = 0; i + 1 < n; i++) add(i, n - 1);
      else for (int i = 1; i < n; i++) add(0, i);
      break;
    case 8: {  // diamonds in a row
      int i = 0;
      while (i + 3 < n) { int w = 1 + r.below(std::min(5, n - i - 2)); for (int k = 1; k <= w; k++) { add(i, i + k); add(i + k, i + w + 1); } i += w + 1; }
      break;
    }
    case 9: {  // layered, random width
      int i = 0, w = 1 + r.below(8);
      while (i + w < n) { int w2 = 1 + r.below(8); for (int a = 0; a < w; a++) for (int b = 0; b < w2; b++) if (r.chance(1, 2)) add(i + a, i + w + b); i += w; w = w2; }
      break;
    }
    case 10: {  // dense (bounded)
      int d = 2 + r.below(std::min(n, 40));
      for (int i = 0; i < n; i++) for (int j = i + 1; j < n && j < i + d; j++) if (!r.chance(1, 4)) add(i, j);
      break;
    }
    case 11: {  // banded full
      int d = 1 + r.below(5);
      for (int i = 0; i < n; i++) for (int j = 1; j <= d; j++) add(i, i + j);
      break;
    }
    case 12: {  // filled: random tree then chordal fill (Cholesky-like)
      std::vector<std::set<int>> col(n);
      int64_t m = (int64_t)(n * (0.5 + r.unit()));
      for (int64_t i = 0; i < m && n > 1; i++) { int a = r.below(n), b = r.below(n); if (a != b) col[std::min(a, b)].insert(std::max(a, b)); }
      size_t tot = 0;
      for (int j = 0; j < n; j++) {
        if (col[j].empty()) continue;
        int par = *col[j].begin();
        for (int x : col[j]) { if (x != par && tot < 6000) { col[par].insert(x); } add(j, x); tot++; }
      }
      break;
    }
    case 13: {  // cliques joined in a line (supernode-like)
      int i = 0;
      while (i < n) { int w = std::min(n - i, 1 + (int)r.below(6)); for (int a = 0; a < w; a++) for (int b = a + 1; b < w; b++) add(i + a, i + b); if (i) add(i - 1 - (int)r.below(std::min(i, 3)), i + r.below(w)); i += w; }
      break;
    }
    case 14: {  // comb: a chain with leaves hanging off
      int h = (n + 1) / 2;
      for (int i = h; i + 1 < n; i++) add(i, i + 1);
      for (int i = 0; i < h; i++) add(i, std::min(n - 1, h + (int)r.below(n - h ? n - h : 1)));
      break;
    }
    case 15: {  // wide then a long tail (last levels of width 1)
      int t = 1 + r.below(std::max(1, n / 2));
      for (int i = n - t; i + 1 < n; i++) add(i, i + 1);
      for (int i = 0; i < n - t; i++) { if (r.chance(2, 3)) add(i, n - t); if (i && r.chance(1, 2)) add(r.below(i), i); }
      break;
    }
    case 16: {  // two halves merging late (components that collapse)
      int h = n / 2;
      for (int i = 0; i + 1 < h; i++) if (r.chance(3, 4)) add(i, i + 1 + r.below(std::min(2, h - i - 1)));
      for (int i = h; i + 1 < n; i++) if (r.chance(3, 4)) add(i, i + 1 + r.below(std::min(2, n - i - 1)));
      if (n > 2) add(r.below(h ? h : 1), n - 1);
      break;
    }
    case 17: {  // butterfly / many-to-many label merging
      int k = 1 + r.below(std::max(1, n / 3));
      for (int i = 0; i < n; i++) { int j = (i + k) % n; add(i, j); if (r.chance(1, 3)) add(i, n - 1 - i); }
      break;
    }
  }
}

void gen_graph(Rng& r, Plan& p, int maxn, int fam) {
  int n;
  int c = r.below(20);
  if (c < 8) n = 1 + r.below(12);
  else if (c < 14) n = 8 + r.below(33);
  else if (c < 19) n = 30 + r.below(91);
  else n = 100 + r.below(300);
  if (c == 19 && r.chance(1, 2)) n = 1 + r.below(3);
  if (maxn > 60000) n = 65530 + r.below(maxn - 65530);  // indices beyond 16 bits
  else if (maxn > 1000) n = 400 + r.below(maxn - 400);  // a large one was asked for
  else if (n > maxn) n = 1 + r.below(maxn);
  Edges e;
  if (fam < 0) fam = r.below(NFAM + 2);
  static const int thin[] = {3, 4, 4, 7, 0};
  if (maxn > 60000) fam = thin[r.below(p.get("thin") ? 3 : 5)];
  if (maxn > 60000 && p.get("shallow")) fam = NFAM + 2;
  p.p["family"] = fam;
  if (fam < NFAM) family(r, fam, n, e);
  else if (fam == NFAM + 2) {  // few wavefronts, most vertices in one of them, many components
    int L = 1 + r.below(4), at = 0;
    std::vector<int> first;
    for (int l = 0; l < L; l++) {
      first.push_back(at);
      at = l + 1 == L ? n : std::min(n - (L - l - 1), at + 1 + (int)(r.chance(1, 2) ? r.below(200) : r.below(n - at)));
    }
    first.push_back(n);
    for (int l = 1; l < L; l++)
      for (int v = first[l]; v < first[l + 1]; v++) {
        int w = first[l] - first[l - 1];
        e.emplace_back(first[l - 1] + (w == 1 ? 0 : (v - first[l]) % w), v);
        if (r.chance(1, 50)) e.emplace_back(r.below(first[l]), v);
      }
  }
  else if (fam == NFAM) {  // disjoint union of families
    int at = 0;
    while (at < n) {
      int m = 1 + r.below(n - at);
      Edges s;
      family(r, r.below(NFAM), m, s);
      for (auto& x : s) e.emplace_back(x.first + at, x.second + at);
      at += m;
    }
  } else {  // overlay of two families
    family(r, r.below(NFAM), n, e);
    family(r, r.below(NFAM), n, e);
  }
  // relabel by a random topological order so that wavefronts are not contiguous
  if (r.chance(2, 3)) {
    std::vector<int> indeg(n, 0), lab(n);
    std::vector<std::vector<int>> out(n);
    for (auto& x : e) { out[x.first].push_back(x.second); indeg[x.second]++; }
    std::vector<int> ready;
    for (int i = 0; i < n; i++) if (!indeg[i]) ready.push_back(i);
    int k = 0, mode = r.below(3);
    while (!ready.empty()) {
      size_t i = mode == 0 ? r.below(ready.size()) : mode == 1 ? ready.size() - 1 : 0;
      int v = ready[i];
      ready.erase(ready.begin() + i);
      lab[v] = k++;
      for (int w : out[v]) if (--indeg[w] == 0) ready.push_back(w);
    }
    for (auto& x : e) { x.first = lab[x.first]; x.second = lab[x.second]; }
  }
  std::sort(e.begin(), e.end());
  e.erase(std::unique(e.begin(), e.end()), e.end());
  size_t cap = maxn > 60000 ? 300000 : 12000;
  if (e.size() > cap) { for (size_t i = e.size() - 1; i > 0; i--) std::swap(e[i], e[r.below(i + 1)]); e.resize(cap); std::sort(e.begin(), e.end()); }
  p.n = n;
  p.e = e;
}

void gen_sched(Rng& r, Plan& p, int maxthreads) {
  p.cfg.sched_seed = r.next() >> 1;
  int s = r.below(10);
  p.cfg.strategy = s < 4 ? sim::S_RANDOM : s < 6 ? sim::S_PCT : s < 8 ? sim::S_STALL : s < 9 ? sim::S_RTC : sim::S_RR;
  switch (p.cfg.strategy) {
    case sim::S_RANDOM: case sim::S_STALL: { static const int m[] = {1, 2, 4, 10, 30, 100, 1000}; p.cfg.mean = m[r.below(7)]; break; }
    case sim::S_PCT: p.cfg.mean = 1 + r.below(5); break;
    case sim::S_RR: { static const int m[] = {1, 3, 7, 50}; p.cfg.mean = m[r.below(4)]; break; }
    default: p.cfg.mean = 1;
  }
  int c = r.below(10);
  p.cfg.threads = c == 0 ? 1 : c < 5 ? 2 + r.below(2) : 1 + r.below(maxthreads);
  if (c == 9 && r.chance(1, 8)) p.cfg.threads = 1 + r.below(60);  // a big machine
  p.cfg.short_teams = r.chance(1, 4);
  p.cfg.nonmono = r.chance(1, 3);
  p.cfg.fill = r.below(4);
}
