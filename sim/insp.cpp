// The inspectors of the library wrapped for simulated runs: inputs built once (read-only, in the
// simulated heap), the call under test, the oracle.
#include "harness.h"
#include <functional>
#include "aggregation/def.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"

bool g_fix_large = false;
std::string describe_diff(const Out& a, const Out& b) {
  if (a.has_sched != b.has_sched) return "schedule missing";
  if (a.has_sched && !same_sched(a.s, b.s)) return F("schedules differ (%d levels, %zu partitions / %d levels, %zu partitions)", a.s.levels, a.s.pp.size() - 1, b.s.levels, b.s.pp.size() - 1);
  if (a.a.size() != b.a.size()) return "different number of outputs";
  for (size_t i = 0; i < a.a.size(); i++)
    if (a.a[i] != b.a[i]) {
      size_t k = 0;
      while (k < a.a[i].size() && k < b.a[i].size() && a.a[i][k] == b.a[i][k]) k++;
      return F("output array %zu differs at %zu (sizes %zu, %zu)", i, k, a.a[i].size(), b.a[i].size());
    }
  return "cost values differ";
}
void read_ok(const void* p, size_t bytes, const char* what) {
  REQ(p != nullptr || bytes == 0, "output-missing", "%s was not allocated", what);
  if (!bytes) return;
  // an application reads these entries with ordinary loads; sim::mem_read raises the memory violation
  Api a;
  sim::mem_read(p, bytes);
}

namespace {
using namespace sym_lib;

struct Base : Insp {
  Plan p;
  Graph g;
  bool exec;
  Base(const Plan& q) : p(q), g(make_graph(q)), exec(q.get("exec", 1)) {}
  void check_sched(const Out& o) {
    check_schedule(g, o.s);
    hash_schedule(o.s);
    if (exec) execute_schedule(p, g, o.s);
  }
  void check(const Out& o) override { check_sched(o); }
  Out take(int levels, const int* lp, const int* pp, const int* np) {
    Out o;
    o.has_sched = true;
    REQ(levels >= 0 && levels <= g.n + 1, "schedule-shape", "number of levels %d for %d vertices", levels, g.n);
    read_ok(lp, (levels + 1) * sizeof(int), "level pointer");
    int parts = lp[levels];
    REQ(parts >= 0 && parts <= 3 * g.n + 8, "schedule-shape", "number of partitions %d for %d vertices", parts, g.n);
    read_ok(pp, (parts + 1) * sizeof(int), "partition pointer");
    int tot = pp[parts];
    REQ(tot >= 0 && tot <= g.n, tot > g.n ? "vertex-twice" : "schedule-shape", "%d scheduled entries for %d vertices", tot, g.n);
    read_ok(np, tot * sizeof(int), "node array");
    o.s = take_schedule(g.n, levels, lp, pp, np);
    { Api a; delete[] lp; delete[] pp; delete[] np; }
    return o;
  }
};

// How evenly each level shares out its work. Vertices joined by dependences inside a level cannot be
// separated, so its connected components are what there is to hand out.
// LBC packs them with the next one always going to the lightest part: no part is heavier than another by more
// than one component. HDagg cuts the row of components into chunks of the average still to be handed out: no
// chunk exceeds the average by more than one component.
enum BalKind { B_DAG, B_OTHER, B_HDAGG };
void check_balance(const Graph& g, const double* cost, const SchedCopy& s, int asked, BalKind kind) {
  int n = g.n;
  VI at(n, -1), par(n), d = depth_levels(g), width(n + 1, 0);
  for (int v = 0; v < n; v++) { par[v] = v; width[d[v]]++; }
  auto fd = [&](int v) { while (par[v] != v) v = par[v] = par[par[v]]; return v; };
  for (int l = 0; l < s.levels; l++) for (int k = s.lp[l]; k < s.lp[l + 1]; k++) for (int i = s.pp[k]; i < s.pp[k + 1]; i++) at[s.np[i]] = l;
  for (int v = 0; v < n; v++) for (int u : g.in[v]) if (at[u] == at[v]) par[fd(u)] = fd(v);
  std::vector<double> comp(n, 0);
  for (int v = 0; v < n; v++) comp[fd(v)] += cost[v];
  int most = kind == B_DAG && asked == 1 ? 6 : asked;
  if (kind == B_HDAGG) {
    // chains of equal work, as many for every core: one level
    bool even = width[0] % asked == 0;
    for (int v = 0; v < n && even; v++) even = cost[v] == cost[0] && cost[v] >= 1 && cost[v] == std::floor(cost[v]) && cost[v] < 1e9 && g.in[v].size() <= 1 && g.out[v].size() <= 1;
    for (int l = 1; l < n && width[l] && even; l++) even = width[l] == width[0];
    REQ(!even || s.levels == 1, "not-merged", "%d chains of equal work on %d cores became %d levels", width[0], asked, s.levels);
  }
  for (int l = 0; l < s.levels; l++) {
    int w = s.lp[l + 1] - s.lp[l], comps = 0, deep = 0;
    double hi = 0, lo = 0, total = 0, big = 0;
    int shallow = n, busy = 0;
    double ent = 0;
    std::vector<double> sizes;
    for (int k = s.lp[l]; k < s.lp[l + 1]; k++) {
      double c = 0;
      for (int i = s.pp[k]; i < s.pp[k + 1]; i++) {
        int v = s.np[i];
        c += cost[v];
        if (fd(v) == v) { comps++; big = std::max(big, comp[v]); sizes.push_back(comp[v]); }
        deep = std::max(deep, d[v]);
        shallow = std::min(shallow, d[v]);
      }
      if (c > 0) { busy++; ent += c * std::log2(c); }
      if (k == s.lp[l] || c < lo) lo = c;
      hi = std::max(hi, c);
      total += c;
    }
    double eps = 1e-9 * total + 1e-300;
    REQ(w <= most, "too-wide", "level %d has %d partitions, %d were asked for", l, w, most);
    if (kind == B_HDAGG) {
      REQ(hi <= total / asked + big + eps, "unbalanced", "level %d has work %g for %d cores and a largest component of %g, but one partition has %g", l, total, asked, big, hi);
      double h = 0;
      for (int k = 1; k < asked; k++) h += 1.0 / k;
      if (comps >= asked) REQ((w < asked ? 0 : lo) >= total / asked - big * h - eps, "unbalanced", "level %d has work %g for %d cores and a largest component of %g, but the lightest of %d partitions has %g", l, total, asked, big, w, lo);
      // several wavefronts were merged because their partitions are about even: how far from even, in bits
      double off = busy ? std::log2((double)busy) - (std::log2(total) - ent / total) : 0;
      REQ(deep == shallow || off < 0.0035, "merged-uneven", "level %d merges %d wavefronts into %d partitions of uneven work (%g bits from even)", l, deep - shallow + 1, busy, off);
    } else {
      // what handing the components out heaviest first, each to the lightest partition, gives
      std::sort(sizes.begin(), sizes.end(), std::greater<double>());
      std::multiset<double> bins;
      for (int k = 0; k < w; k++) bins.insert(0);
      for (double c : sizes) { double b = *bins.begin(); bins.erase(bins.begin()); bins.insert(b + c); }
      REQ(hi <= *bins.rbegin() + eps, "unbalanced", "the heaviest partition of level %d has %g work, handing out the heaviest components first gives at most %g", l, hi, *bins.rbegin());
      REQ(hi - lo <= big + eps, "unbalanced", "the partitions of level %d have between %g and %g work, the largest component has %g", l, lo, hi, big);
    }
    if (kind == B_DAG && l + 1 < s.levels && comps >= most && width[deep] >= 2 * most)
      REQ(w == most, "too-narrow", "level %d has %d components and ends in a wavefront of %d, but only %d partitions where %d were asked for", l, comps, width[deep], w, most);
  }
}

// results handed to the caller
template <class... T> void rel(T*... p) { Api a; (void)std::initializer_list<int>{(delete[] p, 0)...}; }
// ------------------------------------------------------------------------------------ LBC
void gen_lbc(Rng& r, Plan& p) {
  p.p["innerParts"] = r.chance(1, 10) ? r.logu(p.n + 4) : 1 + r.below(8);
  int m = r.below(8);
  p.p["minLevelDist"] = m == 0 ? -1 : m == 1 ? 0 : m == 2 ? (int)r.logu(p.n + 2) : 1 + r.below(5);
  m = r.below(6);
  p.p["divRate"] = m == 0 ? 4000 : m == 1 ? (int)r.logu(p.n + 2) : 1 + r.below(6);
  p.p["bp"] = r.below(2);
  p.p["nt"] = r.chance(1, 8) ? -1 : r.chance(1, 30) ? 1 + r.below(60) : 1 + r.below(6);  // -1 asks for the default number of threads
  gen_cost(r, p);
}
struct Lbc : Base {
  double* cost;
  int ip, md, dr;
  Lbc(const Plan& q) : Base(q) {
    cost = acopy(make_cost(p, g));
    ip = p.get("innerParts", 2, 1, 1 << 20);
    md = p.get("minLevelDist", 2, -1, 1 << 20);
    dr = p.get("divRate", 2, 1, 1 << 20);
    if (md + dr < 1) dr = 1 - md;
  }
};
struct LbcCsc : Lbc {
  using Lbc::Lbc;
  void balance(const Out& o) override { if (p.get("bp", 1)) check_balance(g, cost, o.s, ip, B_DAG); }
  Out run() override {
    int ln = -1, pn = -1, *lp = 0, *pp = 0, *np = 0;
    { Api a; get_coarse_levelSet_DAG_CSC(g.n, g.lC, g.lR, ln, lp, pn, pp, np, ip, md, dr, cost, p.get("bp", 1)); }
    return take(ln, lp, pp, np);
  }
};
struct Csc03 : Lbc {
  using Lbc::Lbc;
  void balance(const Out& o) override { check_balance(g, cost, o.s, ip, B_DAG); }
  Out run() override {
    int ln = -1, pn = -1, *lp = 0, *pp = 0, *np = 0;
    { Api a; get_coarse_Level_set_DAG_CSC03(g.n, g.lC, g.lR, ln, lp, pn, pp, np, ip, md, dr, cost); }
    return take(ln, lp, pp, np);
  }
};
void gen_lbc_par(Rng& r, Plan& p) { gen_lbc(r, p); p.p["large"] = r.chance(1, 2) ? -1 : (int)r.logu(p.n + 2) - 1; }
struct Csc03Par : Lbc {
  using Lbc::Lbc;
  void balance(const Out& o) override { if (p.get("bp", 1)) check_balance(g, cost, o.s, ip, B_DAG); }
  Out run() override {
    if (!g_fix_large) sym_sim_large_partition = p.get("large", -1) < 0 ? 250000 : p.get("large");
    int ln = -1, pn = -1, *lp = 0, *pp = 0, *np = 0;
    { Api a; get_coarse_Level_set_DAG_CSC03_parallel(g.n, g.lC, g.lR, ln, lp, pn, pp, np, ip, md, dr, cost, p.get("nt", 2, -1, 80) ? p.get("nt", 2, -1, 80) : 1, p.get("bp", 1)); }
    return take(ln, lp, pp, np);
  }
  void check(const Out& o) override {
    check_sched(o);
    // the same cuts as the sequential construction: each vertex in the same level
    int ln = -1, pn = -1, *lp = 0, *pp = 0, *np = 0;
    { Api a; get_coarse_Level_set_DAG_CSC03(g.n, g.lC, g.lR, ln, lp, pn, pp, np, ip, md, dr, cost); }
    Out q = take(ln, lp, pp, np);
    REQ(ln == o.s.levels, "cut-differs", "%d levels, the sequential construction has %d", o.s.levels, ln);
    VI l1(g.n), l2(g.n), p1(g.n);
    for (int l = 0; l < ln; l++) {
      for (int k = o.s.lp[l]; k < o.s.lp[l + 1]; k++) for (int i = o.s.pp[k]; i < o.s.pp[k + 1]; i++) { l1[o.s.np[i]] = l; p1[o.s.np[i]] = k; }
      for (int k = q.s.lp[l]; k < q.s.lp[l + 1]; k++) for (int i = q.s.pp[k]; i < q.s.pp[k + 1]; i++) l2[q.s.np[i]] = l;
    }
    for (int v = 0; v < g.n; v++) {
      REQ(l1[v] == l2[v], "cut-differs", "vertex %d is in level %d, the sequential construction puts it in %d", v, l1[v], l2[v]);
      for (int u : g.in[v]) REQ(l1[u] != l1[v] || p1[u] == p1[v], "dependence-concurrent", "vertices %d and %d are joined by a dependence inside level %d but split", u, v, l1[v]);
    }
  }
};
// a forest: every vertex keeps its first dependent only
Plan to_forest(const Plan& q) {
  Plan t = q;
  t.e.clear();
  VI par(q.n, -1);
  for (auto& x : q.e) if (par[x.first] < 0 || (x.first * 7 + x.second) % 3 == 0) par[x.first] = x.second;
  for (int v = 0; v < q.n; v++) if (par[v] >= 0) t.e.emplace_back(v, par[v]);
  return t;
}
struct LbcTree : Lbc {
  int* par;
  LbcTree(const Plan& q) : Lbc(to_forest(q)) {
    VI v(g.n, -1);
    for (int i = 0; i < g.n; i++) if (!g.out[i].empty()) v[i] = g.out[i][0];
    par = acopy(v);
  }
  void balance(const Out& o) override { check_balance(g, cost, o.s, ip, B_OTHER); }
  Out run() override {
    int ln = -1, pn = -1, *lp = 0, *pp = 0, *np = 0;
    { Api a; get_coarse_levelSet_tree(g.n, par, ln, lp, pn, pp, np, ip, md, dr, cost); }
    Out o = take(ln, lp, pp, np);
    REQ(pn == o.s.lp.back(), "partition-count", "reported %d partitions, the schedule has %d", pn, o.s.lp.back());
    return o;
  }
};
struct LbcCscTree : Lbc {
  using Lbc::Lbc;
  Out run() override {
    int ln = -1, pn = -1, *lp = 0, *pp = 0, *np = 0;
    int st = p.get("stype", 0, 0, 2);
    {
      Api a;
      if (st == 1) get_coarse_levelSet_DAG_CSC_tree(g.n, g.rP, g.rI, 1, ln, lp, pn, pp, np, ip, md, dr, cost);
      else get_coarse_levelSet_DAG_CSC_tree(g.n, g.lC, g.lR, -1, ln, lp, pn, pp, np, ip, md, dr, cost);
    }
    return take(ln, lp, pp, np);
  }
};
void gen_csc_tree(Rng& r, Plan& p) { gen_lbc(r, p); p.p["stype"] = r.below(2); }

// block structure: every vertex of the graph is one block of 1..3 columns
struct Blocks {
  int nb, ncol;
  size_t *Lp, *Lip;
  int *Lr, *b2c, *c2b;
  Blocks(const Graph& g, const Plan& p) {
    nb = g.n;
    VI blk2col(nb + 1), col2blk;
    uint64_t s = p.get("bseed", 3);
    int maxw = p.get("bw", 3, 1, 4);
    blk2col[0] = 0;
    for (int i = 0; i < nb; i++) {
      int w = 1 + sim::mix(s, i) % maxw;
      for (int k = 0; k < w; k++) col2blk.push_back(i);
      blk2col[i + 1] = blk2col[i] + w;
    }
    ncol = blk2col[nb];
    std::vector<size_t> lp(ncol + 1, 0), lip(ncol + 1, 0);
    VI rows;
    size_t xpos = 0;
    for (int i = 0; i < nb; i++) {
      size_t st = rows.size();
      for (int c = blk2col[i]; c < blk2col[i + 1]; c++) rows.push_back(c);
      for (int t : g.out[i]) {
        int w = blk2col[t + 1] - blk2col[t];
        // one or several rows of the target block
        uint64_t h = sim::mix(s + 1, i * 1000003ull + t);
        int any = 0;
        for (int k = 0; k < w; k++) if ((h >> k) & 1) { rows.push_back(blk2col[t] + k); any = 1; }
        if (!any) rows.push_back(blk2col[t] + h % w);
      }
      size_t len = rows.size() - st;
      for (int c = blk2col[i]; c < blk2col[i + 1]; c++) { lip[c] = st; lp[c] = xpos; xpos += len; }
    }
    lip[ncol] = rows.size();
    lp[ncol] = xpos;
    Lp = acopy(lp); Lip = acopy(lip); Lr = acopy(rows); b2c = acopy(blk2col); c2b = acopy(col2blk);
  }
};
void gen_blocks(Rng& r, Plan& p) { p.p["bseed"] = r.below(1000); p.p["bw"] = 1 + r.below(4); }
void gen_lbc_blk(Rng& r, Plan& p) { gen_lbc(r, p); gen_blocks(r, p); }
struct LbcBcsc : Lbc {
  Blocks b;
  LbcBcsc(const Plan& q) : Lbc(q), b(g, q) {}
  void balance(const Out& o) override { check_balance(g, cost, o.s, ip, B_OTHER); }
  Out run() override {
    int ln = -1, pn = -1, *lp = 0, *pp = 0, *np = 0, *pls = 0;
    { Api a; getCoarseLevelSet_DAG_BCSC02(g.n, b.Lp, b.Lip, b.Lr, b.b2c, b.c2b, ln, lp, pls, pn, pp, np, ip, md, dr, cost); }
    rel(pls);
    return take(ln, lp, pp, np);
  }
};

// ------------------------------------------------------------------------------------ HDagg
void gen_hdagg(Rng& r, Plan& p) {
  p.p["cores"] = r.chance(1, 30) ? (r.chance(1, 3) ? 1 + r.below(300) : 1 + r.below(60)) : r.chance(1, 8) ? 1 + r.below(16) : 1 + r.below(6);
  p.p["bp"] = r.below(2);
  p.p["post"] = r.chance(1, 3);
  p.p["plevel"] = 0;
  if (r.chance(1, 3)) p.p["used"] = 1 + r.below(1000000);
  gen_cost(r, p);
}
Out take_vec(const Graph& g, int levels, const std::vector<int>& lp, const std::vector<int>& pp, const std::vector<int>& np) {
  Out o;
  o.has_sched = true;
  o.s = take_schedule(g.n, levels, lp, pp, np, false);
  return o;
}
// output vectors that still hold the result of some earlier call
void used(const Plan& p, std::initializer_list<std::vector<int>*> vs) {
  uint64_t k = p.get("used");
  if (!k) return;
  Rng r(k);
  Api a;
  for (auto* v : vs) { size_t m = r.below(2 * p.n + 3); v->reserve(m); for (size_t i = 0; i < m; i++) v->push_back(r.below(p.n + 1)); }
}
struct Hd : Base {
  std::vector<int> dp, ds;
  std::vector<double> cost;
  int cores;
  bool v2;
  Hd(const Plan& q, bool v = false) : Base(q), v2(v) {
    avec(dp, g.cp); avec(ds, g.ci); avec(cost, make_cost(p, g));
    cores = p.get("cores", 2, 1, 1000);
  }
  void balance(const Out& o) override { if (p.get("bp", 1)) check_balance(g, cost.data(), o.s, cores, B_HDAGG); }
  Out run() override {
    int ln = -1;
    std::vector<int> lp, pp, np, wm;
    used(p, {&lp, &pp, &np});
    {
      Api a;
      wm = v2 ? HDAGG::GLC_V2(g.n, dp[g.n], dp, ds, cost, cores, ln, lp, pp, np, p.get("plevel"), p.get("post"), p.get("bp", 1))
              : HDAGG::HDAGG(g.n, dp[g.n], dp, ds, cost, cores, ln, lp, pp, np, p.get("plevel"), p.get("post"), p.get("bp", 1));
    }
    return take_vec(g, ln, lp, pp, np);
  }
};
struct BuildCoarse : Base {
  using Base::Base;
  Out run() override {
    int ln = -1;
    std::vector<int> lp, pp, np;
    { Api a; HDAGG::build_coarsened_level_parallel(g.n, g.lC, g.lR, p.get("cores", 2, 1, 1000), ln, lp, pp, np); }
    return take_vec(g, ln, lp, pp, np);
  }
};

// ------------------------------------------------------------------------------------ level sets
// params: cyclic = number of extra back edges (they make the graph cyclic); one direct self edge each
struct LevelSet : Base {
  bool cyclic;
  VI cp, ci;
  int *C, *R;
  int kind, kern;
  LevelSet(const Plan& q, int k) : Base(q), kind(k), kern(k == 3 ? q.get("kern", 1, 1, 4) : 1) {
    std::vector<VI> out = g.out;
    int extra = p.get("cyclic", 0, 0, 8);
    Rng r(p.get("cycseed", 1));
    bool have_edges = g.nnz > g.n;
    cyclic = false;
    if (extra && have_edges) {
      std::vector<std::vector<bool>> rc = reach(g.n, g.out);
      for (int i = 0; i < extra * 4 && extra; i++) {
        int u = r.below(g.n), v = r.below(g.n);
        if (u == v || !rc[u][v]) continue;
        // v -> u closes a cycle
        if (std::find(out[v].begin(), out[v].end(), u) == out[v].end()) { out[v].push_back(u); cyclic = true; extra--; }
      }
    }
    cp.push_back(0);
    for (int v = 0; v < g.n; v++) {
      // usually the diagonal comes first in its column and the rows follow in order; no builder needs either
      std::sort(out[v].begin(), out[v].end());
      int at = ci.size(), ord = p.get("ord", 0, 0, 2);
      ci.push_back(v);
      for (int w : out[v]) ci.push_back(w);
      if (ord) for (int lo = at + (ord == 1), k = (int)ci.size() - 1; k > lo; k--) std::swap(ci[k], ci[lo + r.below(k - lo + 1)]);
      cp.push_back(ci.size());
    }
    C = acopy(cp); R = acopy(ci);
  }
  // several kernels one after another over the same graph: each item also waits for its turn in the one before
  Graph repeated() const {
    Graph h = g;
    int n = g.n;
    h.n = n * kern;
    h.in.resize(h.n); h.out.resize(h.n);
    for (int q = 0; q < kern; q++) for (int v = 0; v < n; v++) {
      VI &in = h.in[q * n + v], &out = h.out[q * n + v];
      in.clear(); out.clear();
      if (q) in.push_back((q - 1) * n + v);
      for (int w : g.in[v]) in.push_back(q * n + w);
      for (int w : g.out[v]) out.push_back(q * n + w);
      if (q + 1 < kern) out.push_back((q + 1) * n + v);
    }
    return h;
  }
  Out run() override {
    int n = g.n * kern, nl = -2, *lp = 0, *ls = 0, *n2l = 0;
    Out o;
    std::vector<int> LP, LS, N2L;
    switch (kind) {
      case 0: { Api a; nl = build_levelSet_CSC((size_t)n, C, R, lp, ls); break; }
      case 1: case 2: case 4:
        lp = aarr<int>(n + 1); ls = aarr<int>(n);
        lp[0] = 0;
        if (kind == 1) { Api a; nl = sym_lib::build_levelSet_CSC((size_t)n, (const int*)C, (const int*)R, lp, ls); }
        else if (kind == 2) { n2l = aarr<int>(n); Api a; nl = HDAGG::build_levelSet_CSC((size_t)n, C, R, lp, ls, n2l); }
        else { Api a; nl = buildLevelSet_CSC_Queue(n, cp[n], C, R, lp, ls); }
        break;
      case 3: { Api a; nl = level_set_multi_graphs(g.n, C, R, lp, ls, kern); break; }
      case 5: { Api a; computingLevelSet_CSC(n, C, R, LP, LS, nl); lp = LP.data(); ls = LS.data(); break; }
      }
    if (kind == 5 && nl >= 0 && p.get("n2l")) {
      REQ((int)LP.size() > nl && LP[nl] >= 0 && LP[nl] <= (int)LS.size(), "levels-wrong", "%zu level pointers, %zu vertices, %d levels", LP.size(), LS.size(), nl);
      Api a;
      HDAGG::computingNode2Level(LP, LS, nl, n, N2L);
      n2l = N2L.data();
    }
    o.a.push_back(VI(1, nl));
    if (nl < 0) { if (kind == 0 || kind == 3) rel(lp, ls); return o; }
    REQ(nl <= n, "levels-wrong", "%d levels for %d vertices", nl, n);
    read_ok(lp, (nl + 1) * 4, "level pointer");
    int tot = lp[nl];
    REQ(tot >= 0 && tot <= n, "levels-wrong", "%d entries in the level set for %d vertices", tot, n);
    read_ok(ls, tot * 4, "level set");
    o.a.push_back(VI(lp, lp + nl + 1));
    o.a.push_back(VI(ls, ls + tot));
    if (n2l) { read_ok(n2l, n * 4, "node level"); o.a.push_back(VI(n2l, n2l + n)); }
    if (kind == 0 || kind == 3) rel(lp, ls);
    return o;
  }
  void check(const Out& o) override {
    if (kern > 1) check_on(o, repeated(), false); else check_on(o, g, exec);
  }
  void check_on(const Out& o, const Graph& g, bool exec) {
    int n = g.n, nl = o.a[0][0];
    for (auto& v : o.a) for (int x : v) sim::note_hash(x);
    if (cyclic) {
      sim::probe("cyclic-input");
      if (kind == 3 || kind == 4) REQ(nl < 0 || (int)o.a[2].size() < n, "cycle-unreported", "a cyclic graph got a complete level set of %d levels", nl);
      else REQ(nl < 0, "cycle-unreported", "a cyclic graph was given %d levels", nl);
      return;
    }
    REQ(nl >= 0, "acyclic-rejected", "an acyclic graph of %d vertices (longest path %d) is reported as cyclic (%d)", n, longest_path(g), nl);
    REQ(nl == longest_path(g), "levels-wrong", "%d levels, longest path has %d vertices", nl, longest_path(g));
    SchedCopy s;
    s.levels = nl;
    // one partition per vertex: everything in a wavefront runs concurrently
    const VI &lp = o.a[1], &ls = o.a[2];
    s.pp.push_back(0);
    REQ(lp[0] == 0, "schedule-shape", "level pointer starts at %d", lp[0]);
    REQ((int)ls.size() == n, "vertex-missing", "%zu of %d vertices in the level set", ls.size(), n);
    for (int i = 0; i < nl; i++) REQ(lp[i + 1] > lp[i], "levels-wrong", "wavefront %d is empty", i);
    s.lp = lp; s.np = ls;
    for (int i = 0; i < n; i++) s.pp.push_back(i + 1);
    SchedCopy t = take_schedule(n, nl, s.lp, s.pp, s.np, false);
    check_schedule(g, t);
    VI d = depth_levels(g);
    for (int l = 0; l < nl; l++) for (int k = lp[l]; k < lp[l + 1]; k++) REQ(d[ls[k]] == l, "levels-wrong", "vertex %d is in wavefront %d, its longest incoming path has %d", ls[k], l, d[ls[k]]);
    if (o.a.size() > 3) for (int v = 0; v < n; v++) REQ(o.a[3][v] == d[v], "levels-wrong", "vertex %d reported in level %d, is in %d", v, o.a[3][v], d[v]);
    if (exec) execute_schedule(p, g, t);
  }
};
template <int K> Insp* mk_level(const Plan& p) { return new LevelSet(p, K); }
void gen_level(Rng& r, Plan& p) {
  if (r.chance(1, 3)) { p.p["cyclic"] = 1 + r.below(3); p.p["cycseed"] = r.below(100000); }
  if (r.chance(1, 2)) { p.p["kern"] = 1 + r.below(4); p.p["n2l"] = 1; }
}
struct LevelBcsc : Base {
  Blocks b;
  LevelBcsc(const Plan& q) : Base(q), b(g, q) {}
  Out run() override {
    int nl = -2, *lp = 0;
    size_t* ls = 0;
    { Api a; nl = build_levelSet_BCSC(0, 0, b.Lp, b.Lip, b.Lr, g.n, b.b2c, b.c2b, lp, ls); }
    Out o;
    o.a.push_back(VI(1, nl));
    if (nl < 0) return o;
    REQ(nl <= g.n, "levels-wrong", "%d levels for %d blocks", nl, g.n);
    read_ok(lp, (nl + 1) * 4, "level pointer");
    int tot = lp[nl];
    REQ(tot >= 0 && tot <= g.n, "levels-wrong", "%d entries in the level set for %d blocks", tot, g.n);
    read_ok(ls, tot * 8, "level set");
    o.a.push_back(VI(lp, lp + nl + 1));
    o.a.push_back(VI(ls, ls + tot));
    rel(lp, ls);
    return o;
  }
  void check(const Out& o) override {
    int n = g.n, nl = o.a[0][0];
    REQ(nl == longest_path(g), "levels-wrong", "%d levels, longest path has %d blocks", nl, longest_path(g));
    SchedCopy s;
    s.pp.push_back(0);
    for (int i = 0; i < n; i++) s.pp.push_back(i + 1);
    REQ((int)o.a[2].size() == n, "vertex-missing", "%zu of %d blocks in the level set", o.a[2].size(), n);
    SchedCopy t = take_schedule(n, nl, o.a[1], s.pp, o.a[2], false);
    check_schedule(g, t);
    hash_schedule(t);
    if (exec) execute_schedule(p, g, t);
  }
};
// level sets over supernodes of a matrix stored by columns, and of a chain of three kernels
// (solve with A, multiply by B, solve with C) with the multiplication fused into the first solve
struct LevelSuper : Base {
  bool fused;
  VI sup, col2, ap, ai, bp, bi, cpp, cii;
  std::vector<VI> ext;  // successors of item v (A: 0..n-1, C: n..2n-1)
  int *aP, *aI, *bP, *bI, *cP, *cI, *S;
  int ncol, kern;
  bool upper;
  static void columns(const std::vector<VI>& out, const VI& sup, uint64_t s, VI& p, VI& i) {
    int n = out.size();
    p.push_back(0);
    for (int v = 0; v < n; v++)
      for (int c = sup[v]; c < sup[v + 1]; c++) {
        for (int k = c; k < sup[v + 1]; k++) i.push_back(k);
        for (int t : out[v]) {
          int w = sup[t + 1] - sup[t];
          uint64_t h = sim::mix(s, v * 1000003ull + t);
          bool any = false;
          for (int k = 0; k < w; k++) if ((h >> k) & 1) { i.push_back(sup[t] + k); any = true; }
          if (!any) i.push_back(sup[t] + h % w);
        }
        p.push_back(i.size());
      }
  }
  LevelSuper(const Plan& q, bool f) : Base(q), fused(f), kern(f ? 1 : q.get("kern", 1, 1, 4)), upper(!f && q.get("upper")) {
    uint64_t s = p.get("bseed", 3);
    int maxw = p.get("bw", 3, 1, 4), n = g.n;
    sup.push_back(0);
    for (int v = 0; v < n; v++) { int w = 1 + sim::mix(s, v) % maxw; while (w--) col2.push_back(v); sup.push_back(col2.size()); }
    ncol = col2.size();
    columns(g.out, sup, s + 1, ap, ai);
    ext = g.out;
    if (fused) {
      // C has its own edges: a random half of A's
      std::vector<VI> oc(n);
      for (int v = 0; v < n; v++) for (int t : g.out[v]) if (sim::mix(s + 2, v * 1000003ull + t) & 1) oc[v].push_back(t);
      columns(oc, sup, s + 3, cpp, cii);
      // B: a full diagonal and a few entries anywhere, symmetric
      std::vector<std::set<int>> b(ncol);
      for (int c = 0; c < ncol; c++) b[c].insert(c);
      Rng r(s + 4);
      int k = r.below(2 * ncol + 1);
      while (k--) { int u = r.below(ncol), v = r.below(ncol); b[u].insert(v); b[v].insert(u); }
      bp.push_back(0);
      ext.resize(2 * n);
      for (int c = 0; c < ncol; c++) {
        std::set<int>& e = b[c];
        for (int x : e) { bi.push_back(x); int t = n + col2[x]; VI& w = ext[col2[c]]; if (std::find(w.begin(), w.end(), t) == w.end()) w.push_back(t); }
        bp.push_back(bi.size());
      }
      for (int v = 0; v < n; v++) for (int t : oc[v]) ext[n + v].push_back(n + t);
      bP = acopy(bp); bI = acopy(bi); cP = acopy(cpp); cI = acopy(cii);
    }
    if (kern > 1) {
      ext.resize(n * kern);
      for (int q = 0; q < kern; q++) for (int v = 0; v < n; v++) {
        if (q) for (int t : g.out[v]) ext[q * n + v].push_back(q * n + t);
        if (q + 1 < kern) ext[q * n + v].push_back((q + 1) * n + v);
      }
    }
    if (upper) {
      // the same graph for a backward solve: everything counted from the other end
      VI up(1, 0), ui, us;
      for (int c = ncol - 1; c >= 0; c--) { for (int k = ap[c + 1] - 1; k >= ap[c]; k--) ui.push_back(ncol - 1 - ai[k]); up.push_back(ui.size()); }
      for (int x : sup) us.push_back(ncol - 1 - x);
      aP = acopy(up); aI = acopy(ui); S = acopy(us);
      return;
    }
    aP = acopy(ap); aI = acopy(ai); S = acopy(sup);
  }
  Out run() override {
    int nl = -2, *lp = 0, *ls = 0;
    if (!fused) { Api a; nl = level_set_bn(ncol, aP, aI, lp, ls, S, g.n, kern, !upper); }
    else {
      Api a;
      CSC A(ncol, ncol, ap.back(), aP, aI, 0), B(ncol, ncol, bp.back(), bP, bI, 0), C(ncol, ncol, cpp.back(), cP, cI, 0);
      nl = bcsc_csc_bcsc_levelset(&A, &B, &C, lp, ls, g.n, S);
    }
    int N = ext.size();
    Out o;
    o.a.push_back(VI(1, nl));
    REQ(nl >= 0 && nl <= N, "levels-wrong", "%d levels for %d items", nl, N);
    read_ok(lp, (nl + 1) * 4, "level pointer");
    o.a.push_back(VI(lp, lp + nl + 1));
    int tot = lp[nl];
    REQ(tot >= 0 && tot <= N, "levels-wrong", "%d entries in the level set for %d items", tot, N);
    read_ok(ls, tot * 4, "level set");
    o.a.push_back(VI(ls, ls + tot));
    rel(lp, ls);
    return o;
  }
  void check(const Out& o) override {
    for (auto& v : o.a) for (int x : v) sim::note_hash(x);
    int n = g.n, N = ext.size(), nl = o.a[0][0];
    VI d(N, 0);
    for (int v = 0; v < N; v++) for (int t : ext[v]) d[t] = std::max(d[t], d[v] + 1);
    int L = *std::max_element(d.begin(), d.end()) + 1;
    const VI &lp = o.a[1], &ls = o.a[2];
    REQ((int)ls.size() == N, "vertex-missing", "%zu of %d items in the level set", ls.size(), N);
    REQ(nl == L, "levels-wrong", "%d levels, the longest path has %d", nl, L);
    REQ(lp[0] == 0, "schedule-shape", "level pointer starts at %d", lp[0]);
    std::vector<char> seen(N, 0);
    for (int l = 0; l < nl; l++) {
      REQ(lp[l + 1] > lp[l], "levels-wrong", "wavefront %d is empty", l);
      for (int k = lp[l]; k < lp[l + 1]; k++) {
        int c = ls[k], kern = c / ncol, col = upper ? ncol - 1 - c % ncol : c % ncol;
        REQ(c >= 0 && kern < N / n && sup[col2[col]] == col, "schedule-range", "item %d at position %d is not the first column of a supernode", c, k);
        int v = col2[col] + kern * n;
        REQ(!seen[v], "vertex-twice", "item %d scheduled twice", c);
        seen[v] = 1;
        REQ(d[v] == l, "levels-wrong", "item %d is in wavefront %d, its longest incoming path has %d", c, l, d[v]);
      }
    }
  }
};
void gen_lbn(Rng& r, Plan& p) { gen_blocks(r, p); p.p["kern"] = r.chance(1, 2) ? 1 : 1 + r.below(4); p.p["upper"] = r.below(2); }
Insp* mk_lbn(const Plan& p) { return new LevelSuper(p, false); }
Insp* mk_lfused(const Plan& p) { return new LevelSuper(p, true); }
// level sets of a tree given as parent array
struct LevelTree : Base {
  int* par; int* nch; bool eff;
  LevelTree(const Plan& q, bool e) : Base(to_forest(q)), eff(e) {
    VI v(g.n, -1), c(g.n, 0);
    for (int i = 0; i < g.n; i++) if (!g.out[i].empty()) { v[i] = g.out[i][0]; c[v[i]]++; }
    par = acopy(v); nch = acopy(c);
  }
  Out run() override {
    int *lp = aarr<int>(g.n + 1), *ls = aarr<int>(g.n), *n2l = aarr<int>(g.n), nl;
    for (int i = 0; i <= g.n; i++) lp[i] = 0;
    for (int i = 0; i < g.n; i++) ls[i] = n2l[i] = 0;
    { Api a; nl = eff ? build_level_set_tree_efficient(g.n, par, nch, lp, ls, n2l) : build_level_set_tree(g.n, par, lp, ls); }
    Out o;
    o.a.push_back(VI(1, nl));
    o.a.push_back(VI(lp, lp + g.n + 1));
    o.a.push_back(VI(ls, ls + g.n));
    if (eff) o.a.push_back(VI(n2l, n2l + g.n));
    return o;
  }
  void check(const Out& o) override {
    int n = g.n, nl = o.a[0][0];
    // the efficient version is documented for height >= 1; a single vertex has one level
    REQ(nl >= 1 && nl <= n, "levels-wrong", "%d levels for a forest of %d vertices (height %d)", nl, n, longest_path(g));
    SchedCopy s;
    s.pp.push_back(0);
    for (int i = 0; i < n; i++) s.pp.push_back(i + 1);
    VI lp(o.a[1].begin(), o.a[1].begin() + nl + 1);
    REQ(lp[nl] == n, "vertex-missing", "%d of %d vertices in the level set", lp[nl], n);
    SchedCopy t = take_schedule(n, nl, lp, s.pp, o.a[2], false);
    check_schedule(g, t);
    hash_schedule(t);
    if (o.a.size() > 3)
      for (int l = 0; l < nl; l++) for (int k = lp[l]; k < lp[l + 1]; k++) REQ(o.a[3][o.a[2][k]] == l, "levels-wrong", "vertex %d reported in level %d, is in %d", o.a[2][k], o.a[3][o.a[2][k]], l);
    if (exec) execute_schedule(p, g, t);
  }
};

// ------------------------------------------------------------------------------------ sparsification
struct Sparsify : Base {
  using Base::Base;
  Out run() override {
    std::vector<int> dp, ds;
    { Api a; HDAGG::partialSparsification(g.n, g.nnz, g.lC, g.lR, dp, ds, p.get("clique", 1)); }
    Out o;
    o.a.push_back(VI(dp.begin(), dp.end()));
    o.a.push_back(VI(ds.begin(), ds.end()));
    return o;
  }
  void check(const Out& o) override {
    const VI &dp = o.a[0], &ds = o.a[1];
    int n = g.n;
    for (auto& v : o.a) for (int x : v) sim::note_hash(x);
    REQ((int)dp.size() == n + 1, "graph-shape", "pointer array of %zu entries for %d vertices", dp.size(), n);
    REQ(dp[0] == 0, "graph-shape", "pointer array starts at %d", dp[0]);
    for (int i = 0; i < n; i++) REQ(dp[i + 1] >= dp[i], "graph-shape", "pointer array decreases at %d", i);
    REQ(dp[n] <= (int)ds.size(), "graph-shape", "%d edges claimed, %zu stored", dp[n], ds.size());
    std::vector<VI> out(n);
    for (int i = 0; i < n; i++)
      for (int k = dp[i]; k < dp[i + 1]; k++) {
        int v = ds[k];
        REQ(v >= 0 && v < n, "graph-range", "edge %d -> %d out of range", i, v);
        if (v != i) out[i].push_back(v);
      }
    // what it is for: of ordered children, no edge is left that two others make redundant
    VI from(n, -1);
    for (int i = 0; i < n && !p.get("ord"); i++) {
      for (int v : out[i]) from[v] = i;
      for (int k : out[i]) for (int j : out[k]) REQ(from[j] != i, "redundant-edge", "%d -> %d is kept beside %d -> %d -> %d", i, j, i, k, j);
    }
    auto ra = reach(n, g.out), rb = reach(n, out);
    for (int i = 0; i < n; i++) {
      REQ(!rb[i][i], "graph-cycle", "vertex %d lies on a cycle of the sparsified graph", i);
      for (int j = 0; j < n; j++) if (ra[i][j] != rb[i][j]) FAIL("reachability", "%d -> %d reachable in the original: %d, after sparsification: %d", i, j, (int)ra[i][j], (int)rb[i][j]);
    }
  }
};
void gen_sparsify(Rng& r, Plan& p) { p.p["clique"] = r.below(2); }

// ------------------------------------------------------------------------------------ grouping
struct Groups { VI ptr, set; std::vector<VI> members; VI of; int n; };
Groups check_groups(int n, int ng, const VI& ptr, const VI& set) {
  Groups r;
  REQ(ng >= 1 && ng <= n, "group-shape", "%d groups for %d vertices", ng, n);
  REQ((int)ptr.size() >= ng + 1, "group-shape", "%zu group pointers for %d groups", ptr.size(), ng);
  REQ(ptr[0] == 0, "group-shape", "group pointer starts at %d", ptr[0]);
  for (int i = 0; i < ng; i++) REQ(ptr[i + 1] >= ptr[i], "group-shape", "group pointer decreases at %d", i);
  REQ(ptr[ng] <= (int)set.size(), "group-shape", "group set of %zu entries, %d claimed", set.size(), ptr[ng]);
  REQ(ptr[ng] <= n, "vertex-twice", "%d group entries for %d vertices", ptr[ng], n);
  r.of.assign(n, -1);
  r.members.resize(ng);
  r.n = ng;
  for (int i = 0; i < ng; i++)
    for (int k = ptr[i]; k < ptr[i + 1]; k++) {
      int v = set[k];
      REQ(v >= 0 && v < n, "group-range", "vertex %d in group %d out of range", v, i);
      REQ(r.of[v] < 0, "vertex-twice", "vertex %d is in groups %d and %d", v, r.of[v], i);
      r.of[v] = i;
      r.members[i].push_back(v);
    }
  for (int v = 0; v < n; v++) REQ(r.of[v] >= 0, "vertex-missing", "vertex %d is in no group", v);
  r.ptr = ptr; r.set = set;
  return r;
}
void check_group_acyclic(const Groups& G, const std::vector<std::set<int>>& want) {
  VI indeg(G.n, 0), st;
  for (auto& s : want) for (int w : s) indeg[w]++;
  int seen = 0;
  for (int i = 0; i < G.n; i++) if (!indeg[i]) st.push_back(i);
  while (!st.empty()) { int v = st.back(); st.pop_back(); seen++; for (int w : want[v]) if (--indeg[w] == 0) st.push_back(w); }
  REQ(seen == G.n, "group-cycle", "the graph between the %d groups has a cycle", G.n);
}
std::vector<std::set<int>> group_edges(const Groups& G, const std::vector<VI>& out) {
  std::vector<std::set<int>> w(G.n);
  for (size_t v = 0; v < out.size(); v++) for (int t : out[v]) if (G.of[v] != G.of[t]) w[G.of[v]].insert(G.of[t]);
  return w;
}
void check_group_order(const Graph& g, const Groups& G) {
  // members are executed in the order given: dependences inside a group must go forward
  VI pos(g.n);
  for (int i = 0; i < G.n; i++) for (size_t k = 0; k < G.members[i].size(); k++) pos[G.members[i][k]] = k;
  for (int v = 0; v < g.n; v++) for (int u : g.in[v]) if (G.of[u] == G.of[v]) REQ(pos[u] < pos[v], "group-order", "vertex %d depends on %d, which comes later in their group %d", v, u, G.of[v]);
}
// HDagg groupings (on the graph, optionally sparsified first) + group graph, and the full pipeline
struct HdGroup : Base {
  int method;  // 0 tree, 1 tree BFS, 2 chain
  bool pipeline;
  std::vector<double> cost;
  bool tree() const { return p.get("etree") != 0; }
  HdGroup(const Plan& q, bool pl) : Base(q), pipeline(pl) { method = p.get("gmethod", 0, 0, 2); }
  Out run() override {
    int n = g.n, ng = -1, ln = -1;
    bool isL = p.get("isL");
    std::vector<int> dp, ds, gp, gs, gdp, gds, lp, pp, np, sp, ss;
    used(p, {&gp, &gs, &lp, &pp, &np});
    std::vector<double> c;
    if (!p.get("sparsify", 1)) { Api a; dp.assign(g.lC, g.lC + n + 1); ds.assign(g.lR, g.lR + g.nnz); }
    else if (tree()) {  // what the demos do when the matrix is a factor
      CSR* R;
      int ne = -1;
      { R = new CSR(n, n, g.nnz, g.rP, g.rI, 0); Api a; HDAGG::buildETree(R, ne, dp, ds); }
      delete R;
      REQ(ne == (int)ds.size() && (int)dp.size() == n + 1, "graph-shape", "buildETree reports %d of %zu edges", ne, ds.size());
    } else { Api a; HDAGG::partialSparsification(n, g.nnz, g.lC, g.lR, dp, ds, p.get("clique", 1)); }
    {
      Api a;
      if (method == 0) HDAGG::treeBasedGrouping(n, dp, ds, ng, gp, gs, isL);
      else if (method == 1) HDAGG::treeBasedGroupingBFS(n, dp, ds, ng, gp, gs, isL);
      else HDAGG::chainGrouping(n, dp, ds, ng, gp, gs);
    }
    Out o;
    o.a.push_back(VI(1, ng));
    o.a.push_back(VI(gp.begin(), gp.end()));
    o.a.push_back(VI(gs.begin(), gs.end()));
    Groups G = check_groups(n, ng, o.a[1], o.a[2]);
    { Api a; HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), dp.data(), ds.data(), gdp, gds); }
    o.a.push_back(VI(dp.begin(), dp.end()));
    o.a.push_back(VI(ds.begin(), ds.end()));
    o.a.push_back(VI(gdp.begin(), gdp.end()));
    o.a.push_back(VI(gds.begin(), gds.end()));
    if (!pipeline) return o;
    int cores = p.get("cores", 2, 1, 1000);
    {
      Api a;
      c.resize(ng);
      HDAGG::costComputation(ng, g.lC, g.lR, g.rP, g.rI, HDAGG::SpTrSv_LL, gp.data(), gs.data(), true, c);
      HDAGG::HDAGG(ng, gdp[ng], gdp, gds, c, cores, ln, lp, pp, np, false, p.get("post"), p.get("bp", 1));
      int ord = p.get("order", 0, 0, 3);
      if (ord == 0) HDAGG::ungroupingScheduleAndApplyOrdering(n, ln, lp, pp, np, gp, gs);
      else if (ord == 1) HDAGG::ungroupingScheduleAndApplyOrdering(n, ln, lp, pp, np, gp, gs, dp.data(), ds.data(), true, false);
      else if (ord == 2) HDAGG::ungroupingScheduleAndApplyOrdering(n, ln, lp, pp, np, gp, gs, dp.data(), ds.data(), false, true);
      else HDAGG::ungroupingScheduleAndApplyOrdering(n, ln, lp, pp, np, gp, gs, dp.data(), ds.data(), false, false);
    }
    Out q = take_vec(g, ln, lp, pp, np);
    o.has_sched = true;
    o.s = q.s;
    return o;
  }
  void check(const Out& o) override {
    int n = g.n;
    Groups G = check_groups(n, o.a[0][0], o.a[1], o.a[2]);
    std::vector<VI> out(n);
    for (int i = 0; i < n; i++) for (int k = o.a[3][i]; k < o.a[3][i + 1]; k++) if (o.a[4][k] != i) out[i].push_back(o.a[4][k]);
    auto want = group_edges(G, out);
    check_group_acyclic(G, want);
    const VI &gp = o.a[5], &gs = o.a[6];
    REQ((int)gp.size() == G.n + 1 && gp[0] == 0, "graph-shape", "group graph has %zu pointers for %d groups", gp.size(), G.n);
    for (int i = 0; i < G.n; i++) {
      REQ(gp[i + 1] >= gp[i] && gp[i + 1] <= (int)gs.size(), "graph-shape", "group graph pointer %d is %d", i + 1, gp[i + 1]);
      std::set<int> got;
      for (int k = gp[i]; k < gp[i + 1]; k++) {
        REQ(gs[k] >= 0 && gs[k] < G.n, "graph-range", "edge of group %d to %d", i, gs[k]);
        if (gs[k] != i) { REQ(got.insert(gs[k]).second, "group-graph", "edge between groups %d and %d listed twice", i, gs[k]); }
      }
      if (got != want[i]) {
        for (int w : want[i]) REQ(got.count(w), "group-graph", "groups %d -> %d depend on each other but the group graph has no edge", i, w);
        for (int w : got) REQ(want[i].count(w), "group-graph", "the group graph has an edge %d -> %d that no member has", i, w);
      }
    }
    for (auto& v : o.a) for (int x : v) sim::note_hash(x);
    if (tree() && p.get("sparsify", 1)) {  // every dependence of the matrix leads to an ancestor
      VI par(n, -1);
      for (int i = 0; i < n; i++) for (int w : out[i]) { REQ(w > i && par[i] < 0, "etree-wrong", "vertex %d has several parents, or a smaller one", i); par[i] = w; }
      for (int i = 0; i < n; i++) for (int w : g.out[i]) { int v = i; while (v >= 0 && v < w) v = par[v]; REQ(v == w, "etree-wrong", "%d depends on %d, which is no ancestor in the tree", w, i); }
    }
    if (pipeline) check_sched(o);
  }
};
void gen_group(Rng& r, Plan& p) {
  gen_hdagg(r, p);
  p.p["gmethod"] = r.below(3);
  p.p["sparsify"] = r.chance(2, 3);
  p.p["clique"] = r.below(2);
  p.p["order"] = r.below(3);
  p.p["isL"] = r.chance(1, 3);
  p.p["etree"] = r.chance(1, 4);
}
// consecutive-row/column groupings of class group, the group dependence graph, LBC on groups
struct RowGroup : Base {
  int method;
  RowGroup(const Plan& q) : Base(q) { method = p.get("rmethod", 0, 0, 4); }
  bool csr() const { return method != 2 && method != 3; }
  Out run() override {
    int n = g.n, ng = -1;
    int *gp = aarr<int>(n + 1), *gs = aarr<int>(n), *gi = aarr<int>(n);
    for (int i = 0; i < n; i++) gp[i] = gs[i] = gi[i] = 0;
    gp[n] = 0;
    std::vector<std::vector<int>> dag;
    {
      Api a;
      int *P = csr() ? g.rP : g.lC, *I = csr() ? g.rI : g.lR;
      group* gg = new group(n, P, I);
      switch (method) {
        case 0: gg->inspection_sptrsvcsr_v1(gp, gs, ng, gi); break;
        case 1: gg->inspection_sptrsvcsr_v2(gp, gs, ng, gi); break;
        case 2: gg->inspection_spicocsc_v1(gp, gs, ng, gi); break;
        case 3: gg->inspection_spicocsc_v2(gp, gs, ng, gi); break;
        default: gg->NaiveGrouping(n, gp, gs, ng, gi, p.get("blk", 1, 1, 1 << 20)); break;
      }
      delete gg;
    }
    Out o;
    o.a.push_back(VI(1, ng));
    REQ(ng >= 1 && ng <= n, "group-shape", "%d groups for %d vertices", ng, n);
    o.a.push_back(VI(gp, gp + ng + 1));
    o.a.push_back(VI(gs, gs + n));
    o.a.push_back(VI(gi, gi + n));
    Groups G = check_groups(n, ng, o.a[1], o.a[2]);
    for (int v = 0; v < n; v++) REQ(gi[v] == G.of[v], "group-inverse", "vertex %d is in group %d, the inverse map says %d", v, G.of[v], gi[v]);
    {
      Api a;
      dag.resize(ng);
      if (csr()) fs_csr_inspector_dep(ng, gp, gs, gi, g.rP, g.rI, dag);
      else fs_ic0csc_inspector_group(ng, gp, gs, gi, g.lC, g.lR, dag);
    }
    for (auto& v : dag) o.a.push_back(VI(v.begin(), v.end()));
    if (csr()) {
      // the same graph from the graph between the vertices
      std::vector<std::vector<int>> vd, gd;
      { Api a; vd.resize(n); fs_csr_inspector_dep(n, g.rP, g.rI, vd); gd = Group_DAG(vd, gp, gs, gi, ng); }
      for (auto& v : vd) o.a.push_back(VI(v.begin(), v.end()));
      for (auto& v : gd) o.a.push_back(VI(v.begin(), v.end()));
    }
    return o;
  }
  void check(const Out& o) override {
    Groups G = check_groups(g.n, o.a[0][0], o.a[1], o.a[2]);
    if (csr()) {
      size_t at = 4 + G.n;
      REQ(o.a.size() == at + g.n + G.n, "group-graph", "%zu adjacency lists for %d vertices and %d groups", o.a.size() - at, g.n, G.n);
      for (int v = 0; v < g.n; v++) {
        VI w = o.a[at + v];
        std::sort(w.begin(), w.end());
        REQ(w == g.out[v], "dependence-graph", "the dependence list of vertex %d is wrong", v);
      }
      auto want = group_edges(G, g.out);
      for (int i = 0; i < G.n; i++) {
        std::set<int> got(o.a[at + g.n + i].begin(), o.a[at + g.n + i].end());
        got.erase(i);
        REQ(got == std::set<int>(want[i].begin(), want[i].end()), "group-graph", "the successors of group %d are wrong", i);
      }
    }
    check_group_order(g, G);
    auto want = group_edges(G, g.out);
    check_group_acyclic(G, want);
    for (int i = 0; i < G.n; i++) {
      std::set<int> got;
      for (int w : o.a[4 + i]) {
        REQ(w >= 0 && w < G.n, "graph-range", "edge of group %d to %d", i, w);
        if (w != i) got.insert(w);
      }
      for (int w : want[i]) REQ(got.count(w), "group-graph", "group %d feeds group %d but the group graph has no edge", i, w);
      for (int w : got) REQ(want[i].count(w), "group-graph", "the group graph has an edge %d -> %d that no member has", i, w);
    }
    for (auto& v : o.a) for (int x : v) sim::note_hash(x);
  }
};
void gen_row_group(Rng& r, Plan& p) { p.p["rmethod"] = r.below(5); p.p["blk"] = r.logu(p.n); }

// ------------------------------------------------------------------------------------ components
struct ParCC : Base {
  VI nodes, n2l;
  int lb, ub;
  int *aN, *aL;
  ParCC(const Plan& q) : Base(q) {
    VI d = depth_levels(g);
    int L = longest_path(g);
    lb = p.get("lb", 0, 0, L - 1);
    ub = p.get("ub", L, lb + 1, L);
    for (int l = lb; l < ub; l++) for (int v = 0; v < g.n; v++) if (d[v] == l) nodes.push_back(v);
    aN = acopy(nodes); aL = acopy(d);
    n2l = d;
  }
  Out run() override {
    int* n2p = aarr<int>(g.n);
    for (int i = 0; i < g.n; i++) n2p[i] = -7;
    { Api a; HDAGG::parallel_cc(g.n, g.lC, g.lR, lb, ub, aL, nodes.size(), aN, n2p); }
    Out o;
    o.a.push_back(VI(n2p, n2p + g.n));
    return o;
  }
  void check(const Out& o) override {
    const VI& lab = o.a[0];
    for (int x : lab) sim::note_hash(x);
    VI par(g.n);
    for (int i = 0; i < g.n; i++) par[i] = i;
    std::function<int(int)> fd = [&](int v) { while (par[v] != v) v = par[v] = par[par[v]]; return v; };
    for (int v : nodes) for (int u : g.in[v]) if (n2l[u] >= lb && n2l[u] < ub) par[fd(u)] = fd(v);
    std::map<int, int> c2l, l2c;
    for (int v : nodes) {
      int c = fd(v), l = lab[v];
      REQ(l >= 0 && l < (int)nodes.size(), "component-range", "label %d of vertex %d out of range", l, v);
      if (c2l.count(c)) REQ(c2l[c] == l, "component-split", "vertex %d has label %d, its component has label %d", v, l, c2l[c]);
      if (l2c.count(l)) REQ(l2c[l] == c, "component-merged", "label %d covers two unconnected components (vertex %d)", l, v);
      c2l[c] = l; l2c[l] = c;
    }
    for (int v = 0; v < g.n; v++) if (n2l[v] < lb || n2l[v] >= ub) REQ(lab[v] == -7, "component-stray", "vertex %d outside the range was labelled", v);
  }
};
void gen_cc(Rng& r, Plan& p) {
  if (r.chance(1, 2)) { p.p["lb"] = r.below(4); p.p["ub"] = p.p["lb"] + 1 + r.logu(p.n); }
  gen_cost(r, p);
}
struct CompCC : Base {
  int lb, cu, ub, L;
  int *lp, *ls, *n2l;
  VI d;
  std::vector<double> cost;
  CompCC(const Plan& q) : Base(q) {
    d = depth_levels(g);
    L = longest_path(g);
    VI P(1, 0), S;
    for (int l = 0; l < L; l++) { for (int v = 0; v < g.n; v++) if (d[v] == l) S.push_back(v); P.push_back(S.size()); }
    lp = acopy(P); ls = acopy(S); n2l = acopy(d);
    avec(cost, make_cost(p, g));
    lb = p.get("lb", 0, 0, L - 1);
    ub = p.get("ub", L, lb + 1, L);
    cu = p.get("cu", lb, lb, ub - 1);
  }
  // as the merge search uses it: grow the window level by level from lb
  Out run() override {
    std::vector<int> n2p;
    std::vector<double> pc;
    int cnt = 0;
    double tot = 0;
    Out o;
    {
      Api a;
      n2p.resize(g.n, -1);
    }
    int at = lb;
    int step = p.get("ccstep", 1, 1, 100);
    while (at < ub) {
      int to = std::min(ub, at + step);
      { Api a; pc.assign(g.n, 0.0); tot = 0; HDAGG::computeCC(lb, at, to, g.n, g.lC, g.lR, lp, ls, n2l, n2p, cnt, pc, cost, tot); }
      o.a.push_back(VI(1, to));
      o.a.push_back(VI(1, cnt));
      VI lab;
      for (int k = lp[lb]; k < lp[to]; k++) lab.push_back(n2p[ls[k]]);
      o.a.push_back(lab);
      for (double x : pc) o.d.push_back(x);
      o.d.push_back(-1);
      o.d.push_back(tot);
      at = to;
    }
    return o;
  }
  void check(const Out& o) override {
    size_t di = 0;
    for (size_t q = 0; q < o.a.size(); q += 3) {
      int to = o.a[q][0], cnt = o.a[q + 1][0];
      const VI& lab = o.a[q + 2];
      for (int x : lab) sim::note_hash(x);
      std::vector<double> pc;
      while (o.d[di] != -1) pc.push_back(o.d[di++]);
      di++;
      double tot = o.d[di++];
      VI par(g.n), nodes(ls + lp[lb], ls + lp[to]);
      for (int i = 0; i < g.n; i++) par[i] = i;
      std::function<int(int)> fd = [&](int v) { while (par[v] != v) v = par[v] = par[par[v]]; return v; };
      for (int v : nodes) for (int u : g.in[v]) if (d[u] >= lb && d[u] < to) par[fd(u)] = fd(v);
      std::map<int, int> c2l, l2c;
      std::map<int, double> cc;
      double want = 0;
      for (size_t k = 0; k < nodes.size(); k++) {
        int v = nodes[k], c = fd(v), l = lab[k];
        if (c2l.count(c)) REQ(c2l[c] == l, "component-split", "vertex %d has label %d, its component has label %d", v, l, c2l[c]);
        if (l2c.count(l)) REQ(l2c[l] == c, "component-merged", "label %d covers two unconnected components (vertex %d)", l, v);
        c2l[c] = l; l2c[l] = c;
        cc[l] += cost[v];
        want += cost[v];
      }
      REQ(cnt == (int)c2l.size(), "component-count", "%d components reported, there are %zu", cnt, c2l.size());
      // costs are listed per component, in the order of the labels
      size_t rank = 0;
      for (auto& kv : cc) {
        REQ(rank < pc.size(), "component-range", "%zu components, %zu costs", cc.size(), pc.size());
        REQ(std::fabs(pc[rank] - kv.second) <= 1e-9 * (1 + want), "component-cost", "component %d costs %g, reported %g", kv.first, kv.second, pc[rank]);
        rank++;
      }
      REQ(std::fabs(tot - want) <= 1e-9 * (1 + want), "component-cost", "total cost %g, reported %g", want, tot);
    }
  }
};
void gen_compcc(Rng& r, Plan& p) { gen_cc(r, p); p.p["ccstep"] = 1 + r.below(3); }

// ------------------------------------------------------------------------------------ costs
struct Cost : Base {
  int kernel, ng;
  bool grouped;
  VI gp, gs;
  int *aP, *aS;
  Cost(const Plan& q) : Base(q) {
    kernel = p.get("kernel", 0, 0, 6);
    grouped = p.get("grouped", 0, 0, 1);
    Rng r(p.get("gseed", 1));
    gp.push_back(0);
    int i = 0;
    while (i < g.n) { int w = std::min(g.n - i, 1 + (int)r.below(5)); for (int k = 0; k < w; k++) gs.push_back(i++); gp.push_back(i); }
    // groups need not be contiguous
    if (r.chance(1, 2)) for (int k = g.n - 1; k > 0; k--) std::swap(gs[k], gs[r.below(k + 1)]);
    ng = gp.size() - 1;
    aP = acopy(gp); aS = acopy(gs);
  }
  Out run() override {
    std::vector<double> c;
    int nodes = grouped ? ng : g.n;
    {
      Api a;
      c.resize(nodes, p.get("stale") ? 17.5 : 0.0);
      HDAGG::costComputation(nodes, g.lC, g.lR, g.rP, g.rI, (HDAGG::Kernel)kernel, grouped ? aP : nullptr, grouped ? aS : nullptr, grouped, c);
    }
    Out o;
    o.d.assign(c.begin(), c.end());
    return o;
  }
  double unit(int v) {
    auto col = [&](int c) { return (double)(g.cp[c + 1] - g.cp[c]); };
    auto row = [&](int c) { return (double)(g.rp[c + 1] - g.rp[c]); };
    double x = 0;
    switch (kernel) {
      case HDAGG::SpTrSv_LL: return row(v);
      case HDAGG::SpTrSv_RL: return col(v);
      case HDAGG::SpICh0_LL:
        // columns of the row, plus the column itself
        for (int k = g.rp[v]; k < g.rp[v + 1]; k++) x += col(g.ri[k]);
        return x;
      case HDAGG::SpICh0_RL:
        for (int k = g.cp[v]; k < g.cp[v + 1]; k++) x += col(g.ci[k]);
        return x;
      case HDAGG::SpICh0_UL: case HDAGG::SpILU0_UL:
        for (int k = g.rp[v]; k < g.rp[v + 1]; k++) x += row(g.ri[k]);
        return x;
      default:  // General: the same estimate as the up-looking kernels
        for (int k = g.rp[v]; k < g.rp[v + 1]; k++) x += row(g.ri[k]);
        return x;
    }
  }
  void check(const Out& o) override;
};
void gen_costins(Rng& r, Plan& p) { p.p["kernel"] = r.below(7); p.p["grouped"] = r.below(2); p.p["gseed"] = r.below(100000); p.p["stale"] = r.below(2); }
void Cost::check(const Out& o) {
  int nodes = grouped ? ng : g.n;
  REQ((int)o.d.size() == nodes, "cost-shape", "%zu costs for %d nodes", o.d.size(), nodes);
  double tot = 0, want = 0;
  for (int i = 0; i < nodes; i++) {
    double w = 0;
    if (grouped) for (int k = gp[i]; k < gp[i + 1]; k++) w += unit(gs[k]);
    else w = unit(i);
    REQ(o.d[i] == w, "cost-wrong", "%s %d costs %g, reported %g (kernel %d)", grouped ? "group" : "vertex", i, w, o.d[i], kernel);
    tot += o.d[i]; want += w;
  }
  REQ(tot == want, "cost-wrong", "total cost %g, reported %g", want, tot);
}

// ------------------------------------------------------------------------------------ schedule views
struct ViewBase : Base {
  SchedCopy s;
  ViewBase(const Plan& q) : Base(q) { Rng r(p.get("sseed", 1)); s = valid_schedule(r, g); }
};
void gen_view(Rng& r, Plan& p) { p.p["sseed"] = r.below(1000000); p.p["tile"] = r.chance(1, 3) ? 1 + r.below(3) : r.logu(p.n + 3); }
struct FinalDag : ViewBase {
  int *lp, *pp, *np;
  FinalDag(const Plan& q) : ViewBase(q) { lp = acopy(s.lp); pp = acopy(s.pp); np = acopy(s.np); }
  Out run() override {
    int ng = -1;
    std::vector<int> gp, gs, dp, ds;
    { Api a; HDAGG::getFinalScheduleDAG(g.n, s.levels, lp, pp, np, g.lC, g.lR, ng, gp, gs, dp, ds); }
    Out o;
    o.a = {VI(1, ng), VI(gp.begin(), gp.end()), VI(gs.begin(), gs.end()), VI(dp.begin(), dp.end()), VI(ds.begin(), ds.end())};
    return o;
  }
  void check(const Out& o) override {
    // one group per non-empty partition of the schedule, in the same order
    std::vector<int> P(1, 0);
    for (int q = 0; q < s.lp.back(); q++) if (s.pp[q + 1] != s.pp[q]) P.push_back(s.pp[q + 1]);
    int ng = o.a[0][0], parts = P.size() - 1;
    REQ(ng == parts, "group-shape", "%d groups for %d non-empty partitions", ng, parts);
    Groups G;
    const VI &gp = o.a[1], &gs = o.a[2], &dp = o.a[3], &ds = o.a[4];
    REQ((int)gp.size() >= ng + 1 && (int)gs.size() >= g.n, "group-shape", "group arrays have %zu and %zu entries", gp.size(), gs.size());
    G.n = ng; G.of.assign(g.n, -1); G.members.resize(ng);
    for (int i = 0; i < ng; i++) {
      REQ(gp[i] == P[i] && gp[i + 1] == P[i + 1], "group-shape", "group %d has bounds %d..%d, the partition %d..%d", i, gp[i], gp[i + 1], P[i], P[i + 1]);
      for (int k = gp[i]; k < gp[i + 1]; k++) { REQ(gs[k] >= 0 && gs[k] < g.n && G.of[gs[k]] < 0, "vertex-twice", "vertex %d", gs[k]); G.of[gs[k]] = i; G.members[i].push_back(gs[k]); }
    }
    for (int i = 0; i < ng; i++) {
      VI a(s.np.begin() + P[i], s.np.begin() + P[i + 1]), b = G.members[i];
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      REQ(a == b, "group-members", "group %d does not hold the vertices of partition %d", i, i);
    }
    auto want = group_edges(G, g.out);
    check_group_acyclic(G, want);
    REQ((int)dp.size() >= ng + 1 && dp[0] == 0, "graph-shape", "%zu pointers for %d groups", dp.size(), ng);
    for (int i = 0; i < ng; i++) {
      REQ(dp[i + 1] >= dp[i] && dp[i + 1] <= (int)ds.size(), "graph-shape", "pointer %d", i);
      std::set<int> got;
      for (int k = dp[i]; k < dp[i + 1]; k++) { REQ(ds[k] >= 0 && ds[k] < ng, "graph-range", "edge %d -> %d", i, ds[k]); if (ds[k] != i) got.insert(ds[k]); }
      for (int w : want[i]) REQ(got.count(w), "group-graph", "partitions %d -> %d depend on each other but the graph has no edge", i, w);
      for (int w : got) REQ(want[i].count(w), "group-graph", "the graph has an edge %d -> %d that no member has", i, w);
    }
    for (auto& v : o.a) for (int x : v) sim::note_hash(x);
    if (exec) execute_tasks(p, g, VI(gp.begin(), gp.begin() + ng + 1), gs, VI(dp.begin(), dp.begin() + ng + 1), ds);
  }
};
struct TwoD : ViewBase {
  std::vector<int> lp, pp, np;
  TwoD(const Plan& q) : ViewBase(q) { avec(lp, s.lp); avec(pp, s.pp); avec(np, s.np); }
  Out run() override {
    std::vector<int> tp;
    std::vector<HDAGG::twoDIteration> it;
    { Api a; HDAGG::twoDReordering(g.n, g.nnz, g.rP, g.rI, s.levels, lp, pp, np, p.get("tile", 2, 1, 1 << 20), tp, it); }
    Out o;
    o.a.push_back(VI(tp.begin(), tp.end()));
    VI f;
    for (auto& x : it) { f.push_back(x.i); f.push_back(x.k); f.push_back(x.j); }
    o.a.push_back(f);
    return o;
  }
  void check(const Out& o) override;
};
void TwoD::check(const Out& o) {
  const VI &tp = o.a[0], &f = o.a[1];
  for (auto& v : o.a) for (int x : v) sim::note_hash(x);
  int parts = s.lp.back();
  REQ((int)tp.size() == parts + 1 && tp[0] == 0, "tile-shape", "%zu tile pointers for %d partitions", tp.size(), parts);
  REQ(tp[parts] * 3 == (int)f.size(), "tile-shape", "%d iterations claimed, %zu stored", tp[parts], f.size() / 3);
  for (int q = 0; q < parts; q++) {
    REQ(tp[q + 1] >= tp[q], "tile-shape", "tile pointer decreases at %d", q);
    std::map<std::pair<int, int>, int> want;
    for (int k = s.pp[q]; k < s.pp[q + 1]; k++) { int v = s.np[k]; for (int j = g.rp[v]; j < g.rp[v + 1]; j++) want[{v, j}]++; }
    std::map<int, int> off;  // off-diagonal updates still to come per row of this partition
    for (int k = s.pp[q]; k < s.pp[q + 1]; k++) { int v = s.np[k]; off[v] = g.rp[v + 1] - g.rp[v] - 1; }
    for (int t = tp[q]; t < tp[q + 1]; t++) {
      int i = f[3 * t], j = f[3 * t + 1], k = f[3 * t + 2];  // row, entry, column
      auto it = want.find({i, j});
      REQ(it != want.end() && it->second > 0, "iteration-wrong", "iteration (%d, entry %d) of partition %d is not one of its rows' entries or comes twice", i, j, q);
      REQ(k == g.ri[j], "iteration-wrong", "iteration (%d, entry %d) names column %d, the entry is in column %d", i, j, k, g.ri[j]);
      it->second--;
      if (k == i) { REQ(off[i] == 0, "iteration-order", "row %d is finished before %d of its updates", i, off[i]); off.erase(i); }
      else { REQ(!off.count(k), "iteration-order", "row %d uses row %d of the same partition before it is finished", i, k); off[i]--; }
    }
    for (auto& w : want) REQ(w.second == 0, "iteration-missing", "entry %d of row %d is missing from partition %d", w.first.second, w.first.first, q);
  }
}
// A schedule over groups of columns (each group a run of whole supernodes) turned into a schedule over
// supernodes: the vertices of the graph are the groups.
struct ConvCN : Base {
  SchedCopy s;
  int nsup, ncol;
  VI sup, gp, gs, first;  // supernode -> first column; group -> columns; group -> first supernode
  VI dp, di;              // the graph of the columns
  int *aS, *aP, *aG, *aDP, *aDI;
  ConvCN(const Plan& q) : Base(q) {
    Rng r(p.get("sseed", 1));
    s = valid_schedule(r, g);
    int maxs = p.get("maxsup", 3, 1, 5), maxw = p.get("maxw", 3, 1, 5), col = 0;
    sup.push_back(0); gp.push_back(0); first.push_back(0);
    for (int v = 0; v < g.n; v++) {
      int k = 1 + r.below(maxs);
      for (int a = 0; a < k; a++) { int w = 1 + r.below(maxw); while (w--) gs.push_back(col++); sup.push_back(col); }
      gp.push_back(col);
      first.push_back(sup.size() - 1);
    }
    nsup = sup.size() - 1; ncol = col;
    aS = acopy(sup); aP = acopy(gp); aG = acopy(gs);
    int keep = 1 + r.below(4);
    dp.push_back(0);
    for (int v = 0; v < g.n; v++)
      for (int c = gp[v]; c < gp[v + 1]; c++) {
        di.push_back(c);
        for (int t = c + 1; t < gp[v + 1]; t++) if (r.below(4) < (uint64_t)keep) di.push_back(t);
        for (int w : g.out[v]) for (int t = gp[w]; t < gp[w + 1]; t++) if (r.below(4) < (uint64_t)keep) di.push_back(t);
        dp.push_back(di.size());
      }
    aDP = acopy(dp); aDI = acopy(di);
  }
  Out run() override {
    std::vector<int> lp, pp, np;
    int levels = s.levels;
    double mean;
    { Api a; lp = s.lp; pp = s.pp; np = s.np; mean = HDAGG::aggressiveSupernodeGrouping(ncol, aP, aG, aDP, aDI, levels, lp, pp, np); }
    REQ(levels == s.levels && VI(lp.begin(), lp.end()) == s.lp && VI(pp.begin(), pp.end()) == s.pp && VI(np.begin(), np.end()) == s.np, "schedule-shape", "measuring the supernodes changed the schedule");
    { Api a; lp = s.lp; pp = s.pp; np = s.np; HDAGG::convertCNScheduleToSuperNode(ncol, nsup, aP, aG, aS, levels, lp, pp, np); }
    Out o;
    o.a = {VI(1, levels), VI(lp.begin(), lp.end()), VI(pp.begin(), pp.end()), VI(np.begin(), np.end())};
    o.d.push_back(mean);
    return o;
  }
  void check(const Out& o) override {
    for (auto& v : o.a) for (int x : v) sim::note_hash(x);
    // every column is in exactly one of the supernodes measured
    double k = ncol / o.d[0];
    REQ(k >= 1 - 1e-9 && k <= ncol + 1e-9 && std::abs(k - std::floor(k + 0.5)) < 1e-6, "supernode-missing", "supernodes of %g columns on average do not divide %d columns", o.d[0], ncol);
    REQ(o.a[0][0] == s.levels && VI(o.a[1].begin(), o.a[1].begin() + s.levels + 1) == s.lp, "schedule-shape", "levels changed");
    const VI &pp = o.a[2], &np = o.a[3];
    int parts = s.lp.back();
    REQ((int)pp.size() > parts && pp[0] == 0, "schedule-shape", "%zu partition pointers for %d partitions", pp.size(), parts);
    for (int q = 0; q < parts; q++) {
      VI want;
      for (int k = s.pp[q]; k < s.pp[q + 1]; k++) for (int x = first[s.np[k]]; x < first[s.np[k] + 1]; x++) want.push_back(x);
      REQ(pp[q + 1] - pp[q] == (int)want.size() && pp[q + 1] <= (int)np.size(), "supernode-missing", "partition %d has %d supernodes, expected %zu", q, pp[q + 1] - pp[q], want.size());
      for (size_t i = 0; i < want.size(); i++) REQ(np[pp[q] + i] == want[i], "supernode-order", "partition %d: supernode %d at position %zu, expected %d", q, np[pp[q] + i], i, want[i]);
    }
    REQ((int)np.size() == nsup, "supernode-missing", "%zu of %d supernodes scheduled", np.size(), nsup);
  }
};
void gen_conv(Rng& r, Plan& p) { p.p["sseed"] = r.below(1000000); p.p["maxsup"] = 1 + r.below(4); p.p["maxw"] = 1 + r.below(4); }

// ------------------------------------------------------------------------------------ table
template <class T> Insp* mk(const Plan& p) { return new T(p); }
Insp* mk_glc2(const Plan& p) { return new Hd(p, true); }
Insp* mk_hgroup(const Plan& p) { return new HdGroup(p, false); }
Insp* mk_hpipe(const Plan& p) { return new HdGroup(p, true); }
Insp* mk_ltree(const Plan& p) { return new LevelTree(p, false); }
Insp* mk_ltree_e(const Plan& p) { return new LevelTree(p, true); }
void gen_none(Rng&, Plan&) {}
}  // namespace

void add_executors(std::vector<InspDef>& t);
void add_utils(std::vector<InspDef>& t);
static std::vector<InspDef> make_table() {
  std::vector<InspDef> t = {
      {"lbc_csc", 0, gen_lbc, mk<LbcCsc>},
      {"lbc_csc03", 0, gen_lbc, mk<Csc03>},
      {"lbc_par", I_TEAM | I_PAR, gen_lbc_par, mk<Csc03Par>},
      {"lbc_tree", 0, gen_lbc, mk<LbcTree>},
      {"lbc_csc_tree", 0, gen_csc_tree, mk<LbcCscTree>},
      {"lbc_bcsc", 0, gen_lbc_blk, mk<LbcBcsc>},
      {"hdagg", I_TEAM | I_PAR, gen_hdagg, mk<Hd>},
      {"glc_v2", I_TEAM | I_PAR, gen_hdagg, mk_glc2},
      {"build_coarse", I_TEAM | I_PAR, gen_hdagg, mk<BuildCoarse>},
      {"level_csc", 0, gen_level, mk_level<0>},
      {"level_csc_c", 0, gen_level, mk_level<1>},
      {"level_hd", 0, gen_level, mk_level<2>},
      {"level_multi", 0, gen_level, mk_level<3>},
      {"level_queue", 0, gen_level, mk_level<4>},
      {"level_wrap", 0, gen_level, mk_level<5>},
      {"level_bcsc", 0, gen_blocks, mk<LevelBcsc>},
      {"level_super", 0, gen_lbn, mk_lbn},
      {"level_fused", 0, gen_blocks, mk_lfused},
      {"level_tree", 0, gen_none, mk_ltree},
      {"level_tree_eff", 0, gen_none, mk_ltree_e},
      {"sparsify", I_TEAM | I_PAR, gen_sparsify, mk<Sparsify>},
      {"hgroup", I_TEAM | I_PAR, gen_group, mk_hgroup},
      {"hpipe", I_TEAM | I_PAR, gen_group, mk_hpipe},
      {"rowgroup", I_TEAM | I_PAR, gen_row_group, mk<RowGroup>},
      {"par_cc", I_TEAM | I_PAR, gen_cc, mk<ParCC>},
      {"comp_cc", I_TEAM | I_PAR, gen_compcc, mk<CompCC>},
      {"cost", I_TEAM, gen_costins, mk<Cost>},
      {"final_dag", I_TEAM | I_PAR, gen_view, mk<FinalDag>},
      {"two_d", 0, gen_view, mk<TwoD>},
      {"conv_cn", I_TEAM, gen_conv, mk<ConvCN>},
  };
  add_executors(t);
  add_utils(t);
  return t;
}
const std::vector<InspDef>& inspectors() {
  static const std::vector<InspDef> t = make_table();
  return t;
}
const InspDef* find_insp(const std::string& n) {
  for (auto& d : inspectors()) if (n == d.name) return &d;
  return nullptr;
}
