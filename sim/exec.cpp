// The schedule executors (parallel solves) and the per-level load statistics.
#include <functional>
#include "harness.h"
#include "sptrsv.h"
#include "executor.h"

namespace {
using namespace sym_lib;

// groups: a random topological order cut into runs; the graph between them
struct Grouping { int n = 0; VI ptr, set; Graph dag; };
Grouping make_groups(const Graph& g, Rng& r) {
  Grouping q;
  VI indeg(g.n), ready, ord;
  for (int v = 0; v < g.n; v++) { indeg[v] = g.in[v].size(); if (!indeg[v]) ready.push_back(v); }
  int mode = r.below(3);
  while (!ready.empty()) {
    size_t i = mode == 0 ? 0 : mode == 1 ? ready.size() - 1 : r.below(ready.size());
    int v = ready[i];
    ready.erase(ready.begin() + i);
    ord.push_back(v);
    for (int w : g.out[v]) if (--indeg[w] == 0) ready.push_back(w);
  }
  int maxw = 1 + r.below(6);
  VI of(g.n);
  q.ptr.push_back(0);
  for (int i = 0; i < g.n;) {
    int w = std::min(g.n - i, 1 + (int)r.below(maxw));
    while (w--) { q.set.push_back(ord[i]); of[ord[i]] = q.n; i++; }
    q.ptr.push_back(i);
    q.n++;
  }
  q.dag.n = q.n;
  q.dag.in.resize(q.n); q.dag.out.resize(q.n);
  for (int v = 0; v < g.n; v++) for (int w : g.out[v]) if (of[v] != of[w]) q.dag.out[of[v]].push_back(of[w]);
  for (int i = 0; i < q.n; i++) {
    VI& o = q.dag.out[i];
    std::sort(o.begin(), o.end());
    o.erase(std::unique(o.begin(), o.end()), o.end());
    for (int w : o) q.dag.in[w].push_back(i);
  }
  return q;
}
// any wavefront-like schedule: depth plus random slack, possibly empty levels
void wavefronts(const Graph& g, Rng& r, VI& lp, VI& ls) {
  VI d(g.n, 0);
  int slack = r.below(4), mx = 0;
  for (int v = 0; v < g.n; v++) {
    for (int u : g.in[v]) d[v] = std::max(d[v], d[u] + 1);
    if (slack == 1 && r.chance(1, 4)) d[v] += 1 + r.below(2);
    mx = std::max(mx, d[v]);
  }
  std::vector<VI> by(mx + 1);
  for (int v = 0; v < g.n; v++) by[d[v]].push_back(v);
  bool shuffle = r.chance(1, 2);
  lp.push_back(0);
  for (auto& l : by) {
    if (shuffle) for (int k = (int)l.size() - 1; k > 0; k--) std::swap(l[k], l[r.below(k + 1)]);
    ls.insert(ls.end(), l.begin(), l.end());
    lp.push_back(ls.size());
  }
}

struct Exec : Insp {
  Plan p;
  Graph g;
  int kind, levels = 0;
  int *lp = 0, *pp = 0, *np = 0, *gp = 0, *gs = 0;
  Grouping G;
  VI lpv, ppv, npv;
  Exec(const Plan& q, int k) : p(q), g(make_graph(q)), kind(k) {
    Rng r(p.get("sseed", 1));
    bool grouped = k >= 5 && k != 9 && k != 20, waves = k <= 2 || k == 6 || k == 7 || k == 10;
    if (k == 9) grouped = false;
    if (grouped) { G = make_groups(g, r); gp = acopy(G.ptr); gs = acopy(G.set); }
    const Graph& h = grouped ? G.dag : g;
    if (waves) { wavefronts(h, r, lpv, npv); levels = lpv.size() - 1; }
    else { SchedCopy s = valid_schedule(r, h); lpv = s.lp; ppv = s.pp; npv = s.np; levels = s.levels; pp = acopy(ppv); }
    lp = acopy(lpv); np = acopy(npv);
  }
  Out run() override {
    double* x = aarr<double>(g.n);
    memcpy(x, g.b.data(), g.n * 8);
    double* b = kind == 7 ? acopy(g.b) : nullptr;
    bool w = p.get("watch", 1);
    if (w) sim::watch(x, g.n);
    {
      Api a;
      switch (kind) {
        case 0: sptrsv_csr_levelset(g.n, g.rP, g.rI, g.rX, x, levels, lp, np); break;
        case 1: sptrsv_csr_levelset(g.n, g.rP, g.rI, g.rX, levels, lp, np, x); break;
        case 2: sptrsv_csr_levelset_seq(g.n, g.rP, g.rI, g.rX, x, levels, lp, np); break;
        case 3: sptrsv_csr_lbc(g.n, g.rP, g.rI, g.rX, x, levels, lp, pp, np); break;
        case 4: sptrsv_csr_lbc_seq(g.n, g.rP, g.rI, g.rX, x, levels, lp, pp, np); break;
        case 5: sptrsv_csr_group_lbc(g.n, g.rP, g.rI, g.rX, x, levels, lp, pp, np, gp, gs); break;
        case 6: sptrsv_csr_group_levelset(g.rP, g.rI, g.rX, x, levels, lp, np, gp, gs); break;
        case 7: fs_csr_executor_sgroup(g.n, g.rP, g.rI, g.rX, b, x, gp, gs, G.n, levels, lp, np); break;
      }
    }
    if (w) sim::unwatch();
    Out o;
    o.d.assign(x, x + g.n);
    return o;
  }
  void check(const Out& o) override {
    for (int v = 0; v < g.n; v++)
      REQ(memcmp(&o.d[v], &g.ref[v], 8) == 0, "wrong-solution", "x[%d] = %.17g, the serial solve gives %.17g", v, o.d[v], g.ref[v]);
    for (double d : o.d) { uint64_t u; memcpy(&u, &d, 8); sim::note_hash(u); }
  }
};
// per-level load imbalance; the hand-out is observed through the reads of the schedule array
struct Stat : Exec {
  Stat(const Plan& q, int k) : Exec(q, k) {}
  std::vector<std::pair<int, uint32_t>> seen;
  int team = 1;
  Out run() override {
    int* lc = aarr<int>(levels);
    for (int i = 0; i < levels; i++) lc[i] = -7;
    sim::observe(np, npv.size() * 4);
    {
      Api a;
      if (kind == 9) sptrsv_csr_lbc_stat(g.n, g.rP, g.rI, levels, lp, pp, np, lc);
      else if (kind == 10) fs_csr_levelset_stat(g.rP, g.rI, gp, gs, levels, lp, np, lc);
      else sptrsv_csr_group_lbc_stat(g.n, g.rP, g.rI, levels, lp, pp, np, gp, gs, lc);
    }
    seen = sim::observed();
    Out o;
    read_ok(lc, levels * 4, "statistic");
    o.a.push_back(VI(lc, lc + levels));
    return o;
  }
  void check(const Out& o) override {
    for (int x : o.a[0]) sim::note_hash(x);
    // whoever read a scheduled entry does its work
    VI who(npv.size(), -1);
    for (auto& s : seen) who[s.second / 4] = s.first;
    int T = g_is_omp ? p.cfg.threads : 1;
    auto work = [&](int q) {
      int w = 0;
      if (kind == 9) return g.rp[npv[q] + 1] - g.rp[npv[q]];
      for (int k = G.ptr[npv[q]]; k < G.ptr[npv[q] + 1]; k++) w += g.rp[G.set[k] + 1] - g.rp[G.set[k]];
      return w;
    };
    for (int l = 0; l < levels; l++) {
      VI c(std::max(T, 64), 0);
      int a = kind == 10 ? lpv[l] : ppv[lpv[l]], b = kind == 10 ? lpv[l + 1] : ppv[lpv[l + 1]];
      for (int q = a; q < b; q++) { REQ(who[q] >= 0, "load-unread", "entry %d of level %d was not visited", q, l); c[who[q]] += work(q); }
      int mx = *std::max_element(c.begin(), c.begin() + T), mn = *std::min_element(c.begin(), c.begin() + T);
      if (T == 1) mx = mn = 0;
      REQ(o.a[0][l] == mx - mn, "load-wrong", "level %d: imbalance %d reported, the %d threads differ by %d", l, o.a[0][l], T, mx - mn);
    }
  }
};
template <int K> Insp* mk(const Plan& p) { return new Exec(p, K); }
template <int K> Insp* mks(const Plan& p) { return new Stat(p, K); }
void gen_exec(Rng& r, Plan& p) { p.p["sseed"] = r.below(1000000); p.p["valseed"] = r.below(1000); }
}  // namespace

void add_executors(std::vector<InspDef>& t) {
  t.insert(t.end(), {
      {"x_levelset", I_TEAM | I_EXEC, gen_exec, mk<0>},
      {"x_levelset2", I_TEAM | I_EXEC, gen_exec, mk<1>},
      {"x_levelset_seq", I_EXEC, gen_exec, mk<2>},
      {"x_lbc", I_TEAM | I_EXEC, gen_exec, mk<3>},
      {"x_lbc_seq", I_EXEC, gen_exec, mk<4>},
      {"x_group_lbc", I_TEAM | I_EXEC, gen_exec, mk<5>},
      {"x_group_levelset", I_TEAM | I_EXEC, gen_exec, mk<6>},
      {"x_sgroup", I_TEAM | I_EXEC, gen_exec, mk<7>},
      {"stat_lbc", I_TEAM | I_EXEC | I_PAR | I_NOSHORT, gen_exec, mks<9>},
      {"stat_levelset", I_TEAM | I_EXEC | I_PAR | I_NOSHORT, gen_exec, mks<10>},
      {"stat_group_lbc", I_TEAM | I_EXEC | I_PAR | I_NOSHORT, gen_exec, mks<11>},
  });
}
