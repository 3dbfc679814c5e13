#include "harness.h"
#include <climits>
#include <functional>

static double val(uint64_t seed, int u, int v) {
  uint64_t h = sim::mix(sim::mix(seed, u), v);
  if (u == v) return 1.0 + (double)(h % 1000) / 1000.0;
  return ((double)(h % 2001) - 1000.0) / 4000.0;
}
static const Graph* g_shared;
void share_graph(const Graph* g) { g_shared = g; }
Graph make_graph(const Plan& p) {
  if (g_shared && g_shared->n == p.n && g_shared->nnz == (int)p.e.size() + p.n) return *g_shared;
  Graph g;
  g.n = p.n;
  g.in.resize(g.n); g.out.resize(g.n);
  for (auto& x : p.e) { g.in[x.second].push_back(x.first); g.out[x.first].push_back(x.second); }
  uint64_t s = p.get("valseed", 7);
  g.cp.push_back(0); g.rp.push_back(0);
  for (int v = 0; v < g.n; v++) {
    std::sort(g.in[v].begin(), g.in[v].end());
    std::sort(g.out[v].begin(), g.out[v].end());
    g.ci.push_back(v); g.cx.push_back(val(s, v, v));
    for (int w : g.out[v]) { g.ci.push_back(w); g.cx.push_back(val(s, v, w)); }
    g.cp.push_back(g.ci.size());
    for (int u : g.in[v]) { g.ri.push_back(u); g.rx.push_back(val(s, u, v)); }
    g.ri.push_back(v); g.rx.push_back(val(s, v, v));
    g.rp.push_back(g.ri.size());
    g.b.push_back(val(s + 1, v, v) * (1 + v % 7));
  }
  // order of the entries inside a column: 0 sorted, 1 diagonal first, 2 any
  if (int o = p.get("ord", 0, 0, 2)) {
    Rng r(sim::mix(s, 91));
    for (int v = 0; v < g.n; v++)
      for (int lo = g.cp[v] + (o == 1), k = g.cp[v + 1] - 1; k > lo; k--) {
        int j = lo + r.below(k - lo + 1);
        std::swap(g.ci[k], g.ci[j]); std::swap(g.cx[k], g.cx[j]);
      }
  }
  g.nnz = g.ci.size();
  g.ref = solve_serial(g);
  g.lC = acopy(g.cp); g.lR = acopy(g.ci); g.rP = acopy(g.rp); g.rI = acopy(g.ri); g.rX = acopy(g.rx);
  return g;
}
std::vector<double> solve_serial(const Graph& g) {
  std::vector<double> x = g.b;
  for (int i = 0; i < g.n; i++) {
    for (int j = g.rp[i]; j < g.rp[i + 1] - 1; j++) x[i] -= g.rx[j] * x[g.ri[j]];
    x[i] /= g.rx[g.rp[i + 1] - 1];
  }
  return x;
}
void gen_cost(Rng& r, Plan& p) { p.p["cost"] = r.below(10); p.p["costseed"] = r.below(1000); }
std::vector<double> make_cost(const Plan& p, const Graph& g) {
  std::vector<double> c(g.n);
  int m = p.get("cost", 1), s = p.get("costseed", 1);
  for (int i = 0; i < g.n; i++) {
    uint64_t h = sim::mix(s, i);
    switch (m) {
      case 0: c[i] = 1; break;
      case 1: c[i] = 1 + g.in[i].size(); break;
      case 2: c[i] = 1 + g.out[i].size(); break;
      case 3: c[i] = h % 11; break;
      case 4: c[i] = (h % 10000) / 997.0; break;
      case 5: c[i] = (h % 8 == 0) ? 1000.0 : 1.0; break;
      case 6: c[i] = 0; break;
      case 7: c[i] = (double)(h % 1000) * (i % 3 ? 1e7 : 1e-3); break;  // beyond the range of an int
      case 8: c[i] = (double)(h % 1000) / 1e6; break;                   // all far below one
      default: c[i] = 1 + h % 20; break;
    }
  }
  return c;
}
VI depth_levels(const Graph& g) {
  VI d(g.n, 0);
  for (int v = 0; v < g.n; v++) for (int u : g.in[v]) d[v] = std::max(d[v], d[u] + 1);
  return d;
}
int longest_path(const Graph& g) { VI d = depth_levels(g); return *std::max_element(d.begin(), d.end()) + 1; }
std::vector<std::vector<bool>> reach(int n, const std::vector<VI>& out) {
  // works for any digraph (iterated search)
  std::vector<std::vector<bool>> r(n, std::vector<bool>(n, false));
  for (int s = 0; s < n; s++) {
    VI st(1, s);
    while (!st.empty()) {
      int v = st.back(); st.pop_back();
      for (int w : out[v]) if (!r[s][w]) { r[s][w] = true; st.push_back(w); }
    }
  }
  return r;
}

static void check_shape(int n, int levels, const SchedCopy& s) {
  REQ(s.lp[0] == 0, "schedule-shape", "level pointer starts at %d", s.lp[0]);
  for (int i = 0; i < levels; i++) REQ(s.lp[i + 1] >= s.lp[i], "schedule-shape", "level pointer decreases at level %d (%d -> %d)", i, s.lp[i], s.lp[i + 1]);
  int parts = s.lp[levels];
  REQ(s.pp[0] == 0, "schedule-shape", "partition pointer starts at %d", s.pp[0]);
  for (int i = 0; i < parts; i++) REQ(s.pp[i + 1] >= s.pp[i], "schedule-shape", "partition pointer decreases at partition %d", i);
  int tot = s.pp[parts];
  std::vector<char> seen(n, 0);
  for (int k = 0; k < tot; k++) {
    int v = s.np[k];
    REQ(v >= 0 && v < n, "schedule-range", "vertex id %d out of range at position %d", v, k);
    REQ(!seen[v], "vertex-twice", "vertex %d scheduled twice", v);
    seen[v] = 1;
  }
  for (int v = 0; v < n; v++) REQ(seen[v], "vertex-missing", "vertex %d of %d never scheduled", v, n);
}
SchedCopy take_schedule(int n, int levels, const int* lp, const int* pp, const int* np) {
  SchedCopy s;
  REQ(levels >= 0 && levels <= n + 1, "schedule-shape", "number of levels %d for %d vertices", levels, n);
  s.levels = levels;
  for (int i = 0; i <= levels; i++) s.lp.push_back(lp[i]);
  int parts = s.lp.back();
  REQ(parts >= 0 && parts <= 3 * n + 8, "schedule-shape", "number of partitions %d for %d vertices", parts, n);
  // the library allocates the partition pointer itself; entries are read as a user would read them
  for (int i = 0; i <= parts; i++) s.pp.push_back(pp[i]);
  int tot = s.pp.back();
  REQ(tot >= 0 && tot <= n, tot > n ? "vertex-twice" : "schedule-shape", "%d scheduled entries for %d vertices", tot, n);
  for (int i = 0; i < tot; i++) s.np.push_back(np[i]);
  check_shape(n, levels, s);
  return s;
}
SchedCopy take_schedule(int n, int levels, const VI& lp, const VI& pp, const VI& np, bool) {
  SchedCopy s;
  REQ(levels >= 0 && levels <= n + 1, "schedule-shape", "number of levels %d for %d vertices", levels, n);
  REQ((int)lp.size() > levels, "schedule-shape", "level pointer has %zu entries for %d levels", lp.size(), levels);
  s.levels = levels;
  s.lp.assign(lp.begin(), lp.begin() + levels + 1);
  int parts = s.lp.back();
  REQ(parts >= 0 && parts < (int)pp.size(), "schedule-shape", "partition pointer has %zu entries for %d partitions", pp.size(), parts);
  s.pp.assign(pp.begin(), pp.begin() + parts + 1);
  int tot = s.pp.back();
  REQ(tot >= 0 && tot <= (int)np.size() && tot <= n, tot > n ? "vertex-twice" : "schedule-shape", "%d scheduled entries for %d vertices", tot, n);
  s.np.assign(np.begin(), np.begin() + tot);
  check_shape(n, levels, s);
  return s;
}
void check_schedule(const Graph& g, const SchedCopy& s) {
  VI lev(g.n), part(g.n), pos(g.n);
  for (int l = 0; l < s.levels; l++)
    for (int q = s.lp[l]; q < s.lp[l + 1]; q++)
      for (int k = s.pp[q]; k < s.pp[q + 1]; k++) { lev[s.np[k]] = l; part[s.np[k]] = q; pos[s.np[k]] = k; }
  for (int v = 0; v < g.n; v++)
    for (int u : g.in[v]) {
      if (lev[u] < lev[v]) continue;
      REQ(lev[u] == lev[v], "dependence-order", "vertex %d (level %d) depends on %d, which is in the later level %d", v, lev[v], u, lev[u]);
      REQ(part[u] == part[v], "dependence-concurrent", "vertex %d depends on %d, both in level %d but in different partitions", v, u, lev[v]);
      REQ(pos[u] < pos[v], "dependence-order", "vertex %d depends on %d, which comes later in the same partition", v, u);
    }
}
void hash_schedule(const SchedCopy& s) {
  for (int x : s.lp) sim::note_hash(x);
  for (int x : s.pp) sim::note_hash(x);
  for (int x : s.np) sim::note_hash(x);
}
bool same_sched(const SchedCopy& a, const SchedCopy& b) { return a.levels == b.levels && a.lp == b.lp && a.pp == b.pp && a.np == b.np; }

// Simulated workers run the schedule: any partition of a level goes to any worker, in any order.
void execute_schedule(const Plan& p, const Graph& g, const SchedCopy& s, const std::vector<VI>*) {
  int W = p.get("workers", 2, 1, 40), mode = p.get("assign", 0, 0, 5);
  uint64_t as = p.get("assignseed", 1);
  double* x = aarr<double>(g.n);
  memcpy(x, g.b.data(), g.n * 8);
  std::vector<char> done(g.n, 0);
  // precompute hand-out: order of partitions per worker (harness side, outside the simulated run)
  struct Lev { std::vector<VI> w; };
  std::vector<Lev> plan(s.levels);
  Rng r(sim::mix(as, mode));
  for (int l = 0; l < s.levels; l++) {
    plan[l].w.resize(W);
    int np = s.lp[l + 1] - s.lp[l];
    VI order(np);
    for (int i = 0; i < np; i++) order[i] = s.lp[l] + i;
    if (mode == 1 || mode == 3) for (int i = np - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
    if (mode == 2) std::reverse(order.begin(), order.end());
    for (int i = 0; i < np; i++) {
      int w = mode == 0 ? (int)((int64_t)i * W / np) : mode == 3 ? (int)r.below(W) : mode == 4 ? 0 : mode == 5 ? W - 1 : i % W;
      plan[l].w[w].push_back(order[i]);
    }
  }
  sim::watch(x, g.n);
  {
    Api api;
    sim::team_run(W, [&](int tid) {
      for (int l = 0; l < s.levels; l++) {
        // a short team still has to do the work of missing workers
        for (int w = tid; w < W; w += sim::team_size())
          for (int q : plan[l].w[w])
            for (int k = s.pp[q]; k < s.pp[q + 1]; k++) {
              int v = s.np[k];
              for (int j = g.rp[v]; j < g.rp[v + 1] - 1; j++) {
                int u = g.ri[j];
                sim::mem_read(&x[u], 8);
                if (!done[u]) violate("early-read", F("worker %d reads x[%d] before it is final (for vertex %d)", tid, u, v));
                x[v] -= g.rx[j] * x[u];
                sim::mem_write(&x[v], 8);
              }
              x[v] /= g.rx[g.rp[v + 1] - 1];
              sim::mem_write(&x[v], 8);
              done[v] = 1;
            }
        sim::team_barrier();
      }
    });
  }
  sim::unwatch();
  REQ(memcmp(x, g.ref.data(), g.n * 8) == 0, "wrong-solution", "parallel execution differs from the serial solve");
}

// Simulated workers run a task graph: a worker takes any task whose predecessors are done, no barriers.
void execute_tasks(const Plan& p, const Graph& g, const VI& gp, const VI& gs, const VI& dp, const VI& ds) {
  int W = p.get("workers", 2, 1, 40), nt = (int)gp.size() - 1, left = nt;
  Rng r(sim::mix(p.get("assignseed", 1), 77));
  double* x = aarr<double>(g.n);
  memcpy(x, g.b.data(), g.n * 8);
  std::vector<char> done(g.n, 0);
  VI pred(nt, 0), ready;
  ready.reserve(nt);
  for (int i = 0; i < nt; i++) for (int k = dp[i]; k < dp[i + 1]; k++) if (ds[k] != i) pred[ds[k]]++;
  for (int i = 0; i < nt; i++) if (!pred[i]) ready.push_back(i);
  {
    Api api;
    sim::team_run(W, [&](int tid) {
      while (left > 0) {
        if (ready.empty()) { sim::yield_point(); continue; }
        int at = r.below(ready.size()), q = ready[at];
        ready[at] = ready.back(); ready.pop_back();
        for (int k = gp[q]; k < gp[q + 1]; k++) {
          int v = gs[k];
          for (int j = g.rp[v]; j < g.rp[v + 1] - 1; j++) {
            int u = g.ri[j];
            sim::mem_read(&x[u], 8);
            if (!done[u]) violate("early-read", F("the task of vertex %d reads x[%d] before it is final", v, u));
            x[v] -= g.rx[j] * x[u];
            sim::mem_write(&x[v], 8);
          }
          x[v] /= g.rx[g.rp[v + 1] - 1];
          sim::mem_write(&x[v], 8);
          done[v] = 1;
        }
        for (int k = dp[q]; k < dp[q + 1]; k++) if (ds[k] != q && --pred[ds[k]] == 0) ready.push_back(ds[k]);
        left--;
      }
    });
  }
  REQ(memcmp(x, g.ref.data(), g.n * 8) == 0, "wrong-solution", "running the task graph gives another result than the serial solve");
}

// a random valid schedule: cut the wavefronts into bands, components of a band are partitions, some merged
SchedCopy valid_schedule(Rng& r, const Graph& g) {
  VI d = depth_levels(g);
  int L = *std::max_element(d.begin(), d.end()) + 1;
  VI cut(L);
  int c = 0;
  int keep = r.below(4);
  for (int i = 0; i < L; i++) { if (i && (keep == 0 || r.below(4) >= (uint64_t)keep)) c++; cut[i] = c; }
  int nb = c + 1;
  VI par(g.n);
  for (int i = 0; i < g.n; i++) par[i] = i;
  std::function<int(int)> fd = [&](int v) { while (par[v] != v) v = par[v] = par[par[v]]; return v; };
  for (int v = 0; v < g.n; v++) for (int u : g.in[v]) if (cut[d[u]] == cut[d[v]]) par[fd(u)] = fd(v);
  SchedCopy s;
  s.levels = nb;
  s.lp.push_back(0); s.pp.push_back(0);
  for (int b = 0; b < nb; b++) {
    std::map<int, VI> comp;
    VI vs;
    for (int v = 0; v < g.n; v++) if (cut[d[v]] == b) comp[fd(v)].push_back(v);
    int maxp = 1 + r.below(comp.size());
    std::vector<VI> parts;
    for (auto& kv : comp) {
      if ((int)parts.size() < maxp) parts.push_back(kv.second);
      else { VI& t = parts[r.below(parts.size())]; t.insert(t.end(), kv.second.begin(), kv.second.end()); }
    }
    if (r.chance(1, 6)) parts.insert(parts.begin() + r.below(parts.size() + 1), VI());
    for (auto& q : parts) { for (int v : q) s.np.push_back(v); s.pp.push_back(s.np.size()); }
    s.lp.push_back(s.pp.size() - 1);
  }
  return s;
}
