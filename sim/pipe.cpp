// From a matrix file to the solution (C27): whole programs like the demos. A matrix is read from the simulated
// disk, reordered, kept in a checkpoint, inspected and solved by one demo after another, by several callers, across
// disk faults, failing allocations, power losses and restarts.
#include <algorithm>
#include <functional>
#include <memory>
#include "aggregation/def.h"
#include "aggregation/utils.h"
#include "aggregation/test_utils.h"
#include "aggregation/FusionDemo.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/metis_interface.h"
#include "aggregation/mmio.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_io.h"
#include "aggregation/sparse_utilities.h"
#include "executor.h"
#include "sptrsv.h"
#include "harness.h"

namespace {
using namespace sym_lib;
enum { K_SERIAL, K_LEVELS, K_LBC_TREE, K_LBC_DAG, K_LBC_SORTED, K_LBC_PAR, K_LBC_DAG2, K_HDAGG, K_TREE_HDAGG, K_TREE_HDAGG_BFS, K_TREE_WAVES, K_WAVES, K_GROUP_WAVES, K_GROUP_LBC, K_COUNT };
const char* KN[] = {"serial", "levelset", "LBC tree", "LBC DAG", "LBC sorted", "LBC parallel", "LBC DAG etree", "HDagg", "tree HDagg", "tree HDagg BFS", "tree wavefront", "wavefront", "grouped wavefront", "grouped LBC"};
typedef std::pair<std::pair<int, int>, double> Ent;  // (row, column), value

// one demo: its inspector and its executor, put together as the library's users do
struct Solver : FusionDemo {
  int kind, lp, cp, ic, cores;
  bool bp, seq, watched;
  int levels = 0, parts = 0, groups = 0, *lptr = nullptr, *pptr = nullptr, *nptr = nullptr;
  std::vector<int> L, P, N, gp, gs, gi;
  Solver(CSR* R, CSC* C, int k, Rng& r, bool w) : FusionDemo(R->n, R->nnz, KN[k]), kind(k), watched(w) {
    L1_csr_ = R; L1_csc_ = C;
    lp = 1 + r.below(6);
    int m = r.below(8);
    cp = m == 0 ? -1 : m == 1 ? 0 : 1 + r.below(5);
    ic = r.chance(1, 4) ? 4000 : 1 + r.below(6);
    if (cp + ic < 1) ic = 1 - cp;
    cores = 1 + r.below(6);
    bp = r.below(2); seq = r.chance(1, 5);
    set_num_test(1 + r.below(2));
  }
  void drop() { delete[] lptr; delete[] pptr; delete[] nptr; lptr = pptr = nptr = nullptr; L.clear(); P.clear(); N.clear(); gp.clear(); gs.clear(); gi.clear(); }
  ~Solver() override { drop(); }
  void group_graph(std::vector<int>& dp, std::vector<int>& ds, bool bfs) {
    std::vector<int> p, s;
    HDAGG::partialSparsification(n_, nnz_, L1_csc_->p, L1_csc_->i, p, s);
    if (bfs) HDAGG::treeBasedGroupingBFS(n_, p, s, groups, gp, gs, false); else HDAGG::treeBasedGrouping(n_, p, s, groups, gp, gs, false);
    HDAGG::buildGroupDAG(n_, groups, gp.data(), gs.data(), p.data(), s.data(), dp, ds);
    if (kind == K_TREE_WAVES) return;
    std::vector<double> cost(groups, 0);
    HDAGG::costComputation(groups, L1_csc_->p, L1_csc_->i, L1_csr_->p, L1_csr_->i, HDAGG::SpTrSv_LL, gp.data(), gs.data(), true, cost);
    HDAGG::HDAGG(groups, dp[groups], dp, ds, cost, cores, levels, L, P, N, false, false, bp);
    if (bfs) HDAGG::ungroupingScheduleAndApplyOrdering(n_, levels, L, P, N, gp, gs, p.data(), s.data(), true, false);
    else HDAGG::ungroupingScheduleAndApplyOrdering(n_, levels, L, P, N, gp, gs);
  }
  void build_set() override {
    drop();
    int n = n_, *C = L1_csc_->p, *I = L1_csc_->i;
    std::vector<double> cost(n);
    for (int i = 0; i < n; i++) cost[i] = L1_csr_->p[i + 1] - L1_csr_->p[i];
    switch (kind) {
      case K_LEVELS: levels = build_levelSet_CSC(n, C, I, lptr, nptr); break;
      case K_WAVES: computingLevelSet_CSC(n, C, I, L, N, levels); break;
      case K_LBC_TREE: get_coarse_levelSet_DAG_CSC_tree(n, C, I, -1, levels, lptr, parts, pptr, nptr, lp, cp, ic, cost.data()); break;
      case K_LBC_DAG: case K_LBC_SORTED: get_coarse_Level_set_DAG_CSC03(n, C, I, levels, lptr, parts, pptr, nptr, lp, cp, ic, cost.data()); break;
      case K_LBC_PAR: get_coarse_Level_set_DAG_CSC03_parallel(n, C, I, levels, lptr, parts, pptr, nptr, lp, cp, ic, cost.data(), bp ? -1 : cores); break;
      case K_LBC_DAG2: get_coarse_levelSet_DAG_CSC(n, C, I, levels, lptr, parts, pptr, nptr, lp, cp, ic, cost.data()); break;
      case K_HDAGG: {
        std::vector<int> dp(C, C + n + 1), ds(I, I + nnz_);
        std::fill(cost.begin(), cost.end(), 0);
        HDAGG::costComputation(n, C, I, L1_csr_->p, L1_csr_->i, HDAGG::SpTrSv_LL, NULL, NULL, false, cost);
        HDAGG::HDAGG(n, nnz_, dp, ds, cost, cores, levels, L, P, N, false, false, bp);
        break;
      }
      case K_TREE_HDAGG: case K_TREE_HDAGG_BFS: { std::vector<int> dp, ds; group_graph(dp, ds, kind == K_TREE_HDAGG_BFS); break; }
      case K_TREE_WAVES: {
        std::vector<int> dp, ds;
        group_graph(dp, ds, false);
        computingLevelSet_CSC(groups, dp.data(), ds.data(), L, N, levels);
        for (int g = 0; g < groups; g++) std::sort(gs.data() + gp[g], gs.data() + gp[g + 1]);
        break;
      }
      case K_GROUP_WAVES: case K_GROUP_LBC: {
        gp.assign(n + 1, 0); gs.assign(n, 0); gi.assign(n, 0);
        group g(n, L1_csr_->p, L1_csr_->i);
        g.inspection_sptrsvcsr_v1(gp.data(), gs.data(), groups, gi.data());
        std::vector<std::vector<int>> D(groups);
        fs_csr_inspector_dep(groups, gp.data(), gs.data(), gi.data(), L1_csr_->p, L1_csr_->i, D);
        std::vector<int> v, e;
        for (int k = 0; k < groups; k++) {
          D[k].erase(std::unique(D[k].begin(), D[k].end()), D[k].end());
          v.push_back(e.size());
          e.push_back(k);
          e.insert(e.end(), D[k].begin(), D[k].end());
        }
        v.push_back(e.size());
        if (kind == K_GROUP_WAVES) {
          lptr = new int[n + 1](); nptr = new int[n]();
          levels = buildLevelSet_CSC_Queue(groups, 0, v.data(), e.data(), lptr, nptr);
        } else {
          std::vector<double> gc(groups, 0);
          for (int k = 0; k < groups; k++) for (int j = gp[k]; j < gp[k + 1]; j++) gc[k] += cost[gs[j]];
          get_coarse_Level_set_DAG_CSC03(groups, v.data(), e.data(), levels, lptr, parts, pptr, nptr, lp, cp, ic, gc.data());
        }
        break;
      }
    }
    if (kind == K_LBC_SORTED) for (int k = 0; k < lptr[levels]; k++) std::sort(nptr + pptr[k], nptr + pptr[k + 1]);
  }
  timing_measurement fused_code() override {
    timing_measurement t;
    int n = n_, *R = L1_csr_->p, *J = L1_csr_->i, *l = lptr ? lptr : L.data(), *q = pptr ? pptr : P.data(), *v = nptr ? nptr : N.data();
    double *X = L1_csr_->x, *x = x_in_;
    if (watched) { sim::Host h; sim::watch(x, n); }
    t.start_timer();
    switch (kind) {
      case K_SERIAL: sptrsv_csr(n, R, J, X, x); break;
      case K_LEVELS: if (seq) sptrsv_csr_levelset_seq(n, R, J, X, x, levels, l, v); else sptrsv_csr_levelset(n, R, J, X, x, levels, l, v); break;
      case K_WAVES: sptrsv_csr_levelset(n, R, J, X, levels, l, v, x); break;
      case K_TREE_WAVES: sptrsv_csr_group_levelset(R, J, X, x, levels, l, v, gp.data(), gs.data()); break;
      case K_GROUP_WAVES: fs_csr_executor_sgroup(n, R, J, X, x, x, gp.data(), gs.data(), groups, levels, l, v); break;
      case K_GROUP_LBC: sptrsv_csr_group_lbc(n, R, J, X, x, levels, l, q, v, gp.data(), gs.data()); break;
      default: if (seq) sptrsv_csr_lbc_seq(n, R, J, X, x, levels, l, q, v); else sptrsv_csr_lbc(n, R, J, X, x, levels, l, q, v); break;
    }
    t.measure_elapsed_time();
    if (watched) { sim::Host h; sim::unwatch(); }
    copy_vector(0, n, x, x_);
    return t;
  }
};

struct Crash {};
struct Job {
  int id = 0, n = 0;
  std::string in, ck, text;
  std::vector<Ent> low;  // the matrix as it was measured, lower triangle
  VI to;                 // where the ordering puts each vertex; empty before the first ordering
  bool order = false, ckpt = false, alone = false;
  std::vector<int> kinds;
  uint64_t seed = 0;
  std::string cktext;  // what a complete checkpoint holds
  int solved = 0;
  int64_t left = 0;
};
double value(uint64_t seed, int u, int v) {
  uint64_t h = sim::mix(sim::mix(seed, u), v);
  double f = h % 3 ? 0 : (double)(h >> 20) / 3e16;  // some need every digit
  return strtod(F("%.16g", u == v ? 1.0 + (h % 64) / 64.0 + f : ((double)(h % 129) - 64) / 256.0 + f).c_str(), nullptr);  // as many as the format keeps
}
std::vector<Ent> placed(const Job& j) {
  std::vector<Ent> r;
  for (auto& e : j.low) {
    int a = e.first.first, b = e.first.second;
    if (!j.to.empty()) { a = j.to[a]; b = j.to[b]; }
    r.push_back({{std::max(a, b), std::min(a, b)}, e.second});
  }
  std::sort(r.begin(), r.end());
  return r;
}
std::vector<Ent> entries(size_t n, const int* p, const int* i, const double* x, bool rows, const char* what) {
  read_ok(p, (n + 1) * 4, what);
  REQ(p[0] == 0 && p[n] >= 0, "wrong-matrix", "%s has pointers %d..%d", what, p[0], p[n]);
  for (size_t c = 0; c < n; c++) REQ(p[c] <= p[c + 1], "wrong-matrix", "the pointers of %s fall at %zu", what, c);
  read_ok(i, p[n] * 4, what);
  read_ok(x, p[n] * 8, what);
  std::vector<Ent> r;
  for (int c = 0; c < (int)n; c++) for (int k = p[c]; k < p[c + 1]; k++) r.push_back({rows ? std::make_pair(c, i[k]) : std::make_pair(i[k], c), x[k]});
  std::sort(r.begin(), r.end());
  return r;
}
bool same_matrix(const std::vector<Ent>& want, const std::vector<Ent>& got, std::string& why) {
  for (size_t k = 0; k < std::max(want.size(), got.size()); k++) {
    if (k >= got.size()) { why = F("entry (%d,%d) is missing", want[k].first.first, want[k].first.second); return false; }
    if (k >= want.size() || want[k] != got[k]) { why = F("entry (%d,%d) is %.17g%s", got[k].first.first, got[k].first.second, got[k].second, k < want.size() ? F(", (%d,%d) of %.17g belongs there", want[k].first.first, want[k].first.second, want[k].second).c_str() : ""); return false; }
  }
  return true;
}
// the serial answer for a right-hand side of ones, and how far rounding in another order of the sums may lead
void answer(const Job& j, std::vector<double>& x, std::vector<double>& tol) {
  std::vector<std::vector<std::pair<int, double>>> row(j.n);
  for (auto& e : placed(j)) row[e.first.first].push_back({e.first.second, e.second});
  x.assign(j.n, 1); tol.assign(j.n, 0);
  for (int i = 0; i < j.n; i++) {
    double u = 4.5e-16 * (row[i].size() + 2), err = u;
    for (auto& c : row[i]) if (c.first < i) { x[i] -= c.second * x[c.first]; err += std::fabs(c.second) * (tol[c.first] + u * std::fabs(x[c.first])); }
    double d = row[i].back().second;
    x[i] /= d;
    tol[i] = err / std::fabs(d) + u * std::fabs(x[i]);
  }
}
std::string text_of(Job& j, Rng& r) {
  std::vector<Ent> t = j.low;
  int how = r.below(3);
  if (how == 1) std::sort(t.begin(), t.end());
  else if (how == 2) for (size_t k = t.size(); k > 1; k--) std::swap(t[k - 1], t[r.below(k)]);
  std::string s = "%%MatrixMarket matrix coordinate real symmetric\n";
  if (r.chance(1, 3)) s += "% measured on the rig\n";
  s += F("%d %d %zu\n", j.n, j.n, t.size());
  for (auto& e : t) s += F("%d %d %.17g\n", e.first.first + 1, e.first.second + 1, e.second);
  return s;
}

// one life of the program. False: it refused to go on
struct Bag {  // what it holds
  CSC *A = nullptr, *L = nullptr, *full = nullptr, *half = nullptr, *Lt = nullptr;
  CSR* R = nullptr;
  int* perm = nullptr;
  Solver* s = nullptr;
  void drop() { Api a; delete s; delete R; delete A; delete L; delete full; delete half; delete Lt; delete[] perm; *this = Bag(); }
};
bool life(Job& j, Bag& b) {
  Rng r(j.seed);
  auto& d = sim::g_disk;
  std::string why;
  // the checkpoint of an earlier life
  if (j.ckpt && d.files.count(j.ck)) {
    { Api a; b.L = read_mtx(j.ck); }
    if (b.L) {
      REQ((int)b.L->n == j.n && (int)b.L->m == j.n, "wrong-checkpoint", "the checkpoint reads as a matrix of %zu x %zu, it was %d", b.L->m, b.L->n, j.n);
      bool same = same_matrix(placed(j), entries(j.n, b.L->p, b.L->i, b.L->x, false, "the checkpoint"), why);
      const std::string& t = d.files[j.ck].data;
      // nobody can tell a cut inside the digits of the last value
      bool cut = !same && !t.empty() && t.back() != '\n';
      REQ(same || cut, "wrong-checkpoint", "a damaged checkpoint was read as a matrix: %s", why.c_str());
      sim::probe(same ? "checkpoint-used" : "checkpoint-cut-in-value");
      if (!same) { Api a; delete b.L; b.L = nullptr; }
    } else sim::probe("checkpoint-refused");
  }
  if (!b.L) {
    { Api a; b.A = read_mtx(j.in); }
    if (!b.A) return false;
    REQ((int)b.A->n == j.n && (int)b.A->m == j.n, "wrong-matrix", "the file reads as a matrix of %zu x %zu, it is %d", b.A->m, b.A->n, j.n);
    { Job q = j; q.to.clear(); REQ(same_matrix(placed(q), entries(j.n, b.A->p, b.A->i, b.A->x, false, "the matrix"), why), "wrong-matrix", "the file was misread: %s", why.c_str()); }
    if (j.order) {
      int rc;
      { Api a; b.full = make_full(b.A); rc = metis_perm_general(b.full, b.perm); }
      if (rc != 1) return false;  // METIS_OK
      read_ok(b.perm, j.n * 4, "the ordering");
      VI to(j.n, -1);
      for (int k = 0; k < j.n; k++) { int v = b.perm[k]; REQ(v >= 0 && v < j.n && to[v] < 0, "wrong-ordering", "place %d of the ordering holds %d", k, v); to[v] = k; }
      j.to = to;
      {
        Api a;
        b.half = make_half(b.full->n, b.full->p, b.full->i, b.full->x);
        b.Lt = transpose_symmetric(b.half, b.perm);
        b.L = transpose_symmetric(b.Lt, NULLPNTR);
      }
    } else {
      // a file may list its entries in any order, the inspectors want every column in order: two transpositions
      Api a;
      b.Lt = transpose_symmetric(b.A, NULLPNTR);
      b.L = transpose_symmetric(b.Lt, NULLPNTR);
    }
    if (j.ckpt) {
      VI I, C;
      std::vector<double> V;
      for (auto& e : entries(j.n, b.L->p, b.L->i, b.L->x, false, "the reordered matrix")) { I.push_back(e.first.first + 1); C.push_back(e.first.second + 1); V.push_back(e.second); }
      std::vector<char> nm(j.ck.begin(), j.ck.end());
      nm.push_back(0);
      int *pi = acopy(I), *pc = acopy(C), rc;
      double* pv = acopy(V);
      MM_typecode mc;
      mm_initialize_typecode(&mc); mm_set_matrix(&mc); mm_set_coordinate(&mc); mm_set_real(&mc); mm_set_symmetric(&mc);
      { Api a; rc = mm_write_mtx_crd(nm.data(), j.n, j.n, V.size(), pi, pc, pv, mc); }
      if (d.crashed) throw Crash();
      if (rc) { sim::probe("checkpoint-failed"); d.files.erase(j.ck); }  // the program knows, and goes on without it
    }
  }
  REQ(same_matrix(placed(j), entries(j.n, b.L->p, b.L->i, b.L->x, false, "the reordered matrix"), why), "wrong-matrix", "the reordered matrix is another one: %s", why.c_str());
  { Api a; b.R = csc_to_csr(b.L); }
  if (!b.R) return false;
  std::vector<Ent> cols = entries(j.n, b.L->p, b.L->i, b.L->x, false, "the matrix"), rows = entries(j.n, b.R->p, b.R->i, b.R->x, true, "the matrix by rows");
  REQ(same_matrix(placed(j), rows, why), "wrong-matrix", "the matrix by rows is another one: %s", why.c_str());
  std::vector<double> want, tol;
  answer(j, want, tol);
  for (int k : j.kinds) {
    { Api a; b.s = new Solver(b.R, b.L, k, r, j.alone); }
    int evals = r.chance(1, 5) ? 2 : 1;
    for (int e = 0; e < evals; e++) {
      { Api a; b.s->evaluate(); }
      double* x = b.s->solution();
      read_ok(x, j.n * 8, "the solution");
      for (int v = 0; v < j.n; v++)
        REQ(x[v] == want[v] || std::fabs(x[v] - want[v]) <= tol[v], "wrong-solution", "%s: x[%d] = %.17g, the serial solve gives %.17g", KN[k], v, x[v], want[v]);
      sim::note_hash(k);
    }
    { Api a; delete b.s; b.s = nullptr; }
    if (j.alone && d.crashed) throw Crash();
  }
  REQ(same_matrix(cols, entries(j.n, b.L->p, b.L->i, b.L->x, false, "the matrix"), why) && same_matrix(rows, entries(j.n, b.R->p, b.R->i, b.R->x, true, "the matrix by rows"), why), "inputs-changed", "the matrix changed under the demos: %s", why.c_str());
  j.solved++;
  return true;
}
enum { T_DONE, T_REFUSED, T_OOM, T_CRASH };
int attempt(Job& j) {
  Bag b;
  int64_t live = sim::live_blocks();
  try {
    bool ok = life(j, b);
    b.drop();
    j.left = sim::live_blocks() - live;
    return ok ? T_DONE : T_REFUSED;
  } catch (const std::bad_alloc&) { return T_OOM; }
  catch (const Crash&) { return T_CRASH; }
}
void gen_pipe(Rng& r, Plan& p) {
  bool many = r.chance(1, 5);
  gen_graph(r, p, many ? 30 : r.chance(1, 12) ? 300 : 70);
  gen_sched(r, p, many ? 3 : 8);
  if (many) p.cfg.threads = std::min(p.cfg.threads, 6);
  p.p["jseed"] = r.below(1 << 30);
  p.p["ncall"] = many ? 2 + r.below(2) : 1;
  p.p["order"] = r.chance(1, 2);
  p.p["ckpt"] = r.chance(1, 3);
  p.p["demos"] = 1 + r.below(4);
  p.p["fault"] = r.below(8);
  p.p["fseed"] = r.below(1 << 30);
  p.p["large"] = r.chance(1, 2) ? -1 : (int)r.below(30);
  p.cfg.fill = r.below(4);
  p.cfg.mem_strict = true;
  p.cfg.ro_strict = true;
  if (p.n > 100) p.cfg.budget = 2000000000;
}
Job make_job(const Plan& p, int id) {
  Job j;
  j.id = id;
  j.n = p.n;
  j.seed = sim::mix(p.get("jseed"), id);
  Rng r(j.seed);
  j.in = F("in%d.mtx", id); j.ck = F("ordered%d.mtx", id);
  for (int v = 0; v < p.n; v++) j.low.push_back({{v, v}, value(j.seed, v, v)});
  for (auto& e : p.e) if (id == 0 || r.chance(3, 4)) j.low.push_back({{e.second, e.first}, value(j.seed, e.first, e.second)});
  std::sort(j.low.begin(), j.low.end(), [](const Ent& a, const Ent& b) { return std::make_pair(a.first.second, a.first.first) < std::make_pair(b.first.second, b.first.first); });
  j.order = p.get("order"); j.ckpt = p.get("ckpt");
  int k = p.get("demos", 1, 1, 6);
  while (k--) j.kinds.push_back(r.below(K_COUNT));
  j.text = text_of(j, r);
  return j;
}
void body_pipe(const Plan& p) {
  auto& d = sim::g_disk;
  int nc = p.get("ncall", 1, 1, 3), f = p.get("fault", 0, 0, 7);
  sym_sim_large_partition = p.get("large", -1) < 0 ? 250000 : p.get("large");
  std::vector<Job> js;
  for (int i = 0; i < nc; i++) { js.push_back(make_job(p, i)); js[i].alone = nc == 1; d.files[js[i].in].data = js[i].text; }
  Rng r((uint64_t)p.get("fseed"));
  if (nc > 1) {
    // several users at the same time
    std::vector<int> out(nc, -1);
    if (f == 1) sim::arm_alloc_fault(sim::alloc_count() + r.logu(2000), false);
    std::vector<std::function<void()>> b;
    sim::track_callers(true);
    for (int i = 0; i < nc; i++) { Job* j = &js[i]; int* o = &out[i]; b.push_back([j, o] { *o = attempt(*j); }); }
    sim::spawn_callers(b);
    sim::track_callers(false);
    bool fired = sim::alloc_fault_fired();
    sim::arm_alloc_fault(-1, false);
    int lost = 0;
    for (int i = 0; i < nc; i++) lost += out[i] != T_DONE;
    REQ(lost <= fired, "refused-without-cause", "%d of %d users got no solution%s", lost, nc, fired ? ", one allocation failed" : "");
    for (auto& j : js) if (!j.solved) REQ(attempt(j) == T_DONE, "no-recovery", "the program refuses the matrix after an earlier failure");
  } else {
    Job& j = js[0];
    int lives = 1 + r.below(3), o = -1;
    for (int k = 0; k < lives; k++) {
      d.fault = sim::DiskFault();
      d.written = 0; d.crash_at_byte = -1; d.crashed = false;
      uint64_t ops = d.f_open + d.f_eio + d.f_enospc;
      int64_t size = j.text.size(), handles = d.open_handles;
      if (r.chance(1, 3)) d.fault.short_io = 1 + r.logu(60);
      d.fault.fail_once = r.chance(1, 2);
      switch (f) {
        case 1: case 2: sim::arm_alloc_fault(sim::alloc_count() + r.logu(r.chance(1, 2) ? 60 : 3000) - 1, r.chance(1, 3)); break;
        case 3: d.fault.eio_at = r.below(size + 1); break;
        case 4: d.fault.open_errno = r.chance(1, 2) ? EACCES : EMFILE; break;
        case 5: if (j.ckpt) d.crash_at_byte = r.below(2 * size); break;
        case 6: if (j.ckpt) d.fault.enospc_at = r.below(size + 1); break;
      }
      o = attempt(j);
      bool fired = sim::alloc_fault_fired() || d.f_open + d.f_eio + d.f_enospc > ops;
      sim::arm_alloc_fault(-1, false);
      sim::probe(o == T_DONE ? "solved" : o == T_REFUSED ? "refused" : o == T_OOM ? "out-of-memory" : "power-loss");
      if (o == T_REFUSED || o == T_OOM) REQ(fired, "refused-without-cause", "a good matrix was refused");
      if (o == T_DONE && !fired && j.left) {  // the library may keep something once
        d.fault = sim::DiskFault(); d.crash_at_byte = -1; d.crashed = false;
        o = attempt(j);
      }
      if (o == T_DONE && !fired) REQ(j.left == 0, "leak", "the program gave everything back, %ld blocks are still taken", (long)j.left);
      REQ(o == T_CRASH || o == T_OOM || d.open_handles == handles, "file-left-open", "%d more file(s) are open", (int)(d.open_handles - handles));
      if (o == T_CRASH) {  // what was in the caches may be lost
        d.open_handles = 0;
        auto it = d.files.find(j.ck);
        if (it != d.files.end() && r.chance(1, 3)) {
          std::string& t = it->second.data;
          t.resize(r.below(t.size() + 1));
          if (r.chance(1, 2)) t.resize(t.rfind('\n') + 1);  // whole lines only
        }
      }
    }
    d.fault = sim::DiskFault();
    d.crash_at_byte = -1; d.crashed = false;
    if (o != T_DONE || r.chance(1, 3)) REQ(attempt(j) == T_DONE, "no-recovery", "the program refuses the matrix after an earlier failure");
  }
  for (auto& j : js) REQ(d.files[j.in].data == j.text, "inputs-changed", "the matrix file was changed");
}
bool accept_pipe(const Plan& p, const sim::RunRes& r) {
  if (r.outcome == sim::O_EXIT && r.exit_code != 0) return r.f_alloc || p.get("fault") == 3 || p.get("fault") == 4 || (p.get("fault") == 5 && p.get("ckpt"));  // a cut size line
  if (!r.f_alloc) return false;
  return r.outcome == sim::O_TERMINATE || (r.outcome == sim::O_CRASH && r.msg.find("null pointer") != std::string::npos);
}
}  // namespace
void add_pipe(std::vector<Scenario>& v) { v.push_back({"pipeline", gen_pipe, body_pipe, accept_pipe}); }
void add_pipe_props(std::vector<PropEntry>& t) {
  t.push_back({"C27", "pipeline", "omp", 2});
  t.push_back({"C27", "pipeline", "seq", 1});
}
