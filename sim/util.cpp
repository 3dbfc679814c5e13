// Matrix, tree and partition utilities: the real routines against textbook references.
#include <map>
#include "harness.h"
#include <fcntl.h>
#include <unistd.h>
#include <metis.h>
#include "aggregation/BCSCMatrix.h"
#include "aggregation/utils.h"
#include "aggregation/FusionDemo.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
#include "aggregation/sparse_io.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/amd.h"
#include "aggregation/lfactor_creation.h"
#include "aggregation/metis_interface.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/test_utils.h"
#include "aggregation/utils.h"

namespace sym_lib { __attribute__((weak)) CSC *permute_general(const CSC *A, const int *pinv, const int *q); }  // in no header, so it may go away

namespace {
using namespace sym_lib;

struct M {  // a compressed matrix: n columns (or rows) of entries with an index below m
  int m = 0, n = 0;
  VI p{0}, i;
  std::vector<double> x;
};
typedef std::vector<std::pair<std::pair<int, int>, double>> Trip;  // sorted ((index, column), value)
Trip trip(const M& a) {
  Trip t;
  for (int c = 0; c < a.n; c++) for (int k = a.p[c]; k < a.p[c + 1]; k++) t.push_back({{a.i[k], c}, a.x.empty() ? 0. : a.x[k]});
  std::sort(t.begin(), t.end());
  return t;
}
Trip flip(Trip t) {
  for (auto& e : t) std::swap(e.first.first, e.first.second);
  std::sort(t.begin(), t.end());
  return t;
}
double uval(uint64_t s, int r, int c) { return (double)((int64_t)(sim::mix(s, (uint64_t)r * 100003 + c) % 2001) - 1000) / 64.0 + (r == c ? 40 : 0.25); }

// kinds: 0 lower triangular with diagonal, 1 upper triangular with diagonal, 2 square, 3 rectangular, 4 lower, gaps
M make(const Plan& p, const Graph& g, int kind, int extra_rows = 0) {
  M a;
  int n = g.n;
  uint64_t s = p.get("valseed", 7);
  Rng r(sim::mix(p.get("mseed", 1), kind));
  a.n = n; a.m = n;
  if (kind == 3) {
    int d = p.get("rect", 0, -400, 400);
    a.m = std::max(1, n + d);
  }
  std::vector<VI> col(n);
  for (int v = 0; v < n; v++) {
    if (kind == 0 || kind == 1) col[v].push_back(v);
    if (kind == 2 && r.chance(3, 4)) col[v].push_back(v);
    for (int w : g.out[v]) {
      if (kind == 0 || kind == 4) col[v].push_back(w);
      else if (kind == 1) col[w].push_back(v);
      else if (kind == 2) { int c = r.below(3); if (c != 1) col[v].push_back(w); if (c) col[w].push_back(v); }
      else { col[v].push_back(w % a.m); if (r.chance(1, 4)) col[w].push_back(v % a.m); }
    }
  }
  int ord = p.get("mord", 0, 0, 2);
  for (int v = 0; v < n; v++) {
    VI& c = col[v];
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    if (ord) for (int k = (int)c.size() - 1; k > 0; k--) std::swap(c[k], c[r.below(k + 1)]);
    for (int w : c) { a.i.push_back(w); a.x.push_back(kind == 1 ? uval(s, v, w) : uval(s, w, v)); }
    a.p.push_back(a.i.size());
  }
  return a;
}

struct Util : Insp {
  Plan p;
  Graph g;
  Util(const Plan& q) : p(q), g(make_graph(q)) {}
  // what the routine returned, copied out of the simulated heap
  struct Res { bool null = false; M m; int stype = 0; };
  static M grab(int m, int n, const int* P, const int* I, const double* X) {
    M r;
    r.m = m; r.n = n;
    read_ok(P, (n + 1) * sizeof(int), "pointer array");
    int nnz = P[n];
    REQ(P[0] == 0 && nnz >= 0 && nnz < (1 << 24), "conversion-shape", "pointers run from %d to %d", P[0], nnz);
    for (int c = 0; c < n; c++) REQ(P[c] <= P[c + 1], "conversion-shape", "pointer %d decreases from %d to %d", c, P[c], P[c + 1]);
    read_ok(I, nnz * sizeof(int), "index array");
    r.p.assign(P, P + n + 1);
    if (nnz) r.i.assign(I, I + nnz);
    for (int k : r.i) REQ(k >= 0 && k < m, "conversion-shape", "index %d outside %d", k, m);
    if (X) { read_ok(X, nnz * sizeof(double), "value array"); r.x.assign(X, X + nnz); }
    return r;
  }
  static M grab(const CSC* a) { return grab(a->m, a->n, a->p, a->i, a->is_pattern ? nullptr : a->x); }
  static void put(Out& o, const M& m) { o.a.push_back(m.p); o.a.push_back(m.i); o.d.insert(o.d.end(), m.x.begin(), m.x.end()); }
  static M get(const Out& o, size_t at, int m, bool vals = true, size_t dat = 0) {
    M r;
    r.m = m; r.p = o.a[at]; r.i = o.a[at + 1]; r.n = (int)r.p.size() - 1;
    if (vals) r.x.assign(o.d.begin() + dat, o.d.begin() + dat + r.i.size());
    return r;
  }
  static void same(const Trip& want, const M& got, const char* what) {
    Trip t = trip(got);
    REQ(t.size() == want.size(), "conversion-wrong", "%s has %zu entries, not %zu", what, t.size(), want.size());
    for (size_t k = 0; k < t.size(); k++)
      REQ(t[k] == want[k], "conversion-wrong", "%s has (%d,%d)=%g where (%d,%d)=%g belongs", what, t[k].first.first, t[k].first.second, t[k].second, want[k].first.first, want[k].first.second, want[k].second);
  }
  static Trip nov(Trip t) { for (auto& e : t) e.second = 0; std::sort(t.begin(), t.end()); return t; }
  // the matrix as an argument: arrays read-only in the simulated heap
  static CSC* arg(const M& a, bool pat, int stype) {
    CSC* c = pat ? new CSC(a.m, a.n, a.i.size(), acopy(a.p), acopy(a.i), stype) : new CSC(a.m, a.n, a.i.size(), acopy(a.p), acopy(a.i), acopy(a.x));
    c->stype = stype;
    return c;
  }
};
void gen_mat(Rng& r, Plan& p) {
  p.p["mseed"] = r.below(1 << 20);
  p.p["mord"] = r.below(3);
  p.p["rect"] = r.chance(1, 2) ? (int)r.below(9) - 4 : (int)r.below(61) - 30;
  p.p["mk"] = r.below(5);
  p.p["pat"] = r.below(2);
  p.p["st"] = r.below(2);
}

// csc_to_csr, csr_to_csc (arrays and objects)
struct Conv : Util {
  M a;
  CSC* A;
  CSR* R;
  bool pat;
  Conv(const Plan& q) : Util(q), a(make(q, g, q.get("mk", 2, 0, 4))), pat(q.get("pat")) {
    A = arg(a, pat, 0);
    R = new CSR(a.n, a.m, a.i.size(), A->p, A->i, 0);  // the same arrays read as rows
    R->x = acopy(a.x);
    R->is_pattern = false;
  }
  ~Conv() { delete A; delete R; }
  Out run() override {
    Out o;
    int *P = 0, *I = 0, *P2 = 0, *I2 = 0; double *X = 0, *X2 = 0;
    int* ap = A->p; int* ai = A->i; double* ax = R->x;
    CSR* B; CSC* C;
    { Api s; csc_to_csr(a.m, a.n, ap, ai, ax, P, I, X); }
    put(o, grab(a.n, a.m, P, I, X));
    { Api s; csr_to_csc(a.n, a.m, ai, ap, ax, P2, I2, X2); }
    put(o, grab(a.n, a.m, P2, I2, X2));
    { Api s; B = csc_to_csr(A); }
    REQ((int)B->m == a.m && (int)B->n == a.n, "conversion-shape", "%zu x %zu instead of %d x %d", B->m, B->n, a.m, a.n);
    put(o, grab(a.n, a.m, B->p, B->i, pat ? nullptr : B->x));
    { Api s; C = csr_to_csc(R); }
    REQ((int)C->m == a.n && (int)C->n == a.m, "conversion-shape", "%zu x %zu instead of %d x %d", C->m, C->n, a.n, a.m);
    REQ(C->nnz == a.i.size(), "conversion-shape", "%zu entries instead of %zu", C->nnz, a.i.size());
    put(o, grab(C));
    { Api s; delete B; delete C; for (int* q : {P, I, P2, I2}) delete[] q; delete[] X; delete[] X2; }
    return o;
  }
  void check(const Out& o) override {
    size_t z = a.i.size();
    Trip w = flip(trip(a));
    same(w, get(o, 0, a.n, true, 0), "csc_to_csr");
    same(w, get(o, 2, a.n, true, z), "csr_to_csc");
    if (pat) same(nov(w), get(o, 4, a.n, false), "csc_to_csr of a matrix");
    else same(w, get(o, 4, a.n, true, 2 * z), "csc_to_csr of a matrix");
    same(w, get(o, 6, a.n, true, pat ? 2 * z : 3 * z), "csr_to_csc of a matrix");
  }
};
// transpose_general, copy_sparse, sparse2dense, counters
struct Trans : Util {
  M a;
  CSC* A;
  bool pat;
  CSC* V;
  Trans(const Plan& q) : Util(q), a(make(q, g, q.get("mk", 2, 0, 4))), pat(q.get("pat")) { A = arg(a, pat, 0); V = arg(a, false, 0); }
  ~Trans() { delete A; delete V; }
  Out run() override {
    Out o;
    CSC *T, *C;
    { Api s; T = transpose_general(A); }
    REQ(T && (int)T->m == a.n && (int)T->n == a.m && T->is_pattern == pat, "conversion-shape", "the transpose of a %d x %d matrix", a.m, a.n);
    put(o, grab(T));
    { Api s; C = copy_sparse(V); }
    REQ((int)C->m == a.m && (int)C->n == a.n, "conversion-shape", "the copy of a %d x %d matrix", a.m, a.n);
    put(o, grab(C));
    CSC* K; CSR *R, *Q;
    { Api s; K = new CSC(a.m, a.n, a.i.size()); R = new CSR(a.n, a.m, a.i.size()); Q = new CSR(a.n, a.m, a.i.size()); }
    // the caller's arrays hold something else before
    for (int c = 0; c <= a.n; c++) K->p[c] = R->p[c] = c % 3;
    memcpy(Q->p, a.p.data(), (a.n + 1) * 4);
    if (!a.i.empty()) { memcpy(Q->i, a.i.data(), a.i.size() * 4); memcpy(Q->x, a.x.data(), a.i.size() * 8); }
    { Api s; copy_from_to(V, K); copy_from_to(Q, R); }
    put(o, grab(K)); put(o, grab(a.m, a.n, R->p, R->i, R->x));
    { Api s; delete K; delete R; delete Q; }
    double* D = aarr<double>((size_t)a.m * a.n);
    double* cnt = aarr<double>(a.n);
    int e; bool v = false;
    { Api s; sparse2dense(V, D); e = number_empty_col(A); compute_nnz_per_col(A, cnt); }
    if (a.i.size() && a.m == a.n) { bool full = true; for (int c = 0; c < a.n; c++) full = full && a.p[c] < a.p[c + 1]; if (full) { Api s; v = verify_csc_diagonal(A); } }
    o.d.insert(o.d.end(), D, D + (size_t)a.m * a.n);
    o.d.insert(o.d.end(), cnt, cnt + a.n);
    o.a.push_back(VI{e, v});
    { Api s; delete T; delete C; }
    return o;
  }
  void check(const Out& o) override {
    size_t z = a.i.size(), at = pat ? 0 : z;
    Trip t = trip(a), w = flip(t);
    same(pat ? nov(w) : w, get(o, 0, a.n, !pat), "transpose_general");
    same(t, get(o, 2, a.m, true, at), "copy_sparse");
    REQ(get(o, 2, a.m, false).i == a.i, "conversion-wrong", "the copy has its entries in another order");
    same(t, get(o, 4, a.m, true, at + z), "copy_from_to");
    same(t, get(o, 6, a.m, true, at + 2 * z), "copy_from_to (rows)");
    at += 3 * z;
    std::vector<double> D((size_t)a.m * a.n, 0.);
    int empty = 0; bool first = a.m == a.n && z;
    for (int c = 0; c < a.n; c++) {
      if (a.p[c] == a.p[c + 1]) { empty++; first = false; }
      else if (a.i[a.p[c]] != c) first = false;
      for (int k = a.p[c]; k < a.p[c + 1]; k++) D[(size_t)c * a.m + a.i[k]] = a.x[k];
      REQ(o.d[at + D.size() + c] == a.p[c + 1] - a.p[c], "conversion-wrong", "column %d has %d entries, reported %g", c, a.p[c + 1] - a.p[c], o.d[at + D.size() + c]);
    }
    REQ(!memcmp(D.data(), &o.d[at], D.size() * 8), "conversion-wrong", "the dense matrix differs");
    REQ(o.a[8][0] == empty, "conversion-wrong", "%d empty columns reported, %d exist", o.a[8][0], empty);
    REQ((bool)o.a[8][1] == first, "conversion-wrong", "verify_csc_diagonal answers %d", o.a[8][1]);
  }
};
// halves, the full matrix, symmetric transposes and permutations
struct Sym : Util {
  M half, gen;
  CSC *A, *G;
  bool up;
  VI perm;
  int* P;
  int badat;
  Sym(const Plan& q) : Util(q), up(q.get("st")) {
    half = make(q, g, up ? 1 : 0);
    gen = make(q, g, 2);
    A = arg(half, false, up ? 1 : -1);
    G = arg(gen, false, 0);
    perm.resize(g.n);
    for (int k = 0; k < g.n; k++) perm[k] = k;
    Rng r(sim::mix(q.get("mseed", 1), 5));
    if (q.get("pat")) for (int k = g.n - 1; k > 0; k--) std::swap(perm[k], perm[r.below(k + 1)]);
    P = acopy(perm);
    badat = r.below(g.n);
  }
  ~Sym() { delete A; delete G; }
  Out run() override {
    Out o;
    CSC *FU, *T, *Q, *L, *U, *S, *S2;
    { Api s; FU = make_full(A); }
    REQ(FU, "conversion-shape", "make_full refused a symmetric matrix");
    REQ(FU->nnz == (size_t)FU->p[g.n], "conversion-shape", "make_full reports %zu entries for %d", FU->nnz, FU->p[g.n]);
    put(o, grab(FU));
    { Api s; T = transpose_symmetric(A, nullptr); Q = transpose_symmetric(A, P); }
    REQ(T && Q, "conversion-shape", "transpose_symmetric refused a symmetric matrix");
    REQ(T->stype == -A->stype && Q->stype == -A->stype, "conversion-shape", "transpose_symmetric keeps the half it came from");
    put(o, grab(T)); put(o, grab(Q));
    // not permutations: refused
    if (sim::caller_id() == 0) {
      int64_t live = sim::live_blocks();
      for (int b : {-1, g.n, perm[g.n > 1 ? (badat + 1) % g.n : 0]}) {
        if (g.n == 1 && b == 0) continue;
        VI v(perm);
        v[badat] = b;
        int* bp = acopy(v);
        CSC* X;
        { Api s; X = transpose_symmetric(A, bp); }
        REQ(!X, "bad-permutation", "transpose_symmetric took %d at %d of a permutation of %d", b, badat, g.n);
      }
      REQ((int64_t)sim::live_blocks() == live, "conversion-leak", "transpose_symmetric kept %ld blocks", (long)(sim::live_blocks() - live));
    }
    { Api s; L = make_half(gen.n, G->p, G->i, G->x, true); U = make_half(gen.n, G->p, G->i, G->x, false); }
    put(o, grab(L)); put(o, grab(U));
    bool low = p.get("pat");
    { Api s; S = make_symmetric(G, low); }
    REQ(S && S->stype == (low ? -1 : 1), "conversion-shape", "make_symmetric");
    put(o, grab(S));
    { Api s; S2 = make_symmetric(A, up); }  // the other half
    REQ(S2 && S2->stype == (up ? -1 : 1), "conversion-shape", "make_symmetric of a half");
    put(o, grab(S2));
    CSC* S3;
    { Api s; S3 = make_symmetric(A, !up); }
    REQ(S3 == A, "conversion-shape", "make_symmetric copied a matrix that was already right");
    { Api s; delete FU; delete T; delete Q; delete L; delete U; delete S; delete S2; }
    return o;
  }
  void check(const Out& o) override {
    int n = g.n;
    Trip h = trip(half), full, q, lo, hi, sy;
    VI inv(n);
    for (int k = 0; k < n; k++) inv[perm[k]] = k;
    for (auto& e : h) {
      int r = e.first.first, c = e.first.second;
      full.push_back(e);
      if (r != c) full.push_back({{c, r}, e.second});
      int pr = inv[r], pc = inv[c];
      if (up ? pr < pc : pr > pc) std::swap(pr, pc);
      q.push_back({{pr, pc}, e.second});
    }
    std::sort(full.begin(), full.end()); std::sort(q.begin(), q.end());
    std::map<std::pair<int, int>, double> avg;
    for (auto& e : trip(gen)) {
      int r = e.first.first, c = e.first.second;
      if (r >= c) lo.push_back(e);
      if (r <= c) hi.push_back(e);
      avg[{r, c}] += 0.5 * e.second;
      avg[{c, r}] += 0.5 * e.second;
    }
    bool low = p.get("pat");
    for (auto& e : avg) if (low ? e.first.first >= e.first.second : e.first.first <= e.first.second) sy.push_back({e.first, e.second});
    size_t at = 0; int k = 0;
    auto next = [&](const Trip& w, const char* what) { M m = get(o, k, n, true, at); at += m.i.size(); k += 2; same(w, m, what); };
    next(full, "make_full");
    next(flip(h), "transpose_symmetric");
    next(q, "transpose_symmetric with a permutation");
    next(lo, "make_half (lower)");
    next(hi, "make_half (upper)");
    next(sy, "make_symmetric");
    next(flip(h), "make_symmetric of a half");
  }
};
// vectors, comparisons, right-hand sides, random matrices, safe size arithmetic
struct Vec : Util {
  M a, b;
  CSC *A, *B;
  VI v;
  std::vector<double> x, y;
  double *X, *Y;
  int *V, lo, hi;
  size_t u, k;
  Vec(const Plan& q) : Util(q), a(make(q, g, 0)) {
    Rng r(sim::mix(q.get("mseed", 1), 21));
    A = arg(a, false, -1);
    b = a;
    const double odd = r.chance(1, 8) ? NAN : 77;
    if (!b.i.empty()) switch (r.below(6)) {  // what another matrix may differ in
      case 0: b.x[r.below(b.x.size())] += r.chance(1, 2) ? 1e-3 : -1e-3; break;
      case 1: b.x[r.below(b.x.size())] += 1e-10; break;
      case 2: b.x[r.below(b.x.size())] = odd; break;
      case 3: { int z = r.below(b.i.size()); b.i[z] = (b.i[z] + 1) % g.n; break; }
      case 4: if (g.n > 1) { int z = 1 + r.below(g.n - 1); if (b.p[z] > b.p[z - 1]) b.p[z]--; else if (b.p[z] < b.p[z + 1]) b.p[z]++; } break;
    }
    B = arg(b, false, -1);
    for (int t = 0; t < g.n; t++) { v.push_back(t); x.push_back((double)r.below(2000) / 64 - 15); }
    for (int t = g.n - 1; t > 0; t--) std::swap(v[t], v[r.below(t + 1)]);
    if (r.chance(1, 2)) v[r.below(g.n)] = r.below(g.n);
    y = x;
    for (int t = r.below(3); t > 0; t--) y[r.below(g.n)] += r.chance(1, 4) ? odd : r.chance(1, 2) ? 1e-10 : -(double)r.below(40);
    if (r.chance(1, 3)) for (auto& e : y) e = x[0];
    lo = r.below(g.n + 1); hi = lo + r.below(g.n - lo + 1);
    u = r.chance(1, 2) ? r.below(1000) : ~(size_t)0 >> r.below(40);
    k = r.chance(1, 2) ? r.below(40) : ~(size_t)0 >> r.below(64);
    V = acopy(v); X = acopy(x); Y = acopy(y);
  }
  ~Vec() { delete A; delete B; }
  Out run() override {
    Out o;
    int n = g.n;
    double *bb = aarr<double>(n), *cp = aarr<double>(n);
    int ok1 = 1, ok2 = 1, *deg = aarr<int>(n);
    size_t s1, s2;
    bool e[5];
    double r1, r2, r3;
    double* X2 = (double*)X;
    std::vector<int> rv;
    CSC* R1;
    unsigned seed = 1 + p.get("mseed", 1) % 1000;
    double dens = (p.get("mk", 0) + 1) * .07;
    {
      Api s;
      rhs_init(n, A->p, A->i, A->x, bb);
      copy_vector_dense(lo, hi, X, cp);
      r1 = residual(lo, hi, X, Y); r2 = norm(n, X2); r3 = sum_vector(n, X2);
      e[0] = is_equal(n, Y, x[0]); e[1] = is_equal(lo, hi, X, Y); e[2] = is_equal(A, B); e[3] = is_equal(A, A); e[4] = test_unique(n, V);
      s1 = mult_size_t(u, k, &ok1); s2 = add_size_t(u, k, &ok2);
      compute_depth(A, deg);
      generate_uniq_rand_vector(1 + lo * 2 / 3, n + 1, rv, seed);
      R1 = random_square_sparse(n, dens, 50, seed);
    }
    read_ok(bb, n * 8, "right-hand side"); read_ok(cp + lo, (hi - lo) * 8, "copied range"); read_ok(deg, n * 4, "depths");
    o.d.assign(bb, bb + n);
    o.d.insert(o.d.end(), cp + lo, cp + hi);
    o.d.push_back(r1); o.d.push_back(r2); o.d.push_back(r3);
    o.a.push_back(VI(e, e + 5));
    o.a.push_back(VI{ok1, (int)(s1 >> 32), (int)s1, ok2, (int)(s2 >> 32), (int)s2});
    o.a.push_back(VI(deg, deg + n));
    o.a.push_back(VI(rv.begin(), rv.end()));
    M m = grab(R1);  // the pattern follows from the seed, the values come from rand()
    o.a.push_back(m.p); o.a.push_back(m.i);
    bool in = true;
    for (double z : m.x) in = in && z >= 0 && z <= 50;
    o.a.push_back(VI(1, in));
    { Api s; delete R1; std::vector<int>().swap(rv); }
    return o;
  }
  void check(const Out& o) override {
    int n = g.n, at = 0;
    std::vector<double> want(n, 0);
    for (int c = 0; c < n; c++) for (int z = a.p[c]; z < a.p[c + 1]; z++) want[a.i[z]] += a.x[z];
    for (int t = 0; t < n; t++) REQ(o.d[at++] == want[t], "conversion-wrong", "rhs_init: entry %d is %g, not %g", t, o.d[t], want[t]);
    for (int t = lo; t < hi; t++) REQ(o.d[at++] == x[t], "conversion-wrong", "copy_vector_dense: entry %d", t);
    double mx = 0, nm = 0, sm = 0;
    bool eq = true, ev = true, nan = false;
    for (int t = lo; t < hi; t++) {
      double d = std::fabs(x[t] - y[t]);
      if (std::isnan(d)) nan = true; else mx = std::max(mx, d);
      if (!(d <= 1e-8)) eq = false;
    }
    for (int t = 0; t < n; t++) { nm = std::max(nm, std::fabs(x[t])); sm += x[t]; if (!(std::fabs(y[t] - x[0]) <= 1e-8)) ev = false; }
    if (!nan) REQ(o.d[at] == mx, "conversion-wrong", "residual is %g, not %g", o.d[at], mx);
    REQ(o.d[at + 1] == nm && o.d[at + 2] == sm, "conversion-wrong", "norm %g and sum %g, not %g and %g", o.d[at + 1], o.d[at + 2], nm, sm);
    REQ(o.a[0][4] == (int)(std::set<int>(v.begin(), v.end()).size() == (size_t)n), "conversion-wrong", "test_unique says %d", o.a[0][4]);
    unsigned __int128 pr = (unsigned __int128)u * k, su = (unsigned __int128)u + k;
    for (int t = 0; t < 2; t++) {
      unsigned __int128 w = t ? su : pr;
      bool fits = !(w >> 64);
      size_t got = (size_t)(unsigned)o.a[1][3 * t + 1] << 32 | (unsigned)o.a[1][3 * t + 2];
      // doubling past the last bit of k may overflow although the product fits
      if (t || k < ((size_t)1 << 20) || !fits) REQ(o.a[1][3 * t] == fits && got == (fits ? (size_t)w : 0), "conversion-wrong", "%s of %zu and %zu: %zu, ok %d", t ? "sum" : "product", u, k, got, o.a[1][3 * t]);
    }
    // distance from the sinks of the transposed graph
    VI dep(n, 0);
    for (int c = n - 1; c >= 0; c--) for (int z = a.p[c]; z < a.p[c + 1]; z++) if (a.i[z] != c) dep[c] = std::max(dep[c], dep[a.i[z]] + 1);
    REQ(o.a[2] == dep, "conversion-wrong", "compute_depth");
    std::set<int> us(o.a[3].begin(), o.a[3].end());
    REQ(us.size() == o.a[3].size() && (int)us.size() == 1 + lo * 2 / 3 && *us.begin() >= 0 && *us.rbegin() <= n, "conversion-wrong", "generate_uniq_rand_vector");
    int per = std::min<int>(n, (p.get("mk", 0) + 1) * .07 * n + 1);
    const VI &rp = o.a[4], &ri = o.a[5];
    for (int c = 0; c < n; c++) {
      bool d = false;
      REQ(rp[c + 1] - rp[c] == per, "conversion-wrong", "random column %d has %d entries, not %d", c, rp[c + 1] - rp[c], per);
      for (int z = rp[c]; z < rp[c + 1]; z++) { d |= ri[z] == c; if (z > rp[c]) REQ(ri[z] > ri[z - 1], "conversion-wrong", "random column %d is not sorted", c); }
      REQ(d, "conversion-wrong", "random column %d has no diagonal", c);
    }
    REQ(o.a[6][0], "conversion-wrong", "a random value is out of range");
    // not-a-number is not equal to anything
    bool em = a.p == b.p && a.i == b.i, nanv = false, nanm = false;
    for (double d : y) nanv = nanv || std::isnan(d);
    for (size_t z = 0; z < a.x.size(); z++) { em = em && std::fabs(a.x[z] - b.x[z]) <= 1e-8; nanm = nanm || std::isnan(b.x[z]); }
    const char* kv = nanv ? "nan-equal" : "conversion-wrong";
    REQ(o.a[0][3], "conversion-wrong", "is_equal says that a matrix is not equal to itself");
    REQ(o.a[0][2] == em, nanm ? "nan-equal" : "conversion-wrong", "is_equal of matrices says %d", o.a[0][2]);
    REQ(o.a[0][0] == ev, kv, "is_equal to a value says %d", o.a[0][0]);
    REQ(o.a[0][1] == eq, kv, "is_equal of vectors says %d", o.a[0][1]);
  }
};
// graphs: merging, coarsening, diagonals, permutations, generated matrices
struct Graphs : Util {
  int ng, k;
  std::vector<M> a, d;
  int **Gp, **Gi, **Dp, **Di;
  VI perm, arr;
  int *P, *AR;
  M low;
  CSC* L;
  Graphs(const Plan& q) : Util(q) {
    ng = q.get("ng", 2, 1, 4);
    k = q.get("ck", 2, 1, 1000);
    std::vector<int*> gp, gi, dp, di;
    for (int t = 0; t < ng; t++) {
      Plan s = q;
      s.p["mseed"] = q.get("mseed", 1) + t;
      a.push_back(make(s, g, t % 2 ? 4 : 0));
      d.push_back(make(s, g, 2));
      gp.push_back(acopy(a[t].p)); gi.push_back(acopy(a[t].i));
      dp.push_back(acopy(d[t].p)); di.push_back(acopy(d[t].i));
    }
    Gp = acopy(gp); Gi = acopy(gi); Dp = acopy(dp); Di = acopy(di);
    low = make(q, g, 0);
    L = arg(low, false, -1);
    perm.resize(g.n); arr.resize(g.n);
    Rng r(sim::mix(q.get("mseed", 1), 9));
    for (int t = 0; t < g.n; t++) { perm[t] = t; arr[t] = r.below(1000); }
    for (int t = g.n - 1; t > 0; t--) std::swap(perm[t], perm[r.below(t + 1)]);
    P = acopy(perm);
  }
  ~Graphs() { delete L; }
  Out run() override {
    Out o;
    int n = g.n;
    int *np = 0, *ni = 0;
    CSC *B, *D, *C, *T = nullptr, *I;
    { Api s; merge_graph(ng, n, Gp, Gi, np, ni); B = merge_graph(ng, n, Gp, Gi); D = merge_DAGs_with_partial_order(ng, n, Gp, Gi, ng - 1, Dp, Di); }
    put(o, grab(n * ng, n * ng, np, ni, nullptr));
    put(o, grab(B)); put(o, grab(D));
    { Api s; C = coarsen_k_times(n, low.i.size(), L->p, L->i, -1, k); }
    REQ(C->nnz == (size_t)C->p[C->n], "conversion-shape", "coarsen_k_times reports %zu entries for %d", C->nnz, C->p[C->n]);
    put(o, grab(C->m, C->n, C->p, C->i, nullptr));
    int* dg; int *ip = aarr<int>(n), *ip2 = aarr<int>(n), *ws = aarr<int>(n), *ar = acopy(arr, false);
    { Api s; dg = extract_diagonals(n, L->p, L->i); inv_perm(n, P, ip); compute_inv_perm(n, P, ip2); reorder_array(n, ar, P, ws); I = diagonal(n, 2.5); if (n > 1) T = tridiag(n, 1, 2, 3); }
    read_ok(dg, n * 4, "diagonal positions");
    o.a.push_back(VI(dg, dg + n)); o.a.push_back(VI(ip, ip + n)); o.a.push_back(VI(ip2, ip2 + n)); o.a.push_back(VI(ar, ar + n));
    put(o, grab(I));
    if (T) put(o, grab(n, n, T->p, T->i, T->x));
    { Api s; delete B; delete C; delete D; delete I; delete T; for (int* q : {np, ni, dg}) delete[] q; }
    return o;
  }
  void check(const Out& o) override {
    int n = g.n;
    Trip w, v;
    for (int t = 0; t < ng; t++) {
      for (auto& e : trip(a[t])) { w.push_back({{e.first.first + t * n, e.first.second + t * n}, 0}); v.push_back(w.back()); }
      if (t + 1 < ng) {
        for (int c = 0; c < n; c++) w.push_back({{c + (t + 1) * n, c + t * n}, 0});
        for (auto& e : trip(d[t])) v.push_back({{e.first.first + (t + 1) * n, e.first.second + t * n}, 0});
      }
    }
    std::sort(w.begin(), w.end()); std::sort(v.begin(), v.end());
    same(w, get(o, 0, n * ng, false), "merge_graph");
    same(w, get(o, 2, n * ng, false), "merge_graph (matrix)");
    same(v, get(o, 4, n * ng, false), "merge_DAGs_with_partial_order");
    std::set<std::pair<int, int>> cs;
    for (auto& e : trip(low)) cs.insert({e.first.first / k, e.first.second / k});
    Trip c;
    for (auto& e : cs) c.push_back({e, 0});
    M cm = get(o, 6, (n + k - 1) / k, false);
    REQ(cm.n == (n + k - 1) / k, "conversion-shape", "%d columns after merging %d by %d", cm.n, n, k);
    same(c, cm, "coarsen_k_times");
    for (int t = 0; t < n; t++) {
      int q = o.a[8][t];
      REQ(q >= low.p[t] && q < low.p[t + 1] && low.i[q] == t, "conversion-wrong", "extract_diagonals says %d for column %d", q, t);
      REQ(o.a[9][perm[t]] == t && o.a[10][perm[t]] == t, "conversion-wrong", "inverse permutation of %d", t);
      REQ(o.a[11][t] == arr[perm[t]], "conversion-wrong", "reorder_array at %d", t);
    }
    Trip di, tr;
    for (int t = 0; t < n; t++) {
      di.push_back({{t, t}, 2.5});
      if (t) tr.push_back({{t - 1, t}, 1});
      tr.push_back({{t, t}, 2});
      if (t + 1 < n) tr.push_back({{t + 1, t}, 3});
    }
    std::sort(tr.begin(), tr.end());
    same(di, get(o, 12, n, true, 0), "diagonal");
    if (n > 1) same(tr, get(o, 14, n, true, n), "tridiag");
  }
};
void gen_graphs(Rng& r, Plan& p) { gen_mat(r, p); p.p["ng"] = 1 + r.below(4); p.p["ck"] = r.chance(1, 4) ? r.logu(p.n + 3) : 1 + r.below(5); }
// trees
struct Trees : Util {
  VI par, wi;
  std::vector<double> w;
  int *PA, *WI; double* W;
  Trees(const Plan& q) : Util(q) {
    par.assign(g.n, -1); wi.resize(g.n); w.resize(g.n);
    for (int v = 0; v < g.n; v++) { if (!g.out[v].empty()) par[v] = g.out[v][0]; wi[v] = sim::mix(q.get("mseed", 1), v) % 9; w[v] = wi[v] + 0.5; }
    PA = acopy(par); WI = acopy(wi); W = acopy(w);
  }
  Out run() override {
    Out o;
    int n = g.n;
    int *cp = aarr<int>(n + 1), *cn = aarr<int>(n), *nc;
    { VI z(n, 0); nc = acopy(z, false); }
    CSC* T; int h[6]; double* c;
    {
      Api s;
      populate_children(n, PA, cp, cn, nc);
      T = tree_to_csc(n, PA);
      h[0] = get_tree_height_bruteforce(n, PA); h[1] = get_tree_height_bruteforce(n, PA, WI);
      h[2] = get_tree_height(n, PA, nc); h[3] = get_tree_height(n, PA, nc, WI);
      h[4] = get_tree_height_efficient(n, PA, nc, nullptr);
      h[5] = get_node_depth(0, n, PA, WI);
      c = compute_subtree_cost(n, PA, W);
    }
    put(o, grab(n, n, cp, cn, nullptr));
    put(o, grab(n, n, T->p, T->i, nullptr));
    o.a.push_back(VI(nc, nc + n));
    o.a.push_back(VI(h, h + 6));
    read_ok(c, n * 8, "subtree costs");
    o.d.assign(c, c + n);
    { Api s; delete T; delete[] c; }
    return o;
  }
  void check(const Out& o) override {
    int n = g.n;
    Trip t;
    VI cnt(n, 0);
    std::vector<double> c = w;
    for (int v = 0; v < n; v++) if (par[v] >= 0) { t.push_back({{v, par[v]}, 0}); cnt[par[v]]++; c[par[v]] += c[v]; }
    std::sort(t.begin(), t.end());
    same(t, get(o, 0, n, false), "populate_children");
    same(t, get(o, 2, n, false), "tree_to_csc");
    REQ(o.a[4] == cnt, "conversion-wrong", "child counts");
    VI d(n), dw(n);
    int h = 0, hw = 0;
    for (int v = n - 1; v >= 0; v--) { d[v] = par[v] < 0 ? 0 : d[par[v]] + 1; dw[v] = wi[v] + (par[v] < 0 ? 0 : dw[par[v]]); h = std::max(h, d[v]); hw = std::max(hw, dw[v]); }
    VI want{h, hw, h, hw, h, dw[0]};
    REQ(o.a[5] == want, "conversion-wrong", "tree heights %d %d %d %d %d %d, expected %d %d %d %d %d %d", o.a[5][0], o.a[5][1], o.a[5][2], o.a[5][3], o.a[5][4], o.a[5][5], want[0], want[1], want[2], want[3], want[4], want[5]);
    for (int v = 0; v < n; v++) REQ(o.d[v] == c[v], "conversion-wrong", "subtree cost of %d is %g, expected %g", v, o.d[v], c[v]);
  }
};
// partition_by_weight, partition_by_bfs
struct Parts : Util {
  int k;
  VI set;
  std::vector<double> w, tw;
  int* S; double *W;
  M full;
  CSC* A;
  Parts(const Plan& q) : Util(q), k(q.get("parts", 2, 1, 40)) {
    Rng r(sim::mix(q.get("mseed", 1), 3));
    set.resize(g.n); w.resize(g.n);
    for (int v = 0; v < g.n; v++) { set[v] = v; w[v] = 1 + r.below(q.get("wmax", 1, 1, 100)); }
    for (int v = g.n - 1; v > 0; v--) std::swap(set[v], set[r.below(v + 1)]);
    S = acopy(set); W = acopy(w);
    full.n = full.m = g.n;
    for (int v = 0; v < g.n; v++) {
      full.i.push_back(v);
      for (int u : g.in[v]) full.i.push_back(u);
      for (int u : g.out[v]) full.i.push_back(u);
      full.p.push_back(full.i.size());
    }
    A = arg(full, true, 0);
  }
  ~Parts() { delete A; }
  Out run() override {
    Out o;
    int *ix, ln = -1, *lp = 0, *pp = 0, *np = 0;
    { Api s; ix = partition_by_weight(g.n, S, W, k, nullptr); partition_by_bfs(g.n, A, W, ln, lp, k, pp, np, nullptr); }
    read_ok(ix, (k + 1) * 4, "partition bounds");
    o.a.push_back(VI(ix, ix + k + 1));
    REQ(ln == 1, "schedule-shape", "%d levels", ln);
    read_ok(lp, 8, "level pointer"); read_ok(pp, (k + 1) * 4, "partition pointer"); read_ok(np, g.n * 4, "node array");
    o.a.push_back(VI(lp, lp + 2)); o.a.push_back(VI(pp, pp + k + 1)); o.a.push_back(VI(np, np + g.n));
    { Api s; for (int* q : {ix, lp, pp, np}) delete[] q; }
    return o;
  }
  void check(const Out& o) override {
    double tot = 0, big = 0;
    for (double x : w) { tot += x; big = std::max(big, x); }
    double even = std::ceil(tot / k);
    for (int b = 0; b < 2; b++) {
      const VI& q = o.a[b ? 2 : 0];
      REQ(q[0] == 0 && q[k] == g.n, "partition-wrong", "the parts cover %d..%d of %d vertices", q[0], q[k], g.n);
      std::vector<char> seen(g.n, 0);
      for (int t = 0; t < k; t++) {
        REQ(q[t] <= q[t + 1], "partition-wrong", "part %d is %d..%d", t, q[t], q[t + 1]);
        double c = 0, last = 0;
        for (int x = q[t]; x < q[t + 1]; x++) {
          int v = b ? o.a[3][x] : set[x];
          REQ(v >= 0 && v < g.n && !seen[v], "partition-wrong", "vertex %d", v);
          seen[v] = 1;
          last = w[v]; c += last;
        }
        // no part gets another vertex once it has its share
        REQ(c - last < even || t == k - 1, "partition-wrong", "part %d weighs %g, its share is %g", t, c, even);
      }
    }
    REQ(o.a[1][0] == 0 && o.a[1][1] == k, "partition-wrong", "level pointer %d %d", o.a[1][0], o.a[1][1]);
  }
};
void gen_parts(Rng& r, Plan& p) { p.p["mseed"] = r.below(1 << 20); p.p["parts"] = 1 + r.below(8); p.p["wmax"] = r.chance(1, 2) ? 1 : 1 + r.below(30); }
// supernodes and the padded block format
void gen_block(Rng& r, Plan& p) { gen_mat(r, p); p.p["limit"] = r.chance(1, 3) ? 0 : 1 + r.below(6); p.p["upper"] = r.below(2); }
struct Blk : Util {
  M a;
  CSC* A;
  VI sup;
  int* S;
  bool own;
  CSC* U = nullptr;
  int limit;
  bool up;
  Blk(const Plan& q) : Util(q), a(make(nosort(q), g, 0)), own(q.get("pat")), limit(q.get("limit", 0, 0, 100)), up(q.get("upper")) {
    A = arg(a, false, -1);
    if (up) {
      M u;
      u.m = u.n = g.n;
      for (int c = g.n - 1; c >= 0; c--) { for (int k = a.p[c + 1] - 1; k >= a.p[c]; k--) { u.i.push_back(g.n - 1 - a.i[k]); u.x.push_back(a.x[k]); } u.p.push_back(u.i.size()); }
      U = arg(u, false, 1);
    }
    Rng r(sim::mix(q.get("mseed", 1), 8));
    int mw = 1 + r.below(4);
    for (int v = 0; v < g.n; v += 1 + r.below(mw)) sup.push_back(v);
    sup.push_back(g.n);
    S = acopy(sup);
  }
  static Plan nosort(Plan q) { q.p["mord"] = 0; return q; }
  ~Blk() { delete A; delete U; }
  Out run() override {
    Out o;
    BCSCMatrix* B; BCSC* b;
    { Api s; B = own ? new BCSCMatrix(A) : new BCSCMatrix(A, (int)sup.size() - 1, S); b = B->getBCSC(); }
    int nd = b->nodes;
    REQ(nd >= 1 && nd <= g.n, "conversion-shape", "%d supernodes for %d columns", nd, g.n);
    read_ok(b->supernodes, (nd + 1) * 4, "supernodes"); read_ok(b->p, (nd + 1) * 4, "block pointers"); read_ok(b->nrows, nd * 4, "row counts");
    read_ok(b->i, b->nnz * 4, "block rows"); read_ok(b->x, b->nnz * 8, "block values");
    o.a.push_back(VI(b->supernodes, b->supernodes + nd + 1)); o.a.push_back(VI(b->p, b->p + nd + 1)); o.a.push_back(VI(b->nrows, b->nrows + nd));
    o.a.push_back(VI(b->i, b->i + b->nnz));
    o.d.assign(b->x, b->x + b->nnz);
    CSC* c;
    { Api s; c = B->compressed_BCSC_to_CSC(); }
    put(o, grab(2 * nd, c->n, c->p, c->i, nullptr));
    {
      // narrower blocks, and the blocks of the same matrix counted from the other end (for backward solves)
      CSC* X = up ? U : A;
      int k;
      { Api s; delete[] b->supernodes; b->supernodes = nullptr; k = B->supernodes(X, limit, !up); }
      REQ(k >= 1 && k <= g.n, "conversion-shape", "%d supernodes for %d columns", k, g.n);
      read_ok(b->supernodes, (k + 1) * 4, "supernodes");
      o.a.push_back(VI(b->supernodes, b->supernodes + k + 1));
    }
    { Api s; delete c; delete B; }
    return o;
  }
  void check_narrow(VI s) {
    if (up) for (int& x : s) x = g.n - 1 - x;
    VI want(1, 0);
    for (int v = 0, w = 0; v + 1 < g.n; v++) {
      VI x(a.i.begin() + a.p[v] + 1, a.i.begin() + a.p[v + 1]), y(a.i.begin() + a.p[v + 1], a.i.begin() + a.p[v + 2]);
      if (x == y && (!limit || w < limit)) w++;
      else { want.push_back(v + 1); w = 0; }
    }
    want.push_back(g.n);
    REQ(s == want, "supernodes-wrong", "%zu supernodes of at most %d further columns (%s), expected %zu", s.size() - 1, limit, up ? "from the end" : "from the start", want.size() - 1);
  }
  void check(const Out& o) override {
    const VI &sp = o.a[0], &bp = o.a[1], &nr = o.a[2], &bi = o.a[3];
    int nd = (int)sp.size() - 1;
    REQ(sp[0] == 0 && sp[nd] == g.n, "conversion-wrong", "the supernodes cover %d..%d", sp[0], sp[nd]);
    if (!own) REQ(sp == sup, "conversion-wrong", "other supernodes than asked for");
    M q; q.m = q.n = g.n;
    VI of(g.n);
    Trip want;
    for (int b = 0; b < nd; b++) {
      REQ(sp[b] < sp[b + 1], "conversion-wrong", "supernode %d is %d..%d", b, sp[b], sp[b + 1]);
      for (int c = sp[b]; c < sp[b + 1]; c++) of[c] = b;
    }
    std::set<std::pair<int, int>> cs;
    for (int b = 0; b < nd; b++) {
      int wd = sp[b + 1] - sp[b];
      std::set<int> rows;
      for (int c = sp[b]; c < sp[b + 1]; c++) for (int k = a.p[c]; k < a.p[c + 1]; k++) { rows.insert(a.i[k]); cs.insert({of[a.i[k]], b}); }
      if (own) for (int c = sp[b]; c + 1 < sp[b + 1]; c++) {
        VI x(a.i.begin() + a.p[c] + 1, a.i.begin() + a.p[c + 1]), y(a.i.begin() + a.p[c + 1], a.i.begin() + a.p[c + 2]);
        REQ(x == y, "conversion-wrong", "columns %d and %d are in one supernode but differ", c, c + 1);
      }
      cs.insert({b + nd, b});
      REQ(nr[b] == (int)rows.size() && bp[b + 1] - bp[b] == nr[b] * wd, "conversion-wrong", "block %d has %d rows in %d entries, expected %zu x %d", b, nr[b], bp[b + 1] - bp[b], rows.size(), wd);
      VI rv(rows.begin(), rows.end());
      for (int c = 0; c < wd; c++)
        for (int k = 0; k < nr[b]; k++) {
          int at = bp[b] + c * nr[b] + k;
          REQ(bi[at] == rv[k], "conversion-wrong", "row %d of block %d is %d, expected %d", k, b, bi[at], rv[k]);
          double v = 0;
          for (int z = a.p[sp[b] + c]; z < a.p[sp[b] + c + 1]; z++) if (a.i[z] == rv[k]) v = a.x[z];
          REQ(o.d[at] == v, "conversion-wrong", "entry (%d,%d) is %g, expected %g", rv[k], sp[b] + c, o.d[at], v);
        }
    }
    for (auto& e : cs) want.push_back({e, 0});
    std::sort(want.begin(), want.end());
    same(want, get(o, 4, 2 * nd, false), "compressed_BCSC_to_CSC");
    check_narrow(o.a.back());
  }
};
// ---- elimination trees and factor patterns (C21), orderings (C22)
typedef std::vector<std::set<int>> Pat;
// the pattern of the Cholesky factor below the diagonal, by elimination
Pat factor(int n, const Pat& low) {
  Pat L = low;
  for (int j = 0; j < n; j++) {
    if (L[j].empty()) continue;
    int p = *L[j].begin();
    for (int i : L[j]) if (i != p) L[p].insert(i);
  }
  return L;
}
Pat lower_of(const M& a) {
  Pat l(a.n);
  for (int c = 0; c < a.n; c++) for (int k = a.p[c]; k < a.p[c + 1]; k++) { int r = a.i[k]; if (r != c) l[std::min(r, c)].insert(std::max(r, c)); }
  return l;
}
VI tree_of(const Pat& L) { VI t; for (auto& s : L) t.push_back(s.empty() ? -1 : *s.begin()); return t; }
void is_perm(int n, const VI& p, const char* what, const char* kind) {
  std::vector<char> seen(n);
  REQ((int)p.size() == n, kind, "%s has %zu entries for %d", what, p.size(), n);
  for (int k = 0; k < n; k++) { REQ(p[k] >= 0 && p[k] < n && !seen[p[k]], kind, "%s is no permutation: entry %d is %d", what, k, p[k]); seen[p[k]] = 1; }
}
// a post-order: every subtree is contiguous and ends with its root; siblings in the order of (weight, number)
void is_post(int n, const VI& par, const VI& post, const VI* w) {
  is_perm(n, post, "the post-order", "etree-wrong");
  VI pos(n), size(n, 1), first(n);
  for (int k = 0; k < n; k++) pos[post[k]] = k;
  for (int v = 0; v < n; v++) if (par[v] >= 0) REQ(pos[v] < pos[par[v]], "etree-wrong", "%d comes after its parent %d in the post-order", v, par[v]);
  for (int k = 0; k < n; k++) { int v = post[k]; if (par[v] >= 0) size[par[v]] += size[v]; }
  for (int v = 0; v < n; v++) first[v] = pos[v] - size[v] + 1;
  for (int v = 0; v < n; v++) if (par[v] >= 0) REQ(first[v] >= first[par[v]], "etree-wrong", "the subtree of %d is not contiguous", par[v]);
  VI last(n, -1);
  for (int k = 0; k < n; k++) {
    int v = post[k], u = par[v];
    if (u < 0) continue;
    int l = last[u];
    if (l >= 0) {
      auto key = [&](int x) { return w ? std::min(std::max((*w)[x], 0), n - 1) : 0; };
      bool ok = w ? key(l) <= key(v) : l < v;
      REQ(ok, "etree-wrong", "children %d and %d of %d are visited in the wrong order", l, v, u);
    }
    last[u] = v;
  }
}
struct Etree : Util {
  M a, up, sq;
  CSC *L, *U, *S;
  VI w;
  int* W;
  Etree(const Plan& q) : Util(q), a(make(q, g, 0)), sq(make(q, g, q.get("mk", 2, 0, 4))) {
    up = make(q, g, 1);
    L = arg(a, false, -1); U = arg(up, false, 1); S = arg(sq, false, 0);
    for (int v = 0; v < g.n; v++) w.push_back((int)(sim::mix(q.get("mseed", 1), v) % (q.get("wk") ? 6 : 2 * g.n)) - 1);
    W = acopy(w);
  }
  ~Etree() { delete L; delete U; delete S; }
  Out run() override {
    Out o;
    int n = g.n;
    int *par = aarr<int>(n), *par2 = aarr<int>(n), *post = aarr<int>(n), *post2 = aarr<int>(n), *rc = aarr<int>(n), *cc = aarr<int>(n), *fi = aarr<int>(n), *lv = aarr<int>(n);
    double* acc = aarr<double>(n);
    size_t fl = 7;
    int r[5];
    VI z(2 * n, 0);
    int* ws = acopy(z, false);
    { Api s; r[0] = compute_etree(U, par); r[1] = compute_etree(S, par2); }
    REQ(r[0] && r[1], "etree-wrong", "compute_etree failed");
    read_ok(par, n * 4, "the tree"); read_ok(par2, n * 4, "the tree");
    { Api s; r[2] = tree_post_order(par, n, NULL, post); r[3] = tree_post_order(par, n, W, post2); }
    REQ(r[2] == n && r[3] == n, "etree-wrong", "tree_post_order ordered %d and %d of %d vertices", r[2], r[3], n);
    { Api s; r[4] = row_col_counts_symmetric(L, par, post, rc, cc, fi, lv, fl); }
    REQ(r[4], "etree-wrong", "row_col_counts_symmetric failed");
    CSC* fac;
    { Api s; fac = build_L_pattern_from_col_counts(n, U, cc, par, acc); }
    REQ((int)fac->n == n && fac->nnz == (size_t)fac->p[n], "etree-wrong", "the factor pattern has %zu columns, %zu entries", fac->n, fac->nnz);
    put(o, grab(n, n, fac->p, fac->i, nullptr));
    for (int* x : {par, par2, post, post2, rc, cc, fi, lv}) { read_ok(x, n * 4, "a tree array"); o.a.push_back(VI(x, x + n)); }
    for (int k = 0; k < n && k < 40; k++) {
      int col = n <= 40 ? k : (int)(sim::mix(k, n) % n), top;
      { Api s; top = ereach(n, U->p, U->i, col, par, ws, ws + n); }
      REQ(top >= 0 && top <= n, "etree-wrong", "ereach returned %d", top);
      VI x(ws + top, ws + n);
      x.push_back(-col - 1);
      o.a.push_back(x);
    }
    read_ok(acc, n * 8, "access counts");
    o.d.assign(acc, acc + n);
    o.d.push_back(fl);
    { Api s; delete fac; }
    return o;
  }
  void check(const Out& o) override {
    int n = g.n;
    Pat fac = factor(n, lower_of(a));
    VI par = tree_of(fac);
    for (int v = 0; v < n; v++) REQ(o.a[2][v] == par[v], "etree-wrong", "the parent of %d is %d, not %d", v, o.a[2][v], par[v]);
    // unsymmetric: the tree of A'A
    Pat nb(n);
    std::map<int, VI> row;
    for (int c = 0; c < sq.n; c++) for (int k = sq.p[c]; k < sq.p[c + 1]; k++) row[sq.i[k]].push_back(c);
    for (auto& e : row) for (size_t x = 0; x + 1 < e.second.size(); x++) { int u = std::min(e.second[x], e.second[x + 1]), v = std::max(e.second[x], e.second[x + 1]); if (u != v) nb[u].insert(v); }
    VI p2 = tree_of(factor(n, nb));
    for (int v = 0; v < n; v++) REQ(o.a[3][v] == p2[v], "etree-wrong", "in the column tree the parent of %d is %d, not %d", v, o.a[3][v], p2[v]);
    is_post(n, par, o.a[4], nullptr);
    is_post(n, par, o.a[5], &w);
    VI rows(n, 1), level(n, 0), firstd(n, n), pos(n);
    std::vector<VI> rowpat(n);
    for (int j = 0; j < n; j++) for (int i : fac[j]) { rows[i]++; rowpat[i].push_back(j); }
    for (int v = n - 1; v >= 0; v--) if (par[v] >= 0) level[v] = level[par[v]] + 1;
    for (int k = 0; k < n; k++) pos[o.a[4][k]] = k;
    for (int v = 0; v < n; v++) { firstd[v] = std::min(firstd[v], pos[v]); if (par[v] >= 0) firstd[par[v]] = std::min(firstd[par[v]], firstd[v]); }
    double fl = 0;
    for (int v = 0; v < n; v++) {
      int cc = 1 + fac[v].size();
      fl += (double)cc * cc;
      REQ(o.a[6][v] == rows[v], "etree-wrong", "row %d of the factor has %d entries, not %d", v, rows[v], o.a[6][v]);
      REQ(o.a[7][v] == cc, "etree-wrong", "column %d of the factor has %d entries, not %d", v, cc, o.a[7][v]);
      REQ(o.a[8][v] == firstd[v], "etree-wrong", "the first descendant of %d is number %d, not %d", v, firstd[v], o.a[8][v]);
      REQ(o.a[9][v] == level[v], "etree-wrong", "the depth of %d is %d, not %d", v, level[v], o.a[9][v]);
    }
    REQ(o.d[n] == fl, "etree-wrong", "%g operations, not %g", fl, o.d[n]);
    for (int j = 0; j < n; j++) {
      VI want(1, j), got(o.a[1].begin() + o.a[0][j], o.a[1].begin() + o.a[0][j + 1]);
      want.insert(want.end(), fac[j].begin(), fac[j].end());
      REQ(got == want, "etree-wrong", "column %d of the factor pattern is wrong (%zu entries, not %zu)", j, got.size(), want.size());
      double ac = up.p[j + 1] - up.p[j];
      for (int k : rowpat[j]) ac += up.p[k + 1] - up.p[k];
      REQ(o.d[j] == ac, "etree-wrong", "column %d: %g entries accessed, not %g", j, ac, o.d[j]);
    }
    for (size_t q = 10; q < o.a.size(); q++) {
      VI x = o.a[q];
      int col = -x.back() - 1;
      x.pop_back();
      for (size_t k = 0; k < x.size(); k++) for (size_t l = k + 1; l < x.size(); l++) REQ(par[x[l]] != x[k], "etree-wrong", "row %d is not in topological order", col);
      std::sort(x.begin(), x.end());
      REQ(x == rowpat[col], "etree-wrong", "row %d of the factor: %zu entries found, not %zu", col, x.size(), rowpat[col].size());
    }
  }
};
// permute_general, dense_to_csc, convert_to_one_based, merge_graphs, sup2node_gen, strip_name
struct Misc : Util {
  M a, lo, mid;
  CSC *A, *LO, *MID;
  VI pinv, q, sup, lev;
  int *P, *Q, *S, *LV;
  std::vector<double*> rows;
  double** D;
  int how;
  static Plan nosort(Plan q) { q.p["mord"] = 0; return q; }
  Misc(const Plan& z) : Util(z), a(make(z, g, z.get("mk", 2, 0, 4))), lo(make(nosort(z), g, 0)), mid(make(nosort(z), g, z.get("st") ? 0 : 2)), how(z.get("rect", 0, -400, 400) & 3) {
    A = arg(a, false, 0); LO = arg(lo, false, -1); MID = arg(mid, false, 0);
    Rng r(sim::mix(z.get("mseed", 1), 21));
    for (int k = 0; k < a.m; k++) pinv.push_back(k);
    for (int k = 0; k < a.n; k++) q.push_back(k);
    for (int k = a.m - 1; k > 0; k--) std::swap(pinv[k], pinv[r.below(k + 1)]);
    for (int k = a.n - 1; k > 0; k--) std::swap(q[k], q[r.below(k + 1)]);
    P = acopy(pinv); Q = acopy(q);
    int mw = 1 + r.below(4);
    for (int v = 0; v < g.n; v += 1 + r.below(mw)) sup.push_back(v);
    int nd = sup.size();
    sup.push_back(g.n);
    S = acopy(sup);
    for (int k = 0; k < nd; k++) lev.push_back(sup[r.below(nd)] + g.n * r.below(3));
    LV = acopy(lev);
    std::vector<std::vector<double>> d(a.m, std::vector<double>(a.n));
    for (auto& e : trip(a)) d[e.first.first][e.first.second] = e.second;
    for (auto& x : d) rows.push_back(acopy(x));
    D = acopy(rows);
  }
  ~Misc() { delete A; delete LO; delete MID; }
  Out run() override {
    Out o;
    int nd = (int)sup.size() - 1;
    CSC *X, *Y, *Z, *W;
    int* s2n = nullptr;
    if (permute_general) {
      { Api s; X = permute_general(A, how & 1 ? nullptr : P, how & 2 ? nullptr : Q); }
      put(o, grab(X));
    } else { X = nullptr; put(o, a); }
    { Api s; Y = dense_to_csc(a.m, a.n, D); }
    put(o, grab(Y));
    { Api s; Z = convert_to_one_based(A); }
    read_ok(Z->p, (a.n + 2) * 4, "pointers counted from one"); read_ok(Z->i, a.i.size() * 4, "rows counted from one"); read_ok(Z->x, a.i.size() * 8, "values");
    REQ((int)Z->m == a.m && (int)Z->n == a.n && Z->nnz == a.i.size(), "conversion-shape", "convert_to_one_based made a %zu x %zu matrix of %zu entries", Z->m, Z->n, Z->nnz);
    o.a.push_back(VI(Z->p, Z->p + a.n + 2)); o.a.push_back(VI(Z->i, Z->i + a.i.size()));
    o.d.insert(o.d.end(), Z->x, Z->x + a.i.size());
    BCSCMatrix *B, *C;
    { Api s; B = new BCSCMatrix(LO, nd, S); C = new BCSCMatrix(LO, nd, S); W = merge_graphs(B->getBCSC(), MID, C->getBCSC()); }
    REQ((int)W->n == 3 * nd && W->nnz == (size_t)W->p[W->n], "conversion-shape", "merge_graphs made %zu columns, %zu entries", W->n, W->nnz);
    put(o, grab(3 * nd, 3 * nd, W->p, W->i, nullptr));
    { Api s; sup2node_gen(g.n, lev.size(), LV, nd, S, s2n); }
    read_ok(s2n, lev.size() * 4, "supernode numbers");
    o.a.push_back(VI(s2n, s2n + lev.size()));
    { Api s; delete X; delete Y; delete Z; delete B; delete C; delete W; delete[] s2n; }
    return o;
  }
  void check(const Out& o) override {
    size_t nz = a.i.size();
    Trip w;
    for (int k = 0; k < a.n; k++) { int j = how & 2 ? k : q[k]; for (int z = a.p[j]; z < a.p[j + 1]; z++) w.push_back({{how & 1 ? a.i[z] : pinv[a.i[z]], k}, a.x[z]}); }
    std::sort(w.begin(), w.end());
    if (permute_general) same(w, get(o, 0, a.m, true, 0), "permute_general");
    Trip dn;
    for (auto& e : trip(a)) if (e.second != 0) dn.push_back(e);
    M d = get(o, 2, a.m, true, nz);
    same(dn, d, "dense_to_csc");
    for (int c = 0; c < a.n; c++) for (int k = d.p[c] + 1; k < d.p[c + 1]; k++) REQ(d.i[k - 1] < d.i[k], "conversion-wrong", "dense_to_csc: column %d is not in order", c);
    for (int c = 0; c <= a.n; c++) REQ(o.a[4][c + 1] == a.p[c], "conversion-wrong", "convert_to_one_based: column %d ends at %d, not %d", c, o.a[4][c + 1], a.p[c]);
    for (size_t k = 0; k < nz; k++) REQ(o.a[5][k] == a.i[k] + 1 && o.d[2 * nz - (nz - dn.size()) + k] == a.x[k], "conversion-wrong", "convert_to_one_based: entry %zu is %d, %g, not %d, %g", k, o.a[5][k], o.d[nz + dn.size() + k], a.i[k] + 1, a.x[k]);
    int nd = (int)sup.size() - 1;
    VI of(g.n);
    for (int b = 0; b < nd; b++) for (int c = sup[b]; c < sup[b + 1]; c++) of[c] = b;
    std::set<std::pair<int, int>> e;
    for (auto& x : trip(lo)) { int r = of[x.first.first], c = of[x.first.second]; e.insert({r, c}); e.insert({r + 2 * nd, c + 2 * nd}); }
    for (int b = 0; b < nd; b++) { e.insert({b + nd, b}); e.insert({b + nd, b + nd}); }
    for (auto& x : trip(mid)) e.insert({of[x.first.first] + 2 * nd, of[x.first.second] + nd});
    Trip want;
    for (auto& x : e) want.push_back({x, 0});
    same(want, get(o, 6, 3 * nd, false), "merge_graphs");
    for (size_t k = 0; k < lev.size(); k++) REQ(o.a[8][k] == of[lev[k] % g.n], "conversion-wrong", "sup2node_gen: column %d is in supernode %d, not %d", lev[k], of[lev[k] % g.n], o.a[8][k]);
  }
};

// HDagg's tree of a factor, its parents and row patterns
struct RowTree : Util {
  M low, byrow;
  CSR* R;
  RowTree(const Plan& q) : Util(q), low(make(q, g, 0)) {
    byrow.n = byrow.m = g.n;
    std::vector<std::vector<std::pair<int, double>>> row(g.n);
    for (int c = 0; c < g.n; c++) for (int k = low.p[c]; k < low.p[c + 1]; k++) row[low.i[k]].push_back({c, low.x[k]});
    Rng r(sim::mix(q.get("mseed", 1), 5));
    bool mix = q.get("wk");
    for (auto& x : row) {
      if (mix) for (int k = (int)x.size() - 1; k > 0; k--) std::swap(x[k], x[r.below(k + 1)]);
      for (auto& e : x) { byrow.i.push_back(e.first); byrow.x.push_back(e.second); }
      byrow.p.push_back(byrow.i.size());
    }
    R = new CSR(g.n, g.n, byrow.i.size(), acopy(byrow.p), acopy(byrow.i), 0);
  }
  ~RowTree() { delete R; }
  Out run() override {
    Out o;
    int n = g.n, ne = -1;
    std::vector<int> par, tp, ts;
    { Api s; HDAGG::computeParents(n, R->p, R->i, par); HDAGG::buildETree(R, ne, tp, ts); }
    REQ(n == g.n, "etree-wrong", "computeParents changed the size to %d", n);
    o.a.push_back(VI(par.begin(), par.end())); o.a.push_back(VI(tp.begin(), tp.end())); o.a.push_back(VI(ts.begin(), ts.end())); o.a.push_back(VI(1, ne));
    REQ((int)par.size() == n, "etree-wrong", "%zu parents for %d vertices", par.size(), n);
    int *st = aarr<int>(n), *pr = acopy(o.a[0]);
    std::vector<bool> w;
    { Api s; w.assign(n, false); }
    for (int k = 0; k < n && k < 40; k++) {
      int row = n <= 40 ? k : (int)(sim::mix(k, n) % n), top;
      { Api s; top = HDAGG::computeNoneZeroPatternOfRowK(n, R->p, R->i, row, pr, st, w); }
      REQ(top >= 0 && top < n, "etree-wrong", "computeNoneZeroPatternOfRowK returned %d", top);
      read_ok(st + top, (n - top) * 4, "the pattern of a row");
      for (int v = 0; v < n; v++) REQ(!w[v], "etree-wrong", "vertex %d stays marked after row %d", v, row);
      VI x(st + top, st + n);
      x.push_back(row);
      o.a.push_back(x);
    }
    { Api s; std::vector<int>().swap(par); std::vector<int>().swap(tp); std::vector<int>().swap(ts); std::vector<bool>().swap(w); }
    return o;
  }
  void check(const Out& o) override {
    int n = g.n;
    Pat fac = factor(n, lower_of(low));
    VI par = tree_of(fac);
    for (int v = 0; v < n; v++) REQ(o.a[0][v] == par[v], "etree-wrong", "the parent of %d is %d, not %d", v, par[v], o.a[0][v]);
    const VI &tp = o.a[1], &ts = o.a[2];
    REQ((int)tp.size() == n + 1 && tp[0] == 0 && tp[n] == (int)ts.size() && o.a[3][0] == tp[n], "etree-wrong", "the tree has %zu pointers and %d of %zu entries", tp.size(), o.a[3][0], ts.size());
    for (int v = 0; v < n; v++) {
      VI want(1, v);
      if (par[v] >= 0) want.push_back(par[v]);
      REQ(tp[v] <= tp[v + 1] && tp[v + 1] <= (int)ts.size() && VI(ts.begin() + tp[v], ts.begin() + tp[v + 1]) == want, "etree-wrong", "column %d of the tree is wrong", v);
    }
    for (size_t z = 4; z < o.a.size(); z++) {
      VI x = o.a[z];
      int row = x.back();
      x.pop_back();
      for (size_t k = 0; k < x.size(); k++) for (size_t l = k + 1; l < x.size(); l++) REQ(par[x[l]] != x[k], "etree-wrong", "row %d is not in topological order", row);
      std::sort(x.begin(), x.end());
      VI want;
      for (int c = 0; c < row; c++) if (fac[c].count(row)) want.push_back(c);
      want.push_back(row);
      REQ(x == want, "etree-wrong", "row %d of the factor: %zu entries found, not %zu", row, x.size(), want.size());
    }
  }
};
// the whole symbolic analysis, with the ordering chosen inside
struct Symbolic : Util {
  M a;
  CSC* A;
  Symbolic(const Plan& q) : Util(q), a(make(q, g, 0)) { A = arg(a, false, -1); }
  ~Symbolic() { delete A; }
  Out run() override {
    Out o;
    int n = g.n;
    LFactorSymbolicInfo* f;
    { Api s; f = build_symbolic_simplicial_lfactor(A); }
    REQ(f && f->L && (int)f->L->n == n, "etree-wrong", "no factor");
    put(o, grab(n, n, f->L->p, f->L->i, nullptr));
    for (int* x : {f->perm, f->iperm, f->post, f->ipost, f->parent, f->col_counts}) { read_ok(x, n * 4, "symbolic information"); o.a.push_back(VI(x, x + n)); }
    o.d.push_back(f->flops);
    { Api s; delete f; }
    return o;
  }
  void check(const Out& o) override {
    int n = g.n;
    const VI &perm = o.a[2], &iperm = o.a[3], &post = o.a[4], &ipost = o.a[5];
    is_perm(n, perm, "the ordering", "etree-wrong");
    is_perm(n, post, "the post-order", "etree-wrong");
    for (int k = 0; k < n; k++) REQ(iperm[perm[k]] == k && ipost[post[k]] == k, "etree-wrong", "an inverse permutation is wrong at %d", k);
    Pat low = lower_of(a), b(n);
    for (int c = 0; c < n; c++) for (int r : low[c]) b[std::min(iperm[r], iperm[c])].insert(std::max(iperm[r], iperm[c]));
    Pat fac = factor(n, b);
    VI par = tree_of(fac);
    double fl = 0;
    for (int j = 0; j < n; j++) {
      VI want(1, j), got(o.a[1].begin() + o.a[0][j], o.a[1].begin() + o.a[0][j + 1]);
      want.insert(want.end(), fac[j].begin(), fac[j].end());
      fl += (double)want.size() * want.size();
      REQ(o.a[6][j] == par[j], "etree-wrong", "the parent of %d is %d, not %d", j, par[j], o.a[6][j]);
      REQ(o.a[7][j] == (int)want.size(), "etree-wrong", "column %d has %zu entries, not %d", j, want.size(), o.a[7][j]);
      REQ(got == want, "etree-wrong", "column %d of the factor pattern is wrong (%zu entries, not %zu)", j, got.size(), want.size());
    }
    REQ(o.d[0] == fl, "etree-wrong", "%g operations, not %g", fl, o.d[0]);
    // a post-ordered tree: children before parents
    for (int j = 0; j < n; j++) REQ(par[j] < 0 || par[j] > j, "etree-wrong", "%d comes after its parent", j);
  }
};
void gen_etree(Rng& r, Plan& p) { gen_mat(r, p); p.p["wk"] = r.below(2); }

size_t low_edges(const Pat& low) { size_t e = 0; for (auto& s : low) e += s.size(); return e; }
// entries below the diagonal of the factor when a vertex of least degree is always eliminated next
size_t minimum_degree_fill(int n, const Pat& low) {
  std::vector<std::set<int>> adj(n);
  for (int c = 0; c < n; c++) for (int r : low[c]) if (r != c) { adj[c].insert(r); adj[r].insert(c); }
  std::vector<char> gone(n, 0);
  size_t fill = 0;
  for (int k = 0; k < n; k++) {
    int b = -1;
    for (int v = 0; v < n; v++) if (!gone[v] && (b < 0 || adj[v].size() < adj[b].size())) b = v;
    gone[b] = 1;
    fill += adj[b].size();
    for (int u : adj[b]) { adj[u].erase(b); for (int w : adj[b]) if (w != u) adj[u].insert(w); }
  }
  return fill;
}

// minimum degree (real code), with invalid and jumbled inputs
struct Amd : Util {
  M a;
  int kind, *Ap, *Ai;
  Amd(const Plan& q) : Util(q), a(make(q, g, q.get("mk", 2, 0, 2))), kind(q.get("akind", 0, 0, 9)) {
    Rng r(sim::mix(q.get("mseed", 1), 77));
    if (kind >= 7 && !a.i.empty()) {  // not a matrix
      if (kind == 7) a.i[r.below(a.i.size())] = r.chance(1, 2) ? -1 - (int)r.below(5) : g.n + (int)r.below(5);
      if (kind == 8 && g.n > 1) { int k = 1 + r.below(g.n - 1); a.p[k] = std::min<int>(a.p[k + 1] + 1 + r.below(3), a.i.size()); }
      if (kind == 9) a.p[0] = 1;
    } else if (kind >= 5) {  // repeated entries
      M b; b.n = a.n; b.m = a.m;
      for (int c = 0; c < a.n; c++) { for (int k = a.p[c]; k < a.p[c + 1]; k++) for (int z = r.chance(1, 4) ? 2 : 1; z; z--) b.i.push_back(a.i[k]); b.p.push_back(b.i.size()); }
      a = b;
    }
    Ap = acopy(a.p); Ai = acopy(a.i);
  }
  Out run() override {
    Out o;
    int n = g.n, rc;
    int* P = aarr<int>(n);
    double C[AMD_CONTROL], I[AMD_INFO];
    uint64_t live = sim::live_blocks();
    {
      Api s;
      amd_defaults(C);
      if (p.get("dense")) C[AMD_DENSE] = p.get("dense") - 2;
      C[AMD_AGGRESSIVE] = p.get("aggr", 1, 0, 1);
      rc = amd_order(n, Ap, Ai, P, C, I);
    }
    if (caller_alone()) REQ(sim::live_blocks() == live, "ordering-leak", "amd_order kept %ld blocks", (long)(sim::live_blocks() - live));
    REQ(I[AMD_STATUS] == rc, "ordering-wrong", "amd_order returned %d and stored status %g", rc, I[AMD_STATUS]);
    if (rc == AMD_OUT_OF_MEMORY) throw std::bad_alloc();
    o.a.push_back(VI(1, rc));
    if (rc == AMD_OK || rc == AMD_OK_BUT_JUMBLED) {
      read_ok(P, n * 4, "the ordering");
      o.a.push_back(VI(P, P + n));
      for (int k : {AMD_N, AMD_NZ, AMD_NZDIAG, AMD_LNZ, AMD_NDENSE, AMD_DMAX}) o.d.push_back(I[k]);
    }
    return o;
  }
  static bool caller_alone() { return sim::caller_id() == 0; }
  void check(const Out& o) override {
    int n = g.n, rc = o.a[0][0];
    bool invalid = false, jumbled = false;
    if (a.p[0] != 0) invalid = true;
    for (int c = 0; c < n; c++) {
      if (a.p[c] > a.p[c + 1]) { invalid = true; break; }
      for (int k = a.p[c]; k < a.p[c + 1] && !invalid; k++) {
        if (k >= (int)a.i.size() || a.i[k] < 0 || a.i[k] >= n) invalid = true;
        else if (k > a.p[c] && a.i[k] <= a.i[k - 1]) jumbled = true;
      }
    }
    REQ(rc == (invalid ? AMD_INVALID : jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK), "ordering-wrong", "amd_order returned %d for %s input", rc, invalid ? "invalid" : jumbled ? "jumbled" : "proper");
    if (invalid) return;
    is_perm(n, o.a[1], "the minimum-degree ordering", "ordering-wrong");
    int diag = 0;
    for (int c = 0; c < n; c++) { bool d = false; for (int k = a.p[c]; k < a.p[c + 1]; k++) d |= a.i[k] == c; diag += d; }
    int nz = 0;  // a jumbled matrix is cleaned first
    for (int c = 0; c < n; c++) nz += std::set<int>(a.i.begin() + a.p[c], a.i.begin() + a.p[c + 1]).size();
    REQ(o.d[0] == n && o.d[1] == nz && o.d[2] == diag, "ordering-wrong", "statistics: n %g, %g entries, %g on the diagonal (%d, %d, %d)", o.d[0], o.d[1], o.d[2], n, nz, diag);
    // the reported size of the factor is an upper bound
    VI inv(n);
    for (int k = 0; k < n; k++) inv[o.a[1][k]] = k;
    Pat low = lower_of(a), b(n);
    for (int c = 0; c < n; c++) for (int r : low[c]) b[std::min(inv[r], inv[c])].insert(std::max(inv[r], inv[c]));
    size_t lnz = 0, mx = 0;
    for (auto& s : factor(n, b)) { lnz += s.size(); mx = std::max(mx, s.size() + 1); }
    if (!p.get("dense") && n <= 150 && low_edges(low) <= 1500) {  // the point of the ordering: little fill
      size_t md = minimum_degree_fill(n, low);
      REQ(2 * lnz <= 3 * md + 20, "ordering-quality", "the factor has %zu entries with the minimum-degree ordering, %zu when a vertex of least degree is eliminated each time", lnz, md);
    }
    REQ(lnz <= o.d[3] && mx <= o.d[5], "ordering-wrong", "the factor has %zu entries and a column of %zu, reported were %g and %g", lnz, mx, o.d[3], o.d[5]);
  }
};
void gen_amd(Rng& r, Plan& p) { gen_mat(r, p); p.p["mk"] = r.below(3); p.p["akind"] = r.below(10); p.p["dense"] = r.chance(1, 3) ? 1 + r.below(6) : 0; p.p["aggr"] = r.below(2); if (r.chance(1, 2)) p.p["mord"] = 0; }

}  // namespace
// The seam in front of METIS: the installed library does the work, after its input was checked against its
// manual; running out of memory inside it is one of the simulated allocation failures.
namespace {
// the last graph METIS was given by each caller, and its answer
struct MetisRec { int calls = 0; std::vector<std::pair<int, int>> e; VI answer; idx_t n = 0; };
MetisRec metis_rec[64];
MetisRec& rec() { int c = sim::caller_id(); return metis_rec[c > 0 && c < 64 ? c : 0]; }
void metis_done(const idx_t* out) {
  sim::Host host;
  MetisRec& m = rec();
  m.answer.assign(out, out + m.n);
}
bool metis_call(const char* what, idx_t n, const idx_t* xp, const idx_t* xi, idx_t* out) {
  sim::mem_read(xp, (n + 1) * sizeof(idx_t));
  sim::mem_read(xi, xp[n] * sizeof(idx_t));
  sim::mem_write(out, n * sizeof(idx_t));
  {
  sim::Host host;
  std::vector<std::pair<idx_t, idx_t>> e;
  std::string bad;
  if (xp[0] != 0) bad = "the first pointer is not 0";
  for (idx_t v = 0; v < n && bad.empty(); v++)
    for (idx_t k = xp[v]; k < xp[v + 1]; k++) {
      if (xi[k] < 0 || xi[k] >= n) { bad = F("vertex %d has neighbour %d", (int)v, (int)xi[k]); break; }
      if (xi[k] == v) { bad = F("vertex %d is its own neighbour", (int)v); break; }
      e.push_back({v, xi[k]});
    }
  if (bad.empty()) {
    std::sort(e.begin(), e.end());
    for (size_t k = 0; k < e.size() && bad.empty(); k++) {
      if (k && e[k] == e[k - 1]) bad = F("edge %d-%d is there twice", (int)e[k].first, (int)e[k].second);
      else if (!std::binary_search(e.begin(), e.end(), std::make_pair(e[k].second, e[k].first))) bad = F("edge %d-%d has no way back", (int)e[k].first, (int)e[k].second);
    }
  }
  { MetisRec& m = rec(); m.calls++; m.n = n; m.e.assign(e.begin(), e.end()); m.answer.clear(); }
  if (!bad.empty()) sim::violate("metis-input", F("%s is given an invalid graph: %s", what, bad.c_str()));
  }
  void* t = ::operator new(1, std::nothrow);
  ::operator delete(t);
  return t != nullptr;
}
struct Hush {  // METIS talks
  int fd;
  Hush() { fflush(stdout); fd = dup(1); int z = open("/dev/null", O_WRONLY); dup2(z, 1); close(z); }
  ~Hush() { fflush(stdout); dup2(fd, 1); close(fd); }
};
}  // namespace
extern "C" int sim_METIS_NodeND(idx_t* n, idx_t* xp, idx_t* xi, idx_t* w, idx_t* opt, idx_t* perm, idx_t* iperm) {
  if (!metis_call("METIS_NodeND", *n, xp, xi, perm)) return METIS_ERROR_MEMORY;
  sim::mem_write(iperm, *n * sizeof(idx_t));
  int rc;
  { Hush h; rc = METIS_NodeND(n, xp, xi, w, opt, perm, iperm); }
  metis_done(perm);
  return rc;
}
extern "C" int sim_METIS_PartGraphKway(idx_t* n, idx_t* nc, idx_t* xp, idx_t* xi, idx_t* vw, idx_t* vs, idx_t* aw, idx_t* np, real_t* tp, real_t* ub, idx_t* opt, idx_t* obj, idx_t* part) {
  if (!metis_call("METIS_PartGraphKway", *n, xp, xi, part)) return METIS_ERROR_MEMORY;
  if (vw) sim::mem_read(vw, *n * *nc * sizeof(idx_t));
  int rc;
  { Hush h; rc = METIS_PartGraphKway(n, nc, xp, xi, vw, vs, aw, np, tp, ub, opt, obj, part); }
  metis_done(part);
  return rc;
}
namespace {
// graph partitioning: the interface is real, METIS itself is the installed library
struct Metis : Util {
  M low, full;
  CSC *L, *Fu;
  int k, cs;
  Metis(const Plan& q) : Util(q), low(make(q, g, 0)), k(q.get("parts", 2, 2, 8)), cs(q.get("ck", 1, 1, 9)) {
    full.n = full.m = g.n;
    std::vector<VI> col(g.n);
    for (auto& e : trip(low)) { col[e.first.second].push_back(e.first.first); if (e.first.first != e.first.second) col[e.first.first].push_back(e.first.second); }
    for (auto& c : col) { std::sort(c.begin(), c.end()); for (int r : c) { full.i.push_back(r); full.x.push_back(1); } full.p.push_back(full.i.size()); }
    L = arg(low, false, -1);
    Fu = arg(full, false, 0);
  }
  ~Metis() { delete L; delete Fu; }
  Out run() override {
    Out o;
    int n = g.n, *x[6], r[5];
    uint64_t live = sim::live_blocks();
    CSC* copy;
    MetisRec got[6];
    auto note = [&](int t, int before) { if (rec().calls == before + 1) got[t] = rec(); };  // none or several: nothing to compare
    int c = rec().calls;
    { Api s; copy = metis_partitioning(Fu, k, x[5]); } note(5, c); c = rec().calls;
    { Api s; r[0] = metis_perm_general(Fu, x[0]); } note(0, c); c = rec().calls;
    { Api s; r[1] = metis_perm_symmetric(L, x[1]); } note(1, c); c = rec().calls;
    { Api s; r[2] = metis_partition_general(Fu, x[2], k); } note(2, c); c = rec().calls;
    { Api s; r[3] = metis_partition_symmetric(L, x[3], k); } note(3, c); c = rec().calls;
    { Api s; r[4] = metis_partition_coarsened(L, x[4], k, cs); } note(4, c);
    for (int t = 0; t < 5; t++) if (r[t] == METIS_ERROR_MEMORY) throw std::bad_alloc();
    if (!copy && sim::alloc_fault_fired()) throw std::bad_alloc();
    REQ(copy, "ordering-wrong", "metis_partitioning returned nothing");
    for (int t = 0; t < 5; t++) REQ(r[t] == METIS_OK, "ordering-wrong", "call %d returned %d, not METIS's status", t, r[t]);
    for (int t = 0; t < 6; t++) { read_ok(x[t], n * 4, "an ordering"); o.a.push_back(VI(x[t], x[t] + n)); }
    std::vector<std::pair<int, int>> edges, coarse;
    for (auto& e : trip(full)) {
      int u = e.first.first, v = e.first.second;
      if (u != v) edges.push_back({u, v});
      if (u / cs != v / cs) coarse.push_back({u / cs, v / cs});
    }
    std::sort(edges.begin(), edges.end());
    std::sort(coarse.begin(), coarse.end());
    coarse.erase(std::unique(coarse.begin(), coarse.end()), coarse.end());
    const char* nm[] = {"metis_perm_general", "metis_perm_symmetric", "metis_partition_general", "metis_partition_symmetric", "metis_partition_coarsened", "metis_partitioning"};
    for (int t = 0; t < 6; t++) {
      if (!got[t].calls) continue;
      REQ(got[t].n == (t == 4 ? (n + cs - 1) / cs : n) && got[t].e == (t == 4 ? coarse : edges), "metis-input", "%s gave METIS a graph of %d vertices and %zu edges that is not the matrix's (%d, %zu)", nm[t], (int)got[t].n, got[t].e.size(), n, t == 4 ? coarse.size() : edges.size());
      VI want(n);
      int lo = *std::min_element(got[t].answer.begin(), got[t].answer.end());
      for (int v = 0; v < n; v++) want[v] = got[t].answer[t == 4 ? v / cs : v] - lo;
      VI have(x[t], x[t] + n);
      int lo2 = *std::min_element(have.begin(), have.end());
      for (int& v : have) v -= lo2;
      REQ(have == want, "ordering-wrong", "%s returned something else than METIS answered", nm[t]);
    }
    put(o, grab(copy));
    { Api s; for (int* z : x) delete[] z; delete copy; }
    if (sim::caller_id() == 0) REQ(sim::live_blocks() == live, "ordering-leak", "the METIS interface kept %ld blocks", (long)(sim::live_blocks() - live));
    return o;
  }
  void check(const Out& o) override {
    is_perm(g.n, o.a[0], "metis_perm_general", "ordering-wrong");
    is_perm(g.n, o.a[1], "metis_perm_symmetric", "ordering-wrong");
    const char* nm[] = {"", "", "metis_partition_general", "metis_partition_symmetric", "metis_partition_coarsened", "metis_partitioning"};
    same(trip(full), get(o, 6, g.n), "the matrix of metis_partitioning");
    for (int t = 2; t < 6; t++) for (int v = 0; v < g.n; v++) REQ(o.a[t][v] >= 0 && o.a[t][v] < k, "ordering-wrong", "%s puts %d into part %d of %d", nm[t], v, o.a[t][v], k);
    for (int v = 0; v < g.n; v++) REQ(o.a[4][v] == o.a[4][v / cs * cs], "ordering-wrong", "metis_partition_coarsened separates %d from %d", v, v / cs * cs);
  }
};
// the matrices the demos run on, made of one lower triangle: reordered by METIS, by rows, and in full both ways
struct GenMtx : Util {
  M low;
  CSC* L;
  GenMtx(const Plan& q) : Util(q), low(make(q, g, 0)) {
    for (size_t k = 0; k < low.x.size(); k++) low.x[k] = k + 1;  // a value tells where an entry comes from
    L = arg(low, false, -1);
  }
  ~GenMtx() { delete L; }
  Out run() override {
    Out o;
    CSR *l2 = nullptr, *br = nullptr;
    CSC* b = nullptr;
    int calls = rec().calls;
    { Api s; generate_matrices_from_mtx(L, l2, b, br); }
    VI answer;
    if (rec().calls == calls + 1) answer = rec().answer;
    REQ(l2 && b && br, "output-missing", "generate_matrices_from_mtx");
    REQ((int)l2->n == g.n && (int)l2->m == g.n && (int)b->n == g.n && (int)b->m == g.n && (int)br->n == g.n && (int)br->m == g.n, "conversion-shape", "dimensions changed");
    put(o, flipped(grab(g.n, g.n, l2->p, l2->i, l2->x)));
    put(o, grab(b));
    put(o, flipped(grab(g.n, g.n, br->p, br->i, br->x)));
    { Api s; delete l2; delete b; delete br; }
    o.a.push_back(answer);
    return o;
  }
  static M flipped(const M& a) {  // rows to columns
    M r;
    r.m = a.n; r.n = a.m;
    Trip t = trip(a);
    for (auto& e : t) std::swap(e.first.first, e.first.second);
    std::sort(t.begin(), t.end(), [](const Trip::value_type& x, const Trip::value_type& y) { return x.first.second != y.first.second ? x.first.second < y.first.second : x.first.first < y.first.first; });
    size_t k = 0;
    for (int c = 0; c < r.n; c++) { while (k < t.size() && t[k].first.second == c) { r.i.push_back(t[k].first.first); r.x.push_back(t[k].second); k++; } r.p.push_back(r.i.size()); }
    return r;
  }
  void check(const Out& o) override {
    M l2 = get(o, 0, g.n), b = get(o, 2, g.n, true, o.a[1].size()), br = get(o, 4, g.n, true, o.a[1].size() + o.a[3].size());
    // where each vertex went: its diagonal value is unique
    VI to(g.n, -1);
    std::vector<int> dg(low.x.size() + 1, -1);
    for (int c = 0; c < g.n; c++) for (int k = low.p[c]; k < low.p[c + 1]; k++) if (low.i[k] == c) dg[(int)low.x[k]] = c;
    for (int c = 0; c < g.n; c++) for (int k = b.p[c]; k < b.p[c + 1]; k++) if (b.i[k] == c) {
      int v = b.x[k];
      REQ(b.x[k] == v && v >= 1 && v < (int)dg.size() && dg[v] >= 0 && to[dg[v]] < 0, "ordering-wrong", "diagonal %d of the reordered matrix is %g", c, b.x[k]);
      to[dg[v]] = c;
    }
    for (int v = 0; v < g.n; v++) REQ(to[v] >= 0, "ordering-wrong", "vertex %d is missing from the reordered matrix", v);
    const VI& ans = o.a.back();
    for (size_t k = 0; k < ans.size(); k++) REQ(to[ans[k]] == (int)k, "ordering-wrong", "METIS puts vertex %d at place %zu, in the reordered matrix it is at %d", ans[k], k, to[ans[k]]);
    Trip f, h;
    for (auto& e : trip(low)) {
      int r = to[e.first.first], c = to[e.first.second];
      h.push_back({{std::max(r, c), std::min(r, c)}, e.second});
      f.push_back({{r, c}, e.second});
      if (r != c) f.push_back({{c, r}, e.second});
    }
    std::sort(f.begin(), f.end()); std::sort(h.begin(), h.end());
    same(h, l2, "the lower triangle by rows");
    same(f, b, "the full matrix");
    same(f, br, "the full matrix by rows");
  }
};
void gen_metis(Rng& r, Plan& p) { gen_mat(r, p); p.p["mord"] = 0; p.p["parts"] = 2 + r.below(7); p.p["ck"] = 1 + r.below(5); }
template <class T> Insp* mk(const Plan& p) { return new T(p); }
}  // namespace

void add_utils(std::vector<InspDef>& t) {
  t.push_back({"u_conv", I_UTIL, gen_mat, mk<Conv>});
  t.push_back({"u_trans", I_UTIL, gen_mat, mk<Trans>});
  t.push_back({"u_sym", I_UTIL, gen_mat, mk<Sym>});
  t.push_back({"u_graphs", I_UTIL, gen_graphs, mk<Graphs>});
  t.push_back({"u_vec", I_UTIL, gen_mat, mk<Vec>});
  t.push_back({"u_trees", I_UTIL, gen_mat, mk<Trees>});
  t.push_back({"u_parts", I_UTIL, gen_parts, mk<Parts>});
  t.push_back({"u_block", I_UTIL, gen_block, mk<Blk>});
  t.push_back({"u_misc", I_UTIL, gen_mat, mk<Misc>});
  t.push_back({"t_rowtree", I_UTIL, gen_etree, mk<RowTree>});
  t.push_back({"t_etree", I_UTIL, gen_etree, mk<Etree>});
  t.push_back({"t_symbolic", I_UTIL | I_DEGRADE, gen_etree, mk<Symbolic>});
  t.push_back({"o_amd", I_UTIL, gen_amd, mk<Amd>});
  t.push_back({"o_metis", I_UTIL, gen_metis, mk<Metis>});
  t.push_back({"o_gen", I_UTIL | I_DEGRADE, gen_metis, mk<GenMtx>});
}
