// Helpers shared by the scenarios: inputs in the simulated heap, oracles, schedule execution.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <set>
#include "plan.h"

using sim::Api;
using sim::Rng;
using sim::violate;
typedef std::vector<int> VI;

inline std::string F(const char* f, ...) {
  char b[600];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}
#define FAIL(kind, ...) violate(kind, F(__VA_ARGS__))
#define REQ(cond, kind, ...) do { if (!(cond)) violate(kind, F(__VA_ARGS__)); } while (0)

template <class T> T* aarr(size_t n) { return (T*)sim::arena_raw(n * sizeof(T)); }
template <class T> T* acopy(const std::vector<T>& v, bool ro = true) {
  T* p = aarr<T>(v.size());
  if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T));
  if (ro) sim::make_readonly(p);
  return p;
}
// std::vector whose buffer lies in the simulated heap (so that overruns are seen)
template <class T> void avec(std::vector<T>& dst, const std::vector<T>& src, bool ro = true) {
  { Api a; std::vector<T> t(src); dst.swap(t); }
  if (ro && !dst.empty()) sim::make_readonly(dst.data());
}

struct Graph {
  int n = 0, nnz = 0;
  std::vector<VI> in, out;  // without self edges, sorted
  VI cp, ci, rp, ri;        // lower triangular with diagonal, CSC (diag first) and CSR (diag last)
  std::vector<double> cx, rx, b, ref;
  int *lC = nullptr, *lR = nullptr, *rP = nullptr, *rI = nullptr;  // read-only copies in the arena
  double *rX = nullptr;
};
Graph make_graph(const Plan& p);
std::vector<double> make_cost(const Plan& p, const Graph& g);  // by param "cost"
void gen_cost(Rng& r, Plan& p);
VI depth_levels(const Graph& g);  // longest-path level of each vertex
int longest_path(const Graph& g);  // number of levels
std::vector<std::vector<bool>> reach(int n, const std::vector<VI>& out);
std::vector<double> solve_serial(const Graph& g);

struct Sched {
  int levels = 0;
  const int *lp = nullptr, *pp = nullptr, *np = nullptr;
};
// copy a schedule out of the simulated heap, checking shape; every vertex 0..n-1 exactly once
struct SchedCopy { VI lp, pp, np; int levels = 0; };
SchedCopy take_schedule(int n, int levels, const int* lp, const int* pp, const int* np);
SchedCopy take_schedule(int n, int levels, const VI& lp, const VI& pp, const VI& np, bool part_tail_free = false);
// static dependence check; then execution by simulated workers under the current scheduler
void check_schedule(const Graph& g, const SchedCopy& s);
void execute_schedule(const Plan& p, const Graph& g, const SchedCopy& s, const std::vector<VI>* groups = nullptr);
void hash_schedule(const SchedCopy& s);
bool same_sched(const SchedCopy& a, const SchedCopy& b);

// schedules the executors can be given
void execute_tasks(const Plan& p, const Graph& g, const VI& gp, const VI& gs, const VI& dp, const VI& ds);
SchedCopy valid_schedule(Rng& r, const Graph& g);

// ---------------------------------------------------------------- inspectors
struct Out {
  bool has_sched = false;
  SchedCopy s;
  std::vector<VI> a;
  std::vector<double> d;
  bool operator==(const Out& o) const {
    return has_sched == o.has_sched && (!has_sched || same_sched(s, o.s)) && a == o.a &&
           d.size() == o.d.size() && (d.empty() || !memcmp(d.data(), o.d.data(), d.size() * 8));
  }
};
std::string describe_diff(const Out& a, const Out& b);
struct Insp {
  virtual ~Insp() {}
  virtual Out run() = 0;              // calls the code under test
  virtual void check(const Out&) = 0;  // oracle; violates
  virtual void balance(const Out&) {}  // how evenly a schedule shares the work out; violates
};
enum { I_PAR = 1,      // result may legitimately depend on how its own threads interleave
       I_TEAM = 2,     // opens parallel regions
       I_NOSHORT = 4,  // meaningless with smaller teams than asked for
       I_EXEC = 8,
       I_DEGRADE = 32,  // may fall back to another correct answer when memory runs out
       I_UTIL = 16 };   // an executor (not an inspector)
struct InspDef {
  const char* name;
  unsigned flags;
  void (*gen)(Rng&, Plan&);
  Insp* (*make)(const Plan&);
};
extern bool g_fix_large;                      // leave the large-partition limit at its default
extern "C" int sym_sim_large_partition;  // hook of lbc_csc_dag.cpp
const std::vector<InspDef>& inspectors();
const InspDef* find_insp(const std::string& n);
void read_ok(const void* p, size_t bytes, const char* what);  // an output array the caller may read
void share_graph(const Graph* g);  // make_graph returns copies of this one (same arrays) while set
void add_io(std::vector<Scenario>& v);
void add_io_props(std::vector<PropEntry>& v);
void add_bench(std::vector<Scenario>& v);
void add_bench_props(std::vector<PropEntry>& v);
void add_pipe(std::vector<Scenario>& v);
void add_pipe_props(std::vector<PropEntry>& v);
