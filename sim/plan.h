// A Plan is one fully determined simulated run: scenario, input graph, parameters, faults, schedule.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include "rt.h"

struct Plan {
  std::string prop, scn, bin;
  uint64_t seed = 1;
  int n = 1;
  std::vector<std::pair<int, int>> e;  // edges u<v : v depends on u
  std::map<std::string, int64_t> p;
  std::string blob;
  sim::RunCfg cfg;
  sim::Trace trace;
  bool has_trace = false;
  std::string expect_kind, expect_msg;
  uint64_t expect_hash = 0;

  int64_t get(const std::string& k, int64_t d = 0) const { auto it = p.find(k); return it == p.end() ? d : it->second; }
  int64_t get(const std::string& k, int64_t d, int64_t lo, int64_t hi) const {
    int64_t v = get(k, d);
    return v < lo ? lo : v > hi ? hi : v;
  }
  std::string str() const;
  static bool parse(const std::string& text, Plan& out, std::string& err);
};

struct Scenario {
  const char* name;
  void (*gen)(sim::Rng&, Plan&);
  void (*body)(const Plan&);
  bool (*accept)(const Plan&, const sim::RunRes&);  // outcomes other than O_OK that are allowed
};
const Scenario* find_scenario(const std::string& name);
struct PropEntry {
  const char* prop;
  const char* scn;
  const char* bin;  // "omp" or "seq"
  int weight;
};
const std::vector<PropEntry>& prop_table();

// graph generation
void gen_graph(sim::Rng& r, Plan& p, int maxn, int family = -1);
void gen_sched(sim::Rng& r, Plan& p, int maxthreads);  // scheduler strategy, team size
int family_count();

// counters reported in the evidence
struct Stats;
extern bool g_is_omp;
