// Scenario modes over the inspectors and executors, and the table property -> scenarios.
#include <new>
#include <map>
#include <set>
#include <string>
#include "harness.h"

namespace {
const InspDef* insp_of(const Plan& p) {
  auto c = p.scn.find(':');
  return find_insp(p.scn.substr(c + 1));
}
struct Holder {  // the inspector outlives the check; freed on normal return
  Insp* i;
  explicit Holder(Insp* x) : i(x) {}
  ~Holder() { delete i; }
  Insp* operator->() { return i; }
};
void gen_common(Rng& r, Plan& p, const InspDef* d, int maxn) {
  gen_graph(r, p, maxn);
  gen_sched(r, p, 8);
  p.p["workers"] = r.chance(1, 60) ? 1 + r.below(40) : 1 + r.below(6);
  p.p["assign"] = r.below(6);
  p.p["assignseed"] = r.below(100000);
  p.cfg.mem_strict = false;
  p.cfg.ro_strict = false;
  if (d) {
    if (r.chance(1, 4)) p.p["ord"] = 1 + r.below(2);
    // these need the diagonal first, or the rows of a column in order
    std::string nm = d->name;
    if (nm == "lbc_csc" || nm == "sparsify" || nm == "level_multi" || nm == "level_queue") { if (p.get("ord")) p.p["ord"] = 1; }
    if (nm == "hgroup" || nm == "hpipe" || nm == "rowgroup") p.p.erase("ord");
    d->gen(r, p);
    if (d->flags & I_NOSHORT) p.cfg.short_teams = false;
  }
  p.cfg.clock_mode = r.chance(1, 3) ? r.below(4) : 0;
}

// ---- valid: one call, full oracle
void gen_valid(Rng& r, Plan& p) {
  const InspDef* d = insp_of(p);
  static const uint64_t big = getenv("SIM_BIG") ? strtoull(getenv("SIM_BIG"), 0, 10) : 700;  // one in so many is large
  static const uint64_t huge = getenv("SIM_HUGE") ? strtoull(getenv("SIM_HUGE"), 0, 10) : 4000;  // one in so many needs more than 16 bits
  static const std::set<std::string> quadratic = {"u_misc", "u_parts", "u_trans", "u_vec", "u_graphs"}, none = {"sparsify", "hdagg", "hpipe"}, slow = {"lbc_csc", "lbc_csc03", "lbc_par", "lbc_bcsc", "glc_v2", "comp_cc"};
  bool q = quadratic.count(d->name);
  int maxn = 400;
  if (!q && r.chance(1, big)) maxn = d->name == std::string("hgroup") ? 7000 : 2000;  // tree groups are limited to n/1000 vertices
  if (!q && !none.count(d->name) && r.chance(1, huge == 1 ? 1 : slow.count(d->name) ? 15 * huge : d->name[0] == 'o' ? huge / 4 : huge)) maxn = 66000;
  // few wavefronts with most vertices in one of them: the ranges of one wavefront outgrow 16 bits too
  static const std::map<std::string, int> shallow = {{"hdagg", 1}, {"hpipe", 1}, {"glc_v2", 4}, {"lbc_bcsc", 4}, {"lbc_par", 12}, {"lbc_csc", 12}, {"sparsify", 60}};
  auto sh = shallow.find(d->name);
  if (sh != shallow.end() && r.chance(1, huge > 1 ? sh->second * huge / 4 : 2)) { maxn = 66000; p.p["shallow"] = 1; }
  if (maxn > 60000) p.p["thin"] = (d->flags & I_UTIL) && d->name[0] != 'u';  // no fill
  gen_common(r, p, d, maxn);
  if (d->name == std::string("build_coarse") && r.chance(1, 150)) {  // so many dependences that another cut is chosen
    p.n = 210 + r.below(90); p.e.clear();
    int miss = r.chance(1, 2) ? 0 : 20;
    for (int u = 0; u < p.n; u++) for (int v = u + 1; v < p.n; v++) if (!miss || r.below(miss)) p.e.emplace_back(u, v);
    p.cfg.budget = 2000000000;
  }
  if (p.n > 400) p.cfg.budget = 2000000000;
  if (p.n > 10000) { p.cfg.strategy = r.chance(1, 2) ? sim::S_RTC : sim::S_RANDOM; p.cfg.mean = 100000; p.cfg.threads = std::min(p.cfg.threads, 8); p.p["workers"] = 2; p.p["lb"] = 0; p.p["clique"] = 0; }
}
void body_valid(const Plan& p) {
  const InspDef* d = insp_of(p);
  Holder h(d->make(p));
  Out o = h->run();
  h->check(o);
}

// ---- repeat: same inputs again after history, other garbage, other clock
void gen_repeat(Rng& r, Plan& p) {
  gen_common(r, p, insp_of(p), 120);
  p.p["fill2"] = r.below(4);
  p.p["clock2"] = r.below(4);
  p.p["between"] = r.chance(1, 2) ? 1 + r.below(1000) : 0;
  p.p["shift"] = r.chance(1, 2) ? r.logu(5000) : 0;
  p.p["fresh"] = r.below(2);
  p.cfg.ro_strict = true;
}
Plan sub_plan(const Plan& p, const InspDef* d, uint64_t seed) {
  Plan q = p;
  q.p.clear();
  q.p["exec"] = 0;
  q.p["watch"] = 0;
  q.scn = std::string("valid:") + d->name;
  Rng r(seed);
  d->gen(r, q);
  for (const char* k : {"nt", "cores"}) if (q.get(k) > 12) q.p[k] = 12;  // several of these run at once
  return q;
}
void body_repeat(const Plan& p) {
  const InspDef* d = insp_of(p);
  Plan q = p;
  q.p["watch"] = 0;
  Holder h(d->make(q));
  Out o1 = h->run();
  sim::set_fill(p.get("fill2"));
  sim::set_clock_mode(p.get("clock2", 0, 0, 3));
  if (p.get("shift")) { Api a; ::operator delete(::operator new(p.get("shift"))); sim::arena_raw(p.get("shift") * 3); }
  if (int b = p.get("between")) {
    // an earlier call on something else
    auto& t = inspectors();
    const InspDef* e = &t[b % t.size()];
    Plan s = sub_plan(p, e, b);
    s.e.resize(s.e.size() / 2);
    Holder k(e->make(s));
    k->run();
  }
  Out o2 = h->run();
  bool par = (d->flags & I_PAR) && g_is_omp && p.cfg.threads > 1;
  if (d->name == std::string("lbc_par")) {
    // threads that add up fractions in another order may break a tie of two partitions another way
    int c = p.get("cost", 1);
    par = g_is_omp && p.get("large", -1) >= 0 && (c == 4 || c == 7 || c == 8);
  }
  if (!par) REQ(o1 == o2, "not-reproducible", "the second call with the same arguments gave another result: %s", describe_diff(o1, o2).c_str());
  if (p.get("fresh")) {
    Holder h2(d->make(q));
    Out o3 = h2->run();
    if (!par) REQ(o1 == o3, "not-reproducible", "a call on a copy of the inputs gave another result: %s", describe_diff(o1, o3).c_str());
  }
}

// ---- oom: an allocation fails
void gen_oom(Rng& r, Plan& p) {
  gen_common(r, p, insp_of(p), 60);
  p.p["failk"] = r.below(1 << 20);
  p.p["failmode"] = r.chance(1, 3);
  p.cfg.ro_strict = true;
  p.cfg.clock_mode = 0;
}
void body_oom(const Plan& p) {
  const InspDef* d = insp_of(p);
  Plan q = p;
  q.p["watch"] = 0;
  q.p["exec"] = 0;
  Holder h(d->make(q));
  uint64_t a0 = sim::alloc_count();
  Out o1 = h->run();
  uint64_t used = sim::alloc_count() - a0;
  bool par = (d->flags & I_PAR) && g_is_omp;
  if (!used) { sim::probe("no-allocation"); return; }
  bool clean = sim::soft_mem() == 0;
  if (clean) sim::set_strict(true, true);
  uint64_t k = p.get("failk") % used;
  sim::arm_alloc_fault(sim::alloc_count() + k, p.get("failmode"));
  bool threw = false;
  Out o2;
  try { o2 = h->run(); }
  catch (const std::bad_alloc&) { threw = true; }
  bool fired = sim::alloc_fault_fired();
  sim::arm_alloc_fault(-1, false);
  if (threw) sim::probe("oom-bad_alloc");
  else {
    if (fired) sim::probe("oom-returned");
    if (par || (d->flags & I_DEGRADE)) h->check(o2);
    else REQ(o1 == o2, "wrong-after-oom", "the call in which an allocation failed returned something else: %s", describe_diff(o1, o2).c_str());
  }
  Out o3 = h->run();
  if (par) h->check(o3);
  else REQ(o1 == o3, "wrong-after-oom", "the call after an out-of-memory failure gave another result: %s", describe_diff(o1, o3).c_str());
}
bool accept_oom(const Plan&, const sim::RunRes& r) {
  if (!r.f_alloc) return false;
  if (r.outcome == sim::O_EXIT) return r.exit_code != 0;
  if (r.outcome == sim::O_TERMINATE) return true;
  return r.outcome == sim::O_CRASH && r.msg.find("null pointer") != std::string::npos;
}

// ---- callers: several application threads inspect at the same time
void gen_callers(Rng& r, Plan& p) {
  gen_common(r, p, nullptr, 40);
  p.p["ncall"] = 2 + r.below(3);
  auto& t = inspectors();
  // callers of one kind of utilities, or of the inspectors and executors
  char ut = p.prop == "C20" ? 'u' : p.prop == "C21" ? 't' : p.prop == "C22" ? 'o' : 0;
  auto pick = [&] { int k; do k = r.below(t.size()); while ((t[k].flags & I_UTIL ? t[k].name[0] : 0) != ut); return k; };
  int base = pick();
  bool same = r.chance(1, 2);
  if (!g_is_omp || r.chance(1, 2)) p.cfg.threads = 1;
  for (int i = 0; i < 4; i++) {
    p.p["c" + std::to_string(i)] = same ? base : pick();
    p.p["v" + std::to_string(i)] = r.below(100000);
    p.p["rep" + std::to_string(i)] = 1 + r.below(2);
  }
  if (r.chance(1, 5)) { p.p["failk"] = 1 + r.logu(200); }
  p.cfg.threads = std::min(p.cfg.threads, 4);
}
void body_callers(const Plan& p) {
  struct Fix { Fix() { g_fix_large = !g_is_omp; } ~Fix() { g_fix_large = false; } } fix;  // one limit for the process
  int nc = p.get("ncall", 2, 2, 4);
  auto& t = inspectors();
  struct C { const InspDef* d; Insp* i; Out ref, got; bool oom = false, par; int rep; };
  std::vector<C> c(nc);
  Graph shared = make_graph(p);
  share_graph(&shared);
  for (int i = 0; i < nc; i++) {
    c[i].d = &t[p.get("c" + std::to_string(i), 0, 0, t.size() - 1)];
    if (c[i].d->name == std::string("stat_lbc") || c[i].d->name == std::string("stat_levelset") || c[i].d->name == std::string("stat_group_lbc")) c[i].d = find_insp("x_lbc");
    c[i].i = c[i].d->make(sub_plan(p, c[i].d, p.get("v" + std::to_string(i))));
    c[i].par = (c[i].d->flags & I_PAR) && g_is_omp;
    c[i].rep = p.get("rep" + std::to_string(i), 1, 1, 4);
  }
  share_graph(nullptr);
  for (auto& x : c) x.ref = x.i->run();
  if (p.get("failk")) sim::arm_alloc_fault(sim::alloc_count() + p.get("failk"), false);
  sim::track_callers(true);
  std::vector<std::function<void()>> b;
  for (auto& x : c) {
    C* q = &x;
    b.push_back([q] {
      for (int k = 0; k < q->rep; k++) {
        try { q->got = q->i->run(); q->oom = false; }
        catch (const std::bad_alloc&) { q->oom = true; }
      }
    });
  }
  sim::spawn_callers(b);
  sim::track_callers(false);
  sim::arm_alloc_fault(-1, false);
  for (int i = 0; i < nc; i++) {
    if (c[i].oom) continue;
    if (c[i].par || (c[i].d->flags & I_DEGRADE)) c[i].i->check(c[i].got);
    else REQ(c[i].got == c[i].ref, "caller-differs", "caller %d (%s) got another result than alone: %s", i, c[i].d->name, describe_diff(c[i].ref, c[i].got).c_str());
  }
  for (auto& x : c) delete x.i;
}

// ---- mem: every access inside its buffer
void gen_mem(Rng& r, Plan& p) {
  gen_common(r, p, insp_of(p), 200);
  p.cfg.mem_strict = true;
}
void body_mem(const Plan& p) {
  const InspDef* d = insp_of(p);
  Plan q = p;
  q.p["watch"] = 0;
  Holder h(d->make(q));
  h->run();
}

// ---- leak: a call gives back what it took, apart from what it hands to its caller
void gen_leak(Rng& r, Plan& p) { gen_common(r, p, insp_of(p), 100); }
void body_leak(const Plan& p) {
  const InspDef* d = insp_of(p);
  Plan q = p;
  q.p["watch"] = 0;
  Holder h(d->make(q));
  h->run();  // whatever is set up once
  int64_t a = sim::live_blocks();
  h->run();
  int64_t b = sim::live_blocks();
  if (b == a) return;
  sim::own_trace(true);
  h->run();
  std::string who;
  for (auto& s : sim::own_sites()) who += " " + s;
  sim::own_trace(false);
  sim::violate_at("leak", F("%ld%s", (long)(b - a), who.c_str()), F("the call left %ld blocks behind, allocated in%s", (long)(b - a), who.c_str()));
}

// ---- balance: the work of a level is shared out evenly
void gen_balance(Rng& r, Plan& p) {
  gen_common(r, p, insp_of(p), 400);
  if (r.chance(1, 2)) {  // more and smaller components
    size_t k = 0;
    uint64_t keep = 1 + r.below(6);
    for (auto& x : p.e) if (r.below(8) < keep) p.e[k++] = x;
    p.e.resize(k);
  }
  if (r.chance(3, 4)) p.p["bp"] = 1;
  if (r.chance(1, 8)) {  // chains of equal length, as many for every core, numbered at random
    int cores = p.get("cores", 2, 1, 1000), chains = cores * (1 + r.below(std::max(1, 24 / cores))), len = 1 + r.below(12);
    std::vector<int> left(chains, len), last(chains, -1);
    p.e.clear();
    p.n = chains * len;
    for (int v = 0; v < p.n; v++) {
      int c = r.below(chains);
      while (!left[c]) c = (c + 1) % chains;
      if (last[c] >= 0) p.e.push_back({last[c], v});
      last[c] = v;
      left[c]--;
    }
    p.p["cost"] = 0;
  }
}
void body_balance(const Plan& p) {
  const InspDef* d = insp_of(p);
  Plan q = p;
  q.p["watch"] = 0;
  q.p["exec"] = 0;
  Holder h(d->make(q));
  h->balance(h->run());
}

// ---- stall: progress
void gen_stall(Rng& r, Plan& p) {
  const InspDef* d = insp_of(p);
  gen_common(r, p, d, 150);
  int m = r.below(6);
  if (m < 3) { p.cfg.strategy = sim::S_STALL; p.cfg.mean = 1 + r.logu(200); }
  else if (m == 3) { p.cfg.strategy = sim::S_PCT; p.cfg.mean = 1 + r.below(6); }
  if (!(d->flags & I_NOSHORT)) p.cfg.short_teams = r.chance(1, 2);
  if (r.chance(1, 2)) p.cfg.threads = 2 + r.below(14);
}
void body_stall(const Plan& p) {
  const InspDef* d = insp_of(p);
  Plan q = p;
  q.p["watch"] = 0;
  q.p["exec"] = 0;
  Holder h(d->make(q));
  double n = p.n + p.e.size() + 8;
  // generous: any implementation in use needs far less; a livelock needs infinitely more
  sim::set_budget_rel((uint64_t)(2000000 + 4000 * n + 200 * n * p.n));
  h->run();
}

void add(std::vector<Scenario>& v, const char* name, void (*g)(Rng&, Plan&), void (*b)(const Plan&), bool (*a)(const Plan&, const sim::RunRes&) = nullptr) { v.push_back({name, g, b, a}); }
std::vector<Scenario>* table() {
  auto* v = new std::vector<Scenario>;
  for (auto& d : inspectors()) {
    std::string n = d.name;
    add(*v, strdup(("valid:" + n).c_str()), gen_valid, body_valid);
    add(*v, strdup(("repeat:" + n).c_str()), gen_repeat, body_repeat);
    add(*v, strdup(("oom:" + n).c_str()), gen_oom, body_oom, accept_oom);
    add(*v, strdup(("mem:" + n).c_str()), gen_mem, body_mem);
    add(*v, strdup(("leak:" + n).c_str()), gen_leak, body_leak);
    add(*v, strdup(("stall:" + n).c_str()), gen_stall, body_stall);
    add(*v, strdup(("balance:" + n).c_str()), gen_balance, body_balance);
  }
  add(*v, "callers", gen_callers, body_callers, accept_oom);
  add_io(*v);
  add_bench(*v);
  add_pipe(*v);
  return v;
}
}  // namespace

const Scenario* find_scenario(const std::string& n) {
  static std::vector<Scenario>* t = table();
  for (auto& s : *t) if (n == s.name) return &s;
  return nullptr;
}

const std::vector<PropEntry>& prop_table() {
  static std::vector<PropEntry>* t = nullptr;
  if (t) return *t;
  t = new std::vector<PropEntry>;
  auto both = [&](const char* prop, const std::string& s, int wo, int ws) {
    const char* c = strdup(s.c_str());
    if (wo) t->push_back({prop, c, "omp", wo});
    if (ws) t->push_back({prop, c, "seq", ws});
  };
  auto valid = [&](const char* prop, const char* insp, int wo = 4, int ws = 1) { both(prop, std::string("valid:") + insp, wo, ws); };
  valid("C01", "lbc_csc", 2, 2); valid("C01", "lbc_csc03", 2, 2);
  valid("C02", "lbc_tree", 2, 2); valid("C02", "lbc_csc_tree", 2, 2); valid("C02", "level_tree", 1, 1); valid("C02", "level_tree_eff", 1, 1);
  valid("C03", "lbc_par", 7, 1);
  valid("C04", "hdagg", 6, 1); valid("C04", "glc_v2", 5, 1); valid("C04", "build_coarse", 2, 1);
  for (const char* x : {"level_csc", "level_csc_c", "level_hd", "level_multi", "level_queue", "level_wrap"}) valid("C05", x, 2, 2);
  for (const char* x : {"level_super", "level_fused"}) valid("C05", x, 1, 1);
  valid("C06", "sparsify", 6, 1);
  valid("C07", "hgroup", 4, 1); valid("C07", "hpipe", 4, 1); valid("C07", "rowgroup", 2, 2);
  valid("C08", "par_cc", 4, 1); valid("C08", "comp_cc", 4, 1);
  for (const char* x : {"x_levelset", "x_levelset2", "x_lbc", "x_group_lbc", "x_group_levelset", "x_sgroup"}) valid("C09", x, 5, 1);
  for (const char* x : {"x_levelset_seq", "x_lbc_seq"}) valid("C09", x, 1, 1);
  valid("C10", "cost", 4, 1);
  for (const char* x : {"stat_lbc", "stat_levelset", "stat_group_lbc"}) valid("C10", x, 3, 1);
  valid("C16", "final_dag", 4, 1); valid("C16", "two_d", 2, 2); valid("C16", "conv_cn", 3, 1);
  for (const char* x : {"lbc_csc", "lbc_csc03", "lbc_tree", "lbc_bcsc"}) both("C26", std::string("balance:") + x, 2, 2);
  both("C26", "balance:lbc_par", 6, 2);
  for (const char* x : {"hdagg", "glc_v2"}) both("C26", std::string("balance:") + x, 3, 2);
  valid("C19", "lbc_bcsc", 3, 3); valid("C19", "level_bcsc", 1, 1);
  both("C13", "callers", 5, 3);
  both("C20", "callers", 4, 4); both("C21", "callers", 1, 1); both("C22", "callers", 1, 1);
  for (auto& d : inspectors()) {
    std::string n = d.name;
    bool ex = d.flags & I_EXEC, st = n.substr(0, 5) == "stat_";
    int w = d.flags & I_TEAM ? 3 : 1;
    if (d.flags & I_UTIL) {
      const char* pr = n[0] == 'u' ? "C20" : n[0] == 't' ? "C21" : "C22";
      for (const char* m : {"valid:", "repeat:", "oom:", "mem:"}) both(pr, m + n, 1, 1);
      both("C23", "leak:" + n, 1, 1);
      continue;
    }
    if (!ex || st) both("C14", "oom:" + n, w, 1);
    both("C15", "repeat:" + n, w, 2);
    both("C17", "mem:" + n, w, 1);
    both("C23", "leak:" + n, 1, 1);
    if (d.flags & I_TEAM) both("C18", "stall:" + n, 3, 0);
    else both("C18", "stall:" + n, 0, 1);
  }
  add_io_props(*t);
  add_bench_props(*t);
  add_pipe_props(*t);
  return *t;
}
