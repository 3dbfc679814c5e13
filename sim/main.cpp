// Search, replay and minimisation of simulated runs.
#include <sys/mman.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include "harness.h"

bool g_is_omp = false;
static std::string bin_name() { return g_is_omp ? "omp" : "seq"; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }

struct Verdict { bool bad = false; std::string kind, msg; sim::RunRes r; };
static Verdict run_plan(Plan& p, bool use_trace) {
  const Scenario* s = find_scenario(p.scn);
  Verdict v;
  if (!s) { fprintf(stderr, "unknown scenario %s\n", p.scn.c_str()); _exit(2); }
  share_graph(nullptr);
  sim::RunCfg c = p.cfg;
  c.replay = use_trace && p.has_trace ? &p.trace : nullptr;
  v.r = sim::run(c, [&] { g_fix_large = false; s->body(p); });
  if (v.r.outcome != sim::O_OK && !(s->accept && s->accept(p, v.r))) {
    v.bad = true;
    v.kind = v.r.outcome == sim::O_VIOLATION ? v.r.kind : v.r.outcome == sim::O_CRASH ? "crash" : v.r.outcome == sim::O_EXIT ? "exit" : v.r.outcome == sim::O_TERMINATE ? "terminate"
             : v.r.outcome == sim::O_EXCEPTION ? "exception" : v.r.outcome == sim::O_DEADLOCK ? "deadlock" : "no-progress";
    v.msg = v.r.msg;
  }
  return v;
}

static bool make_plan(const std::string& prop, uint64_t seed, uint64_t idx, Plan& p, const std::string& only) {
  std::vector<const PropEntry*> t;
  uint64_t tot = 0;
  for (auto& e : prop_table())
    if (prop == e.prop && bin_name() == e.bin && (only.empty() || only == e.scn)) { t.push_back(&e); tot += e.weight; }
  if (t.empty()) return false;
  Rng r(sim::mix(sim::mix(seed, idx), g_is_omp ? 11 : 12));
  uint64_t k = r.below(tot);
  const PropEntry* e = t[0];
  for (auto* x : t) { if (k < (uint64_t)x->weight) { e = x; break; } k -= x->weight; }
  p = Plan();
  p.prop = prop; p.scn = e->scn; p.bin = bin_name(); p.seed = r.next() >> 1;
  Rng q(p.seed);
  find_scenario(p.scn)->gen(q, p);
  return true;
}
static std::string jesc(const std::string& s) {
  std::string o;
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o;
}

static int cmd_search(std::map<std::string, std::string>& a) {
  std::string prop = a["prop"], out = a["out"], only = a["scn"], stop = a["stop"];
  uint64_t seed = strtoull(a["seed"].c_str(), 0, 10), start = strtoull(a["start"].c_str(), 0, 10), stride = std::max<uint64_t>(1, strtoull(a["stride"].c_str(), 0, 10));
  double limit = atof(a["seconds"].c_str());
  uint64_t maxruns = a.count("max") ? strtoull(a["max"].c_str(), 0, 10) : ~0ULL;
  int maxviol = a.count("maxviol") ? atoi(a["maxviol"].c_str()) : 12;
  int fd = open((out + ".progress").c_str(), O_RDWR | O_CREAT, 0644);
  if (ftruncate(fd, 16)) return 2;
  uint64_t* prog = (uint64_t*)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  uint64_t runs = 0, steps = 0, sw = 0, forced = 0, regions = 0, barriers = 0, chunks = 0, stall = 0, shrt = 0, alloc = 0, nonmono = 0, clk = 0, ns = 0, soft = 0, reruns = 0, viols = 0, nontriv = 0, inter = 0;
  uint64_t d_open = 0, d_eio = 0, d_nospc = 0, d_short = 0, d_crash = 0, d_r = 0, d_w = 0;
  int maxlive = 0;
  std::map<std::string, uint64_t> per_scn, outcomes, strat;
  std::map<std::string, double> per_scn_t;
  std::map<std::string, std::string> found;  // scn|kind -> file
  std::unordered_set<uint64_t> hashes, graphs;
  std::vector<std::string> samples;
  double t0 = now(), tend = t0 + limit, tr = t0;
  uint64_t idx = start;
  for (; runs < maxruns; idx += stride) {
    if (tr >= tend) break;
    if (!stop.empty() && runs % 64 == 63 && access(stop.c_str(), F_OK) == 0) break;
    Plan p;
    prog[0] = idx; prog[1] = 1;
    if (!make_plan(prop, seed, idx, p, only)) { break; }
    Verdict v = run_plan(p, false);
    prog[1] = 0;
    runs++;
    auto& r = v.r;
    steps += r.steps; sw += r.switches; forced += r.forced; regions += r.regions; barriers += r.barriers; chunks += r.chunks;
    stall += r.f_stall; shrt += r.f_short; alloc += r.f_alloc; nonmono += r.f_nonmono; clk += r.f_clock; ns += r.sim_ns; soft += r.soft_mem;
    d_open += sim::g_disk.f_open; d_eio += sim::g_disk.f_eio; d_nospc += sim::g_disk.f_enospc; d_short += sim::g_disk.f_short; d_crash += sim::g_disk.crashed; d_r += sim::g_disk.reads; d_w += sim::g_disk.writes;
    maxlive = std::max(maxlive, r.max_live);
    per_scn[p.scn]++;
    double tn = now();
    per_scn_t[p.scn] += tn - tr;
    tr = tn;
    outcomes[sim::outcome_name(r.outcome)]++;
    strat[std::to_string(p.cfg.strategy)]++;
    bool multi = r.switches > 0;
    bool nt = (p.n > 1 && (!p.e.empty() || multi || r.f_alloc)) || sim::g_disk.reads || sim::g_disk.writes;
    if (nt) { nontriv++; if (hashes.size() < 1500000) hashes.insert(r.hash); }
    if (multi) inter++;
    uint64_t gh = p.n;
    for (auto& x : p.e) gh = sim::mix(gh, x.first * 100003ull + x.second);
    if (p.n == 1) for (auto& x : p.p) gh = sim::mix(gh, (uint64_t)x.second * 1000003ull + x.first[0]);  // files: the plan parameters
    if (graphs.size() < 1500000) graphs.insert(gh);
    if (samples.size() < 4 && nt) samples.push_back(F("%s index %llu: n=%d edges=%zu strategy=%d threads=%d steps=%llu switches=%llu outcome=%s", p.scn.c_str(), (unsigned long long)idx, p.n, p.e.size(), p.cfg.strategy, p.cfg.threads, (unsigned long long)r.steps, (unsigned long long)r.switches, sim::outcome_name(r.outcome)));
    // the simulator itself: the same seed and the recorded schedule must both repeat the run exactly
    if (runs % 53 == 0) {
      reruns++;
      Verdict w = run_plan(p, false);
      p.trace = r.trace; p.has_trace = true;
      Verdict x = run_plan(p, true);
      if (w.r.hash != r.hash || x.r.outcome != r.outcome || x.r.steps != r.steps) {
        spit(out + ".nondet", p.str());
        fprintf(stderr, "NONDETERMINISM %s idx %llu: hash %llx/%llx/%llx steps %llu/%llu/%llu\n", p.scn.c_str(), (unsigned long long)idx, (unsigned long long)r.hash, (unsigned long long)w.r.hash, (unsigned long long)x.r.hash, (unsigned long long)r.steps, (unsigned long long)w.r.steps, (unsigned long long)x.r.steps);
      }
      tr = now();
    }
    if (v.bad) {
      viols++;
      std::string key = p.scn + "|" + v.kind + (r.site.empty() ? "" : "|" + r.site);
      if (!found.count(key) && (int)found.size() < maxviol) {
        p.trace = r.trace; p.has_trace = true;
        p.expect_kind = v.kind; p.expect_msg = v.msg; p.expect_hash = r.hash;
        std::string f = out + ".v" + std::to_string(found.size()) + ".replay";
        spit(f, p.str());
        found[key] = f;
      }
    }
  }
  prog[1] = 2;
  std::ostringstream o;
  o << "{\"runs\":" << runs << ",\"next\":" << idx << ",\"steps\":" << steps << ",\"switches\":" << sw << ",\"forced\":" << forced << ",\"regions\":" << regions << ",\"barriers\":" << barriers << ",\"chunks\":" << chunks
    << ",\"f_stall\":" << stall << ",\"f_short_team\":" << shrt << ",\"f_alloc\":" << alloc << ",\"f_nonmono\":" << nonmono << ",\"f_clock\":" << clk << ",\"sim_ns\":" << ns << ",\"soft_mem\":" << soft << ",\"reruns\":" << reruns << ",\"viols\":" << viols
    << ",\"nontrivial\":" << nontriv << ",\"interleaved\":" << inter << ",\"max_live\":" << maxlive << ",\"wall\":" << now() - t0
    << ",\"disk\":{\"open_failures\":" << d_open << ",\"io_errors\":" << d_eio << ",\"disk_full\":" << d_nospc << ",\"short_io\":" << d_short << ",\"power_loss\":" << d_crash << ",\"reads\":" << d_r << ",\"writes\":" << d_w << "}";
  auto mp = [&](const char* n, std::map<std::string, uint64_t>& m) { o << ",\"" << n << "\":{"; bool f = true; for (auto& x : m) { o << (f ? "" : ",") << "\"" << x.first << "\":" << x.second; f = false; } o << "}"; };
  mp("per_scn", per_scn); mp("outcomes", outcomes); mp("strategies", strat); mp("probes", sim::g_probes);
  o << ",\"per_scn_t\":{"; { bool f = true; for (auto& x : per_scn_t) { o << (f ? "" : ",") << "\"" << x.first << "\":" << x.second; f = false; } } o << "}";
  o << ",\"found\":{"; { bool f = true; for (auto& x : found) { o << (f ? "" : ",") << "\"" << jesc(x.first) << "\":\"" << jesc(x.second) << "\""; f = false; } } o << "}";
  o << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\""; o << "]}\n";
  spit(out + ".json", o.str());
  std::string h;
  for (auto* s : {&hashes, &graphs}) { uint64_t n = s->size(); h.append((char*)&n, 8); for (uint64_t x : *s) h.append((char*)&x, 8); }
  spit(out + ".hash", h);
  std::string cv;
  for (uint32_t x : sim::covered_sites()) cv.append((char*)&x, 4);
  spit(out + ".cov", cv);
  return 0;
}

// ------------------------------------------------------------------------------ minimisation
struct Min {
  std::string kind, scn, site;
  double tend;
  int tries_sched = 1;
  uint64_t runs = 0;
  Plan best;
  bool fails(Plan& c, bool trace) {
    if (now() > tend) return false;
    runs++;
    Verdict v = run_plan(c, trace);
    if (!v.bad || v.kind != kind || v.r.site != site) return false;
    c.trace = v.r.trace; c.expect_kind = v.kind; c.expect_msg = v.msg; c.expect_hash = v.r.hash; c.has_trace = true;
    return true;
  }
  // same failure under the same seed or a few other schedules
  bool attempt(Plan c) {
    int tries = tries_sched;
    for (int i = 0; i < tries; i++) {
      Plan d = c;
      if (i) { d.cfg.sched_seed = c.cfg.sched_seed * 31 + i; if (i % 3 == 0) { d.cfg.strategy = sim::S_RANDOM; d.cfg.mean = 1 + i % 10; } }
      if (fails(d, false)) { best = d; return true; }
      if (now() > tend) return false;
    }
    return false;
  }
  static void drop_vertices(Plan& c, const std::vector<char>& del) {
    std::vector<int> id(c.n, -1);
    int k = 0;
    for (int i = 0; i < c.n; i++) if (!del[i]) id[i] = k++;
    std::vector<std::pair<int, int>> e;
    for (auto& x : c.e) if (id[x.first] >= 0 && id[x.second] >= 0) e.emplace_back(id[x.first], id[x.second]);
    c.n = k; c.e = e;
  }
  void graph() {
    for (bool again = true; again && now() < tend;) {
      again = false;
      for (int sz = std::max(1, best.n / 2); sz >= 1 && now() < tend; sz = sz == 1 ? 0 : sz / 2)
        for (int at = 0; at < best.n && best.n > 1 && now() < tend;) {
          Plan c = best;
          std::vector<char> del(c.n, 0);
          for (int i = at; i < std::min(c.n, at + sz); i++) del[i] = 1;
          if (c.n - std::min(sz, c.n - at) < 1) break;
          drop_vertices(c, del);
          if (attempt(c)) again = true; else at += sz;
        }
      for (int sz = std::max<int>(1, best.e.size() / 2); sz >= 1 && now() < tend; sz = sz == 1 ? 0 : sz / 2)
        for (size_t at = 0; at < best.e.size() && now() < tend;) {
          Plan c = best;
          c.e.erase(c.e.begin() + at, c.e.begin() + std::min(c.e.size(), at + sz));
          if (attempt(c)) again = true; else at += sz;
        }
    }
  }
  void params() {
    std::vector<std::string> keys;
    for (auto& x : best.p) keys.push_back(x.first);
    for (auto& k : keys) {
      if (now() > tend) return;
      { Plan c = best; c.p.erase(k); if (attempt(c)) continue; }
      for (int64_t v : {(int64_t)0, (int64_t)1, (int64_t)2, best.p[k] / 2}) {
        if (v == best.p[k] || std::abs(v) > std::abs(best.p[k])) continue;
        Plan c = best; c.p[k] = v;
        if (attempt(c)) break;
      }
    }
    auto cfg = [&](std::function<void(sim::RunCfg&)> f) { Plan c = best; f(c.cfg); attempt(c); };
    cfg([](sim::RunCfg& c) { c.short_teams = false; });
    cfg([](sim::RunCfg& c) { c.nonmono = false; });
    cfg([](sim::RunCfg& c) { c.fill = 0; });
    cfg([](sim::RunCfg& c) { c.clock_mode = 0; });
    for (int t : {1, 2, 3, 4}) if (t < best.cfg.threads) { int b = best.cfg.threads; cfg([t](sim::RunCfg& c) { c.threads = t; }); if (best.cfg.threads < b) break; }
    cfg([](sim::RunCfg& c) { c.strategy = sim::S_RTC; c.mean = 1; });
  }
  void trace() {
    // keep only the context switches that matter
    Plan t = best;
    if (!fails(t, true)) return;
    best = t;
    auto& P = best.trace.preempt;
    for (int sz = std::max<int>(1, P.size()); sz >= 1 && now() < tend; sz = sz == 1 ? 0 : sz / 2)
      for (size_t at = 0; at < best.trace.preempt.size() && now() < tend;) {
        Plan c = best;
        auto& q = c.trace.preempt;
        q.erase(q.begin() + at, q.begin() + std::min(q.size(), at + sz));
        size_t before = best.trace.preempt.size();
        Plan in = c;
        if (fails(c, true) && c.trace.preempt.size() < before) best = c; else at += sz;
        (void)in;
      }
    { Plan c = best; c.trace.forced.clear(); if (!c.trace.forced.empty() || !best.trace.forced.empty()) if (fails(c, true)) best = c; }
    { Plan c = best; c.trace.draws.clear(); if (!best.trace.draws.empty()) if (fails(c, true)) best = c; }
  }
};
static int cmd_minimise(const std::string& in, const std::string& out, double secs) {
  Plan p; std::string err;
  if (!Plan::parse(slurp(in), p, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
  Min m;
  m.kind = p.expect_kind; m.scn = p.scn; m.tend = now() + secs;
  { Plan q = p; Verdict v = run_plan(q, true); m.site = v.r.site; }
  // the recorded execution must fail again, exactly
  Plan t = p;
  if (!m.fails(t, true) || t.expect_hash != p.expect_hash) {
    // hash includes the steps of the search run; the trace run must at least fail in the same way
    Plan u = p;
    if (!m.fails(u, false)) { fprintf(stderr, "not reproduced\n"); return 3; }
    t = u;
  }
  m.best = t;
  m.best.has_trace = true;
  bool par = p.bin == "omp" && m.best.trace.preempt.size() > 0;
  m.tries_sched = par ? 6 : 1;
  Plan keep = m.best;
  m.params();
  m.graph();
  m.params();
  m.trace();
  // final form: replay the trace once more and record what it shows
  Plan f = m.best;
  m.tend = now() + 60;
  f.has_trace = true;
  if (!m.fails(f, true)) { f = keep; if (!m.fails(f, true)) { fprintf(stderr, "minimised run not reproduced\n"); return 3; } }
  spit(out, f.str());
  std::cout.rdbuf();
  printf("{\"kind\":\"%s\",\"msg\":\"%s\",\"scn\":\"%s\",\"n\":%d,\"edges\":%zu,\"preempt\":%zu,\"runs\":%llu}\n", jesc(f.expect_kind).c_str(), jesc(f.expect_msg).c_str(), f.scn.c_str(), f.n, f.e.size(), f.trace.preempt.size(), (unsigned long long)m.runs);
  return 0;
}
static int cmd_replay(const std::string& in, bool verbose) {
  Plan p; std::string err;
  if (!Plan::parse(slurp(in), p, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
  if (p.bin != bin_name()) { fprintf(stderr, "this replay is for the %s binary\n", p.bin.c_str()); return 2; }
  Verdict v = run_plan(p, true);
  bool exact = v.bad && v.kind == p.expect_kind && (p.expect_hash == 0 || v.r.hash == p.expect_hash);
  printf("{\"outcome\":\"%s\",\"bad\":%s,\"kind\":\"%s\",\"msg\":\"%s\",\"hash\":\"%llu\",\"steps\":%llu,\"exact\":%s}\n", sim::outcome_name(v.r.outcome), v.bad ? "true" : "false", jesc(v.kind).c_str(), jesc(v.r.msg).c_str(), (unsigned long long)v.r.hash, (unsigned long long)v.r.steps, exact ? "true" : "false");
  return v.bad ? 1 : 0;
}

int main(int argc, char** argv) {
  g_is_omp = strstr(argv[0], "sim_omp") != nullptr;
  if (argc < 2) { fprintf(stderr, "usage: %s search|plan|replay|minimise ...\n", argv[0]); return 2; }
  if (freopen("/dev/null", "r", stdin) == nullptr) return 2;
  std::string cmd = argv[1];
  std::map<std::string, std::string> a;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; i++) {
    std::string s = argv[i];
    if (s.substr(0, 2) == "--" && i + 1 < argc) { a[s.substr(2)] = argv[++i]; }
    else pos.push_back(s);
  }
  sim::runtime_init();
  int rc = 2;
  if (cmd == "search") rc = cmd_search(a);
  else if (cmd == "plan") {  // write the plan of one index
    Plan p;
    if (make_plan(a["prop"], strtoull(a["seed"].c_str(), 0, 10), strtoull(a["index"].c_str(), 0, 10), p, a["scn"])) { printf("%s", p.str().c_str()); rc = 0; }
  } else if (cmd == "replay" && pos.size() == 1) rc = cmd_replay(pos[0], true);
  else if (cmd == "minimise" && pos.size() == 2) rc = cmd_minimise(pos[0], pos[1], a.count("seconds") ? atof(a["seconds"].c_str()) : 25);
  else if (cmd == "table") { for (auto& e : prop_table()) if (bin_name() == e.bin) printf("%s %s %d\n", e.prop, e.scn, e.weight); rc = 0; }
  fflush(stdout);
  _exit(rc);
}
