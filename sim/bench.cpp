// The measuring and reporting side of the library: timers and demo evaluation under a simulated clock (C24),
// result tables on the simulated disk across crashes, full disks and restarts (C25).
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <streambuf>
#include "aggregation/def.h"
#include "aggregation/utils.h"
#include "aggregation/test_utils.h"
#include "aggregation/FusionDemo.h"
#include "harness.h"

// ---------------------------------------------------------------- files of the standard library on the simulated disk
namespace std {
struct sim_filebuf : streambuf {
  string name, out;
  vector<char> piece;
  size_t off = 0;
  bool opened = false, can_w = false, can_r = false, app = false;
  size_t chunk() { int s = sim::g_disk.fault.short_io; return s > 0 ? s : 512; }
  bool open(const string& n, ios_base::openmode m) {
    auto& d = sim::g_disk;
    if (opened) return false;
    d.opens++;
    if (d.fault.open_errno) { d.f_open++; return false; }
    bool r = m & ios_base::in, w = m & (ios_base::out | ios_base::app), a = m & ios_base::app, t = (m & ios_base::trunc) || (w && !r && !a);
    bool there = d.files.count(n);
    if (!there && !(w && (!r || a || t))) return false;
    name = n; can_r = r; can_w = w; app = a; off = 0; out.clear(); setg(0, 0, 0);
    if (!d.crashed) { if (t) d.files[n].data.clear(); else d.files[n]; }
    if ((m & ios_base::ate)) off = d.files[n].data.size();
    d.open_handles++;
    return opened = true;
  }
  bool close() {
    if (!opened) return false;
    bool ok = flush();
    opened = false;
    sim::g_disk.open_handles--;
    return ok;
  }
  ~sim_filebuf() { close(); }
  int_type underflow() override {
    if (!opened || !can_r || !flush()) return traits_type::eof();
    auto& d = sim::g_disk;
    auto& f = d.files[name];
    d.reads++;
    size_t left = f.data.size() > off ? f.data.size() - off : 0, m = min(left, chunk());
    if (d.fault.short_io > 0 && m < left) d.f_short++;
    if (!m) return traits_type::eof();
    piece.assign(f.data.begin() + off, f.data.begin() + off + m);
    off += m;
    setg(piece.data(), piece.data(), piece.data() + m);
    return traits_type::to_int_type(*gptr());
  }
  pos_type seekoff(off_type o, ios_base::seekdir w, ios_base::openmode) override {
    if (!opened || !flush()) return pos_type(off_type(-1));
    off_type cur = (off_type)off - (egptr() - gptr());
    off_type b = w == ios_base::beg ? 0 : w == ios_base::cur ? cur : (off_type)sim::g_disk.files[name].data.size();
    if (b + o < 0) return pos_type(off_type(-1));
    off = b + o;
    setg(0, 0, 0);
    return pos_type(b + o);
  }
  pos_type seekpos(pos_type p, ios_base::openmode m) override { return seekoff(off_type(p), ios_base::beg, m); }
  int_type overflow(int_type c) override {
    if (!opened || !can_w) return traits_type::eof();
    if (c == traits_type::eof()) return 0;
    out += (char)c;
    if (out.size() >= chunk() && !flush()) return traits_type::eof();
    return c;
  }
  streamsize xsputn(const char* s, streamsize n) override {
    for (streamsize i = 0; i < n; i++) if (overflow((unsigned char)s[i]) == traits_type::eof()) return i;
    return n;
  }
  bool flush() {
    auto& d = sim::g_disk;
    if (out.empty()) return true;
    if (d.crashed) { out.clear(); return true; }
    d.writes++;
    auto& f = d.files[name];
    size_t at = app ? f.data.size() : off, m = out.size();
    bool ok = true;
    if (d.crash_at_byte >= 0 && (int64_t)(d.written + m) > d.crash_at_byte) { m = d.crash_at_byte > (int64_t)d.written ? d.crash_at_byte - d.written : 0; d.crashed = true; }
    else for (int64_t* lim : {&d.fault.enospc_at, &d.fault.eio_at})
      if (*lim >= 0 && (int64_t)(d.written + m) > *lim) { m = *lim > (int64_t)d.written ? *lim - d.written : 0; (lim == &d.fault.enospc_at ? d.f_enospc : d.f_eio)++; ok = false; }
    if (f.data.size() < at) f.data.resize(at);
    f.data.replace(at, min(m, f.data.size() - at), out, 0, m);
    d.written += m;
    off = at + m;
    out.clear();
    return ok;
  }
  int sync() override { return flush() ? 0 : -1; }
};
template <int DEF> struct sim_file : iostream {
  sim_filebuf b;
  sim_file() : iostream(&b) {}
  template <class S> explicit sim_file(const S& n, ios_base::openmode m = (ios_base::openmode)DEF) : iostream(&b) { open(n, m); }
  template <class S> void open(const S& n, ios_base::openmode m = (ios_base::openmode)DEF) {
    if (DEF == (int)ios_base::in) m |= ios_base::in;
    if (DEF == (int)ios_base::out) m |= ios_base::out;
    if (b.open(string(n), m)) clear(); else setstate(ios_base::failbit);
  }
  bool is_open() const { return b.opened; }
  void close() { if (!b.close()) setstate(ios_base::failbit); }
};
typedef sim_file<(int)ios_base::in> sim_ifstream;
typedef sim_file<(int)ios_base::out> sim_ofstream;
typedef sim_file<(int)(ios_base::in | ios_base::out)> sim_fstream;
}  // namespace std
#define ifstream sim_ifstream
#define ofstream sim_ofstream
#define fstream sim_fstream
#include "aggregation/csv_utils.h"
#undef ifstream
#undef ofstream
#undef fstream

namespace {
// what the code under test prints
struct Capture : std::streambuf {
  char b[8192]; size_t n = 0;
  std::streambuf* old;
  Capture() { old = std::cout.rdbuf(this); }
  ~Capture() { std::cout.rdbuf(old); }
  int_type overflow(int_type c) override { if (n < sizeof b && c != traits_type::eof()) b[n++] = (char)c; return 1; }
  std::string str() { return std::string(b, n); }
};

// ---------------------------------------------------------------- C24
void some_time(Rng& r) {
  int64_t ns = r.chance(1, 4) ? 0 : (int64_t)r.logu(1ULL << (10 + r.below(36)));
  sim::advance_time(ns);
  sim::yield_point();
  if (r.chance(1, 3)) {  // the wall clock is set, or corrected
    int64_t j = (int64_t)r.logu(1ULL << (10 + r.below(40)));
    sim::step_wall(r.chance(1, 2) ? -j : j);
  }
}
struct Window { int64_t lo = 0, hi = 0; };
void in_window(double el, int64_t lo, int64_t hi, const char* what) {
  double a = lo * 1e-9, b = hi * 1e-9, eps = 1e-8 + 1e-9 * b;
  REQ(el >= a - eps && el <= b + eps, "wrong-time", "%s: %.9f s were measured, %.9f to %.9f s have passed", what, el, a, b);
}
struct Demo : sym_lib::FusionDemo {
  Rng r;
  int fail_run = -1;      // this run computes a wrong result
  int runs = 0, builds = 0, bad_start = 0;
  double err = 0;
  const double* want;
  int64_t built = 0, prep0 = 0, prep1 = 0;
  std::vector<double> measured;
  std::vector<Window> windows;
  Demo(int n, const std::string& nm, uint64_t seed, double* correct) : FusionDemo(n, nm), r(seed) { correct_x_ = correct; want = correct; }
  void build_set() override { builds++; prep0 = sim::mono_ns(); some_time(r); some_time(r); prep1 = sim::mono_ns(); }
  sym_lib::timing_measurement fused_code() override {
    if (!runs || !built) built = sim::mono_ns();
    for (int i = 0; i < n_; i++) if (x_[i] != 0 || x_in_[i] != 1) bad_start++;
    sym_lib::timing_measurement t;
    Window w;
    int64_t m0 = sim::mono_ns();
    t.start_timer();
    int64_t m1 = sim::mono_ns();
    some_time(r);
    for (int i = 0; i < n_; i++) { x_[i] = want ? want[i] + (runs == fail_run && i == n_ / 2 ? err : 0) : i; x_in_[i] = -7; }
    int laps = r.below(3);
    for (int k = 0; k < laps; k++) { t.measure_elapsed_time(); some_time(r); }
    w.lo = sim::mono_ns() - m1;
    double e = t.measure_elapsed_time();
    w.hi = sim::mono_ns() - m0;
    if (e != t.elapsed_time) bad_start += 1000000;
    measured.push_back(e);
    windows.push_back(w);
    runs++;
    return t;
  }
  using FusionDemo::n_;
};
void gen_timing(Rng& r, Plan& p) {
  p.p["seed"] = r.below(1 << 30);
  p.p["ntest"] = r.chance(1, 8) ? 0 : 1 + r.below(9);
  p.p["evals"] = 1 + r.below(3);
  p.p["demos"] = 1 + r.below(3);
  p.p["dn"] = 1 + r.below(20);
  p.p["wrong"] = r.below(4);
  p.p["mode"] = r.below(3);
  gen_sched(r, p, 4);
  p.cfg.clock_mode = r.below(4);
  if (p.cfg.clock_mode == 1) p.cfg.clock_mode = 0;  // a real clock does not stand still
  p.cfg.fill = r.below(4);
  if (r.chance(1, 6)) p.p["failk"] = 1 + r.below(30);
}
void evaluate(const Plan& p, int who, uint64_t seed) {
  Rng r(seed);
  int n = p.get("dn", 4, 1, 64), nt = p.get("ntest", 5, 0, 20);
  std::vector<double> want(n);
  for (auto& v : want) v = r.range(-50, 50) / 4.0;
  bool has = r.chance(4, 5);
  std::unique_ptr<Demo> d(new Demo(n, F("demo%d", who), r.next(), has ? want.data() : nullptr));
  d->set_num_test(nt);
  for (int e = 0; e < p.get("evals", 1, 1, 4); e++) {
    d->runs = d->builds = d->bad_start = 0; d->built = 0;
    d->measured.clear(); d->windows.clear();
    int wr = p.get("wrong", 0, 0, 3);
    d->fail_run = wr == 1 ? nt - 1 : wr == 2 ? r.below(nt + 1) : -1;
    d->err = r.chance(1, 3) ? NAN : r.chance(1, 2) ? 1e-3 : -5;
    int64_t m0 = sim::mono_ns();
    sym_lib::timing_measurement t;
    std::string said;
    bool oom = false;
    try {
      if (p.get("demos") > 1) { Api a; t = d->evaluate(); }
      else { Capture c; { Api a; t = d->evaluate(); } said = c.str(); }
    } catch (const std::bad_alloc&) { oom = true; }
    int64_t m9 = sim::mono_ns();
    if (oom) { sim::arm_alloc_fault(-1, false); sim::probe("evaluate-oom"); continue; }
    REQ(d->builds == 1, "demo-protocol", "the set was built %d times in one evaluation", d->builds);
    REQ(d->runs == nt, "demo-protocol", "%d runs instead of %d", d->runs, nt);
    REQ(d->bad_start < 1000000, "wrong-time", "measure_elapsed_time returned another time than it stored");
    REQ(d->bad_start == 0, "demo-protocol", "a run did not start from x = 0 and a right-hand side of ones (%d values)", d->bad_start);
    for (int i = 0; i < nt; i++) in_window(d->measured[i], d->windows[i].lo, d->windows[i].hi, "a timed run");
    if (nt) {
      std::vector<double> s = d->measured;
      std::sort(s.begin(), s.end());
      double lo = s[(nt - 1) / 2], hi = s[nt / 2];
      REQ(t.elapsed_time >= lo && t.elapsed_time <= hi, "not-the-median", "%.9g s reported, the median of %d runs lies in [%.9g, %.9g]", t.elapsed_time, nt, lo, hi);
    } else REQ(t.elapsed_time < 0, "not-the-median", "%.9g s reported for no run", t.elapsed_time);
    in_window(d->analysisTime().elapsed_time, d->prep1 - d->prep0, (d->built ? d->built : m9) - m0, "the analysis");
    bool bad = has && nt && d->fail_run == nt - 1;
    if (p.get("demos") <= 1) {
      bool told = said.find(d->Name()) != std::string::npos;
      if (nt) REQ(!bad || told, "wrong-result-unreported", "a wrong solution was not reported");
      if (nt) REQ(bad || !told, "right-result-reported", "a right solution was reported as wrong: %s", said.c_str());
    }
    for (int i = 0; nt && i < n; i++) {
      double w = has ? want[i] + (d->fail_run == nt - 1 && i == n / 2 ? d->err : 0) : i, g = d->solution()[i];
      REQ(w == g || (w != w && g != g), "solution-lost", "solution()[%d] is %g instead of %g", i, g, w);
    }
    sim::note_hash(d->runs);
    uint64_t b; memcpy(&b, &t.elapsed_time, 8); sim::note_hash(b);
  }
  { Api a; d.reset(); }
}
void laps(const Plan& p, uint64_t seed) {
  Rng r(seed);
  sym_lib::timing_measurement t;
  std::vector<sym_lib::timing_measurement> all;
  int k = p.get("ntest", 5, 0, 20);
  std::vector<double> el;
  for (int i = 0; i < k; i++) {
    if (r.chance(1, 2)) t = sym_lib::timing_measurement();
    some_time(r);  // not to be measured
    int64_t m0 = sim::mono_ns();
    t.start_timer();
    int64_t m1 = sim::mono_ns();
    int l = 1 + r.below(3);
    for (int j = 0; j < l; j++) {
      some_time(r);
      int64_t m2 = sim::mono_ns();
      double e = t.measure_elapsed_time();
      int64_t m3 = sim::mono_ns();
      in_window(e, m2 - m1, m3 - m0, "a lap");
      REQ(e == t.elapsed_time, "wrong-time", "measure_elapsed_time returned %.17g and stored %.17g", e, t.elapsed_time);
    }
    if (r.chance(1, 4)) t.elapsed_time = r.below(4);  // equal times
    all.push_back(t);
    el.push_back(t.elapsed_time);
  }
  std::vector<sym_lib::timing_measurement> before = all;
  sym_lib::timing_measurement m;
  bool oom = false;
  try { Api a; m = sym_lib::time_median(all); } catch (const std::bad_alloc&) { oom = true; }
  if (oom) return;
  for (int i = 0; i < k; i++) REQ(all[i].elapsed_time == el[i], "inputs-changed", "time_median changed its argument");
  std::sort(el.begin(), el.end());
  if (k) REQ(m.elapsed_time >= el[(k - 1) / 2] && m.elapsed_time <= el[k / 2], "not-the-median", "time_median gives %.9g, the median lies in [%.9g, %.9g]", m.elapsed_time, el[(k - 1) / 2], el[k / 2]);
  else REQ(m.elapsed_time < 0, "not-the-median", "%.9g s for no measurement", m.elapsed_time);
  uint64_t b; memcpy(&b, &m.elapsed_time, 8); sim::note_hash(b);
}
void body_timing(const Plan& p) {
  uint64_t seed = p.get("seed");
  int k = p.get("demos", 1, 1, 4), mode = p.get("mode", 0, 0, 2);
  if (p.get("failk")) sim::arm_alloc_fault(sim::alloc_count() + p.get("failk") - 1, false);
  if (mode == 2) { laps(p, seed); sim::arm_alloc_fault(-1, false); return; }
  if (k == 1) { evaluate(p, 0, seed); sim::arm_alloc_fault(-1, false); return; }
  // several demos are evaluated at the same time
  std::vector<std::function<void()>> b;
  for (int i = 0; i < k; i++) b.push_back([&p, i, seed] { evaluate(p, i, sim::mix(seed, i)); });
  sim::spawn_callers(b);
  sim::arm_alloc_fault(-1, false);
}

// ---------------------------------------------------------------- C25
struct Item { std::string text; bool must; };
struct Table {
  std::string name;
  std::vector<std::string> cols;
  profiling_utils::CSVManager* m = nullptr;
  std::vector<Item> want;            // header and records, in order
  std::vector<std::string> val;      // the record in the making
  std::vector<bool> set;
  bool progress = false, head_now = false;
};
std::string joined(const std::vector<std::string>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s; }
void check_table(const Table& t) {
  auto& files = sim::g_disk.files;
  auto it = files.find(t.name + ".csv");
  std::string s = it == files.end() ? "" : it->second.data;
  // the lines of the file must be the items in order; an item that need not be there may be missing or torn
  size_t K = t.want.size(), at = 0, row = 0;
  std::vector<char> can(K + 1, 0), nxt;
  can[0] = 1;
  auto skip = [&](std::vector<char>& v) { for (size_t k = 0; k < K; k++) if (v[k] && !t.want[k].must) v[k + 1] = 1; };
  skip(can);
  while (at < s.size()) {
    size_t e = s.find('\n', at);
    bool whole = e != std::string::npos;
    std::string line = s.substr(at, (whole ? e : s.size()) - at);
    at = whole ? e + 1 : s.size();
    nxt.assign(K + 1, 0);
    bool any = false;
    for (size_t k = 0; k < K; k++) {
      if (!can[k]) continue;
      const Item& w = t.want[k];
      bool torn = !w.must && line.size() <= w.text.size() && w.text.compare(0, line.size(), line) == 0;
      if (torn || (whole && line == w.text)) { nxt[k + 1] = 1; any = true; if (line != w.text) sim::probe("torn-row"); }
    }
    if (!any) {
      size_t k = 0;
      for (size_t q = 0; q < K; q++) if (can[q]) k = q;
      FAIL(row ? "wrong-row" : "wrong-header", "line %zu of the table is '%s'; %s", row + 1, line.c_str(), can[K] ? "nothing more was added" : F("'%s' was written", t.want[k].text.c_str()).c_str());
    }
    can = nxt;
    skip(can);
    row++;
  }
  if (!can[K]) {
    size_t k = 0;
    for (size_t q = 0; q < K; q++) if (can[q]) k = q;
    FAIL("row-lost", "'%s' is missing from the table", t.want[k].text.c_str());
  }
}
void gen_table(Rng& r, Plan& p) {
  p.p["seed"] = r.below(1 << 30);
  p.p["sessions"] = 1 + r.below(4);
  p.p["ops"] = 2 + r.logu(40);
  p.p["tables"] = 1 + r.below(2);
  p.p["faulty"] = r.chance(5, 6);
  p.p["short"] = r.chance(1, 3) ? 1 + r.logu(60) : 0;
  p.cfg.fill = r.below(4);
}
// the lines the demos print: every value stands under its name
void common_line(const Plan& p) {
  Rng r(sim::mix((uint64_t)p.get("seed"), 77));
  using sym_lib::CSC;
  int n = 1 + r.below(50), nb = 1 + r.below(500), nl = 1 + r.below(300), th = 1 + r.below(64);
  bool has = r.chance(2, 3);
  const char* nm[] = {"", "bcsstk01.mtx", "a b", "x"};
  std::string name = nm[r.below(4)], var = nm[r.below(4)], str = nm[r.below(4)], head, line;
  CSC *B, *L = nullptr;
  { Api a; B = new CSC(n, n, nb); if (has) L = new CSC(n, n, nl); }
  { Capture c; { Api a; sym_lib::print_common_header(); } head = c.str(); }
  { Capture c; { Api a; sym_lib::print_common(name, var, str, B, L, th); } line = c.str(); }
  { Api a; delete B; delete L; }
  auto cut = [](const std::string& s) { std::vector<std::string> f(1); for (char c : s) if (c == ',') f.emplace_back(); else f.back() += c; return f; };
  std::vector<std::string> h = cut(head), v = cut(line);
  REQ(h.size() == v.size(), "wrong-header", "'%s' is printed under '%s'", line.c_str(), head.c_str());
  for (size_t k = 0; k < h.size(); k++) {
    std::string w = h[k] == "Matrix Name" ? name : h[k] == "A Dimension" ? F("%d", n) : h[k] == "A Nonzero" ? F("%d", nb) : h[k] == "Code Type" ? var : h[k] == "Data Type" ? str : h[k] == "Number of Threads" ? F("%d", th) : h[k] == "L Nonzero" && has ? F("%d", nl) : v[k];
    REQ(v[k] == w, "wrong-row", "'%s' is printed under '%s', '%s' belongs there", v[k].c_str(), h[k].c_str(), w.c_str());
  }
}
enum { S_NONE, S_CRASH, S_ENOSPC, S_EIO, S_OPEN, S_FAULTS };
void body_table(const Plan& p) {
  auto& d = sim::g_disk;
  Rng r((uint64_t)p.get("seed"));
  if (r.chance(1, 10)) common_line(p);
  int nt = p.get("tables", 1, 1, 2);
  std::vector<Table> ts(nt);
  for (int i = 0; i < nt; i++) {
    ts[i].name = i ? "runtime table" : "m";
    int c = 1 + r.below(5);
    for (int k = 0; k < c; k++) ts[i].cols.push_back(std::string(1, (char)('A' + k)) + (r.chance(1, 3) ? " (sec)" : "_col"));
  }
  int S = p.get("sessions", 2, 1, 6);
  for (int s = 0; s < S; s++) {
    d.fault = sim::DiskFault();
    d.fault.short_io = p.get("short", 0, 0, 4096);
    d.written = 0; d.crash_at_byte = -1; d.crashed = false;
    int f = p.get("faulty") ? r.below(S_FAULTS) : S_NONE;
    int64_t at = r.logu(400) - 1;
    if (f == S_CRASH) d.crash_at_byte = at;
    if (f == S_ENOSPC) d.fault.enospc_at = at;
    if (f == S_EIO) d.fault.eio_at = at;
    if (f == S_OPEN) d.fault.open_errno = EACCES;
    uint64_t bad0 = d.f_enospc + d.f_eio;
    auto trouble = [&] { return d.crashed || d.f_enospc + d.f_eio > bad0 || f == S_OPEN; };
    for (auto& t : ts) {
      if (d.crashed) break;
      bool force = r.chance(1, 5);
      auto it = d.files.find(t.name + ".csv");
      bool there = it != d.files.end(), empty = !there || it->second.data.empty();
      // without a file, or with an empty one, the table begins again with its header
      t.head_now = f != S_OPEN && (force || empty);
      if (t.head_now) t.want.clear();
      { Api a; t.m = new profiling_utils::CSVManager(t.name, "dir", t.cols, force); }
      // the header reaches the disk with the first record at the latest
      if (t.head_now) t.want.push_back({joined(t.cols), false});
      t.val.assign(t.cols.size(), ""); t.set.assign(t.cols.size(), false); t.progress = false;
      auto hn = t.m->getHeaderNames();
      REQ(hn == t.cols, "header-lost", "getHeaderNames does not return the columns");
    }
    int ops = p.get("ops", 10, 1, 200);
    for (int o = 0; o < ops && !d.crashed; o++) {
      Table& t = ts[r.below(nt)];
      int k = r.below(8);
      if (k == 0) {
        Api a; t.m->addElementToRecord(3, "no such column");
        if (!t.progress) { t.progress = true; t.set.assign(t.cols.size(), false); }
      } else if (k < 5) {
        int c = r.below(t.cols.size());
        bool all = r.chance(2, 3);
        for (size_t q = 0; q < t.cols.size(); q++) {
          if (!all && q != (size_t)c) continue;
          if (!t.progress) { t.progress = true; t.set.assign(t.cols.size(), false); }
          t.set[q] = true;
          int ty = r.below(4);
          if (ty == 0) { int v = r.range(-1000, 1000); t.val[q] = F("%d", v); Api a; t.m->addElementToRecord(v, t.cols[q]); }
          else if (ty == 1) { double v = r.range(-1000, 1000) / 64.0; t.val[q] = F("%f", v); Api a; t.m->addElementToRecord(v, t.cols[q]); }
          else if (ty == 2) { std::string v(r.below(20), 'a' + r.below(26)); t.val[q] = v; Api a; t.m->addElementToRecord(v, t.cols[q]); }
          else { const char* v[] = {"Serial", "LBC", "", "x y"}; int z = r.below(4); t.val[q] = v[z]; Api a; t.m->addElementToRecord(v[z], t.cols[q], r.chance(1, 4)); }
        }
      } else {
        bool whole = t.progress && std::find(t.set.begin(), t.set.end(), false) == t.set.end();
        { Api a; t.m->addRecord(); }
        if (whole) {
          bool ok = !trouble();
          t.want.push_back({joined(t.val), ok});
          t.progress = false;
          if (ok && t.head_now) t.want[0].must = true;
        }
      }
      if (!trouble()) check_table(t);
    }
    for (auto& t : ts) { Api a; delete t.m; t.m = nullptr; }
    bool bad = trouble();
    if (d.crashed) sim::probe("table-crash");
    d.crashed = false; d.crash_at_byte = -1; d.fault = sim::DiskFault();
    for (auto& t : ts) {
      if (!bad && t.head_now) t.want[0].must = true;
      check_table(t);
    }
    REQ(d.open_handles == 0, "file-left-open", "%d file(s) left open", d.open_handles);
    for (auto& t : ts) for (char c : d.files[t.name + ".csv"].data) sim::note_hash((unsigned char)c);
  }
}
}  // namespace
void add_bench(std::vector<Scenario>& v) {
  v.push_back({"timing", gen_timing, body_timing, nullptr});
  v.push_back({"table", gen_table, body_table, nullptr});
}
void add_bench_props(std::vector<PropEntry>& t) {
  t.push_back({"C24", "timing", "omp", 1});
  t.push_back({"C24", "timing", "seq", 1});
  t.push_back({"C25", "table", "omp", 1});
  t.push_back({"C25", "table", "seq", 1});
}
