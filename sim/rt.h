// Deterministic simulator runtime: fibers, seeded scheduler, OpenMP runtime, shadow heap,
// simulated clock / disk / exit, allocation faults.  See /verif/DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  uint64_t logu(uint64_t hi);  // log-uniform in [1,hi]
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- configuration of one run
enum Strategy { S_RANDOM = 0, S_PCT = 1, S_STALL = 2, S_RTC = 3, S_RR = 4, S_COUNT = 5 };

enum DrawKind { D_TEAM = 0, D_KINDS = 1 };

struct Trace {
  std::vector<std::pair<uint64_t, uint32_t>> preempt;  // (step, slot to run)
  std::map<uint64_t, uint32_t> forced;                 // forced-choice ordinal -> slot (non-default only)
  std::map<uint64_t, uint32_t> draws;                  // kind<<32|ordinal -> value (non-default only)
  bool empty() const { return preempt.empty() && forced.empty() && draws.empty(); }
};

struct RunCfg {
  uint64_t sched_seed = 1;
  int strategy = S_RANDOM;
  uint64_t mean = 20;        // S_RANDOM/S_STALL mean preemption distance, S_RR quantum, S_PCT depth
  int threads = 1;           // default team size (OMP_NUM_THREADS)
  bool short_teams = false;  // fault: the runtime may deliver smaller teams than asked for
  bool nonmono = false;      // fault: dynamic loops hand their chunks out in an arbitrary order
  int fill = 0;              // heap garbage: 0 zero, 1 0xA5, 2 0xFF, 3 address/seed hash
  int64_t fail_at = -1;      // allocation ordinal that fails
  bool fail_forever = false;
  int clock_mode = 0;        // 0 normal 1 frozen 2 backward steps 3 jumps
  uint64_t budget = 50000000;
  bool mem_strict = true;    // out-of-bounds / freed accesses end the run (else counted)
  bool ro_strict = true;     // writes to read-only inputs end the run (else counted)
  const Trace* replay = nullptr;
};

enum Outcome { O_OK, O_VIOLATION, O_CRASH, O_EXIT, O_TERMINATE, O_DEADLOCK, O_BUDGET, O_EXCEPTION };
const char* outcome_name(int o);

struct RunRes {
  std::string site;              // library function of a memory fault
  int outcome = O_OK;
  std::string kind;   // short stable class of the violation
  std::string msg;
  int exit_code = 0;
  uint64_t steps = 0, switches = 0, allocs = 0, hash = 0;
  uint64_t regions = 0, barriers = 0, chunks = 0, forced = 0;
  uint64_t f_stall = 0, f_short = 0, f_alloc = 0, f_clock = 0, f_nonmono = 0;  // faults that fired
  uint64_t sim_ns = 0, soft_mem = 0, soft_ro = 0;
  int max_live = 1;
  Trace trace;
};

RunRes run(const RunCfg& cfg, const std::function<void()>& body);

// ---------------------------------------------------------------- used by scenario bodies
struct Api {  // code under test executes while one of these is alive on the current fiber
  Api();
  ~Api();
};
struct Host {  // harness code called by the code under test: no steps, no simulated allocations
  int was;
  Host();
  ~Host();
};
[[noreturn]] void violate(const std::string& kind, const std::string& msg);
[[noreturn]] void violate_at(const std::string& kind, const std::string& site, const std::string& msg);
void note_hash(uint64_t v);  // fold an observation into the run hash
uint64_t steps_now();
void set_budget_rel(uint64_t more);  // violation if more steps are used from here

// heap helpers
void* arena_raw(size_t bytes);              // harness-owned arena block (not an allocation of the code under test)
bool readable(const void* p, size_t n);     // shadow says these bytes may be read
void make_readonly(const void* p);          // writes to that arena block become violations
void make_readwrite(const void* p);
bool in_arena(const void* p);
size_t block_size(const void* p);
uint64_t live_blocks();                       // allocated by the code under test and not released
void own_trace(bool on);
std::vector<std::string> own_sites();
uint64_t alloc_count();
void arm_alloc_fault(int64_t at_ordinal, bool forever);  // absolute ordinal, -1 = off
bool alloc_fault_fired();
void set_fill(int f);
void set_strict(bool mem, bool ro);
uint64_t soft_mem();
// log the reads of an array: (OpenMP thread number, byte offset)
void observe(const void* p, size_t bytes);
std::vector<std::pair<int, uint32_t>> observed();
void set_clock_mode(int m);
int64_t mono_ns();               // time that has passed, whatever the wall clock says
void advance_time(int64_t ns);   // nothing happens for so long
void step_wall(int64_t ns);      // fault: the wall clock is set

// happens-before tracking of an array of doubles (solution vectors)
void watch(const double* x, size_t n);
void unwatch();

// conflicts between concurrent callers on any memory
void track_callers(bool on);

// run several bodies as concurrent application threads; returns when all are done
void spawn_callers(const std::vector<std::function<void()>>& bodies);
int caller_id();  // 0 outside spawn_callers

// a team of simulated workers executed by harness code (used to execute schedules)
void team_run(int n, const std::function<void(int tid)>& f);
void team_barrier();
int team_size();
void yield_point();  // counts a step; may be preempted
std::vector<uint32_t> covered_sites();  // offsets in the library under test
void mem_read(const void* p, size_t n);
void mem_write(const void* p, size_t n);

// probes / coverage
void probe(const char* name, uint64_t inc = 1);
extern std::map<std::string, uint64_t> g_probes;

// simulated disk
struct DiskFault {
  int open_errno = 0;        // fail the open
  int64_t eio_at = -1;       // read/write error once offset reached
  int64_t enospc_at = -1;    // write space exhausted
  int short_io = 0;          // >0: at most this many bytes per read/write
  bool fail_once = false;    // error reported once, later calls succeed
};
struct Disk {
  struct File { std::string data; size_t durable = 0; };
  std::map<std::string, File> files;
  DiskFault fault;
  int open_handles = 0, opens = 0;
  uint64_t reads = 0, writes = 0, f_open = 0, f_eio = 0, f_enospc = 0, f_short = 0;
  int64_t crash_at_byte = -1;   // power loss once this many bytes have reached the disk
  uint64_t written = 0;
  int64_t handle_limit = -1;
  bool crashed = false;
};
extern Disk g_disk;
FILE* disk_fopen(const char* path, const char* mode);  // the simulated disk, for harness code
int disk_fclose(FILE* f);

void runtime_init();
size_t repo_global_bytes();
extern uint64_t g_quiet_out;  // bytes the code under test printed
}  // namespace sim
