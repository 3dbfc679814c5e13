// Simulator runtime.  Everything nondeterministic that the library can observe comes from here.
#include "rt.h"

#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <chrono>
#include <exception>
#include <iostream>
#include <new>
#include <streambuf>
#include <unordered_map>
#include <link.h>
#include <dlfcn.h>
#include <unwind.h>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
// hook of lbc_csc_dag.cpp (SYM_SIM_HOOKS): vertices above which a partition is processed by the whole team
extern "C" { __attribute__((visibility("default"))) int sym_sim_large_partition = 250000; }

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
}

static void close_leftovers();
namespace sim {

uint64_t Rng::logu(uint64_t hi) {
  if (hi <= 1) return 1;
  int bits = 64 - __builtin_clzll(hi);
  uint64_t b = 1ULL << below(bits);
  uint64_t v = b + below(b);
  return v > hi ? hi : v;
}
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x165667b19e3779f9ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
const char* outcome_name(int o) {
  static const char* n[] = {"ok", "violation", "crash", "exit", "terminate", "deadlock", "budget", "exception"};
  return n[o];
}

// ================================================================ state
static const int MAXF = 64;
static const size_t STK = 1 << 20, STK0 = 16 << 20;
static const uintptr_t ARENA = 0x100000000000ULL, SHADOW = 0x180000000000ULL;
static const size_t ARENA_SZ = 3ULL << 30;
static const size_t BIG_ALLOC = 1ULL << 30;

struct VC { uint32_t c[MAXF]; };
static inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXF; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct WS {  // one work-sharing construct instance
  bool init = false, single_taken = false;
  long next = 0, end = 0, incr = 1, chunk = 1;
  unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; bool up = true;
  int kind = 0;  // 0 dynamic 1 guided 2 static 3 all-to-first 4 sections
  std::vector<long> spos, order;  // order: remaining chunk starts of a non-monotonic hand-out
  bool shuffled = false;
  int left = 0;
};
struct Team {
  int n = 1, arrived = 0, level = 0, alive = 0;
  uint64_t gen = 0;
  std::vector<int> slots;
  VC bvc;
  std::map<int, WS> ws;
  void* copyptr = nullptr;
  int joiner = -1;
  bool callers = false;  // independent application threads: joined together, nothing else in common
};
enum { F_FREE, F_RUN, F_BLOCK, F_DONE };
struct Fiber {
  void* sp = nullptr;
  char* stk = nullptr; size_t stksz = 0;
  int slot = 0, st = F_FREE, active = 0, tid = 0, caller = 0;
  Team* team = nullptr;
  int ws = 0, cur_ws = -1;
  uint64_t gen_wait = 0;
  long eh[2] = {0, 0};
  std::function<void()> entry;
  uint64_t prio = 0, stall_until = 0;
  int levels = 0;
};
struct Lock { int owner = -1, depth = 0; VC vc; std::vector<int> waiters; };

struct G {
  bool running = false;
  int active = 0;  // mirror of cur->active
  uint64_t steps = 0, next_event = ~0ULL, budget = 0, hash = 0;
  Fiber* cur = nullptr;
  int live = 0, maxlive = 0;
  RunCfg cfg;
  Rng rng{1};
  RunRes res;
  uint64_t forced_ord = 0, draw_ord[D_KINDS] = {0};
  size_t rp = 0;  // replay position in preempt list
  int icv_threads = 1, icv_dyn = 0;
  uintptr_t top = ARENA;
  uint64_t allocs = 0, live_blocks = 0;
  bool own_on = false;
  std::map<uintptr_t, std::string> own;  // blocks of the code under test and who allocated them
  bool alloc_fired = false;
  uint64_t clock_calls = 0; int64_t clock_off = 0, adv = 0;
  uintptr_t wlo = 1, whi = 0;
  bool trackc = false;
  uint64_t next_stall = ~0ULL;
  std::vector<uint64_t> pct_points; size_t pct_i = 0; uint64_t low_prio = 1000000;
};
static G g;
static Fiber fib[MAXF];
static VC vc[MAXF];
static sigjmp_buf root_jb;
static std::unordered_map<uintptr_t, Lock>* locks;
static std::unordered_map<uintptr_t, VC>* avc;
static std::vector<Team*> teams;
static uintptr_t stk_lo, stk_hi;
std::map<std::string, uint64_t> g_probes;
Disk g_disk;
uint64_t g_quiet_out;

struct Cell { uint16_t ws = 0; uint32_t wc = 0; uint32_t r[MAXF]; };
static std::vector<Cell> cells;
struct CallerCell { int16_t who; bool w; };
static std::unordered_map<uintptr_t, CallerCell>* ccells;

struct Internal {
  int sv;
  Internal() : sv(g.active) { g.active = 0; }
  ~Internal() { g.active = sv; }
};

// ================================================================ ending a run
[[noreturn]] static void end_run(int outcome, const char* kind, const std::string& msg) {
  g.active = 0;
  g.res.outcome = outcome;
  g.res.kind = kind;
  g.res.msg = msg;
  g.running = false;
  siglongjmp(root_jb, 1);
}
void violate(const std::string& kind, const std::string& msg) {
  g.active = 0;
  if (!g.running) { fprintf(stderr, "violate outside run: %s %s\n", kind.c_str(), msg.c_str()); _exit(3); }
  end_run(O_VIOLATION, kind.c_str(), msg);
}
void violate_at(const std::string& kind, const std::string& site, const std::string& msg) { g.res.site = site; violate(kind, msg); }
static std::string fmt(const char* f, ...) {
  char b[512];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}

// ================================================================ arena with shadow
// shadow byte: bit0 readable, bit1 writable, bit2 freed
struct Hdr { uint64_t magic; uint64_t size : 56, raw : 8; };  // raw: the harness owns the block
static const uint64_t MAGIC = 0x51A0C0DE51A0C0DEULL, MAGIC_FREED = 0xDEADF4EEDEADF4EEULL;
static inline uint8_t* sh(uintptr_t a) { return (uint8_t*)(a - ARENA + SHADOW); }
static inline bool inar(uintptr_t a) { return a - ARENA < ARENA_SZ; }
bool in_arena(const void* p) { return inar((uintptr_t)p); }

static void arena_init() {
  void* a = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* s = mmap((void*)SHADOW, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void*)ARENA || s != (void*)SHADOW) { fprintf(stderr, "cannot map arena\n"); _exit(3); }
}
static void arena_reset() {
  // every run starts with an all-zero arena, so that even out-of-bounds reads are repeatable
  size_t used = g.top - ARENA + (1 << 16);
  if (used > (2u << 20)) {
    madvise((void*)ARENA, used, MADV_DONTNEED);
    madvise((void*)SHADOW, used, MADV_DONTNEED);
  } else {
    memset((void*)ARENA, 0, used);
    memset((void*)SHADOW, 0, used);
  }
  g.top = ARENA;
}
static void fill_block(char* p, size_t n) {
  switch (g.cfg.fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xA5, n); break;
    case 2: memset(p, 0xFF, n); break;
    default: {
      uint64_t h = mix((uintptr_t)p, g.cfg.sched_seed);
      size_t i = 0;
      for (; i + 8 <= n; i += 8) { memcpy(p + i, &h, 8); h = h * 6364136223846793005ULL + 1442695040888963407ULL; }
      for (; i < n; i++) p[i] = (char)(h >> (8 * (i & 7)));
    }
  }
}
// the library function the fault happened in, as " in name"
static _Unwind_Reason_Code frame(_Unwind_Context* c, void* arg) {
  uintptr_t pc = _Unwind_GetIP(c);
  if (!pc) return _URC_END_OF_STACK;
  Dl_info d;
  if (!dladdr((void*)(pc - 1), &d) || !d.dli_fname || !strstr(d.dli_fname, "librepo")) return _URC_NO_REASON;
  std::string n = d.dli_sname ? d.dli_sname : "?";
  int st;
  if (char* q = abi::__cxa_demangle(n.substr(0, n.find("._omp_fn")).c_str(), nullptr, nullptr, &st)) { n = q; free(q); }
  if (n.compare(0, 5, "std::") == 0 || n.compare(0, 5, "void ") == 0 || n.find(" std::") != std::string::npos && n.find(" std::") < n.find('(')) return _URC_NO_REASON;
  *(std::string*)arg = n.substr(0, n.find('('));
  return _URC_END_OF_STACK;
}
static void* arena_alloc(size_t n) {  // nullptr when memory is exhausted (or a fault says so)
  uint64_t ord = g.allocs++;
  if (g.cfg.fail_at >= 0 && ((int64_t)ord == g.cfg.fail_at || (g.cfg.fail_forever && (int64_t)ord > g.cfg.fail_at))) {
    g.alloc_fired = true;
    g.res.f_alloc++;
    g.hash = mix(g.hash, 0xA110C + ord);
    return nullptr;
  }
  if (n > BIG_ALLOC) return nullptr;
  uintptr_t p = (g.top + 16 + sizeof(Hdr) + 15) & ~(uintptr_t)15;
  uintptr_t e = p + n;
  if (e + 64 > ARENA + ARENA_SZ) return nullptr;
  uintptr_t old = g.top;
  g.top = (e + 16 + 15) & ~(uintptr_t)15;
  fill_block((char*)old, p - old);
  fill_block((char*)e, g.top - e);
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  h->magic = MAGIC; h->size = n; h->raw = 0;
  memset(sh(p), 3, n);
  fill_block((char*)p, n);
  g.live_blocks++;
  if (g.own_on) { std::string s; _Unwind_Backtrace(frame, &s); g.own[p] = s; }
  return (void*)p;
}
void* arena_raw(size_t n) {
  int64_t f = g.cfg.fail_at; uint64_t a = g.allocs;
  g.cfg.fail_at = -1;
  void* p = arena_alloc(n);
  g.cfg.fail_at = f; g.allocs = a;
  if (!p) { fprintf(stderr, "simulator arena exhausted\n"); _exit(3); }
  ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->raw = 1;
  g.live_blocks--;
  g.own.erase((uintptr_t)p);
  return p;
}
bool readable(const void* p, size_t n) { if (!inar((uintptr_t)p)) return true; for (size_t i = 0; i < n; i++) if (!(*sh((uintptr_t)p + i) & 1)) return false; return true; }
static Hdr* hdr(const void* p) { return (Hdr*)((uintptr_t)p - sizeof(Hdr)); }
static void arena_free(void* p, const char* what) {
  if (!g.running) return;  // left over from a finished run
  if (!g.cfg.mem_strict && ((uintptr_t)p >= g.top || ((uintptr_t)p & 15) || hdr(p)->magic != MAGIC)) { g.res.soft_mem++; return; }
  if ((uintptr_t)p >= g.top || ((uintptr_t)p & 15)) end_run(O_VIOLATION, "bad-free", fmt("%s of a pointer that was never allocated", what));
  Hdr* h = hdr(p);
  if (h->magic == MAGIC_FREED) end_run(O_VIOLATION, "double-free", fmt("%s of a block already released (size %zu)", what, (size_t)h->size));
  if (h->magic != MAGIC) end_run(O_VIOLATION, "bad-free", fmt("%s of a pointer that is not the start of a block", what));
  h->magic = MAGIC_FREED;
  memset(sh((uintptr_t)p), 4, h->size);
  if (!h->raw) g.live_blocks--;
  if (g.own_on) g.own.erase((uintptr_t)p);
}
void make_readonly(const void* p) { if (p) memset(sh((uintptr_t)p), 1, hdr(p)->size); }
void make_readwrite(const void* p) { if (p) memset(sh((uintptr_t)p), 3, hdr(p)->size); }
size_t block_size(const void* p) { return hdr(p)->size; }
uint64_t live_blocks() { return g.live_blocks; }
void own_trace(bool on) { g.own.clear(); g.own_on = on; }
// the functions that allocated what is still there of the blocks handed out since own_trace(true)
std::vector<std::string> own_sites() {
  std::vector<std::string> v;
  for (auto& e : g.own) v.push_back(e.second);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
uint64_t alloc_count() { return g.allocs; }
void arm_alloc_fault(int64_t at, bool forever) { g.cfg.fail_at = at; g.cfg.fail_forever = forever; }
bool alloc_fault_fired() { return g.alloc_fired; }
void set_fill(int f) { g.cfg.fill = f; }
void set_strict(bool mem, bool ro) { g.cfg.mem_strict = mem; g.cfg.ro_strict = ro; }
uint64_t soft_mem() { return g.res.soft_mem; }
void set_clock_mode(int m) { g.cfg.clock_mode = m; }

static std::string site() {
  std::string s;
  _Unwind_Backtrace(frame, &s);
  g.res.site = s;
  return s.empty() ? "" : " in " + s;
}

static void bad_access(uintptr_t a, size_t n, bool w) {
  Internal in;
  // describe relative to the nearest block below
  uint8_t s = 0;
  uintptr_t bad = a;
  for (size_t i = 0; i < n; i++) { s = *sh(a + i); bad = a + i; if (!(s & (w ? 2 : 1))) break; }
  if ((s & 1) && w) { if (!g.cfg.ro_strict) { g.res.soft_ro++; return; } }
  else if (!g.cfg.mem_strict) { g.res.soft_mem++; return; }
  if ((s & 1) && w) end_run(O_VIOLATION, "input-modified", fmt("write of %zu bytes into a read-only input array", n) + site());
  if (s & 4) end_run(O_VIOLATION, "use-after-free", fmt("%s of %zu bytes in a released block", w ? "write" : "read", n) + site());
  uintptr_t q = bad;
  size_t dist = 0;
  while (q > ARENA && dist < 4096 && *sh(q) == 0) { q--; dist++; }
  uintptr_t r = bad; size_t up = 0;
  while (r < g.top && up < 4096 && *sh(r) == 0) { r++; up++; }
  end_run(O_VIOLATION, w ? "oob-write" : "oob-read",
          fmt("out-of-bounds %s of %zu bytes, %zu bytes past the end of a block / %zu bytes before the next", w ? "write" : "read", n, dist ? dist - 1 : 0, up) + site());
}
static inline void chk(uintptr_t a, size_t n, bool w) {
  if (!inar(a)) return;
  const uint8_t* s = sh(a);
  uint8_t bit = w ? 2 : 1;
  switch (n) {
    case 4: { uint32_t v; memcpy(&v, s, 4); uint32_t m = bit * 0x01010101u; if ((v & m) != m) bad_access(a, n, w); return; }
    case 8: { uint64_t v; memcpy(&v, s, 8); uint64_t m = bit * 0x0101010101010101ULL; if ((v & m) != m) bad_access(a, n, w); return; }
    default:
      for (; n >= 256; n -= 256, a += 256, s += 256) {  // long copies, block by block
        uint8_t all = 0xFF;
        for (int i = 0; i < 256; i++) all &= s[i];
        if (!(all & bit)) { bad_access(a, n, w); return; }
      }
      for (size_t i = 0; i < n; i++) if (!(s[i] & bit)) { bad_access(a, n, w); return; }
  }
}

// ================================================================ happens-before on watched ranges
void watch(const double* x, size_t n) {
  g.wlo = (uintptr_t)x; g.whi = g.wlo + n * 8;
  cells.assign(n, Cell());
  for (auto& c : cells) memset(c.r, 0, sizeof c.r);
}
void unwatch() { g.wlo = 1; g.whi = 0; }
static void hb(uintptr_t a, size_t n, bool w) {
  if (g.wlo > g.whi) return;
  int s = g.cur->slot;
  VC& v = vc[s];
  for (uintptr_t q = a; q < a + n; q = (q | 7) + 1) {
    size_t i = (q - g.wlo) >> 3;
    if (i >= cells.size()) continue;
    Cell& c = cells[i];
    if (c.wc && c.ws != s && c.wc > v.c[c.ws])
      end_run(O_VIOLATION, "race", fmt("%s of entry %zu by thread slot %d is not ordered after the write by slot %d", w ? "write" : "read", i, s, c.ws));
    if (w) {
      for (int r = 0; r < MAXF; r++)
        if (c.r[r] && r != s && c.r[r] > v.c[r])
          end_run(O_VIOLATION, "race", fmt("write of entry %zu by slot %d is not ordered after the read by slot %d", i, s, r));
      c.ws = s; c.wc = v.c[s];
    } else c.r[s] = v.c[s];
  }
}
void track_callers(bool on) { g.trackc = on; if (on) ccells->clear(); }
static void track(uintptr_t a, size_t n, bool w) {
  int me = g.cur->caller;
  if (!me || (a >= stk_lo && a < stk_hi)) return;
  Internal in;
  for (uintptr_t q = a & ~7ULL; q < a + n; q += 8) {
    // granules of 8 bytes; refine to bytes is not needed: arrays are 16-aligned and never shared by halves,
    // except 4-byte neighbours in globals, which are keyed by their own 4 bytes below
    uintptr_t key = (a < ARENA || !inar(a)) ? (a & ~3ULL) : q;
    auto it = ccells->find(key);
    if (it == ccells->end()) (*ccells)[key] = CallerCell{(int16_t)me, w};
    else {
      CallerCell& c = it->second;
      if (c.who != me && c.who != -1) {
        if (c.w || w) end_run(O_VIOLATION, "caller-conflict", fmt("callers %d and %d both access one %s location, one of them writing, with no synchronisation", c.who, me, inar(a) ? "heap" : "global"));
        c.who = -1;
      } else if (c.who == -1 && w)
        end_run(O_VIOLATION, "caller-conflict", fmt("caller %d writes a %s location other callers read", me, inar(a) ? "heap" : "global"));
      c.w |= w;
    }
    if (key != q) break;
  }
}

// ================================================================ fibers and scheduler
extern "C" void sim_ctx_switch(void** save, void* to);
asm(".text\n.globl sim_ctx_switch\n.type sim_ctx_switch,@function\nsim_ctx_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size sim_ctx_switch,.-sim_ctx_switch\n");

static void fiber_main();
static const size_t SCRUB = 48 << 10;
static bool used_slot[MAXF];
static void prep_stack(Fiber& f) {
  used_slot[f.slot] = true;
  uintptr_t top = ((uintptr_t)f.stk + f.stksz) & ~15ULL;
  void** s = (void**)top;
  *--s = nullptr;             // fake return address of fiber_main
  *--s = (void*)&fiber_main;  // ret target
  for (int i = 0; i < 6; i++) *--s = nullptr;
  f.sp = s;
}
static void schedule_events();
static void switch_to(int slot) {
  Fiber* from = g.cur;
  Fiber* to = &fib[slot];
  if (from == to) return;
  g.res.switches++;
  g.hash = mix(g.hash, (g.steps << 12) ^ (from->slot << 6) ^ slot);
  from->active = g.active;
  long* eg = (long*)__cxxabiv1::__cxa_get_globals();
  from->eh[0] = eg[0]; from->eh[1] = eg[1];
  eg[0] = to->eh[0]; eg[1] = to->eh[1];
  g.cur = to;
  g.active = to->active;
  sim_ctx_switch(&from->sp, to->sp);
  // resumed
}
static bool runnable(int i) { return fib[i].st == F_RUN; }
static int nrun(int* out, int except) {
  int n = 0;
  for (int i = 0; i < MAXF; i++) if (runnable(i) && i != except) out[n++] = i;
  return n;
}
static void maybe_stall() {
  if (g.cfg.strategy != S_STALL || g.cfg.replay || g.steps < g.next_stall) return;
  int c[MAXF]; int n = nrun(c, -1);
  if (n > 1) {
    int v = c[g.rng.below(n)];
    fib[v].stall_until = g.steps + g.rng.logu(20000);
    g.res.f_stall++;
  }
  g.next_stall = g.steps + g.rng.logu(4000);
}
static int pick(int* c, int n) {  // strategy choice among candidates (n>=1)
  if (g.cfg.strategy == S_PCT) {
    int b = 0;
    for (int i = 1; i < n; i++) if (fib[c[i]].prio > fib[c[b]].prio) b = i;
    return c[b];
  }
  if (g.cfg.strategy == S_STALL) {
    int d[MAXF], m = 0;
    for (int i = 0; i < n; i++) if (fib[c[i]].stall_until <= g.steps) d[m++] = c[i];
    if (m) return d[g.rng.below(m)];
    return c[g.rng.below(n)];
  }
  return c[g.rng.below(n)];
}
static void forced_switch() {  // current fiber cannot go on
  int c[MAXF];
  int n = nrun(c, -1);
  if (!n) {
    int b = 0; for (int i = 0; i < MAXF; i++) if (fib[i].st == F_BLOCK) b++;
    end_run(O_DEADLOCK, "deadlock", fmt("no thread can run; %d threads wait at a barrier or lock another thread never reaches", b));
  }
  uint64_t ord = g.forced_ord++;
  int def = c[0], ch = def;
  if (n > 1) {
    if (g.cfg.replay) {
      auto it = g.cfg.replay->forced.find(ord);
      if (it != g.cfg.replay->forced.end() && runnable(it->second)) ch = it->second;
    } else {
      maybe_stall();
      ch = pick(c, n);
    }
  }
  if (ch != def) { Internal in; g.res.trace.forced[ord] = ch; }
  g.res.forced++;
  g.hash = mix(g.hash, 0xF0 + ch);
  schedule_events();
  switch_to(ch);
}
static void preempt_to(int t) {
  { Internal in; g.res.trace.preempt.emplace_back(g.steps, t); }
  switch_to(t);
}
static void schedule_events() {
  uint64_t e = g.budget;
  if (g.cfg.replay) {
    auto& p = g.cfg.replay->preempt;
    while (g.rp < p.size() && p[g.rp].first < g.steps) g.rp++;
    if (g.rp < p.size()) e = std::min(e, std::max(p[g.rp].first, g.steps + 0));
  } else if (g.live > 1) {
    uint64_t d = ~0ULL;
    switch (g.cfg.strategy) {
      case S_RANDOM: d = 1 + g.rng.below(2 * g.cfg.mean); break;
      case S_STALL: d = 1 + g.rng.below(2 * g.cfg.mean); break;
      case S_RR: d = g.cfg.mean; break;
      case S_PCT: d = 50000; if (g.pct_i < g.pct_points.size()) { uint64_t q = g.pct_points[g.pct_i]; d = q > g.steps ? std::min<uint64_t>(d, q - g.steps) : 1; } break;
      case S_RTC: d = 50000; break;
    }
    e = std::min(e, g.steps + d);
  }
  g.next_event = e;
}
static void slow_event() {
  int sv = g.active; g.active = 0;
  if (g.steps >= g.budget) end_run(O_BUDGET, "no-progress", fmt("did not finish within %llu steps", (unsigned long long)g.budget));
  int c[MAXF];
  int target = -1;
  if (g.cfg.replay) {
    auto& p = g.cfg.replay->preempt;
    while (g.rp < p.size() && p[g.rp].first < g.steps) g.rp++;
    if (g.rp < p.size() && p[g.rp].first == g.steps) {
      int t = p[g.rp].second; g.rp++;
      if (t >= 0 && t < MAXF && runnable(t) && t != g.cur->slot) target = t;
    }
  } else if (g.live > 1) {
    maybe_stall();
    switch (g.cfg.strategy) {
      case S_PCT: {
        if (g.pct_i < g.pct_points.size() && g.steps >= g.pct_points[g.pct_i]) g.pct_i++;
        g.cur->prio = --g.low_prio;
        int n = nrun(c, -1);
        if (n) { int t = pick(c, n); if (t != g.cur->slot) target = t; }
        break;
      }
      case S_RR: {
        int n = nrun(c, g.cur->slot);
        if (n) { target = c[0]; for (int i = 0; i < n; i++) if (c[i] > g.cur->slot) { target = c[i]; break; } }
        break;
      }
      case S_RTC: case S_RANDOM: case S_STALL: default: {
        int n = nrun(c, g.cur->slot);
        if (n) target = pick(c, n);
      }
    }
  }
  schedule_events();
  g.active = sv;
  if (target >= 0) preempt_to(target);
}
static inline void step() {
  if (++g.steps >= g.next_event) slow_event();
}
static void sync_point() {  // likely preemption around synchronisation
  if (!g.running) return;
  Internal in;
  if (++g.steps >= g.next_event) { slow_event(); return; }
  if (g.cfg.replay || g.live <= 1 || g.cfg.strategy == S_RTC || g.cfg.strategy == S_RR) return;
  if (g.rng.below(3) == 0) {
    int c[MAXF];
    if (g.cfg.strategy == S_PCT) return;
    maybe_stall();
    int n = nrun(c, g.cur->slot);
    if (n) {
      int t = pick(c, n);
      // a preemption recorded at this step must be found again on replay
      preempt_to(t);
    }
  }
}
static void block_cur() {
  g.cur->st = F_BLOCK;
  forced_switch();
}
static void wake(int s) {
  if (fib[s].st == F_BLOCK) fib[s].st = F_RUN;
}
static int new_slot() {
  for (int i = 1; i < MAXF; i++) if (fib[i].st == F_FREE) return i;
  return -1;
}
static void start_fiber(int s, Team* t, int tid, int caller, int active, std::function<void()> e) {
  Fiber& f = fib[s];
  f.team = t; f.tid = tid; f.caller = caller; f.active = active; f.ws = 0; f.cur_ws = -1;
  f.eh[0] = f.eh[1] = 0; f.stall_until = 0;
  f.entry = std::move(e);
  prep_stack(f);
  f.st = F_RUN;
  if (!g.cfg.replay && g.cfg.strategy == S_PCT) f.prio = 1000001 + g.rng.below(1000000);
  vc[s].c[s]++;
  vjoin(vc[s], vc[g.cur->slot]);
  g.live++;
  if (g.live > g.maxlive) g.maxlive = g.live;
}
static void finish_fiber() {  // never returns
  g.active = 0;
  Fiber& f = *g.cur;
  f.st = F_FREE;
  g.live--;
  Team* t = f.team;
  if (t) {
    vjoin(t->bvc, vc[f.slot]);
    vc[f.slot].c[f.slot]++;
    if (--t->alive == 0 && t->joiner >= 0) wake(t->joiner);
  }
  forced_switch();
  _exit(3);  // unreachable
}
static void fiber_main() {
  Fiber& f = *g.cur;
  try {
    f.entry();
  } catch (std::exception& e) {
    g.active = 0;
    end_run(f.slot == 0 ? O_EXCEPTION : O_TERMINATE, "exception", std::string("uncaught exception: ") + e.what());
  } catch (...) {
    g.active = 0;
    end_run(f.slot == 0 ? O_EXCEPTION : O_TERMINATE, "exception", "uncaught exception of unknown type");
  }
  if (f.slot == 0) end_run(O_OK, "", "");
  finish_fiber();
}

// ================================================================ signals, terminate
static void on_signal(int sig, siginfo_t* si, void*) {
  if (!g.running) { signal(sig, SIG_DFL); raise(sig); return; }
  g.active = 0;
  if (sig == SIGPROF) { g.res.outcome = O_BUDGET; g.res.kind = "no-progress"; g.res.msg = "processor-time watchdog: the code under test loops"; }
  else { g.res.outcome = O_CRASH; g.res.kind = "crash"; g.res.msg = fmt("signal %d (%s)%s", sig, strsignal(sig), (sig == SIGSEGV || sig == SIGBUS) && (uintptr_t)si->si_addr < 65536 ? " null pointer" : ""); }
  g.running = false;
  siglongjmp(root_jb, 1);
}
static void on_terminate() {
  g.active = 0;
  std::string m = "std::terminate";
  try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); } catch (std::exception& e) { m += std::string(": ") + e.what(); } catch (...) {}
  if (g.running) end_run(O_TERMINATE, "terminate", m);
  fprintf(stderr, "terminate outside a run: %s\n", m.c_str());
  _exit(3);
}
struct NullBuf : std::streambuf {
  int overflow(int c) override { g_quiet_out++; return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { g_quiet_out += n; return n; }
};
static NullBuf nullbuf;

// The library under test lives in its own shared object, so its global variables can be put back to
// their initial state before every run: no run sees what another one left behind.
struct Seg { char* p; size_t n; std::vector<char> copy; };
static std::vector<Seg>* segs;
void cov_init(uintptr_t, uintptr_t);
static int find_segs(struct dl_phdr_info* info, size_t, void*) {
  if (!info->dlpi_name || !strstr(info->dlpi_name, "librepo_")) return 0;
  for (int i = 0; i < info->dlpi_phnum; i++) {
    const ElfW(Phdr)& h = info->dlpi_phdr[i];
    if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) cov_init(info->dlpi_addr, h.p_vaddr + h.p_memsz);
  }
  uintptr_t relro_lo = 1, relro_hi = 0, plt_lo = 1, plt_hi = 0, pltgot = 0, pltsz = 0;
  for (int i = 0; i < info->dlpi_phnum; i++) {
    const ElfW(Phdr)& h = info->dlpi_phdr[i];
    if (h.p_type == PT_GNU_RELRO) { relro_lo = info->dlpi_addr + h.p_vaddr; relro_hi = (relro_lo + h.p_memsz + 4095) & ~4095UL; }
    if (h.p_type == PT_DYNAMIC)
      for (ElfW(Dyn)* d = (ElfW(Dyn)*)(info->dlpi_addr + h.p_vaddr); d->d_tag != DT_NULL; d++) {
        if (d->d_tag == DT_PLTGOT) pltgot = d->d_un.d_ptr;
        if (d->d_tag == DT_PLTRELSZ) pltsz = d->d_un.d_val;
      }
  }
  if (pltgot) { plt_lo = pltgot; plt_hi = pltgot + (3 + pltsz / 24) * 8; }
  auto add = [&](uintptr_t a, uintptr_t b) { if (a < b) { Seg s; s.p = (char*)a; s.n = b - a; s.copy.assign(s.p, s.p + s.n); segs->push_back(std::move(s)); } };
  for (int i = 0; i < info->dlpi_phnum; i++) {
    const ElfW(Phdr)& h = info->dlpi_phdr[i];
    if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
    uintptr_t a = info->dlpi_addr + h.p_vaddr, b = a + h.p_memsz;
    if (a < relro_hi && a >= (relro_lo & ~4095UL)) a = relro_hi;
    if (plt_lo < plt_hi && plt_hi > a && plt_lo < b) { add(a, plt_lo); a = plt_hi; }
    add(a, b);
  }
  return 0;
}
static void restore_globals() { for (auto& s : *segs) memcpy(s.p, s.copy.data(), s.n); }
size_t repo_global_bytes() { size_t t = 0; for (auto& s : *segs) t += s.n; return t; }

void runtime_init() {
  static bool done = false;
  if (done) return;
  done = true;
  arena_init();
  locks = new std::unordered_map<uintptr_t, Lock>;
  avc = new std::unordered_map<uintptr_t, VC>;
  ccells = new std::unordered_map<uintptr_t, CallerCell>;
  size_t tot = STK0 + (MAXF - 1) * (STK + 4096) + 8192;
  char* m = (char*)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stk_lo = (uintptr_t)m; stk_hi = stk_lo + tot;
  mprotect(m, 4096, PROT_NONE);
  char* p = m + 4096;
  for (int i = 0; i < MAXF; i++) {
    fib[i].slot = i; fib[i].stk = p; fib[i].stksz = i ? STK : STK0;
    p += fib[i].stksz;
    mprotect(p, 4096, PROT_NONE);
    p += 4096;
    if (p + STK + 8192 > m + tot) { for (int k = i + 1; k < MAXF; k++) fib[k].st = F_DONE; break; }
  }
  segs = new std::vector<Seg>;
  dl_iterate_phdr(find_segs, nullptr);
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_SIGINFO;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  // the facet caches are filled on first use by code inlined into the library
  { auto& ct = std::use_facet<std::ctype<char>>(std::locale()); ct.widen(10); for (int c = 1; c < 256; c++) ct.narrow((char)c, 0); char b[2] = "a", q[2]; ct.narrow(b, b + 1, 0, q); ct.widen(b, b + 1, q); }
  std::cout.rdbuf(&nullbuf);
  std::cerr.rdbuf(&nullbuf);
  std::clog.rdbuf(&nullbuf);
}

// reads of one array, by OpenMP thread number
static uintptr_t olo = 1, ohi = 0;
static std::vector<std::pair<int, uint32_t>> olog;
RunRes run(const RunCfg& cfg, const std::function<void()>& body) {
  runtime_init();
  sym_sim_large_partition = 250000;
  arena_reset();
  for (auto* t : teams) delete t;
  teams.clear();
  locks->clear(); avc->clear(); ccells->clear();
  g_disk = Disk();
  uintptr_t top = g.top;
  g = G();
  g.top = top;
  g.cfg = cfg;
  g.rng = Rng(mix(cfg.sched_seed, 77));
  g.budget = cfg.budget;
  g.icv_threads = cfg.threads;
  for (int i = 0; i < MAXF; i++) { if (fib[i].st != F_DONE) fib[i].st = F_FREE; fib[i].team = nullptr; fib[i].stall_until = 0; fib[i].prio = 0; fib[i].caller = 0; fib[i].levels = 0; }
  memset(vc, 0, sizeof vc);
  unwatch();
  olo = 1; ohi = 0;
  if (cfg.strategy == S_PCT) {
    uint64_t h = 64ULL << g.rng.below(10);
    for (uint64_t i = 0; i < cfg.mean; i++) g.pct_points.push_back(g.rng.below(h));
    std::sort(g.pct_points.begin(), g.pct_points.end());
  }
  if (cfg.strategy == S_STALL) g.next_stall = g.rng.logu(2000);
  long* eg = (long*)__cxxabiv1::__cxa_get_globals();
  long e0 = eg[0], e1 = eg[1];
  Fiber& f = fib[0];
  f.eh[0] = f.eh[1] = 0; f.active = 0; f.tid = 0; f.team = nullptr; f.ws = 0; f.cur_ws = -1;
  f.entry = body;
  f.st = F_RUN;
  f.prio = 1000001;
  for (int i = 0; i < MAXF; i++) if (used_slot[i]) { memset(fib[i].stk + fib[i].stksz - SCRUB, cfg.fill == 2 ? 0xFF : cfg.fill ? 0xA5 : 0, SCRUB); used_slot[i] = false; }
  used_slot[0] = true;
  prep_stack(f);
  restore_globals();
  vc[0].c[0] = 1;
  g.live = g.maxlive = 1;
  struct itimerval tv; memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = 45;
  setitimer(ITIMER_PROF, &tv, nullptr);
  static void* rootsp;
  if (sigsetjmp(root_jb, 1) == 0) {
    g.running = true;
    g.cur = &fib[0];
    eg[0] = eg[1] = 0;
    schedule_events();
    sim_ctx_switch(&rootsp, fib[0].sp);
  }
  g.running = false;
  g.active = 0;
  ::close_leftovers();
  eg = (long*)__cxxabiv1::__cxa_get_globals();
  eg[0] = e0; eg[1] = e1;
  memset(&tv, 0, sizeof tv);
  setitimer(ITIMER_PROF, &tv, nullptr);
  for (int i = 0; i < MAXF; i++) if (i) fib[i].entry = nullptr;
  g.res.steps = g.steps;
  g.res.allocs = g.allocs;
  g.res.max_live = g.maxlive;
  g.res.sim_ns = g.steps * 10 + (uint64_t)g.adv;
  g.hash = mix(g.hash, mix(g.res.outcome, g.steps));
  for (char ch : g.res.msg) g.hash = mix(g.hash, ch);
  g.res.hash = g.hash;
  return g.res;
}

// ================================================================ scenario helpers
Api::Api() { g.cur->active++; g.active = g.cur->active; }
Api::~Api() { g.cur->active = g.active - 1; g.active = g.cur->active; }
Host::Host() { was = g.cur->active; g.cur->active = g.active = 0; }
Host::~Host() { g.cur->active = g.active = was; }
void note_hash(uint64_t v) { g.hash = mix(g.hash, v); }
uint64_t steps_now() { return g.steps; }
void set_budget_rel(uint64_t more) { g.budget = g.steps + more; if (g.next_event > g.budget) g.next_event = g.budget; }
void probe(const char* name, uint64_t inc) { Internal in; g_probes[name] += inc; }

extern "C" int omp_get_thread_num();
void observe(const void* p, size_t bytes) { Internal in; olo = (uintptr_t)p; ohi = olo + bytes; olog.clear(); }
std::vector<std::pair<int, uint32_t>> observed() { Internal in; olo = 1; ohi = 0; return olog; }
// which access sites of the library (offset of the call-back's return address) were reached
static uintptr_t cov_lo = 1, cov_n = 0;
static unsigned char* cov_map;
#define COV() do { uintptr_t o_ = (uintptr_t)__builtin_return_address(0) - cov_lo; if (o_ < cov_n) cov_map[o_] = 1; } while (0)
std::vector<uint32_t> covered_sites() {
  std::vector<uint32_t> v;
  for (uintptr_t i = 0; i < cov_n; i++) if (cov_map[i]) v.push_back(i);
  return v;
}
void cov_init(uintptr_t lo, uintptr_t n) { cov_lo = lo; cov_n = n; cov_map = (unsigned char*)calloc(n + 1, 1); }
static inline void access(uintptr_t a, size_t n, bool w) {
  if (!g.active) return;
  chk(a, n, w);
  step();
  if (a < ohi && a >= olo && !w) { Internal in; olog.emplace_back(omp_get_thread_num(), (uint32_t)(a - olo)); }
  if (a < g.whi && a + n > g.wlo) hb(a, n, w);
  if (g.trackc) track(a, n, w);
}
void mem_read(const void* p, size_t n) { access((uintptr_t)p, n, false); }
void mem_write(const void* p, size_t n) { access((uintptr_t)p, n, true); }
void yield_point() { if (g.active) step(); }
int caller_id() { return g.cur->caller; }

// ---------------------------------------------------------------- teams
static uint32_t draw(int kind, uint32_t def, const std::function<uint32_t()>& gen) {
  uint64_t key = ((uint64_t)kind << 32) | g.draw_ord[kind]++;
  uint32_t v = def;
  if (g.cfg.replay) {
    auto it = g.cfg.replay->draws.find(key);
    if (it != g.cfg.replay->draws.end()) v = it->second;
  } else v = gen();
  if (v != def) { Internal in; g.res.trace.draws[key] = v; }
  g.hash = mix(g.hash, (key << 8) ^ v);
  return v;
}
static void team_barrier_impl() {
  Team* t = g.cur->team;
  if (!t || t->n == 1) return;
  g.res.barriers++;
  int s = g.cur->slot;
  vjoin(t->bvc, vc[s]);
  vc[s].c[s]++;
  uint64_t my = t->gen;
  if (++t->arrived == t->n) {
    t->arrived = 0;
    t->gen++;
    for (int q : t->slots) { vjoin(vc[q], t->bvc); if (q != s) wake(q); }
  } else {
    while (t->gen == my) block_cur();
  }
  // clocks of everyone who arrived are in bvc; it only grows, which is exact enough: it never orders
  // an access after the barrier before an access that precedes it
}
static void run_team(int want, const std::function<void()>& fn, WS* pre) {
  Internal in;
  int sv = in.sv;
  g.res.regions++;
  Fiber* me = g.cur;
  if (want < 0 || want > 100000) end_run(O_CRASH, "crash", fmt("thread creation failed: a team of %u threads was asked for", (unsigned)want));
  int n = want > 0 ? want : g.icv_threads;
  if (me->levels >= 1) n = 1;  // nested parallelism is off by default
  if (n > 32) n = 32;
  if (n < 1) n = 1;
  if (g.cfg.short_teams && n > 1) {
    int full = n;
    n = (int)draw(D_TEAM, full, [&]() -> uint32_t { return g.rng.below(3) ? full : 1 + g.rng.below(full); });
    if (n < 1 || n > full) n = full;
    if (n < full) g.res.f_short++;
  }
  Team* t = new Team;
  teams.push_back(t);
  t->n = n;
  memset(&t->bvc, 0, sizeof t->bvc);
  t->slots.push_back(me->slot);
  if (pre) { t->ws[0] = *pre; t->ws[0].left = n; }
  Team* pteam = me->team;
  int ptid = me->tid, pws = me->ws, pcur = me->cur_ws;
  me->team = t; me->tid = 0; me->ws = pre ? 1 : 0; me->cur_ws = pre ? 0 : -1;
  me->levels++;
  t->alive = n;
  vc[me->slot].c[me->slot]++;
  for (int i = 1; i < n; i++) {
    int s = new_slot();
    if (s < 0) { fprintf(stderr, "out of fiber slots\n"); _exit(3); }
    t->slots.push_back(s);
    start_fiber(s, t, i, me->caller, sv, fn);
    fib[s].ws = pre ? 1 : 0;
    fib[s].cur_ws = pre ? 0 : -1;
    fib[s].levels = me->levels;
  }
  vc[me->slot].c[me->slot]++;
  schedule_events();
  sync_point();
  g.active = sv;
  try {
    fn();
  } catch (std::exception& e) {
    g.active = 0;
    end_run(O_TERMINATE, "terminate", std::string("exception left a parallel region: ") + e.what());
  } catch (...) {
    g.active = 0;
    end_run(O_TERMINATE, "terminate", "exception left a parallel region");
  }
  g.active = 0;
  t->alive--;
  t->joiner = me->slot;
  while (t->alive > 0) block_cur();
  vjoin(vc[me->slot], t->bvc);
  me->team = pteam; me->tid = ptid; me->ws = pws; me->cur_ws = pcur;
  me->levels--;
  schedule_events();
}
void team_run(int n, const std::function<void(int)>& f) {
  run_team(n, [&]() { f(g.cur->tid); }, nullptr);
}
void team_barrier() { Internal in; sync_point(); team_barrier_impl(); }

void spawn_callers(const std::vector<std::function<void()>>& bodies) {
  Internal in;
  Fiber* me = g.cur;
  Team* t = new Team;
  teams.push_back(t);
  memset(&t->bvc, 0, sizeof t->bvc);
  t->n = 1;  // no common barrier, no common work sharing
  t->callers = true;
  t->alive = bodies.size();
  t->joiner = me->slot;
  int id = 0;
  std::vector<int> sl;
  for (auto& b : bodies) {
    int s = new_slot();
    if (s < 0) { fprintf(stderr, "out of fiber slots\n"); _exit(3); }
    start_fiber(s, t, 0, ++id, 0, b);
    fib[s].levels = 0;
  }
  schedule_events();
  while (t->alive > 0) block_cur();
  vjoin(vc[me->slot], t->bvc);
  schedule_events();
}

// ---------------------------------------------------------------- work sharing
static Team* wteam() { return g.cur->team && !g.cur->team->callers ? g.cur->team : nullptr; }
static WS& ws_enter(int kind) {
  Team* t = g.cur->team;
  int i = g.cur->ws++;
  g.cur->cur_ws = i;
  WS& w = t->ws[i];
  if (!w.init) { w.init = true; w.kind = kind; w.left = t->n; w.spos.assign(t->n, -1); }
  return w;
}
static WS soloWS[MAXF];
static WS& ws_cur() {
  Team* t = wteam();
  if (!t) return soloWS[g.cur->slot];
  return t->ws[g.cur->cur_ws];
}
static WS& ws_begin(int kind) {
  if (!wteam()) { soloWS[g.cur->slot] = WS(); soloWS[g.cur->slot].kind = kind; soloWS[g.cur->slot].spos.assign(1, -1); return soloWS[g.cur->slot]; }
  return ws_enter(kind);
}
int team_size() { return wteam() ? g.cur->team->n : 1; }
static int team_n() { return wteam() ? g.cur->team->n : 1; }
static bool loop_next(long* is, long* ie) {
  WS& w = ws_cur();
  int n = team_n(), tid = wteam() ? g.cur->tid : 0;
  long total = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / (-w.incr);
  if (w.kind == 2) {  // static: w.next stays at the loop start
    long iters = total; if (iters < 0) iters = 0;
    long k = ++w.spos[tid];
    if (w.chunk <= 0) {
      if (k > 0) return false;
      long q = iters / n, r = iters % n;
      long b = tid < r ? tid * (q + 1) : tid * q + r, e = b + q + (tid < r);
      if (b >= e) return false;
      *is = w.next + b * w.incr; *ie = w.next + e * w.incr;
      return true;
    }
    long b = (k * n + tid) * w.chunk;
    if (b >= iters) return false;
    long e = std::min(iters, b + w.chunk);
    *is = w.next + b * w.incr; *ie = w.next + e * w.incr;
    return true;
  }
  if (w.kind == 5 && !w.shuffled) {
    // a non-monotonic dynamic loop may hand its chunks out in any order
    w.shuffled = true;
    long st = (w.chunk > 0 ? w.chunk : 1) * w.incr;
    if (g.cfg.nonmono && total > 1 && total < 100000) {
      for (long k = w.next; w.incr > 0 ? k < w.end : k > w.end; k += st) w.order.push_back(k);
      uint64_t h = mix(g.cfg.sched_seed, 0x6d6f6e6f + g.res.chunks);
      for (size_t k = w.order.size(); k > 1; k--) { h = mix(h, k); std::swap(w.order[k - 1], w.order[h % k]); }
      g.res.f_nonmono++;
      w.next = w.end;
      total = 0;
    }
  }
  if (!w.order.empty()) {
    long st = (w.chunk > 0 ? w.chunk : 1) * w.incr;
    *is = w.order.back();
    w.order.pop_back();
    *ie = *is + st;
    if (w.incr > 0 ? *ie > w.end : *ie < w.end) *ie = w.end;
    g.res.chunks++;
    g.hash = mix(g.hash, 0xC5 + tid * 131 + *is);
    return true;
  }
  if (total <= 0) return false;
  long c = w.chunk > 0 ? w.chunk : 1;
  if (w.kind == 1) c = std::max(c, (total + n - 1) / n);
  if (w.kind == 3) c = total;
  if (c > total) c = total;
  *is = w.next;
  *ie = w.next + c * w.incr;
  if (c == total) *ie = w.end;
  w.next = w.next + c * w.incr;
  if (c == total) w.next = w.end;
  g.res.chunks++;
  g.hash = mix(g.hash, 0xC4 + tid * 131 + *is);
  return true;
}
static bool loop_start(int kind, long s, long e, long incr, long chunk, long* is, long* ie) {
  Internal in;
  sync_point();
  WS& w = ws_begin(kind);
  if (w.next == 0 && w.end == 0 && !w.single_taken) { w.single_taken = true; w.next = s; w.end = e; w.incr = incr; w.chunk = chunk; }
  if (!is) return true;
  return loop_next(is, ie);
}
static bool loop_next_s(long* is, long* ie) { Internal in; sync_point(); return loop_next(is, ie); }

// unsigned long long loops, dynamic only (any hand-out is legal)
static bool ull_next(unsigned long long* is, unsigned long long* ie) {
  WS& w = ws_cur();
  if (w.up ? w.unext >= w.uend : w.unext <= w.uend) return false;
  unsigned long long c = w.uchunk ? w.uchunk : 1;
  *is = w.unext;
  unsigned long long left = w.up ? (w.uend - w.unext + w.uincr - 1) / w.uincr : (w.unext - w.uend - w.uincr - 1) / (0 - w.uincr);
  if (c >= left) { *ie = w.uend; w.unext = w.uend; } else { *ie = w.unext + c * w.uincr; w.unext = *ie; }
  return true;
}
static bool ull_start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long* is, unsigned long long* ie) {
  Internal in;
  sync_point();
  WS& w = ws_begin(0);
  if (!w.single_taken) { w.single_taken = true; w.up = up; w.unext = s; w.uend = e; w.uincr = incr; w.uchunk = chunk; }
  return ull_next(is, ie);
}

// ---------------------------------------------------------------- locks
static void lock_acquire(uintptr_t key, bool nest = false) {
  if (!g.running) return;
  Internal in;
  sync_point();
  int s = g.cur->slot;
  for (;;) {
    Lock& l = (*locks)[key];
    if (l.owner < 0) { l.owner = s; l.depth = 1; vjoin(vc[s], l.vc); return; }
    if (l.owner == s && nest) { l.depth++; return; }
    l.waiters.push_back(s);
    block_cur();
  }
}
static void lock_release(uintptr_t key) {
  if (!g.running) return;
  Internal in;
  Lock& l = (*locks)[key];
  int s = g.cur->slot;
  if (l.owner == s && --l.depth > 0) return;
  vjoin(l.vc, vc[s]);
  vc[s].c[s]++;
  l.owner = -1;
  for (int q : l.waiters) wake(q);
  l.waiters.clear();
  sync_point();
}

static int64_t sim_clock_ns() {
  Internal in;
  g.clock_calls++;
  int64_t base = 1700000000000000000LL + (int64_t)g.steps * 10 + g.adv;
  uint64_t h = mix(g.clock_calls, g.cfg.sched_seed);
  switch (g.cfg.clock_mode) {
    case 1: return 1700000000000000000LL;
    case 2: g.clock_off -= (int64_t)(h % 5000000000ULL); g.res.f_clock++; break;
    case 3: g.clock_off += (h & 1) ? (int64_t)(h % 86400000000000ULL) : -(int64_t)(h % 3600000000000ULL); g.res.f_clock++; break;
  }
  return base + g.clock_off;
}
// the time that has really passed: no one can set this clock
int64_t mono_ns() { return 1000000000000LL + (int64_t)g.steps * 10 + g.adv; }
void advance_time(int64_t ns) { g.adv += ns; }
void step_wall(int64_t ns) { g.clock_off += ns; g.res.f_clock++; }
bool sim_running() { return g.running; }
}  // namespace sim

using namespace sim;

// ================================================================ allocation entry points
static void* checked_new(size_t n) {
  if (!g.active) {
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
  }
  step();
  void* p;
  { Internal in; p = arena_alloc(n); }
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return checked_new(n); }
void* operator new[](size_t n) { return checked_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return checked_new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return checked_new(n); } catch (...) { return nullptr; } }
static void any_delete(void* p) {
  if (!p) return;
  if (in_arena(p)) { Internal in; arena_free(p, "delete"); }
  else free(p);
}
void operator delete(void* p) noexcept { any_delete(p); }
void operator delete[](void* p) noexcept { any_delete(p); }
void operator delete(void* p, size_t) noexcept { any_delete(p); }
void operator delete[](void* p, size_t) noexcept { any_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { any_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { any_delete(p); }

EXPORT void* sim_malloc(size_t n) {
  if (!g.active) return malloc(n);
  step();
  Internal in;
  void* p = arena_alloc(n);
  if (!p) errno = ENOMEM;
  return p;
}
EXPORT void sim_free(void* p) {
  if (!p) return;
  if (in_arena(p)) { Internal in; arena_free(p, "free"); }
  else free(p);
}
EXPORT void* sim_calloc(size_t a, size_t b) {
  if (!g.active) return calloc(a, b);
  if (b && a > SIZE_MAX / b) return nullptr;
  void* p = sim_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
EXPORT void* sim_realloc(void* p, size_t n) {
  if (!p) return sim_malloc(n);
  if (!in_arena(p)) return realloc(p, n);
  void* q = sim_malloc(n);
  if (!q) return nullptr;
  size_t o = block_size(p);
  memcpy(q, p, o < n ? o : n);
  sim_free(p);
  return q;
}
EXPORT void* sim_memset(void* d, int c, size_t n) { if (n) mem_write(d, n); return memset(d, c, n); }
EXPORT void* sim_memcpy(void* d, const void* s, size_t n) { if (n) { mem_read(s, n); mem_write(d, n); } return memcpy(d, s, n); }
EXPORT void* sim_memmove(void* d, const void* s, size_t n) { if (n) { mem_read(s, n); mem_write(d, n); } return memmove(d, s, n); }
EXPORT void* sim_memset_chk(void* d, int c, size_t n, size_t) { return sim_memset(d, c, n); }
EXPORT void* sim_memcpy_chk(void* d, const void* s, size_t n, size_t) { return sim_memcpy(d, s, n); }
EXPORT void* sim_memmove_chk(void* d, const void* s, size_t n, size_t) { return sim_memmove(d, s, n); }

// ================================================================ process, clock, output
// the clocks that inline code of the library's headers reads
static int64_t real_ns(clockid_t c) { struct timespec t; clock_gettime(c, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g.running ? sim_clock_ns() : real_ns(CLOCK_REALTIME))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g.running ? mono_ns() : real_ns(CLOCK_MONOTONIC))); }
}}}
EXPORT void sim_exit(int code) {
  if (!g.running) _exit(code);
  g.res.exit_code = code;
  g.active = 0;
  end_run(O_EXIT, "exit", fmt("exit(%d)", code));
}
EXPORT void sim_exit2(int code) { sim_exit(code); }
EXPORT void sim_abort() {
  if (!g.running) abort();
  end_run(O_TERMINATE, "abort", "abort()");
}
EXPORT int64_t sim_clock_now() { return sim_clock_ns(); }
EXPORT int64_t sim_clock_now2() { return mono_ns(); }
EXPORT int sim_rand() { Internal in; return (int)(mix(g.steps, 5) & 0x7fffffff); }
EXPORT long sim_time(long* p) { long t = sim_clock_ns() / 1000000000LL; if (p) *p = t; return t; }
EXPORT long sim_clock_c() { return (long)(g.steps * 10 / 1000); }  // processor time
EXPORT int sim_nop() { return 0; }
EXPORT int sim_nop2() { return 0; }
EXPORT int sim_nop3() { return 0; }
EXPORT int sim_nop4() { return 0; }
EXPORT int sim_gettimeofday(struct timeval* tv, void*) { int64_t t = sim_clock_ns(); tv->tv_sec = t / 1000000000LL; tv->tv_usec = t / 1000 % 1000000; return 0; }
EXPORT int sim_clock_gettime(int c, struct timespec* ts) { int64_t t = c == CLOCK_REALTIME ? sim_clock_ns() : c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? (int64_t)g.steps * 10 : mono_ns(); ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL; return 0; }
EXPORT char* sim_getenv(const char*) { return nullptr; }
EXPORT int sim_yield() { if (g.running) sync_point(); return 0; }
EXPORT int sim_yield2() { return sim_yield(); }
EXPORT int sim_yield3() { return sim_yield(); }
EXPORT int sim_yield4() { return sim_yield(); }

// ================================================================ disk
namespace {
struct Handle { std::string path; size_t off; bool w; bool failed_once; };
std::set<FILE*>* handles = new std::set<FILE*>;
ssize_t dk_read(void* c, char* buf, size_t n) {
  Internal in;
  Handle* h = (Handle*)c;
  auto& f = g_disk.files[h->path];
  g_disk.reads++;
  size_t left = f.data.size() > h->off ? f.data.size() - h->off : 0;
  size_t m = n < left ? n : left;
  if (g_disk.fault.short_io > 0 && m > (size_t)g_disk.fault.short_io) { m = g_disk.fault.short_io; g_disk.f_short++; }
  if (g_disk.fault.eio_at >= 0 && !(h->failed_once && g_disk.fault.fail_once)) {
    if ((int64_t)h->off >= g_disk.fault.eio_at) { g_disk.f_eio++; h->failed_once = true; errno = EIO; return -1; }
    if ((int64_t)(h->off + m) > g_disk.fault.eio_at) m = g_disk.fault.eio_at - h->off;
  }
  memcpy(buf, f.data.data() + h->off, m);
  h->off += m;
  return m;
}
ssize_t dk_write(void* c, const char* buf, size_t n) {
  Internal in;
  Handle* h = (Handle*)c;
  // after a power loss nothing reaches the disk any more: what the dead process goes on to do is unobservable
  if (g_disk.crashed) return n;
  g_disk.writes++;
  auto& f = g_disk.files[h->path];
  size_t m = n;
  if (g_disk.crash_at_byte >= 0 && (int64_t)(g_disk.written + n) > g_disk.crash_at_byte) {
    g_disk.crashed = true;
    m = g_disk.crash_at_byte - g_disk.written;
    if (f.data.size() < h->off) f.data.resize(h->off);
    f.data.replace(h->off, std::min(m, f.data.size() - h->off), buf, m);
    h->off += n;
    return n;
  }
  // (short writes are retried below stdio: a cookie that writes less than asked means failure)
  if (g_disk.fault.short_io > 0 && m > (size_t)g_disk.fault.short_io) g_disk.f_short++;
  bool once = h->failed_once && g_disk.fault.fail_once;
  if (g_disk.fault.enospc_at >= 0 && !once && (int64_t)(h->off + m) > g_disk.fault.enospc_at) {
    if ((int64_t)h->off >= g_disk.fault.enospc_at) { g_disk.f_enospc++; h->failed_once = true; errno = ENOSPC; return 0; }
    m = g_disk.fault.enospc_at - h->off;
    g_disk.f_enospc++; h->failed_once = true; errno = ENOSPC;
  }
  if (g_disk.fault.eio_at >= 0 && !once && (int64_t)(h->off + m) > g_disk.fault.eio_at) {
    if ((int64_t)h->off >= g_disk.fault.eio_at) { g_disk.f_eio++; h->failed_once = true; errno = EIO; return 0; }
    m = g_disk.fault.eio_at - h->off;
    g_disk.f_eio++; h->failed_once = true; errno = EIO;
  }
  if (f.data.size() < h->off) f.data.resize(h->off);
  f.data.replace(h->off, std::min(m, f.data.size() - h->off), buf, m);
  h->off += m;
  g_disk.written += m;
  return m;
}
int dk_seek(void* c, off64_t* o, int wh) {
  Internal in;
  Handle* h = (Handle*)c;
  int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)h->off : (int64_t)g_disk.files[h->path].data.size();
  if (b + *o < 0) { errno = EINVAL; return -1; }
  h->off = b + *o;
  *o = h->off;
  return 0;
}
int dk_close(void* c) {
  Internal in;
  g_disk.open_handles--;
  delete (Handle*)c;
  return 0;
}
}  // namespace
static void close_leftovers() {
  for (FILE* f : *handles) fclose(f);
  handles->clear();
}
EXPORT int sim_fclose(FILE* f) {
  if (!g.running) return fclose(f);
  if (g.active) step();
  Internal in;
  handles->erase(f);
  return fclose(f);
}
// reads and writes of the code under test are steps, and what libc stores for it is checked
static int scan_args(const char* fmt, va_list ap, int got, bool check) {
  (void)got;
  for (const char* c = fmt; *c && got > 0; c++) {
    if (*c != '%') continue;
    c++;
    if (*c == '%') continue;
    bool skip = false;
    if (*c == '*') { skip = true; c++; }
    while (isdigit((unsigned char)*c)) c++;
    int l = 0;
    while (*c == 'l' || *c == 'h' || *c == 'z' || *c == 'j') { l += *c == 'h' ? -1 : 1; c++; }
    if (skip) continue;
    void* p = va_arg(ap, void*);
    size_t n = 1;
    if (strchr("diuxXo", *c)) n = l > 0 ? 8 : l == 0 ? 4 : l == -1 ? 2 : 1;
    else if (strchr("feEgGaA", *c)) n = l > 0 ? 8 : 4;
    else if (*c == 's') n = strlen((char*)p) + 1;
    else if (*c == 'p') n = 8;
    if (*c != 'n') got--;
    if (check) mem_write(p, n);
  }
  return 0;
}
EXPORT int sim_fscanf(FILE* f, const char* fmt, ...) {
  if (g.active) step();
  va_list ap, aq;
  va_start(ap, fmt);
  va_copy(aq, ap);
  int r;
  { Internal in; r = vfscanf(f, fmt, ap); }
  if (g.active && r > 0) scan_args(fmt, aq, r, true);
  va_end(ap); va_end(aq);
  return r;
}
EXPORT int sim_sscanf(const char* t, const char* fmt, ...) {
  if (g.active) step();
  va_list ap, aq;
  va_start(ap, fmt);
  va_copy(aq, ap);
  int r;
  { Internal in; r = vsscanf(t, fmt, ap); }
  if (g.active && r > 0) scan_args(fmt, aq, r, true);
  va_end(ap); va_end(aq);
  return r;
}
EXPORT char* sim_fgets(char* b, int n, FILE* f) {
  if (g.active) step();
  char* r;
  { Internal in; r = fgets(b, n, f); }
  if (g.active && r) mem_write(b, strlen(b) + 1);
  return r;
}
EXPORT int sim_getc(FILE* f) { if (g.active) step(); Internal in; return getc(f); }
EXPORT int sim_fprintf(FILE* f, const char* fmt, ...) {
  if (g.running && (f == stderr || f == stdout)) return 0;
  if (g.active) step();
  va_list ap;
  va_start(ap, fmt);
  Internal in;
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
EXPORT size_t sim_fwrite(const void* p, size_t s, size_t n, FILE* f) {
  if (g.running && (f == stderr || f == stdout)) return n;
  if (g.active && s * n) { step(); mem_read(p, s * n); }
  Internal in;
  return fwrite(p, s, n, f);
}
EXPORT size_t sim_fread(void* p, size_t s, size_t n, FILE* f) {
  if (g.active) step();
  size_t r;
  { Internal in; r = fread(p, s, n, f); }
  if (g.active && r * s) mem_write(p, r * s);
  return r;
}
// file descriptors from 100000 on name simulated files (used by the routines that print to a descriptor)
EXPORT int sim_dprintf(int fd, const char* fmt, ...) {
  if (g.active) step();
  va_list ap;
  va_start(ap, fmt);
  Internal in;
  char* b = nullptr;
  int n = vasprintf(&b, fmt, ap);
  va_end(ap);
  if (!g.running || fd < 100000) { if (!g.running && n >= 0) n = write(fd, b, n); free(b); return n; }
  Handle h{"fd:" + std::to_string(fd), g_disk.files["fd:" + std::to_string(fd)].data.size(), true, false};
  for (int done = 0; done < n;) {
    ssize_t k = dk_write(&h, b + done, n - done);
    if (k <= 0) { free(b); return -1; }
    done += k;
  }
  free(b);
  return n;
}
EXPORT int sim_fileno(FILE* f) { if (g.running && handles->count(f)) return 99999; return fileno(f); }
EXPORT int sim_fsync(int fd) { if (g.running && fd >= 99999) return 0; return g.running ? 0 : fsync(fd); }
EXPORT int sim_fscanf_a(FILE*, const char*, ...) __attribute__((alias("sim_fscanf")));
EXPORT int sim_fscanf_b(FILE*, const char*, ...) __attribute__((alias("sim_fscanf")));
EXPORT int sim_sscanf_a(const char*, const char*, ...) __attribute__((alias("sim_sscanf")));
EXPORT int sim_sscanf_b(const char*, const char*, ...) __attribute__((alias("sim_sscanf")));
EXPORT int sim_getc_a(FILE*) __attribute__((alias("sim_getc")));
EXPORT int sim_fsync_a(int) __attribute__((alias("sim_fsync")));
EXPORT int sim_rename(const char* a, const char* b) {
  if (!g.running) return rename(a, b);
  Internal in;
  if (g_disk.crashed) return 0;
  auto it = g_disk.files.find(a);
  if (it == g_disk.files.end()) { errno = ENOENT; return -1; }
  g_disk.files[b] = it->second;
  g_disk.files.erase(a);
  return 0;
}
EXPORT int sim_remove(const char* a) {
  if (!g.running) return remove(a);
  Internal in;
  if (g_disk.crashed) return 0;
  if (!g_disk.files.erase(a)) { errno = ENOENT; return -1; }
  return 0;
}
EXPORT int sim_unlink(const char* a) { return sim_remove(a); }
EXPORT FILE* sim_fopen(const char* path, const char* mode);
EXPORT FILE* sim_fopen64(const char* path, const char* mode) { return sim_fopen(path, mode); }
EXPORT FILE* sim_fopen(const char* path, const char* mode) {
  if (!g.running) return fopen(path, mode);
  Internal in;
  g_disk.opens++;
  bool w = mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+');
  if (g_disk.fault.open_errno) { g_disk.f_open++; errno = g_disk.fault.open_errno; return nullptr; }
  if (g_disk.handle_limit >= 0 && g_disk.open_handles >= g_disk.handle_limit) { g_disk.f_open++; errno = EMFILE; return nullptr; }
  if (mode[0] == 'r' && !g_disk.files.count(path)) { errno = ENOENT; return nullptr; }
  if (mode[0] == 'w' && !g_disk.crashed) g_disk.files[path].data.clear();
  Handle* h = new Handle{path, mode[0] == 'a' ? g_disk.files[path].data.size() : 0, w, false};
  cookie_io_functions_t io = {dk_read, dk_write, dk_seek, dk_close};
  FILE* f = fopencookie(h, mode, io);
  if (!f) { delete h; return nullptr; }
  g_disk.open_handles++;
  handles->insert(f);
  if (g_disk.fault.short_io > 0) setvbuf(f, nullptr, _IOFBF, std::max(16, g_disk.fault.short_io));
  return f;
}

FILE* sim::disk_fopen(const char* path, const char* mode) { return sim_fopen(path, mode); }
int sim::disk_fclose(FILE* f) { return sim_fclose(f); }

// ================================================================ instrumentation callbacks
#define RW(n) \
  EXPORT void __tsan_read##n(void* p) { COV(); access((uintptr_t)p, n, false); } \
  EXPORT void __tsan_write##n(void* p) { COV(); access((uintptr_t)p, n, true); } \
  EXPORT void __tsan_unaligned_read##n(void* p) { COV(); access((uintptr_t)p, n, false); } \
  EXPORT void __tsan_unaligned_write##n(void* p) { COV(); access((uintptr_t)p, n, true); } \
  EXPORT void __tsan_volatile_read##n(void* p) { COV(); access((uintptr_t)p, n, false); } \
  EXPORT void __tsan_volatile_write##n(void* p) { COV(); access((uintptr_t)p, n, true); } \
  EXPORT void __tsan_read##n##_pc(void* p, void*) { COV(); access((uintptr_t)p, n, false); } \
  EXPORT void __tsan_write##n##_pc(void* p, void*) { COV(); access((uintptr_t)p, n, true); } \
  EXPORT void __tsan_unaligned_volatile_read##n(void* p) { COV(); access((uintptr_t)p, n, false); } \
  EXPORT void __tsan_unaligned_volatile_write##n(void* p) { COV(); access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { COV(); if (n) access((uintptr_t)p, n, false); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { COV(); if (n) access((uintptr_t)p, n, true); }
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) { COV(); }
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void**, void*) {}
EXPORT void __tsan_vptr_read(void**) {}
EXPORT void __tsan_acquire(void*) {}
EXPORT void __tsan_release(void*) {}

static void at_acq(void* p, int mo) { if (g.active && mo != 0 && mo != 3) { Internal in; auto it = avc->find((uintptr_t)p); if (it != avc->end()) vjoin(vc[g.cur->slot], it->second); } }
static void at_rel(void* p, int mo) { if (g.active && mo >= 3) { Internal in; VC& v = (*avc)[(uintptr_t)p]; vjoin(v, vc[g.cur->slot]); vc[g.cur->slot].c[g.cur->slot]++; } }
static void at_step(void* p, size_t n, bool w) { if (g.active) { chk((uintptr_t)p, n, w); bool t = g.trackc; g.trackc = false; step(); g.trackc = t; } }
#define ATOMICS(bits, T) \
  EXPORT T __tsan_atomic##bits##_load(const volatile T* p, int mo) { at_step((void*)p, sizeof(T), false); at_acq((void*)p, mo); return *p; } \
  EXPORT void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at_step((void*)p, sizeof(T), true); at_rel((void*)p, mo); *p = v; } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { at_step((void*)p, sizeof(T), true); at_acq((void*)p, mo); at_rel((void*)p, mo); T o = *p; *p = v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { at_step((void*)p, sizeof(T), true); at_acq((void*)p, mo); at_rel((void*)p, mo); T o = *p; *p = o + v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { at_step((void*)p, sizeof(T), true); at_acq((void*)p, mo); at_rel((void*)p, mo); T o = *p; *p = o - v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { at_step((void*)p, sizeof(T), true); at_acq((void*)p, mo); at_rel((void*)p, mo); T o = *p; *p = o & v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { at_step((void*)p, sizeof(T), true); at_acq((void*)p, mo); at_rel((void*)p, mo); T o = *p; *p = o | v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { at_step((void*)p, sizeof(T), true); at_acq((void*)p, mo); at_rel((void*)p, mo); T o = *p; *p = o ^ v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { at_step((void*)p, sizeof(T), true); T o = *p; *p = ~(o & v); return o; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { at_step((void*)p, sizeof(T), true); T o = *p; if (o == *c) { at_acq((void*)p, mo); at_rel((void*)p, mo); *p = v; return 1; } at_acq((void*)p, fmo); *c = o; return 0; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo); } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int) { if (g.active) step(); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ================================================================ libgomp interface
typedef void (*ompfn)(void*);
typedef unsigned long long ull;
EXPORT void GOMP_parallel(ompfn fn, void* d, unsigned n, unsigned) { if (!g.running) { fn(d); return; } run_team(n, [=]() { fn(d); }, nullptr); }
EXPORT void GOMP_barrier() { if (!g.running) return; Internal in; sync_point(); team_barrier_impl(); }
EXPORT bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
EXPORT bool GOMP_single_start() {
  if (!g.running) return true;
  Internal in; sync_point();
  if (!wteam()) return true;
  WS& w = ws_begin(0);
  if (w.single_taken) return false;
  w.single_taken = true;
  g.hash = mix(g.hash, 0x51 + g.cur->tid);
  return true;
}
EXPORT void* GOMP_single_copy_start() {
  if (!g.running || !wteam()) return nullptr;
  if (GOMP_single_start()) return nullptr;
  GOMP_barrier();
  return g.cur->team->copyptr;
}
EXPORT void GOMP_single_copy_end(void* p) { if (!g.running || !wteam()) return; g.cur->team->copyptr = p; GOMP_barrier(); }
#define LOOPFN(name, KND) \
  EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(KND, s, e, i, c, is, ie); } \
  EXPORT bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next_s(is, ie); } \
  EXPORT void GOMP_parallel_loop_##name(ompfn fn, void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
    WS w; w.init = true; w.single_taken = true; w.kind = KND; w.next = s; w.end = e; w.incr = i; w.chunk = c; w.spos.assign(64, -1); \
    run_team(n, [=]() { fn(d); }, &w); }
LOOPFN(dynamic, 0) LOOPFN(nonmonotonic_dynamic, 5) LOOPFN(guided, 1) LOOPFN(nonmonotonic_guided, 1) LOOPFN(static, 2)
#define LOOPRT(name) \
  EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie) { return loop_start(0, s, e, i, 1, is, ie); } \
  EXPORT bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next_s(is, ie); } \
  EXPORT void GOMP_parallel_loop_##name(ompfn fn, void* d, unsigned n, long s, long e, long i, unsigned) { \
    WS w; w.init = true; w.single_taken = true; w.kind = 0; w.next = s; w.end = e; w.incr = i; w.chunk = 1; w.spos.assign(64, -1); \
    run_team(n, [=]() { fn(d); }, &w); }
LOOPRT(runtime) LOOPRT(nonmonotonic_runtime) LOOPRT(maybe_nonmonotonic_runtime)
#define LOOPORD(name) \
  EXPORT bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(3, s, e, i, c, is, ie); } \
  EXPORT bool GOMP_loop_ordered_##name##_next(long* is, long* ie) { return loop_next_s(is, ie); }
LOOPORD(static) LOOPORD(dynamic) LOOPORD(guided)
EXPORT bool GOMP_loop_start(long s, long e, long i, long sched, long c, long* is, long* ie, unsigned long*, void** mem) {
  if (mem) *mem = nullptr;
  int k = (sched & 0xff) == 1 ? 2 : (sched & 0xff) == 3 ? 1 : 0;
  return loop_start(k, s, e, i, c, is, ie);
}
#define ULLFN(name) \
  EXPORT bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return ull_start(up, s, e, i, c, is, ie); } \
  EXPORT bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { Internal in; sync_point(); return ull_next(is, ie); }
ULLFN(dynamic) ULLFN(nonmonotonic_dynamic) ULLFN(guided) ULLFN(nonmonotonic_guided) ULLFN(static)
EXPORT bool GOMP_loop_ull_runtime_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return ull_start(up, s, e, i, 1, is, ie); }
EXPORT bool GOMP_loop_ull_runtime_next(ull* is, ull* ie) { Internal in; sync_point(); return ull_next(is, ie); }
EXPORT bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return ull_start(up, s, e, i, 1, is, ie); }
EXPORT bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(ull* is, ull* ie) { Internal in; sync_point(); return ull_next(is, ie); }
EXPORT void GOMP_loop_end() { GOMP_barrier(); }
EXPORT bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
EXPORT void GOMP_loop_end_nowait() { if (g.running) sync_point(); }
EXPORT unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(0, 1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
EXPORT unsigned GOMP_sections_next() { long a, b; return loop_next_s(&a, &b) ? (unsigned)a : 0; }
EXPORT void GOMP_sections_end() { GOMP_barrier(); }
EXPORT void GOMP_sections_end_nowait() {}
EXPORT void GOMP_parallel_sections(ompfn fn, void* d, unsigned n, unsigned cnt, unsigned) {
  WS w; w.init = true; w.single_taken = true; w.next = 1; w.end = (long)cnt + 1; w.incr = 1; w.chunk = 1; w.spos.assign(64, -1);
  run_team(n, [=]() { fn(d); }, &w);
}
EXPORT void GOMP_critical_start() { lock_acquire(1); }
EXPORT void GOMP_critical_end() { lock_release(1); }
EXPORT void GOMP_critical_name_start(void** p) { lock_acquire((uintptr_t)p); }
EXPORT void GOMP_critical_name_end(void** p) { lock_release((uintptr_t)p); }
EXPORT void GOMP_atomic_start() { lock_acquire(2); }
EXPORT void GOMP_atomic_end() { lock_release(2); }
EXPORT void GOMP_ordered_start() {}
EXPORT void GOMP_ordered_end() {}
EXPORT void GOMP_flush() {}
EXPORT void GOMP_taskwait() { if (g.running) sync_point(); }
EXPORT void GOMP_taskyield() { if (g.running) sync_point(); }
EXPORT void GOMP_taskgroup_start() {}
EXPORT void GOMP_taskgroup_end() {}
EXPORT void GOMP_task(ompfn fn, void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  if (g.running) sync_point();
  if (cpy) {
    char* b = (char*)alloca(sz + al);
    char* a = (char*)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1));
    cpy(a, data);
    fn(a);
  } else fn(data);
}
EXPORT bool GOMP_cancel(int, bool) { return false; }
EXPORT bool GOMP_cancellation_point(int) { return false; }

EXPORT int omp_get_thread_num() { return g.running && wteam() ? g.cur->tid : 0; }
EXPORT int omp_get_num_threads() { return g.running ? team_n() : 1; }
EXPORT int omp_get_max_threads() { return g.running ? g.icv_threads : 1; }
EXPORT void omp_set_num_threads(int n) { if (n > 0) g.icv_threads = n; }
EXPORT int omp_get_num_procs() { return g.cfg.threads; }
EXPORT int omp_in_parallel() { return g.running && wteam() && wteam()->n > 1; }
EXPORT int omp_get_dynamic() { return g.icv_dyn; }
EXPORT void omp_set_dynamic(int d) { g.icv_dyn = d; }
EXPORT int omp_get_nested() { return 0; }
EXPORT void omp_set_nested(int) {}
EXPORT int omp_get_level() { return g.cur->levels; }
EXPORT int omp_get_active_level() { return g.cur->levels; }
EXPORT int omp_get_max_active_levels() { return 1; }
EXPORT void omp_set_max_active_levels(int) {}
EXPORT int omp_get_thread_limit() { return 32; }
EXPORT int omp_get_team_num() { return 0; }
EXPORT int omp_get_num_teams() { return 1; }
EXPORT double omp_get_wtime() { return mono_ns() * 1e-9; }
EXPORT double omp_get_wtick() { return 1e-9; }
EXPORT void omp_set_schedule(int, int) {}
EXPORT void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
EXPORT void omp_init_lock(void* l) { Internal in; (*locks)[(uintptr_t)l] = Lock(); }
EXPORT void omp_destroy_lock(void*) {}
EXPORT void omp_set_lock(void* l) { lock_acquire((uintptr_t)l); }
EXPORT void omp_unset_lock(void* l) { lock_release((uintptr_t)l); }
EXPORT int omp_test_lock(void* l) {
  Internal in; sync_point();
  Lock& k = (*locks)[(uintptr_t)l];
  if (k.owner >= 0) return 0;
  k.owner = g.cur->slot; k.depth = 1; vjoin(vc[g.cur->slot], k.vc);
  return 1;
}
EXPORT void omp_init_nest_lock(void* l) { omp_init_lock(l); }
EXPORT void omp_destroy_nest_lock(void*) {}
EXPORT void omp_set_nest_lock(void* l) { lock_acquire((uintptr_t)l, true); }
EXPORT void omp_unset_nest_lock(void* l) { lock_release((uintptr_t)l); }
EXPORT int sim_mutex_lock(void* m) { lock_acquire((uintptr_t)m); return 0; }
EXPORT int sim_mutex_unlock(void* m) { lock_release((uintptr_t)m); return 0; }
