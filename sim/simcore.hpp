// Deterministic simulation core: one integer decides everything.
//  * Rng      - the only source of choices
//  * Plan     - the explicit, minimisable list of operations / faults / schedule decisions of one run
//  * mem::    - the allocator seam (poisoned, guarded, quarantined heap with injectable failures)
//  * Ctx      - event log (hashed), invariants, counters
//  * driver   - fork-per-run execution, determinism gate, minimisation, replay
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Op {
  int kind = 0, client = 0;
  long a = 0, b = 0, c = 0, d = 0;
  uint64_t r = 0;
  long fault = 0;  // 0: none; n>0: the n-th allocation inside the operation fails (f>1: repeated `faultlen` times)
  uint32_t uid = 0;  // position in the generated history: the schedule of an operation does not depend on its neighbours
};

struct Plan {
  std::map<std::string, long> cfg;
  std::vector<Op> ops;
  std::vector<uint32_t> sched;  // explicit schedule decisions: triples (uid of the operation, step in it, choice)
  bool sched_given = false;
  uint64_t sched_seed = 0;      // otherwise schedule decisions are drawn from this seed
  long get(const char* k, long d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
};

// ---------------------------------------------------------------- allocator seam
namespace mem {
extern bool armed;            // inside library code driven by the harness
extern long countdown;        // >0: that many allocations until failure
extern long faillen;          // consecutive failures once triggered
extern uint64_t n_allocs;     // allocations made while armed
extern uint64_t n_faults;     // failures injected
extern uint64_t live_bytes, live_blocks;
extern bool quarantine_on;
extern char corrupt[256];     // first corruption found ("" if none)
void enable();                // start poisoning/quarantine (child only)
bool check_all();             // verify guards of live blocks and the quarantine
struct Disarm { bool o; Disarm() : o(armed) { armed = false; } ~Disarm() { armed = o; } };
}

// ---------------------------------------------------------------- run context
struct Stop {};  // thrown to end a run after a violation

struct Shm {
  volatile int cur_op;
  int status;            // 0 running, 1 ok, 2 violation, 3 harness error
  uint64_t hash, sig;
  uint64_t simtime;
  int nontrivial;
  char vclass[64];
  char vmsg[4000];
  int nctr;
  struct { char name[40]; uint64_t v; } ctr[160];
  uint32_t nsched;
  uint32_t sched[3 << 15];
  int nviol_op;
};

struct Ctx {
  Shm* shm;
  bool verbose = false;
  const char* prop = "";
  std::string desc;  // description of the current operation
  uint64_t hash = 1469598103934665603ULL;
  uint64_t sig = 7;
  // paired runs: the sequential world records its answers, the scheduled world is compared with them
  int obs_mode = 0;
  double* obs_buf = nullptr; size_t obs_n = 0, obs_cap = 0, obs_i = 0;
  double obs(double x) {
    if (obs_mode == 1) { if (obs_n < obs_cap) obs_buf[obs_n++] = x; return x; }
    return obs_i < obs_n ? obs_buf[obs_i++] : x;
  }
  void h(uint64_t x) { hash = mix64(hash ^ x); }
  void h(double d) { uint64_t u; memcpy(&u, &d, 8); h(u); }
  void s(uint64_t x) { sig = mix64(sig ^ x); }
  void count(const char* name, uint64_t n = 1);
  void maxi(const char* name, uint64_t v);
  void note(const char* fmt, ...);
  [[noreturn]] void fail(const char* cls, const char* fmt, ...);
  void tick(uint64_t n = 1) { shm->simtime += n; }
  // run f as one library call; returns false if an injected allocation failure ended it
  bool api(const std::function<void()>& f, long fault = 0, long faultlen = 1);
};

struct Workload {
  virtual ~Workload() = default;
  virtual Plan generate(Rng& rng, const std::string& prop, bool thorough) = 0;
  virtual void execute(const Plan& plan, Ctx& ctx, const std::string& prop) = 0;
  virtual std::string describe(const Op& op) { (void)op; return ""; }
  virtual bool paired(const Plan&, const std::string&) { return false; }
  // what goes wrong without threads is a violation of its own (otherwise such a history is skipped)
  virtual bool sequential_judged(const std::string&) { return false; }
  virtual bool clean_exit(const Plan&) { return false; }
};

// stdout diagnostics of the library ("[ERROR MSG]: ...") are captured, counted and readable
extern uint64_t n_diag;
extern char last_diag[400];
extern void (*on_diag)(const char* text);  // called as soon as one is complete, inside the library call

// set by the scheduler when it is linked in
extern void (*sched_start)(const Plan&, Ctx&);
extern void (*sched_stop)();
int driver_main(int argc, char** argv, Workload& wl, const char* wlname);

}  // namespace sim
