#include "simcore.hpp"
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <sched.h>
#include <sys/personality.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <new>
#include <signal.h>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_realloc(void*, size_t);

// ================================================================ allocator seam
namespace sim { namespace mem {
bool armed = false;
long countdown = 0, faillen = 1;
uint64_t n_allocs = 0, n_faults = 0, live_bytes = 0, live_blocks = 0;
bool quarantine_on = false;
char corrupt[256] = "";
static bool poison_on = false;

struct Hdr { uint64_t magic; uint64_t size; Hdr* prev; Hdr* next; };
static const uint64_t LIVE = 0x51A1110CA7E5EEDULL, DEAD = 0xDEADB10CDEADB10CULL;
static const unsigned char GUARD = 0xFD, FRESH = 0xCB, FREED = 0xDB;
static Hdr head{0, 0, &head, &head};
static const size_t QN = 1 << 14;
static Hdr* q[QN];
static size_t qh = 0, qcount = 0, qbytes = 0;

static void bad(const char* what, size_t sz) {
  if (!corrupt[0]) snprintf(corrupt, sizeof corrupt, "%s (block of %zu bytes)", what, sz);
}
static bool tailok(Hdr* h) {
  unsigned char* t = (unsigned char*)(h + 1) + h->size;
  for (int i = 0; i < 16; i++) if (t[i] != GUARD) return false;
  return true;
}
static bool freedok(Hdr* h) {
  unsigned char* t = (unsigned char*)(h + 1);
  for (size_t i = 0; i < h->size; i++) if (t[i] != FREED) return false;
  return tailok(h);
}
static void evict() {
  Hdr* h = q[(qh + QN - qcount) % QN];
  qcount--; qbytes -= h->size;
  if (!freedok(h)) bad("write to freed memory", h->size);
  __real_free(h);
}
// decides whether this allocation fails
static inline bool inject() {
  if (!armed) return false;
  n_allocs++;
  if (countdown > 0 && --countdown == 0) {
    n_faults++;
    if (--faillen > 0) countdown = 1;
    return true;
  }
  return false;
}
void* get(size_t n) {
  if (n > (1ULL << 31)) return nullptr;  // the simulated machine has 2 GiB
  Hdr* h = (Hdr*)__real_malloc(sizeof(Hdr) + n + 16);
  if (!h) return nullptr;
  h->magic = LIVE; h->size = n;
  h->next = head.next; h->prev = &head; head.next->prev = h; head.next = h;
  live_bytes += n; live_blocks++;
  if (poison_on) memset(h + 1, FRESH, n);
  memset((char*)(h + 1) + n, GUARD, 16);
  return h + 1;
}
void put(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != LIVE) {
    bad(h->magic == DEAD ? "double free" : "free of a wild pointer", h->magic == DEAD ? h->size : 0);
    return;
  }
  if (!tailok(h)) bad("write past the end of a live block", h->size);
  h->prev->next = h->next; h->next->prev = h->prev;
  live_bytes -= h->size; live_blocks--;
  h->magic = DEAD;
  if (poison_on && quarantine_on) {
    memset(h + 1, FREED, h->size);
    memset((char*)(h + 1) + h->size, GUARD, 16);
    q[qh] = h; qh = (qh + 1) % QN; qcount++; qbytes += h->size;
    while (qcount >= QN || qbytes > (48u << 20)) evict();
  } else {
    __real_free(h);
  }
}
void enable() { poison_on = true; quarantine_on = true; }
bool check_all() {
  for (Hdr* h = head.next; h != &head; h = h->next) {
    if (h->magic != LIVE) { bad("block header overwritten", 0); break; }
    if (!tailok(h)) bad("write past the end of a live block", h->size);
  }
  for (size_t i = 0; i < qcount; i++) {
    Hdr* h = q[(qh + QN - qcount + i) % QN];
    if (!freedok(h)) bad("write to freed memory", h->size);
  }
  return corrupt[0] == 0;
}
}}  // namespace sim::mem

void* operator new(size_t n) {
  if (sim::mem::inject()) throw std::bad_alloc();
  void* p = sim::mem::get(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  if (sim::mem::inject()) return nullptr;
  return sim::mem::get(n);
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { sim::mem::put(p); }
void operator delete[](void* p) noexcept { sim::mem::put(p); }
void operator delete(void* p, size_t) noexcept { sim::mem::put(p); }
void operator delete[](void* p, size_t) noexcept { sim::mem::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::mem::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::mem::put(p); }

// malloc as called by the code under test (Eigen temporaries)
extern "C" void* __wrap_malloc(size_t n) {
  if (sim::mem::inject()) return nullptr;
  void* p = __real_malloc(n);
  if (p) {
    sim::mem::live_bytes += malloc_usable_size(p);
    if (sim::mem::quarantine_on) memset(p, 0xCB, n);
  }
  return p;
}
extern "C" void __wrap_free(void* p) {
  if (p) {
    size_t n = malloc_usable_size(p);
    sim::mem::live_bytes -= n;
    if (sim::mem::quarantine_on) memset(p, 0xDB, n);
  }
  __real_free(p);
}
extern "C" void* __wrap_realloc(void* p, size_t n) {
  if (sim::mem::inject()) return nullptr;
  if (p) sim::mem::live_bytes -= malloc_usable_size(p);
  void* r = __real_realloc(p, n);
  if (r) sim::mem::live_bytes += malloc_usable_size(r);
  return r;
}

// ================================================================ context
namespace sim {
uint64_t n_diag = 0;
char last_diag[400] = "";

void (*on_diag)(const char*) = nullptr;
struct DiagBuf : std::streambuf {
  char line[400]; size_t n = 0;
  void flushline() {
    line[n] = 0;
    bool diag = strstr(line, "[ERROR MSG]") != nullptr;
    if (diag) { n_diag++; strncpy(last_diag, line, sizeof last_diag - 1); }
    n = 0;
    if (diag && on_diag) on_diag(last_diag);
  }
  int overflow(int c) override {
    if (c == '\n') flushline();
    else if (c != EOF && n < sizeof line - 1) line[n++] = (char)c;
    return c == EOF ? 0 : c;
  }
};
static DiagBuf diagbuf;

void Ctx::count(const char* name, uint64_t n) {
  Shm* m = shm;
  for (int i = 0; i < m->nctr; i++) if (!strcmp(m->ctr[i].name, name)) { m->ctr[i].v += n; return; }
  if (m->nctr < 160) { strncpy(m->ctr[m->nctr].name, name, 39); m->ctr[m->nctr].v = n; m->nctr++; }
}
void Ctx::maxi(const char* name, uint64_t v) {
  std::string s = std::string("max:") + name;
  Shm* m = shm;
  for (int i = 0; i < m->nctr; i++) if (s == m->ctr[i].name) { if (m->ctr[i].v < v) m->ctr[i].v = v; return; }
  count(s.c_str(), v);
}
void Ctx::note(const char* fmt, ...) {
  if (!verbose) return;
  mem::Disarm d;
  va_list ap; va_start(ap, fmt);
  vfprintf(stderr, fmt, ap);
  va_end(ap);
  fputc('\n', stderr);
}
void Ctx::fail(const char* cls, const char* fmt, ...) {
  mem::armed = false;
  va_list ap; va_start(ap, fmt);
  char buf[3000];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  strncpy(shm->vclass, cls, sizeof shm->vclass - 1);
  snprintf(shm->vmsg, sizeof shm->vmsg, "%s%s%s", buf, desc.empty() ? "" : " | operation: ", desc.c_str());
  for (char* p = shm->vmsg; *p; p++) if (*p == '\n') *p = ' ';
  shm->status = 2;
  shm->nviol_op = shm->cur_op;
  throw Stop();
}
bool Ctx::api(const std::function<void()>& f, long fault, long faultlen) {
  bool ok = true;
  uint64_t f0 = mem::n_faults;
  mem::countdown = fault > 0 ? fault : 0;
  mem::faillen = faultlen;
  tick();
  mem::armed = true;
  try { f(); }
  catch (const std::bad_alloc&) {
    mem::armed = false;
    if (mem::n_faults == f0) { mem::countdown = 0; fail("spurious-bad-alloc", "out-of-memory exception without an injected failure"); }
    ok = false;
  } catch (const Stop&) { mem::armed = false; mem::countdown = 0; throw; }
  catch (const std::exception& e) {
    mem::armed = false; mem::countdown = 0;
    fail("unexpected-exception", "exception %s", e.what());
  }
  mem::armed = false;
  mem::countdown = 0;
  if (mem::n_faults != f0) count("fault:alloc_failed", mem::n_faults - f0);
  else if (fault > 0) count("probe_alloc_failure_armed_beyond_end");
  if (ok && mem::n_faults != f0) {
    count("probe_alloc_failure_absorbed");
  }
  if (mem::corrupt[0]) fail("heap-corruption", "%s", mem::corrupt);
  return ok;
}

// ================================================================ driver
static Shm* g_shm;
static Workload* g_wl;
static std::string g_prop;
static bool g_verbose = false;
static long g_cpu_limit = 60;

struct Outcome {
  int status;  // 1 ok 2 violation 3 harness error
  std::string vclass, vmsg;
  uint64_t hash, sig;
  int op, nontrivial;
  uint64_t simtime;
  std::map<std::string, uint64_t> ctr;
  std::vector<uint32_t> sched;
};

void (*sched_start)(const Plan&, Ctx&) = nullptr;
void (*sched_stop)() = nullptr;
// the same history with every parallel part run in order, in a process of its own
static bool sequential_world(const Plan& plan, Ctx& ctx) {
  struct Rec { size_t n; int ok; };
  const size_t cap = 1u << 20;
  char* mm = (char*)mmap(nullptr, sizeof(Rec) + cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Rec* rec = (Rec*)mm;
  ctx.obs_buf = (double*)(mm + sizeof(Rec)); ctx.obs_cap = cap;
  Shm* own = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    Ctx c = ctx; c.shm = own; c.obs_mode = 1; c.verbose = false;
    try { g_wl->execute(plan, c, g_prop); rec->n = c.obs_n; rec->ok = 1; } catch (...) {}
    _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) || !rec->ok) {
    if (g_wl->sequential_judged(g_prop)) {
      g_shm->cur_op = own->cur_op;
      if (own->vclass[0]) { strcpy(g_shm->vclass, own->vclass); snprintf(g_shm->vmsg, sizeof g_shm->vmsg, "without threads: %s", own->vmsg); }
      else { strcpy(g_shm->vclass, "sequential-crash"); snprintf(g_shm->vmsg, sizeof g_shm->vmsg, "without threads the history ends with %s %d at operation %d", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), own->cur_op); }
      g_shm->status = 2; g_shm->hash = 2;
      _exit(0);
    }
    return false;
  }
  ctx.obs_n = rec->n; ctx.obs_mode = 2;
  return true;
}
static void child_body(const Plan& plan) {
  struct rlimit rl { (rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit + 5 };
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit rc { 0, 0 };
  setrlimit(RLIMIT_CORE, &rc);
  Ctx ctx;
  ctx.shm = g_shm;
  ctx.verbose = g_verbose;
  ctx.prop = g_prop.c_str();
  std::cout.rdbuf(&diagbuf);
  mem::enable();
  bool cleanup = false;
  try {
    if (g_wl->paired(plan, g_prop)) {
      if (!sequential_world(plan, ctx)) { ctx.count("sequential_world_failed"); g_shm->status = 1; g_shm->hash = 1; _exit(0); }
      if (sched_start) sched_start(plan, ctx);
    }
    g_wl->execute(plan, ctx, g_prop);
    if (ctx.obs_mode) { if (sched_stop) sched_stop(); ctx.count("answers_compared", ctx.obs_i); }
    if (!mem::check_all()) ctx.fail("heap-corruption", "%s", mem::corrupt);
    cleanup = g_wl->clean_exit(plan);
    g_shm->status = 1;
  } catch (const Stop&) {
  } catch (const std::exception& e) {
    mem::armed = false;
    g_shm->status = 3;
    snprintf(g_shm->vmsg, sizeof g_shm->vmsg, "harness exception: %s", e.what());
  }
  g_shm->hash = ctx.hash;
  g_shm->sig = ctx.sig;
  if (cleanup && g_shm->status == 1) {
    // run static destructors; anything wrong is reported by the last handler
    g_shm->cur_op = 1000000;
    static Ctx lc; lc = ctx;
    exit(0);
  }
  _exit(0);
}
// runs after all static destructors of the library (registered before they are constructed)
static void last_rites() {
  if (g_shm && g_shm->cur_op == 1000000) {
    mem::check_all();
    if (mem::corrupt[0]) {
      strcpy(g_shm->vclass, "teardown-corruption");
      snprintf(g_shm->vmsg, sizeof g_shm->vmsg, "at shutdown: %s", mem::corrupt);
      g_shm->status = 2;
    }
  }
}

static Outcome run_plan(const Plan& plan) {
  memset((void*)g_shm, 0, offsetof(Shm, sched));
  g_shm->nsched = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) child_body(plan);
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  o.status = g_shm->status;
  o.vclass = g_shm->vclass;
  o.vmsg = g_shm->vmsg;
  o.hash = g_shm->hash; o.sig = g_shm->sig; o.op = g_shm->cur_op; o.simtime = g_shm->simtime; o.nontrivial = g_shm->nontrivial;
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    o.status = 2;
    o.vclass = (s == SIGXCPU || s == SIGKILL) ? "hang" : std::string("crash-") + (s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "SIG" + std::to_string(s));
    o.vmsg = "the process died by signal " + std::to_string(s) + (o.op == 1000000 ? " during shutdown" : " at step " + std::to_string(o.op));
    o.hash = mix64(s * 1000003ULL + o.op);
  } else if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && o.status != 2) {
    o.status = 2; o.vclass = "exit"; o.vmsg = "the process exited with code " + std::to_string(WEXITSTATUS(st)); o.hash = 17;
  } else if (o.status == 0) { o.status = 3; o.vmsg = "run ended without status"; }
  for (int i = 0; i < g_shm->nctr; i++) o.ctr[g_shm->ctr[i].name] = g_shm->ctr[i].v;
  o.sched.assign(g_shm->sched, g_shm->sched + g_shm->nsched);
  return o;
}

static std::string plan_text(const Plan& p) {
  std::ostringstream o;
  for (auto& kv : p.cfg) o << "cfg " << kv.first << " " << kv.second << "\n";
  for (auto& op : p.ops) {
    o << "op " << op.kind << " " << op.client << " " << op.a << " " << op.b << " " << op.c << " " << op.d << " " << op.r << " " << op.fault << " " << op.uid;
    std::string d = g_wl->describe(op);
    if (!d.empty()) o << "  # client " << op.client << ": " << d << (op.fault ? " [fault: allocation " + std::to_string(op.fault) + " fails]" : "");
    o << "\n";
  }
  if (p.sched_given) {
    o << "sched " << p.sched.size();
    for (auto x : p.sched) o << " " << x;
    o << "\n";
  }
  o << "schedseed " << p.sched_seed << "\n";
  return o.str();
}
static bool plan_parse(std::istream& in, Plan& p, std::map<std::string, std::string>& meta) {
  std::string line;
  while (std::getline(in, line)) {
    auto hp = line.find("  #");
    if (hp != std::string::npos) line = line.substr(0, hp);
    std::istringstream is(line);
    std::string w; is >> w;
    if (w == "cfg") { std::string k; long v; is >> k >> v; p.cfg[k] = v; }
    else if (w == "op") { Op o; is >> o.kind >> o.client >> o.a >> o.b >> o.c >> o.d >> o.r >> o.fault; if (!(is >> o.uid)) o.uid = 0; p.ops.push_back(o); }
    else if (w == "sched") { size_t n; is >> n; p.sched.resize(n); for (auto& x : p.sched) is >> x; p.sched_given = true; }
    else if (w == "schedseed") { is >> p.sched_seed; }
    else if (!w.empty() && w[0] != '#') { std::string rest; std::getline(is, rest); meta[w] = rest.empty() ? "" : rest.substr(1); }
  }
  return true;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ddmin-style reduction of operations, then faults, arguments and schedule decisions
static Plan minimise(Plan p, const std::string& vclass, int& execs, double budget_s) {
  double t0 = now();
  auto still = [&](const Plan& q) { execs++; return run_plan(q).vclass == vclass; };
  auto time_left = [&] { return now() - t0 < budget_s; };
  size_t chunk = p.ops.size() / 2;
  if (chunk < 1) chunk = 1;
  while (time_left()) {
    bool any = false;
    for (size_t i = 0; i < p.ops.size() && time_left();) {
      Plan q = p;
      size_t e = std::min(p.ops.size(), i + chunk);
      q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
      if (still(q)) { p = q; any = true; } else i += chunk;
    }
    if (chunk == 1 && !any) break;
    if (chunk > 1) chunk /= 2;
  }
  for (size_t i = 0; i < p.ops.size() && time_left(); i++) if (p.ops[i].fault) { Plan q = p; q.ops[i].fault = 0; if (still(q)) p = q; }
  for (auto kv : std::map<std::string, long>(p.cfg)) if (kv.second != 0 && time_left()) { Plan q = p; q.cfg[kv.first] = 0; if (still(q)) p = q; }
  for (size_t i = 0; i < p.ops.size() && time_left(); i++) {
    for (int f = 0; f < 6 && time_left(); f++) {
      Plan q = p; Op& o = q.ops[i];
      if (f == 0) { if (!o.client) continue; o.client = 0; }
      if (f == 1) { if (!o.a) continue; o.a = 0; }
      if (f == 2) { if (!o.b) continue; o.b = 0; }
      if (f == 3) { if (!o.c) continue; o.c = 0; }
      if (f == 4) { if (!o.d) continue; o.d = 0; }
      if (f == 5) { if (!o.r) continue; o.r = 0; }
      if (still(q)) p = q;
    }
  }
  return p;
}
// drop pre-emptions from an explicit schedule
static Plan minimise_sched(Plan p, const std::string& vclass, int& execs, double budget_s) {
  double t0 = now();
  size_t ch = p.sched.size() / 3 / 2; if (ch < 1) ch = 1;
  while (now() - t0 < budget_s && !p.sched.empty()) {
    bool any = false;
    for (size_t i = 0; i < p.sched.size() / 3 && now() - t0 < budget_s;) {
      Plan q = p;
      q.sched.erase(q.sched.begin() + i * 3, q.sched.begin() + std::min(p.sched.size(), (i + ch) * 3));
      execs++;
      if (run_plan(q).vclass == vclass) { p = q; any = true; } else i += ch;
    }
    if (ch == 1 && !any) break;
    if (ch > 1) ch /= 2;
  }
  return p;
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}

// one simulated thread runs at a time: all of them on one processor makes handing over cheap (no influence on the schedule)
static void pin_cpu(long k) {
  if (!sched_start || k < 0) return;
  cpu_set_t all, one;
  if (sched_getaffinity(0, sizeof all, &all)) return;
  std::vector<int> c;
  for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) c.push_back(i);
  if (c.empty()) return;
  CPU_ZERO(&one); CPU_SET(c[(size_t)k % c.size()], &one);
  sched_setaffinity(0, sizeof one, &one);
}
int driver_main(int argc, char** argv, Workload& wl, const char* wlname) {
  g_wl = &wl;
  // address-space layout is one more source of nondeterminism: switch its randomisation off
  if (!getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
  auto num = [&](const char* k, long d) { return a.count(k) ? atol(a[k].c_str()) : d; };
  g_shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_prop = a["prop"];
  g_verbose = num("verbose", 0);
  g_cpu_limit = num("cpu-limit", 60);
  if (a.count("replay")) {
    std::ifstream in(a["replay"]);
    Plan p; std::map<std::string, std::string> meta;
    plan_parse(in, p, meta);
    g_prop = meta["property"];
    Outcome o = run_plan(p);
    printf("{\"status\": %d, \"class\": %s, \"msg\": %s, \"hash\": \"%016llx\", \"expect_class\": %s, \"expect_hash\": %s}\n", o.status, jstr(o.vclass).c_str(), jstr(o.vmsg).c_str(), (unsigned long long)o.hash, jstr(meta["class"]).c_str(), jstr(meta["hash"]).c_str());
    return 0;
  }
  pin_cpu(num("cpu", -1));
  uint64_t seed = num("seed", 1);
  long first = num("first", 0), stride = num("stride", 1), count = num("count", 100);
  double maxs = num("max-seconds", 100);
  bool thorough = num("thorough", 0);
  long detcheck = num("detcheck", 64);
  double t0 = now();
  std::map<std::string, uint64_t> total;
  std::set<uint64_t> sigs;
  uint64_t runs = 0, nontriv = 0, simtime = 0, detruns = 0, unstable = 0; std::string unstable_msg;
  std::string samples = "";
  int nsamples = 0;
  FILE* hashes = a.count("hashes") ? fopen(a["hashes"].c_str(), "w") : nullptr;
  for (long i = first; i < first + count * stride; i += stride) {
    if (now() - t0 > maxs) break;
    uint64_t rs = mix64(mix64(seed) ^ mix64(0x5eedULL + (uint64_t)i) ^ mix64(std::hash<std::string>()(g_prop + wlname)));
    Rng rng(rs);
    Plan p = wl.generate(rng, g_prop, thorough);
    p.sched_seed = rng.next();
    for (size_t k = 0; k < p.ops.size(); k++) p.ops[k].uid = (uint32_t)k + 1;
    if (a.count("show")) { fputs(plan_text(p).c_str(), stderr); }
    Outcome o = run_plan(p);
    runs++;
    if (hashes) fprintf(hashes, "%ld %016llx %d\n", i, (unsigned long long)o.hash, o.status);
    if (o.status == 3) {
      printf("{\"error\": %s, \"run\": %ld}\n", jstr(o.vmsg).c_str(), i);
      return 0;
    }
    for (auto& kv : o.ctr) {
      if (kv.first.compare(0, 4, "max:") == 0) { auto& t = total[kv.first]; if (t < kv.second) t = kv.second; }
      else total[kv.first] += kv.second;
    }
    simtime += o.simtime;
    if (o.nontrivial) { if (sigs.insert(o.sig).second) nontriv++; }
    bool dc = detcheck && (i / stride) % detcheck == 0;
    if (o.status == 2 || dc) {
      Outcome o2 = run_plan(p);
      detruns++;
      // broken code may itself be unstable (wild reads); a violation both times is a violation
      bool both = o.status == 2 && o2.status == 2;
      if (!both && (o.status == 2 || o2.status == 2)) {
        int fails = 1;
        for (int k = 0; k < 6; k++) { Outcome ok = run_plan(p); if (ok.status == 2) { fails++; o = ok; } }
        if (fails >= 4) both = true;
        else { if (o.vclass == "hang" || o2.vclass == "hang") total["unstable_hangs_set_aside"]++; else { unstable++; unstable_msg = o.vclass + " " + o.vmsg; } continue; }
      }
      if (!both && (o2.hash != o.hash || o2.status != o.status || o2.vclass != o.vclass)) {
        printf("{\"error\": %s, \"run\": %ld}\n", jstr("nondeterministic run: " + o.vclass + " " + o.vmsg + " vs " + o2.vclass + " " + o2.vmsg).c_str(), i);
        return 0;
      }
    }
    if (o.status == 1 && o.nontrivial && nsamples < 1) {
      nsamples++;
      samples = plan_text(p);
    }
    if (o.status == 2) {
      Plan m = p;
      int execs = 0;
      Outcome om;
      double budget = (double)num("min-seconds", 60);
      if (!num("no-minimise", 0)) m = minimise(m, o.vclass, execs, budget * 0.6);
      om = run_plan(m);
      if (!om.sched.empty()) {  // freeze the schedule actually taken, then reduce it
        Plan f = m; f.sched = om.sched; f.sched_given = true;
        if (run_plan(f).vclass == om.vclass) m = num("no-minimise", 0) ? f : minimise_sched(f, om.vclass, execs, budget * 0.4);
      }
      om = run_plan(m);
      for (int k = 0; k < 5 && om.status != 2; k++) om = run_plan(m);
      if (om.status != 2) { unstable++; unstable_msg = o.vclass + " " + o.vmsg; continue; }
      std::string path = a.count("replay-out") ? a["replay-out"] : "/tmp/replay.txt";
      std::ofstream f(path);
      f << "# minimised replay: " << o.vmsg << "\nworkload " << wlname << "\nproperty " << g_prop << "\nseed " << seed << "\nrun " << i << "\nconfig " << a["config"] << "\n";
      char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)om.hash);
      f << "class " << om.vclass << "\nhash " << hb << "\nmessage " << om.vmsg << "\noriginal_ops " << p.ops.size() << "\nminimised_ops " << m.ops.size() << "\n" << plan_text(m);
      f.close();
      printf("{\"violation\": %s, \"msg\": %s, \"run\": %ld, \"replay\": %s, \"ops\": %zu, \"min_ops\": %zu, \"min_execs\": %d, \"orig_msg\": %s, \"runs\": %llu}\n", jstr(om.vclass).c_str(), jstr(om.vmsg).c_str(), i, jstr(path).c_str(), p.ops.size(), m.ops.size(), execs, jstr(o.vmsg).c_str(), (unsigned long long)runs);
      return 0;
    }
  }
  if (hashes) fclose(hashes);
  if (unstable) {  // failures that do not repeat: no verdict
    printf("{\"error\": %s}\n", jstr(std::to_string(unstable) + " unstable runs: " + unstable_msg).c_str());
    return 0;
  }
  std::ostringstream o;
  o << "{\"runs\": " << runs << ", \"nontrivial\": " << nontriv << ", \"simtime\": " << simtime << ", \"detruns\": " << detruns << ", \"wall\": " << (now() - t0) << ", \"sample\": " << jstr(samples) << ", \"ctr\": {";
  bool f = true;
  for (auto& kv : total) { if (!f) o << ", "; f = false; o << jstr(kv.first) << ": " << kv.second; }
  o << "}, \"sigs\": [";
  f = true;
  for (auto s : sigs) { if (!f) o << ","; f = false; char b[24]; snprintf(b, 24, "\"%llx\"", (unsigned long long)(s >> 16)); o << b; }
  o << "]}\n";
  fputs(o.str().c_str(), stdout);
  return 0;
}

namespace { struct Early { Early() { atexit(last_rites); } }; }
__attribute__((init_priority(101))) static Early early_;
}  // namespace sim
