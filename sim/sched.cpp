#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace sim { namespace sched {
namespace {
enum State { IDLE, RUNNABLE, BLOCKED, DONE };
struct Region;
struct Task {
  int id = 0; uint64_t prio = 0; volatile int fut = 0; State st = RUNNABLE; const void* on = nullptr;
  pthread_t th{}; bool pool = false; Region* reg = nullptr;     // pool worker: the region to work on
  void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool detached = false, joined = false;
};
struct Region { size_t n, next = 0; size_t* order; void (*f)(void*, size_t); void* ctx; int helpers = 0; };

bool g_on = false;
Ctx* g_ctx = nullptr;
std::vector<Task*>* T = nullptr;      // all tasks, by id
__thread Task* self = nullptr;
Task* cur = nullptr;
int runnable = 0;
Rng g_rng(0);
uint64_t step = 0, next_switch = 0;   // step counts schedule points passed while several tasks could run
long gap = 8; uint64_t switches = 0, regions = 0, forced = 0, max_switches = 20000, threads = 0, blocks = 0;
long pconc = 100;
bool by_priority = false; double p_fall = 0; uint64_t lowest = 1ULL << 40;   // policy: random priorities, now and then the running task falls to the bottom
const Plan* g_plan = nullptr;
size_t rp = 0, rend = 0;              // replay position and end of the current operation's decisions
int last_op = -2; uint32_t uid = 0;   // operation the current schedule belongs to
uint64_t total = 0, op_regions = 0;
const uint64_t step_budget = 60000000;
int quiet = 0;                        // >0: no schedule points (inside the scheduler)

long futex(volatile int* a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }
void wake(Task* t) { __atomic_store_n(&t->fut, 1, __ATOMIC_RELEASE); futex(&t->fut, FUTEX_WAKE_PRIVATE, 1); }
void park(Task* t) { while (!__atomic_load_n(&t->fut, __ATOMIC_ACQUIRE)) futex(&t->fut, FUTEX_WAIT_PRIVATE, 0); t->fut = 0; }
[[noreturn]] void verdict(const char* cls, const char* msg) {
  mem::armed = false;
  Shm* m = g_ctx->shm;
  strcpy(m->vclass, cls);
  snprintf(m->vmsg, sizeof m->vmsg, "%s | operation: %s", msg, g_ctx->desc.c_str());
  m->status = 2; m->hash = mix64(step);
  _exit(0);
}
void draw() {
  if (g_plan->sched_given) {
    const auto& s = g_plan->sched;
    while (rp < rend && s[rp + 1] <= step) rp += 3;
    next_switch = rp < rend ? s[rp + 1] : ~0ULL;
  } else if (switches > max_switches) next_switch = ~0ULL;
  else next_switch = step + 1 + g_rng.below(2 * gap);
}
// every operation has a schedule of its own, so that removing an operation leaves the others' schedules alone
void begin_op() {
  last_op = g_ctx->shm->cur_op;
  uid = last_op >= 0 && (size_t)last_op < g_plan->ops.size() ? g_plan->ops[last_op].uid : 0;
  total += step;
  step = 0; op_regions = 0;
  g_rng = Rng(g_plan->sched_seed ^ mix64(uid));
  const auto& s = g_plan->sched;
  rp = 0;
  while (rp + 2 < s.size() && s[rp] != uid) rp += 3;
  rend = rp;
  while (rend + 2 < s.size() && s[rend] == uid) rend += 3;
  lowest = 1ULL << 40;
  self->prio = lowest + g_rng.below(1 << 20);
  draw();
}
inline void sync_op() { if (g_ctx->shm->cur_op != last_op) begin_op(); }
inline void advance() { sync_op(); step++; if (total + step > step_budget) verdict("livelock", "no progress: the step budget is used up"); }
void record(uint32_t choice) {
  Shm* m = g_ctx->shm;
  if (m->nsched + 3 <= (sizeof m->sched / sizeof m->sched[0])) { m->sched[m->nsched++] = uid; m->sched[m->nsched++] = (uint32_t)step; m->sched[m->nsched++] = choice; }
  g_ctx->sig = mix64(g_ctx->sig ^ (((uint64_t)uid << 40) + step * 64 + choice));
}
void hand(Task* t) {  // baton to t; returns when it comes back (never for finished tasks)
  Task* me = self;
  if (t == me) return;
  cur = t;
  wake(t);
  if (me->st != DONE) park(me);
}
Task* choose() {  // among the other tasks that can run; recorded
  Task* c[256]; uint32_t n = 0;
  for (Task* t : *T) if (t->st == RUNNABLE && t != self && n < 256) c[n++] = t;
  if (!n) return nullptr;
  uint32_t k = 0;
  if (g_plan->sched_given) {
    const auto& s = g_plan->sched;
    while (rp < rend && s[rp + 1] < step) rp += 3;
    if (rp < rend && s[rp + 1] == step) { k = s[rp + 2] % n; rp += 3; }
  } else if (by_priority) { for (uint32_t i = 1; i < n; i++) if (c[i]->prio > c[k]->prio) k = i; }
  else k = (uint32_t)g_rng.below(n);
  record(k);
  return c[k];
}
[[noreturn]] void deadlock() { verdict("deadlock", "no thread can run: every live thread waits"); }
// the running task cannot continue: somebody else must
void give_up() {
  advance(); forced++;
  Task* t = choose();
  if (!t) { if (self->st == RUNNABLE) return; deadlock(); }
  draw();
  hand(t);
}
void point() {  // a schedule point passed while other tasks could run
  advance();
  if (step < next_switch) return;
  if (by_priority && !g_plan->sched_given) {
    if (g_rng.chance(p_fall)) self->prio = --lowest;
    bool above = false;
    for (Task* t : *T) if (t->st == RUNNABLE && t->prio > self->prio) above = true;
    if (!above) { draw(); return; }
  }
  Task* t = choose();
  if (t) switches++;
  draw();
  if (t) hand(t);
}
void set_state(Task* t, State s) { if (t->st == RUNNABLE) runnable--; t->st = s; if (s == RUNNABLE) runnable++; }
void block_on(const void* p) { blocks++; self->on = p; set_state(self, BLOCKED); give_up(); }
void wake_all(const void* p) { for (Task* t : *T) if (t->st == BLOCKED && t->on == p) { t->on = nullptr; set_state(t, RUNNABLE); } }
void work(Region* r) {
  while (r->next < r->n) {
    size_t i = r->order[r->next++];
    r->f(r->ctx, i);
    if (runnable > 1) point();
  }
}
int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
template <typename F> void sym(F& f, const char* n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); }
void* pool_main(void* p) {
  Task* t = (Task*)p;
  self = t;
  for (;;) {
    park(t);
    if (!t->reg) return nullptr;
    Region* r = t->reg;
    [&]() noexcept { work(r); }();
    r->helpers--;
    t->reg = nullptr;
    wake_all(r);
    set_state(t, IDLE);
    // hand over without waiting here: the loop parks
    advance(); forced++;
    Task* n = choose();
    if (!n) deadlock();
    draw();
    cur = n; wake(n);
  }
}
Task* helper() {
  for (Task* t : *T) if (t->pool && t->st == IDLE) return t;
  mem::Disarm d;
  Task* t = new Task; t->id = (int)T->size(); t->pool = true; t->st = IDLE;
  T->push_back(t);
  sym(real_create, "pthread_create");
  if (real_create(&t->th, nullptr, pool_main, t)) abort();
  threads++;
  return t;
}
pthread_key_t g_key;
void* thread_main(void* p) {
  Task* t = (Task*)p;
  self = t;
  park(t);
  pthread_setspecific(g_key, t);
  t->ret = t->fn(t->arg);
  return nullptr;
}
void thread_end(void* p) {  // after the destructors of thread-local objects
  Task* t = (Task*)p;
  set_state(t, DONE);
  wake_all(t);
  advance(); forced++;
  Task* n = choose();
  if (!n) deadlock();
  draw();
  cur = n; wake(n);
}
}  // namespace

bool on() { return g_on; }
bool parallel() { return g_on; }
void start(const Plan& plan, Ctx& ctx) {
  g_ctx = &ctx; g_plan = &plan;
  T = new std::vector<Task*>();
  T->reserve(8192);
  pthread_key_create(&g_key, thread_end);
  Task* m = new Task; T->push_back(m); self = m; cur = m; runnable = 1;
  Rng g(plan.sched_seed);
  static const long gaps[] = {2, 4, 8, 16, 40, 120, 500, 3000};
  gap = gaps[g.below(8)];
  pconc = g.chance(0.7) ? 100 : 30;
  by_priority = g.chance(0.4);
  static const double rates[] = {0, 20000, 5000, 500};
  double q = rates[g.below(4)];
  p_fall = q > 0 ? gap / q : 0;
  begin_op();
  g_on = true;
}
void stop() {
  if (!g_on) return;
  g_on = false;
  for (Task* t : *T) if (t->pool && t->st == IDLE) { t->reg = nullptr; wake(t); pthread_join(t->th, nullptr); }
  total += step;
  g_ctx->count("sched_points", total);
  g_ctx->count("fault:preemption", switches);
  g_ctx->count("sched_forced_switches", forced);
  g_ctx->count("parallel_regions", regions);
  g_ctx->count("simulated_threads", threads);
  g_ctx->count("blocking_waits", blocks);
  g_ctx->tick(total);
  g_ctx->h(total);
}
void par_for(size_t n, void (*f)(void*, size_t), void* ctx) {
  if (!g_on || n <= 1) { [&]() noexcept { for (size_t i = 0; i < n; i++) f(ctx, i); }(); return; }
  Region r;
  std::vector<size_t>* ord; int k;
  {
    mem::Disarm d;
    sync_op();
    regions++; op_regions++;
    Rng g(g_plan->sched_seed ^ mix64(uid * 977 + op_regions));
    ord = new std::vector<size_t>(n);
    for (size_t i = 0; i < n; i++) (*ord)[i] = i;
    int how = g.below(4);
    if (how == 1) for (size_t i = n; i > 1; i--) std::swap((*ord)[i - 1], (*ord)[g.below(i)]);
    else if (how == 2) for (size_t i = 0; i < n / 2; i++) std::swap((*ord)[i], (*ord)[n - 1 - i]);
    else if (how == 3) { size_t c = 2 + g.below(3), w = 0; std::vector<size_t> o; for (size_t q = 0; q < c; q++) for (size_t i = q; i < n; i += c) o.push_back(i); *ord = o; (void)w; }
    k = (long)g.below(100) < pconc && switches <= max_switches ? 1 + (int)g.below(n < 4 ? n - 1 : 3) : 0;
    if (T->size() > 40) k = 0;
    r.n = n; r.order = ord->data(); r.f = f; r.ctx = ctx;
    for (int i = 0; i < k; i++) { Task* t = helper(); t->reg = &r; t->prio = (1ULL << 40) + g.below(1 << 20); r.helpers++; set_state(t, RUNNABLE); }
    if (k) draw();
  }
  [&]() noexcept { work(&r); }();
  while (r.helpers > 0) block_on(&r);
  mem::Disarm d;
  delete ord;
}
}}  // namespace sim::sched

using namespace sim::sched;
#define PT() do { if (__builtin_expect(runnable > 1, 0) && g_on) point(); } while (0)
static inline bool mine() { return g_on && self; }

// ---------------------------------------------------------------- instrumentation callbacks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define A1(n) void __tsan_read##n(void*) { PT(); } void __tsan_write##n(void*) { PT(); } void __tsan_unaligned_read##n(void*) { PT(); } void __tsan_unaligned_write##n(void*) { PT(); } \
  void __tsan_volatile_read##n(void*) { PT(); } void __tsan_volatile_write##n(void*) { PT(); } void __tsan_unaligned_volatile_read##n(void*) { PT(); } void __tsan_unaligned_volatile_write##n(void*) { PT(); } \
  void __tsan_read_write##n(void*) { PT(); } void __tsan_unaligned_read_write##n(void*) { PT(); }
A1(1) A1(2) A1(4) A1(8) A1(16)
void __tsan_read_range(void*, size_t) { PT(); }
void __tsan_write_range(void*, size_t) { PT(); }
void __tsan_vptr_update(void**, void*) { PT(); }
void __tsan_vptr_read(void**) { PT(); }
#define AT(n, t) \
  t __tsan_atomic##n##_load(const volatile t* a, int) { PT(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile t* a, t v, int) { PT(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_exchange(volatile t* a, t v, int) { PT(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_add(volatile t* a, t v, int) { PT(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_sub(volatile t* a, t v, int) { PT(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_and(volatile t* a, t v, int) { PT(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_or(volatile t* a, t v, int) { PT(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_xor(volatile t* a, t v, int) { PT(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_nand(volatile t* a, t v, int) { PT(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##n##_compare_exchange_strong(volatile t* a, t* e, t v, int, int) { PT(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##n##_compare_exchange_weak(volatile t* a, t* e, t v, int, int) { PT(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { PT(); }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- static-initialisation guards
int __cxa_guard_acquire(char* g) {
  if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
  while (g[1]) { if (!mine()) abort(); block_on(g); if (g[0]) return 0; }
  g[1] = 1;
  return 1;
}
void __cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; if (mine()) { wake_all(g); PT(); } }
void __cxa_guard_abort(char* g) { g[1] = 0; if (mine()) wake_all(g); }

// ---------------------------------------------------------------- threads and locks
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  sym(real_create, "pthread_create");
  if (!mine()) return real_create(th, at, fn, arg);
  sim::mem::Disarm d;
  if (T->size() > 5000) return EAGAIN;
  Task* t = new Task; t->id = (int)T->size(); t->fn = fn; t->arg = arg;
  t->st = BLOCKED; set_state(t, RUNNABLE);
  sync_op();
  t->prio = (1ULL << 40) + g_rng.below(1 << 20);
  T->push_back(t);
  threads++;
  int r = real_create(&t->th, at, thread_main, t);
  if (r) { T->pop_back(); runnable--; return r; }
  *th = t->th;
  draw();
  PT();
  return 0;
}
static Task* of(pthread_t th) { for (size_t i = T->size(); i-- > 0;) { Task* t = (*T)[i]; if (!t->pool && i && !t->joined && pthread_equal(t->th, th)) return t; } return nullptr; }
int pthread_join(pthread_t th, void** ret) {
  static int (*real)(pthread_t, void**);
  sym(real, "pthread_join");
  if (!mine()) return real(th, ret);
  Task* t = of(th);
  if (!t) return real(th, ret);
  while (t->st != DONE) block_on(t);
  if (ret) *ret = t->ret;
  t->joined = true;
  return real(th, nullptr);
}
int pthread_detach(pthread_t th) {
  static int (*real)(pthread_t);
  sym(real, "pthread_detach");
  if (mine()) if (Task* t = of(th)) t->joined = t->detached = true;
  return real(th);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*);
  sym(real, "pthread_mutex_trylock");
  if (mine()) PT();
  return real(m);
}
static int (*real_try)(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*);
  sym(real, "pthread_mutex_lock"); sym(real_try, "pthread_mutex_trylock");
  if (!mine()) return real(m);
  PT();
  for (;;) { int r = real_try(m); if (r != EBUSY) return r; block_on(m); }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*);
  sym(real, "pthread_mutex_unlock");
  int r = real(m);
  if (mine()) { wake_all(m); PT(); }
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static int (*real)(pthread_cond_t*, pthread_mutex_t*);
  if (!mine()) { sym(real, "pthread_cond_wait"); return real(c, m); }
  pthread_mutex_unlock(m);
  block_on(c);
  return pthread_mutex_lock(m);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { if (!mine()) return EINVAL; pthread_mutex_unlock(m); give_up(); pthread_mutex_lock(m); return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { if (!mine()) return EINVAL; pthread_mutex_unlock(m); give_up(); pthread_mutex_lock(m); return 0; }
int pthread_cond_signal(pthread_cond_t* c) {
  static int (*real)(pthread_cond_t*);
  if (!mine()) { sym(real, "pthread_cond_signal"); return real(c); }
  wake_all(c);  // spurious wake-ups are legal
  PT();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static int (*real)(pthread_cond_t*);
  if (!mine()) { sym(real, "pthread_cond_broadcast"); return real(c); }
  wake_all(c);
  PT();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  static int (*real)(pthread_once_t*, void (*)());
  sym(real, "pthread_once");
  if (!mine()) return real(o, f);
  while (*o == 1) block_on(o);
  if (*o == 2) return 0;
  *o = 1; f(); *o = 2; wake_all(o);
  return 0;
}
int sched_yield() { if (mine() && runnable > 1) give_up(); return 0; }
int nanosleep(const struct timespec* t, struct timespec* r) {
  static int (*real)(const struct timespec*, struct timespec*);
  if (mine()) { if (runnable > 1) give_up(); return 0; }
  sym(real, "nanosleep");
  return real(t, r);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* t, struct timespec* r) {
  static int (*real)(clockid_t, int, const struct timespec*, struct timespec*);
  if (mine()) { if (runnable > 1) give_up(); return 0; }
  sym(real, "clock_nanosleep");
  return real(c, f, t, r);
}
}  // extern "C"
namespace { struct Reg { Reg(); } reg_; }
namespace sim { extern void (*sched_start)(const Plan&, Ctx&); extern void (*sched_stop)(); }
Reg::Reg() { sim::sched_start = sim::sched::start; sim::sched_stop = sim::sched::stop; }
