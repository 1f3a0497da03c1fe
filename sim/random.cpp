// Random-fill workload.  The generator is seeded before main() from the entropy source, so one simulated world is one
// fresh process image whose entropy and clocks are decided by the plan: std::random_device, getrandom, getentropy and the
// clocks are replaced.  A run plays the same history of fills in three worlds: (e1, t1), (e1, t2) and (e2, t1).
#include "CoolDiff.hpp"
#include "simcore.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <random>
#include <sys/wait.h>
#include <dlfcn.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace sim;
namespace RD = CoolDiff::TensorR2::Details;
using MT = Matrix<Type>;

// ------------------------------------------------------------------ simulated entropy and clocks
namespace {
uint64_t ent_n = 0;
uint64_t env_num(const char* k, uint64_t d) { const char* s = getenv(k); return s ? strtoull(s, nullptr, 10) : d; }
bool in_world() { static int w = -1; if (w < 0) w = getenv("SIM_ENT_KIND") ? 1 : 0; return w == 1; }
uint32_t sim_entropy() {
  uint64_t e = env_num("SIM_ENT", 1), kind = env_num("SIM_ENT_KIND", 0);
  uint64_t n = ent_n++;
  if (kind == 1) return (uint32_t)e;                       // a source stuck at one value
  if (kind == 2) return (uint32_t)((e & 255) + (n & 3));   // a source with a few bits
  return (uint32_t)(mix64(e * 1000003 + n) >> 16);
}
}
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init(const char*, size_t) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return sim_entropy(); }
random_device::result_type random_device::_M_getval_pretr1() { return sim_entropy(); }
double random_device::_M_getentropy() const noexcept { return env_num("SIM_ENT_KIND", 0) ? 0 : 32; }
}
extern "C" ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = (unsigned char)sim_entropy(); return (ssize_t)n; }
extern "C" int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
extern "C" time_t time(time_t* p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }

// ------------------------------------------------------------------ distributions
enum { D_UNI, D_UNI_L, D_NORM, D_NORM_L, D_EXP, D_LOGN, D_BERN, D_BERN_L, D_INT, D_POIS, D_N };
static const char* dname[] = {"uniform", "uniform(lvalues)", "normal", "normal(lvalues)", "exponential", "lognormal", "bernoulli", "bernoulli(lvalue)", "uniform int", "poisson"};
static bool discrete(int k) { return k >= D_BERN; }
static const int R0[] = {1, 1, 2, 3, 5, 8, 17, 32, 64, 1, 100};
static const int C0[] = {1, 3, 2, 1, 7, 8, 13, 32, 64, 257, 10};
struct Fill { int kind; double a, b; size_t r, c; int ext; };
static Fill decode(const Op& o) {
  Fill f; f.kind = (int)(o.kind % D_N); size_t s = o.c % 11; f.r = R0[s]; f.c = C0[s]; f.ext = o.d & 1;
  static const double A[] = {-1, 0, 2.5, -40, 0.125}, W[] = {1, 0.25, 3, 100, 1e-3};
  static const double P[] = {0.5, 0.2, 0.8, 0.05, 0.95}, L[] = {1, 0.1, 7, 30, 2};
  switch (f.kind) {
    case D_UNI: case D_UNI_L: f.a = A[o.a % 5]; f.b = f.a + W[o.b % 5]; break;
    case D_NORM: case D_NORM_L: f.a = A[o.a % 5]; f.b = W[o.b % 5]; break;
    case D_EXP: f.a = L[o.a % 5]; f.b = 0; break;
    case D_LOGN: f.a = A[o.a % 3]; f.b = W[o.b % 3]; break;
    case D_BERN: case D_BERN_L: f.a = P[o.a % 5]; f.b = 0; break;
    case D_INT: f.a = -(double)(o.a % 5); f.b = (double)(o.b % 5) + 1; break;
    case D_POIS: f.a = L[o.a % 3] + 0.5; f.b = 0; break;
  }
  return f;
}
static std::string describe_op(const Op& o) { Fill f = decode(o); char b[160]; snprintf(b, sizeof b, "fill %zux%zu with %s(%g, %g)", f.r, f.c, dname[f.kind], f.a, f.b); return b; }
static const double SENT = 1.2345e300;
static void fill(MT& M, const Fill& f) {
  double a = f.a, b = f.b;
  switch (f.kind) {
    case D_UNI: RD::FillRandomValues<UniformDistribution>(M, f.a + 0.0, f.b + 0.0); break;
    case D_UNI_L: RD::FillRandomValues<UniformDistribution>(M, a, b); break;
    case D_NORM: RD::FillRandomValues<NormalDistribution>(M, f.a + 0.0, f.b + 0.0); break;
    case D_NORM_L: RD::FillRandomValues<NormalDistribution>(M, a, b); break;
    case D_EXP: RD::FillRandomValues<std::exponential_distribution>(M, a); break;
    case D_LOGN: RD::FillRandomValues<std::lognormal_distribution>(M, a, b); break;
    case D_BERN: RD::FillRandomValues<BernoulliDistribution>(M, f.a + 0.0); break;
    case D_BERN_L: RD::FillRandomValues<BernoulliDistribution>(M, a); break;
    case D_INT: RD::FillRandomValues<std::uniform_int_distribution<int>>(M, (int)f.a, (int)f.b); break;
    case D_POIS: RD::FillRandomValues<std::poisson_distribution<int>>(M, a); break;
  }
}

// ------------------------------------------------------------------ one world (its own process image)
static bool put(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = ::write(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static bool get(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = ::read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static int inner(int in, int out) {
  size_t n = 0;
  if (!get(in, &n, sizeof n) || n > 10000) return 3;
  std::vector<Op> ops(n);
  if (n && !get(in, ops.data(), n * sizeof(Op))) return 3;
  for (const Op& o : ops) {
    Fill f = decode(o);
    size_t e = f.r * f.c;
    std::vector<Type> buf(e + 16, (Type)SENT);
    MT* m = f.ext ? new MT(f.r, f.c, buf.data() + 8) : new MT(f.r, f.c, (Type)SENT);
    fill(*m, f);
    uint64_t hd[3] = {m->getNumRows(), m->getNumColumns(), 0};
    if (f.ext) for (int i = 0; i < 8; i++) if (buf[i] != (Type)SENT || buf[e + 8 + i] != (Type)SENT) hd[2] = 1;
    if (!put(out, hd, sizeof hd) || !put(out, m->getMatrixPtr(), e * sizeof(Type))) return 3;
    delete m;
  }
  return 0;
}
typedef std::vector<std::vector<double>> Vals;
static int world(const std::vector<Op>& ops, uint64_t kind, uint64_t ent, uint64_t clk, Vals& v, std::string& err) {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) { err = "pipe"; return 3; }
  pid_t p = fork();
  if (p == 0) {
    char s[32];
    snprintf(s, sizeof s, "%llu", (unsigned long long)kind); setenv("SIM_ENT_KIND", s, 1);
    snprintf(s, sizeof s, "%llu", (unsigned long long)ent); setenv("SIM_ENT", s, 1);
    snprintf(s, sizeof s, "%llu", (unsigned long long)clk); setenv("SIM_CLOCK", s, 1);
    dup2(a[0], 60); dup2(b[1], 61);
    close(a[0]); close(a[1]); close(b[0]); close(b[1]);
    alarm(60);
    execl("/proc/self/exe", "world", "--inner", (char*)nullptr);
    _exit(3);
  }
  close(a[0]); close(b[1]);
  size_t n = ops.size();
  bool ok = put(a[1], &n, sizeof n) && put(a[1], ops.data(), n * sizeof(Op));
  close(a[1]);
  v.clear();
  std::string bad;
  for (size_t i = 0; ok && i < n; i++) {
    Fill f = decode(ops[i]);
    uint64_t hd[3];
    std::vector<double> x(f.r * f.c);
    ok = get(b[0], hd, sizeof hd) && get(b[0], x.data(), x.size() * sizeof(double));
    if (!ok) break;
    if (bad.empty() && (hd[0] != f.r || hd[1] != f.c)) bad = "a fill changed the shape of its matrix";
    if (bad.empty() && hd[2]) bad = "a fill wrote outside its matrix";
    v.push_back(x);
  }
  close(b[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (!ok || st != 0) { err = "the process making the fills died"; return WIFEXITED(st) && WEXITSTATUS(st) == 3 ? 3 : 2; }
  if (!bad.empty()) { err = bad; return 1; }
  return 0;
}

// ------------------------------------------------------------------ statistics (false-alarm probability below 1e-9 per test)
static double Phi(double z) { return 0.5 * erfc(-z / sqrt(2.0)); }
static double cdf(const Fill& f, double x) {
  switch (f.kind) {
    case D_UNI: case D_UNI_L: return std::min(1.0, std::max(0.0, (x - f.a) / (f.b - f.a)));
    case D_NORM: case D_NORM_L: return Phi((x - f.a) / f.b);
    case D_EXP: return x <= 0 ? 0 : 1 - exp(-f.a * x);
    case D_LOGN: return x <= 0 ? 0 : Phi((log(x) - f.a) / f.b);
  }
  return 0;
}
static double pmf(const Fill& f, int k) {
  switch (f.kind) {
    case D_BERN: case D_BERN_L: return k == 1 ? f.a : k == 0 ? 1 - f.a : 0;
    case D_INT: return k >= f.a && k <= f.b ? 1.0 / (f.b - f.a + 1) : 0;
    case D_POIS: return k < 0 ? 0 : exp(k * log(f.a) - f.a - lgamma(k + 1.0));
  }
  return 0;
}
static double corr(const std::vector<double>& x, size_t ox, const std::vector<double>& y, size_t oy, size_t n) {
  double mx = 0, my = 0, sx = 0, sy = 0, sxy = 0;
  for (size_t i = 0; i < n; i++) { mx += x[ox + i]; my += y[oy + i]; }
  mx /= n; my /= n;
  for (size_t i = 0; i < n; i++) { double a = x[ox + i] - mx, b = y[oy + i] - my; sx += a * a; sy += b * b; sxy += a * b; }
  return sx > 0 && sy > 0 ? sxy / sqrt(sx * sy) : 0;
}

struct Wl : Workload {
  Plan generate(Rng& g, const std::string&, bool thorough) override {
    Plan p;
    p.cfg["ekind"] = g.chance(0.6) ? 0 : 1 + g.below(2);
    p.cfg["e1"] = g.chance(0.1) ? 0 : 1 + g.below(1u << 30); p.cfg["de"] = 1 + g.below(200); p.cfg["clk"] = g.below(1u << 30);
    int n = 4 + g.below(thorough ? 60 : 24), nk = 1 + g.below(4);
    std::vector<int> kinds; for (int i = 0; i < nk; i++) kinds.push_back(g.below(D_N));
    bool big = g.chance(0.5);
    for (int i = 0; i < n; i++) {
      Op o; o.kind = g.pick(kinds); o.a = g.chance(0.5) ? g.below(2) : g.below(5); o.b = g.chance(0.5) ? g.below(2) : g.below(5);
      o.c = big && g.chance(0.5) ? 6 + g.below(5) : g.below(11); o.d = g.below(2);
      o.client = g.below(3);
      p.ops.push_back(o);
    }
    return p;
  }
  std::string describe(const Op& o) override { return describe_op(o); }
  void execute(const Plan& plan, Ctx& ctx, const std::string&) override {
    uint64_t kind = plan.get("ekind"), e1 = plan.get("e1"), e2 = e1 + 1 + plan.get("de") % 250, clk = plan.get("clk");
    if (kind == 2) { e1 = (e1 & 31) * 4; e2 = e1 + 4 + 4 * (plan.get("de") % 30); }   // few bits, but different ones
    ctx.count(kind == 0 ? "entropy_full" : kind == 1 ? "fault:entropy_source_stuck" : "fault:entropy_source_few_bits");
    ctx.count("fault:clock_jump");
    size_t K = plan.ops.size();
    Vals v1, v1b, v2;
    struct { uint64_t e, t; Vals* v; const char* n; } W[3] = {{e1, clk, &v1, "first"}, {e1, clk + 86400 * 365, &v1b, "second"}, {e2, clk, &v2, "third"}};
    for (auto& w : W) {
      std::string err;
      int rc = world(plan.ops, kind, w.e, w.t, *w.v, err);
      ctx.tick(K);
      ctx.count("worlds");
      if (rc == 3) { fprintf(stderr, "harness: %s\n", err.c_str()); _exit(9); }
      if (rc == 2) ctx.fail("crash", "%s", err.c_str());
      if (rc == 1) ctx.fail("wrong-fill", "%s", err.c_str());
    }
    int checks = 0;
    for (size_t i = 0; i < K; i++) {
      ctx.shm->cur_op = (int)i;
      ctx.desc = describe_op(plan.ops[i]);
      if (ctx.verbose) ctx.note("%zu: %s -> %.6g ...", i, ctx.desc.c_str(), v1[i][0]);
      const Op& o = plan.ops[i];
      ctx.s(o.kind * 1000 + o.a % 5 * 100 + o.b % 5 * 20 + o.c % 11);
      Fill f = decode(o);
      for (double x : v1[i]) ctx.h(x);
      for (size_t k = 0; k < v1[i].size(); k++) {
        double x = v1[i][k];
        checks++;
        if (x == SENT) ctx.fail("unfilled", "%s left element %zu of %zu as it was", ctx.desc.c_str(), k, v1[i].size());
        if (!(x == x) || std::isinf(x)) ctx.fail("out-of-range", "%s produced %g", ctx.desc.c_str(), x);
        bool in = true;
        switch (f.kind) {
          case D_UNI: case D_UNI_L: in = x >= f.a && x <= f.b; break;
          case D_NORM: case D_NORM_L: in = fabs(x - f.a) < 12 * f.b; break;
          case D_EXP: in = x >= 0 && x * f.a < 80; break;
          case D_LOGN: in = x > 0; break;
          default: in = x == floor(x) && pmf(f, (int)x) > 1e-30;
        }
        if (!in) ctx.fail("out-of-range", "%s produced %.9g", ctx.desc.c_str(), x);
      }
      if (v1[i] != v1b[i]) ctx.fail("not-reproducible", "%s gives other numbers when only the clock differs", ctx.desc.c_str());
    }
    size_t cont = 0; bool differ = false;
    for (size_t i = 0; i < K; i++) if (!discrete(decode(plan.ops[i]).kind)) { cont += v1[i].size(); differ |= v1[i] != v2[i]; }
    if (cont >= 4 && !differ) ctx.fail("entropy-ignored", "all %zu continuous numbers are the same for two different entropies", cont);
    ctx.count("entropy_pairs_compared", cont >= 4);
    // distribution of each call: pool the fills made with the same arguments
    std::map<std::string, std::vector<size_t>> groups;
    for (size_t i = 0; i < K; i++) { Fill f = decode(plan.ops[i]); char b[96]; snprintf(b, sizeof b, "%s(%g,%g)", dname[f.kind], f.a, f.b); groups[b].push_back(i); }
    for (auto& kv : groups) {
      Fill f = decode(plan.ops[kv.second[0]]);
      std::vector<double> all;
      for (size_t i : kv.second) all.insert(all.end(), v1[i].begin(), v1[i].end());
      size_t n = all.size();
      std::vector<double> s = all;
      std::sort(s.begin(), s.end());
      if (!discrete(f.kind)) {
        for (size_t k = 1; k < n; k++) if (s[k] == s[k - 1]) ctx.fail("not-independent", "fills with %s drew %.17g twice", kv.first.c_str(), s[k]);
        if (n >= 30) {
          double D = 0;
          for (size_t k = 0; k < n; k++) { double c = cdf(f, s[k]); D = std::max(D, std::max(fabs(c - (double)k / n), fabs(c - (double)(k + 1) / n))); }
          checks++; ctx.count("ks_tests");
          if (D * sqrt((double)n) > 3.5) ctx.fail("wrong-distribution", "%zu elements filled with %s deviate from it (KS statistic %.2f)", n, kv.first.c_str(), D * sqrt((double)n));
        }
      } else if (n >= 60) {
        double chi = 0, ex = 0, ob = 0; int df = -1; size_t at = 0; double cum = 0;
        for (int k = -20; k < 400; k++) {
          double e = pmf(f, k) * n; ex += e; cum += e;
          while (at < n && s[at] <= k) { ob++; at++; }
          bool last = cum >= n - 8 || k == 399;
          if (last) { ex += n - cum; ob += n - at; at = n; }
          if (ex >= 8 || last) { if (ex > 1) { chi += (ob - ex) * (ob - ex) / ex; df++; } ex = ob = 0; }
          if (last) break;
        }
        if (df >= 1) {
          double z = (cbrt(chi / df) - (1 - 2.0 / (9 * df))) / sqrt(2.0 / (9 * df));
          checks++; ctx.count("chi2_tests");
          if (z > 8) ctx.fail("wrong-distribution", "%zu elements filled with %s deviate from it (chi-square %.1f at %d degrees)", n, kv.first.c_str(), chi, df);
        }
      }
    }
    // independence inside a fill and between fills of the same kind
    for (size_t i = 0; i < K; i++) {
      Fill f = decode(plan.ops[i]);
      size_t n = v1[i].size();
      std::vector<double> u = v1[i];
      if (!discrete(f.kind)) for (double& x : u) x = cdf(f, x);
      for (size_t lag : {(size_t)1, (size_t)2, (size_t)3, f.c, 2 * f.c}) if (n > 200 + lag) {
        double z = corr(u, 0, u, lag, n - lag) * sqrt((double)(n - lag));
        checks++; ctx.count("lag_tests");
        if (fabs(z) > 8) ctx.fail("not-independent", "%s: elements at distance %zu are correlated (z=%.1f)", describe_op(plan.ops[i]).c_str(), lag, z);
      }
      for (size_t j = 0; j < i; j++) {
        Fill g = decode(plan.ops[j]);
        size_t m = std::min(n, v1[j].size());
        if (g.kind / 2 != f.kind / 2 || discrete(f.kind) != discrete(g.kind) || m < 200) continue;
        std::vector<double> w = v1[j];
        if (!discrete(g.kind)) for (double& x : w) x = cdf(g, x);
        double z = corr(u, 0, w, 0, m) * sqrt((double)m);
        checks++; ctx.count("cross_fill_tests");
        if (fabs(z) > 8) ctx.fail("not-independent", "%s and %s are correlated (z=%.1f)", describe_op(plan.ops[j]).c_str(), describe_op(plan.ops[i]).c_str(), z);
      }
    }
    ctx.count("checks", checks);
    ctx.shm->nontrivial = checks >= 20;
  }
};
extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
  static int (*real)(clockid_t, struct timespec*) = nullptr;
  if (in_world()) { static long n = 0; t->tv_sec = (time_t)env_num("SIM_CLOCK", 1) + 1600000000; t->tv_nsec = ++n; return 0; }
  if (!real) real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
  return real(c, t);
}
int main(int argc, char** argv) {
  if (argc > 1 && !strcmp(argv[1], "--inner")) return inner(60, 61);
  Wl w;
  return driver_main(argc, argv, w, "random");
}
