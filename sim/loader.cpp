// Data-loading workload: the loader of the GaussNewton example (real code, real iostreams) on a simulated file system.
// Opening, reading and the contents of the two files are decided by the plan: reads are split anywhere and interrupted,
// files are torn at any byte or grow while they are read, opening and reading fail.
#include "CoolDiff.hpp"
#include "simcore.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>
using namespace sim;
using MT = Matrix<Type>;
Pair<Matrix<Type>*, Matrix<Type>*> LoadData();
#if defined(USE_COMPLEX_MATH)
static double un(const Type& t) { return t.real(); }
#else
static double un(const Type& t) { return (double)t; }
#endif

// ------------------------------------------------------------------ simulated files
namespace {
struct File { std::string full; size_t len_first = 0, len_later = 0; int grow_at = 0; int opens = 0; };
File files[2];
struct Open { int fd = -1; int nth = 0; };
int fault_from = 0;   // faults of open and read are counted from this opening of a file on
Open opened[64]; int nopened = 0;
int seg_mode = 0, eintr_pct = 0; long fail_open = 0, fail_read = 0; int fail_errno = EIO;
long n_open = 0, n_read = 0, n_read_counted = 0, n_short = 0, n_eintr = 0, n_fail_open = 0, n_fail_read = 0;
Rng* io = nullptr;
bool active = false;
int which(const char* p) { return !strcmp(p, "/sim/in.txt") ? 0 : !strcmp(p, "/sim/out.txt") ? 1 : -1; }
FILE* sim_fopen(const char* p) {
  mem::Disarm d;
  int f = which(p);
  if (f < 0) { errno = ENOENT; return nullptr; }
  File& F = files[f];
  size_t len = F.opens++ < F.grow_at ? F.len_first : F.len_later;
  if (F.opens > fault_from) n_open++;
  if (F.opens > fault_from && fail_open && n_open == fail_open) { n_fail_open++; errno = EMFILE; return nullptr; }
  int fd = (int)syscall(SYS_memfd_create, "sim", 0);
  if (fd < 0) return nullptr;
  const char* c = F.full.data(); size_t left = len;
  while (left) { ssize_t k = syscall(SYS_write, fd, c, left); if (k <= 0) _exit(9); c += k; left -= k; }
  syscall(SYS_lseek, fd, 0, SEEK_SET);
  if (nopened < 64) { opened[nopened].fd = fd; opened[nopened].nth = F.opens; nopened++; }
  return fdopen(fd, "r");
}
Open* ours(int fd) { for (int i = 0; i < nopened; i++) if (opened[i].fd == fd) return &opened[i]; return nullptr; }
}
extern "C" FILE* fopen(const char* p, const char* m) {
  static FILE* (*real)(const char*, const char*);
  if (active && !strncmp(p, "/sim/", 5)) return sim_fopen(p);
  if (!real) real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
  return real(p, m);
}
extern "C" FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
extern "C" int close(int fd) { for (int i = 0; i < nopened; i++) if (opened[i].fd == fd) { opened[i] = opened[--nopened]; break; } return (int)syscall(SYS_close, fd); }
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (!active || !ours(fd)) return syscall(SYS_read, fd, b, n);
  bool may_fail = ours(fd)->nth > fault_from;
  n_read++;
  if (fail_read && may_fail && ++n_read_counted == fail_read) { n_fail_read++; errno = fail_errno; return -1; }
  if ((int)io->below(100) < eintr_pct) { n_eintr++; errno = EINTR; return -1; }
  size_t k = n;
  if (seg_mode == 1) k = 1;
  else if (seg_mode == 2) k = 1 + io->below(7);
  else if (seg_mode == 3) k = 1 + io->below(64);
  else if (seg_mode == 4) k = io->chance(0.5) ? n : 1 + io->below(1000);
  if (k < n) n_short++; else k = n;
  return syscall(SYS_read, fd, b, k);
}
extern "C" ssize_t readv(int fd, const struct iovec* v, int n) {
  if (!active || !ours(fd) || n < 1) return syscall(SYS_readv, fd, v, n);
  return read(fd, v[0].iov_base, v[0].iov_len);
}

// ------------------------------------------------------------------ workload
enum { O_LOAD, O_N };
static std::string describe_op(const Op& o) {
  static const char* k[] = {"well-formed files", "a torn file", "files that change meanwhile", "a failing open", "a failing read", "a missing file"};
  char b[160]; snprintf(b, sizeof b, "load %s%s", k[o.a % 6], o.fault ? " with allocation failure" : ""); return b;
}
struct Sheet { size_t r, c; std::vector<double> v; std::string text; std::vector<size_t> line_end; };
static Sheet sheet(Rng& g, size_t r, size_t c, bool last_newline, int fmt) {
  Sheet s; s.r = r; s.c = c;
  static const char* seps[] = {"\t", " ", "  ", " \t "};
  const char* sep = seps[fmt % 4];
  for (size_t i = 0; i < r; i++) {
    if (fmt / 4 % 3 == 1 && i % 2) s.text += "  ";
    for (size_t j = 0; j < c; j++) {
      char b[64]; double x = (double)g.range(-99999, 99999) / (g.chance(0.3) ? 7.0 : 1000.0);
      if (g.chance(0.1)) x = (double)g.range(-5, 5);
      if (g.chance(0.05)) x *= 1e-30;
      static const char* nf[] = {"%g", "%.17g", "%.4f", "%e"};
      snprintf(b, sizeof b, nf[(fmt / 16 + (g.chance(0.1) ? g.below(4) : 0)) % 4], x);
      s.v.push_back(strtod(b, nullptr));
      if (j) s.text += sep;
      s.text += b;
    }
    if (fmt / 4 % 3 == 2) s.text += " ";
    s.line_end.push_back(s.text.size());
    if (i + 1 < r || last_newline) s.text += fmt / 64 % 8 == 7 ? "\r\n" : "\n";
  }
  return s;
}
struct World {
  const Plan& plan; Ctx& ctx; std::string prop; int checks = 0, failed = 0;
  bool finding;   // replays of listed findings may use files that generated histories leave out (known-findings.txt)
  World(const Plan& p, Ctx& c, const std::string& pr) : plan(p), ctx(c), prop(pr), finding(p.get("finding")) {}
  void exact(MT* m, const Sheet& s, size_t rows, const char* what) {
    if (!m) ctx.fail("wrong-data", "the loader returned no %s matrix", what);
    for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < s.c; j++) {
      double x = un((*m)(i, j)); checks++; ctx.h(x);
      if (x != s.v[i * s.c + j]) ctx.fail("wrong-data", "%s data, row %zu column %zu is %.17g, the file says %.17g", what, i, j, x, s.v[i * s.c + j]);
    }
  }
  void step(const Op& op) {
    Rng g(op.r);
    int kind = op.a % 6;
    size_t r = 1 + g.below(op.b % 4 == 3 ? 300 : op.b % 4 == 0 ? 3 : 12), c = 1 + g.below(4);
    Sheet s[2];
    for (int f = 0; f < 2; f++) { bool nl = g.chance(0.6); int fmt = (int)g.below(512); s[f] = sheet(g, r, c, nl || !finding, fmt); }
    for (int f = 0; f < 2; f++) { files[f] = File(); files[f].full = s[f].text; files[f].len_first = files[f].len_later = s[f].text.size(); }
    seg_mode = (int)g.below(5); eintr_pct = g.chance(0.5) ? 0 : (int)g.below(60);
    fail_open = fail_read = 0; n_open = n_read = n_read_counted = n_short = n_eintr = n_fail_open = n_fail_read = 0; nopened = 0;
    size_t known[2] = {r, r};   // complete lines of each file, as far as the loader can have seen them
    bool torn = false;
    fault_from = finding ? 0 : 2;
    if (kind == 1 || kind == 2) for (int f = 0; f < 2; f++) if (g.chance(0.6)) {
      torn = true;
      size_t n = s[f].text.size(), cut = g.chance(0.3) ? (size_t)g.below(std::min<size_t>(n, 12) + 1) : g.chance(0.4) ? s[f].line_end[g.below(r)] + g.below(2) : g.below(n + 1);
      cut = std::min(cut, n);
      files[f].len_first = cut;
      // the loader counts newlines first and trusts the count: only histories in which no line follows the last counted newline
      if (!finding && kind == 1) while (cut && s[f].text[cut - 1] != '\n') cut--;
      files[f].len_first = cut;
      if (kind == 1) files[f].len_later = cut;
      else { files[f].grow_at = 1 + (int)g.below(3); if (!finding) std::swap(files[f].len_first, files[f].len_later); }
      known[f] = 0; while (known[f] < r && s[f].line_end[known[f]] < cut) known[f]++;
      ctx.count(kind == 1 ? "fault:torn_file" : finding ? "fault:file_grows_while_read" : "fault:file_shrinks_while_read");
    }
    if (kind == 3) { fail_open = 1 + g.below(finding ? 6 : 2); torn = true; }
    if (kind == 4) { fail_read = 1 + g.below(g.chance(0.5) ? 6 : 60); fail_errno = g.chance(0.5) ? EIO : ENOMEM; torn = true; }
    if (kind == 5) { int f = g.below(2); files[f].len_first = files[f].len_later = 0; if (g.chance(0.5)) { f = 1 - f; files[f].len_first = files[f].len_later = 0; } torn = true; ctx.count("fault:empty_file"); }
    Rng ior(op.r ^ 77); io = &ior;
    Pair<MT*, MT*> p{nullptr, nullptr};
    bool threw = false;
    uint64_t diag0 = n_diag, faults0 = mem::n_faults;
    if (ctx.verbose) ctx.note("   %zux%zu, file sizes %zu and %zu, first opened with %zu and %zu bytes, segmentation %d, %d%% interrupts", r, c, s[0].text.size(), s[1].text.size(), files[0].len_first, files[1].len_first, seg_mode, eintr_pct);
    active = true;
    bool ok = ctx.api([&] { try { p = LoadData(); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { threw = true; } }, op.fault);
    active = false;
    for (int i = 0; i < nopened; i++) { /* handles left open by an exception */ }
    ctx.count("loads"); ctx.count("reads", n_read); ctx.tick(n_read);
    ctx.count("fault:short_read", n_short); ctx.count("fault:interrupted_read", n_eintr); ctx.count("fault:open_failed", n_fail_open); ctx.count("fault:read_failed", n_fail_read);
    if (!mem::check_all()) ctx.fail("write-outside-matrix", "%s", mem::corrupt);
    checks++;
    if (!ok) { failed++; return; }
    if (threw) { ctx.count("loads_refused"); if (!torn) ctx.fail("wrong-data", "loading well-formed files ended with an exception"); return; }
    if (mem::n_faults != faults0) { failed++; return; }   // the streams of the C++ library swallow failed allocations: only memory safety is judged
    MT* m[2] = {p.first, p.second};
    if (!torn) {
      for (int f = 0; f < 2; f++) {
        if (!m[f] || m[f]->getNumRows() != r || m[f]->getNumColumns() != c) ctx.fail("wrong-shape", "a file of %zu rows and %zu columns was loaded as %zux%zu (last line %s newline)", r, c, m[f] ? m[f]->getNumRows() : 0, m[f] ? m[f]->getNumColumns() : 0, s[f].text.back() == '\n' ? "with" : "without");
        exact(m[f], s[f], r, f ? "output" : "input");
      }
      if (n_diag != diag0) ctx.fail("wrong-data", "well-formed files were complained about");
    } else if (kind == 1) for (int f = 0; f < 2; f++) if (m[f] && m[f]->getNumColumns() == c) exact(m[f], s[f], std::min(known[f], m[f]->getNumRows()), f ? "output" : "input");
  }
  void run() {
    for (size_t k = 0; k < plan.ops.size(); k++) {
      const Op& op = plan.ops[k];
      ctx.shm->cur_op = (int)k;
      ctx.desc = describe_op(op);
      if (ctx.verbose) ctx.note("%zu: %s", k, ctx.desc.c_str());
      ctx.s(mix64(op.r) + op.a);
      step(op);
    }
    if (*mem::corrupt) ctx.fail("memory-corruption", "%s", mem::corrupt);
    ctx.count("checks", checks);
    ctx.count("failed_operations", failed);
    ctx.shm->nontrivial = checks >= 3;
  }
};
struct Wl : Workload {
  Plan generate(Rng& g, const std::string&, bool thorough) override {
    Plan p;
    int n = 1 + g.below(thorough ? 20 : 8);
    for (int i = 0; i < n; i++) {
      Op o; o.kind = O_LOAD; o.a = g.chance(0.45) ? 0 : 1 + (long)g.below(5); o.b = g.below(16); o.r = g.next() >> 16;
      if (g.chance(0.1)) o.fault = 1 + (long)g.below(40);
      p.ops.push_back(o);
    }
    return p;
  }
  void execute(const Plan& plan, Ctx& ctx, const std::string& prop) override { World* w = new World(plan, ctx, prop); w->run(); }
  std::string describe(const Op& op) override { return describe_op(op); }
};
int main(int argc, char** argv) { Wl w; return driver_main(argc, argv, w, "loader"); }
