// Container workload: numeric matrices as values.  Every matrix object has a plain-data model; after every operation
// (also after one that failed for lack of memory) every live object is compared with its model, element by element.
#include "CoolDiff.hpp"
#include "simcore.hpp"
#include <complex>
#include <memory>
#include <vector>
using namespace sim;
namespace T2 = CoolDiff::TensorR2;
using MT = Matrix<Type>;
using MV = Matrix<Variable>;
using ME = Matrix<Expression>;
using C = std::complex<double>;
#if defined(USE_COMPLEX_MATH)
static Type mk(C z) { return Type(z.real(), z.imag()); }
static C un(const Type& t) { return C(t.real(), t.imag()); }
#else
static Type mk(C z) { return (Type)z.real(); }
static C un(const Type& t) { return C(t, 0); }
#endif

struct Mod { size_t r = 0, c = 0; std::vector<C> v; C& at(size_t i, size_t j) { return v[i * c + j]; } };
struct Slot {
  MT* m = nullptr; Mod mod; bool moved = false;   // moved-from: only assignment and destruction are judged
  std::vector<Type> buf;                          // storage of the caller (matrix on caller memory)
  bool external = false;
};
struct Res { MT* p = nullptr; Mod mod; int own = -1; };  // result pointers handed to getBlockMat / pad

enum { O_NEW, O_COPYNEW, O_MOVENEW, O_ASSIGN, O_MOVEASSIGN, O_SWAP, O_DESTROY, O_WRITE, O_ROWCOL, O_GETBLK, O_SETBLK, O_PAD, O_RESHAPE, O_COPYDATA, O_VEC, O_RESULT, O_BYVALUE, O_FROMLIB, O_CYCLE, O_RANDOM, O_N };
static const char* opname[] = {"construct", "copy-construct", "move-construct", "copy-assign", "move-assign", "swap", "destroy", "write elements", "extract row/column", "getBlockMat", "setBlockMat", "pad", "reshape", "copyData", "vector of matrices", "point result at a matrix", "assign from a function result", "copy a library result", "repeat and watch memory", "fill with random values"};
static std::string describe_op(const Op& op) { char b[160]; snprintf(b, sizeof b, "%s #%ld, #%ld", opname[op.kind % O_N], op.a, op.b); return b; }

struct World {
  const Plan& plan; Ctx& ctx; std::string prop;
  std::vector<Slot> sl; std::vector<Res> res;
  std::vector<MT>* vec = nullptr; std::vector<Mod> vmod;
  MT* la = nullptr; MT* lb = nullptr; Mod ma, mb; ME* e = nullptr; MV* x = nullptr; ME* ex = nullptr; Mod mx;
  long cur_fault = 0; int checks = 0, failed = 0;
  World(const Plan& p, Ctx& c, const std::string& pr) : plan(p), ctx(c), prop(pr) {}
  bool call(const std::function<void()>& f) {
    long ft = cur_fault; cur_fault = 0;
    bool ok = ctx.api(f, ft > 0 ? ft : 0);
    if (!ok) failed++;
    return ok;
  }
  static C rnd(Rng& g) {
    double a = (double)g.range(-400, 400) / 16.0, b = (double)g.range(-400, 400) / 16.0;
    return un(mk(C(a, b)));
  }
  bool big = false;
  size_t dim(Rng& g) { static const size_t d[] = {1, 1, 2, 2, 3, 4, 5, 7}, l[] = {1, 2, 8, 9, 16, 17, 33, 64}; return big ? l[g.below(8)] : d[g.below(8)]; }
  void cmp(const MT& m, const Mod& d, const char* what, int i) {
    if (prop == "C17") return;
    checks++;
    if (ctx.obs_mode) {
      size_t r = (size_t)ctx.obs(m.getNumRows()), c = (size_t)ctx.obs(m.getNumColumns());
      if (r != m.getNumRows() || c != m.getNumColumns()) ctx.fail("schedule-changes-shape", "%s %d is %zux%zu, sequentially %zux%zu", what, i, m.getNumRows(), m.getNumColumns(), r, c);
      for (size_t k = 0; k < r * c; k++) { C x = un(m.getMatrixPtr()[k]), w(ctx.obs(x.real()), ctx.obs(x.imag())); if (x != w) ctx.fail("schedule-changes-result", "%s %d (%zux%zu) entry %zu is (%.9g,%.9g), sequentially (%.9g,%.9g)", what, i, r, c, k, x.real(), x.imag(), w.real(), w.imag()); }
      return;
    }
    if (m.getNumRows() != d.r || m.getNumColumns() != d.c) ctx.fail("wrong-shape", "%s %d is %zux%zu, its history gives %zux%zu", what, i, m.getNumRows(), m.getNumColumns(), d.r, d.c);
    if (m.getNumElem() != d.v.size()) ctx.fail("wrong-shape", "%s %d has %zu elements, its history gives %zu", what, i, m.getNumElem(), d.v.size());
    const Type* p = m.getMatrixPtr();
    if (!p && d.v.size()) ctx.fail("wrong-contents", "%s %d has no storage", what, i);
    for (size_t k = 0; k < d.v.size(); k++) if (un(p[k]) != d.v[k])
      ctx.fail("wrong-contents", "%s %d (%zux%zu) entry %zu is (%.9g,%.9g), its history gives (%.9g,%.9g)", what, i, d.r, d.c, k, un(p[k]).real(), un(p[k]).imag(), d.v[k].real(), d.v[k].imag());
    for (size_t k = 0; k < d.r; k++) for (size_t j = 0; j < d.c; j++) if (un(m(k, j)) != d.v[k * d.c + j]) ctx.fail("wrong-contents", "%s %d: m(%zu,%zu) differs from storage order", what, i, k, j);
  }
  void all(const char*) {
    for (size_t i = 0; i < sl.size(); i++) if (sl[i].m && !sl[i].moved) cmp(*sl[i].m, sl[i].mod, "matrix", i);
    for (size_t i = 0; i < res.size(); i++) if (res[i].p && res[i].own < 0) cmp(*res[i].p, res[i].mod, "extracted matrix", i);
    if (vec) {
      if (vec->size() != vmod.size()) if (prop != "C17") ctx.fail("wrong-shape", "vector of matrices lost an element");
      for (size_t i = 0; i < vmod.size(); i++) cmp((*vec)[i], vmod[i], "vector element", i);
    }
  }
  static Mod snap(const MT& m) { Mod d; d.r = m.getNumRows(); d.c = m.getNumColumns(); for (size_t k = 0; k < d.r * d.c; k++) d.v.push_back(un(m.getMatrixPtr()[k])); return d; }
  void fill(MT& m, Mod& d, Rng& g) { for (size_t k = 0; k < d.v.size(); k++) { C v = rnd(g); m.getMatrixPtr()[k] = mk(v); d.v[k] = v; } }
  void drop(Slot& s) {
    if (!s.m) return;
    for (Res& r : res) if (r.own == (int)(&s - &sl[0])) { r.p = nullptr; r.own = -1; }
    MT* m = s.m; s.m = nullptr; s.moved = false;
    call([&] { delete m; });
    s.external = false;
  }
  Slot* live(long i) { Slot& s = sl[i % sl.size()]; return s.m && !s.moved ? &s : nullptr; }
  void step(const Op& op);
  void cycle(const Op& op);
  void run();
};

static MT make(size_t r, size_t c, Type v, int how) {
  if (how == 0) return MT(r, c, v);
  MT m(r, c);
  for (size_t i = 0; i < m.getNumElem(); i++) m[i] = v;
  if (how == 1) return m;
  MT n(m);
  return std::move(n);
}

void World::step(const Op& op) {
  Rng g(op.r);
  Slot& S = sl[op.a % sl.size()]; Slot& T = sl[op.b % sl.size()];
  bool fresh = S.m == nullptr;
  switch (op.kind) {
    case O_NEW: {
      drop(S);
      cur_fault = op.fault;
      Mod d; d.r = dim(g); d.c = dim(g); d.v.assign(d.r * d.c, C(0, 0));
      int how = g.below(4); C v = rnd(g);
      MT* m = nullptr;
      if (how == 0) call([&] { m = new MT(d.r, d.c); });
      else if (how == 1) { call([&] { m = new MT(d.r, d.c, mk(v)); }); for (C& q : d.v) q = v; }
      else if (how == 2) { S.buf.assign(d.v.size(), Type{}); for (size_t i = 0; i < d.v.size(); i++) { d.v[i] = rnd(g); S.buf[i] = mk(d.v[i]); } Type* b = S.buf.data(); call([&] { m = new MT(d.r, d.c, b); }); }
      else { call([&] { m = new MT(); }); d.r = d.c = 1; d.v.assign(1, C(0, 0)); }
      if (m) { S.m = m; S.mod = d; S.moved = false; S.external = how == 2; if (g.chance(0.7) && how != 2) fill(*m, S.mod, g); }
      break;
    }
    case O_COPYNEW: case O_MOVENEW: {
      if (&S == &T || !live(op.b)) break;
      bool mv = op.kind == O_MOVENEW;
      if (mv && T.external) break;
      drop(S);
      cur_fault = op.fault;
      MT* m = nullptr;
      if (mv) call([&] { m = new MT(std::move(*T.m)); }); else call([&] { m = new MT(*(const MT*)T.m); });
      if (m) { S.m = m; S.mod = T.mod; S.moved = false; S.external = false; if (mv) { T.moved = true; for (Res& r : res) if (r.own == (int)(&T - &sl[0])) { r.p = nullptr; r.own = -1; } } }
      break;
    }
    case O_ASSIGN: {
      if (fresh || !live(op.b)) break;
      bool ok = call([&] { if (op.c & 1) (*S.m = *(const MT*)T.m).getNumRows(); else *S.m = *(const MT*)T.m; });
      if (ok) { S.mod = T.mod; S.moved = false; if (&S != &T) S.external = false; }
      ctx.count(ok ? "op_assign" : "op_assign_failed");
      break;
    }
    case O_MOVEASSIGN: {
      if (fresh || &S == &T || !live(op.b) || T.external || S.external) break;
      if (call([&] { *S.m = std::move(*T.m); })) { S.mod = T.mod; S.moved = false; T.moved = true; for (Res& r : res) if (r.own == (int)(&T - &sl[0])) { r.p = nullptr; r.own = -1; } }
      break;
    }
    case O_SWAP: {
      if (&S == &T || !live(op.a) || !live(op.b) || S.external || T.external) break;
      if (call([&] { std::swap(*S.m, *T.m); })) std::swap(S.mod, T.mod);
      break;
    }
    case O_DESTROY: drop(S); break;
    case O_WRITE: {
      if (!live(op.a)) break;
      for (int k = 0; k < 1 + (int)g.below(6); k++) {
        size_t i = g.below(S.mod.r), j = g.below(S.mod.c); C v = rnd(g); int how = g.below(3);
        call([&] { if (how == 0) (*S.m)(i, j) = mk(v); else if (how == 1) (*S.m)[i * S.mod.c + j] = mk(v); else S.m->getRowPtr(i)[j] = mk(v); });
        S.mod.at(i, j) = v;
      }
      break;
    }
    case O_ROWCOL: {
      if (!live(op.a)) break;
      bool row = op.c & 1, rv = (op.c & 2) && !S.external;
      size_t k = g.below(row ? S.mod.r : S.mod.c);
      MT* m = nullptr;
      bool ok = call([&] {
        if (row) m = rv ? new MT(MT(*S.m).getRow(k)) : new MT(((const MT*)S.m)->getRow(k));
        else m = rv ? new MT(MT(*S.m).getColumn(k)) : new MT(((const MT*)S.m)->getColumn(k));
      });
      if (!ok || !m) break;
      size_t n = row ? S.mod.c : S.mod.r;
      checks++;
      if (prop == "C17") { call([&] { delete m; }); break; }
      if (ctx.obs_mode) { cmp(*m, S.mod, row ? "row" : "column", (int)k); call([&] { delete m; }); break; }
      if (m->getNumElem() != n || (m->getNumRows() != 1 && m->getNumColumns() != 1)) ctx.fail("wrong-extraction", "%s %zu of a %zux%zu matrix has shape %zux%zu", row ? "row" : "column", k, S.mod.r, S.mod.c, m->getNumRows(), m->getNumColumns());
      for (size_t i = 0; i < n; i++) { C w = row ? S.mod.at(k, i) : S.mod.at(i, k); if (un((*m)[i]) != w) ctx.fail("wrong-extraction", "%s %zu of a %zux%zu matrix: entry %zu is (%.9g,%.9g), the matrix has (%.9g,%.9g)", row ? "row" : "column", k, S.mod.r, S.mod.c, i, un((*m)[i]).real(), un((*m)[i]).imag(), w.real(), w.imag()); }
      // the extracted matrix is a value of its own
      for (size_t i = 0; i < n; i++) (*m)[i] = mk(C(99, 1));
      call([&] { delete m; });
      ctx.count("op_rowcol");
      break;
    }
    case O_GETBLK: case O_PAD: {
      if (!live(op.a)) break;
      Res& R = res[op.c % res.size()];
      Mod d; size_t r0 = 0, r1 = 0, c0 = 0, c1 = 0, pr = 0, pc = 0;
      if (op.kind == O_GETBLK) {
        r0 = g.below(S.mod.r); r1 = r0 + g.below(S.mod.r - r0); c0 = g.below(S.mod.c); c1 = c0 + g.below(S.mod.c - c0);
        d.r = r1 - r0 + 1; d.c = c1 - c0 + 1;
        for (size_t i = r0; i <= r1; i++) for (size_t j = c0; j <= c1; j++) d.v.push_back(S.mod.at(i, j));
      } else {
        pr = g.below(3); pc = g.below(3); d.r = S.mod.r + 2 * pr; d.c = S.mod.c + 2 * pc; d.v.assign(d.r * d.c, C(0, 0));
        for (size_t i = 0; i < S.mod.r; i++) for (size_t j = 0; j < S.mod.c; j++) d.at(i + pr, j + pc) = S.mod.at(i, j);
      }
      if (R.own == (int)(&S - &sl[0])) break;  // source and destination the same object: nothing is promised
      MT* old = R.p; Mod oldmod = R.own >= 0 ? sl[R.own].mod : R.mod;
      bool ok = call([&] { if (op.kind == O_GETBLK) ((const MT*)S.m)->getBlockMat({r0, r1}, {c0, c1}, R.p); else ((const MT*)S.m)->pad(pr, pc, R.p); });
      if (!ok) {  // the destination may be half written, nothing else may
        if (R.own >= 0) sl[R.own].mod = snap(*sl[R.own].m);
        if (R.p && R.p != old) R.own = -1;
        if (R.p) R.mod = snap(*R.p);
        break;
      }
      if (!R.p) ctx.fail("wrong-extraction", "%s left the result pointer empty", opname[op.kind]);
      if (R.own >= 0 && R.p == old) { sl[R.own].mod = d; if (sl[R.own].moved) sl[R.own].moved = false; }
      else { R.own = -1; R.mod = d; }
      if (old && R.p != old && oldmod.v.size() != d.v.size() && R.own < 0) cmp(*old, oldmod, "the previously extracted matrix", op.c % res.size());
      cmp(*R.p, d, op.kind == O_GETBLK ? "block" : "padded matrix", op.c % res.size());
      ctx.count(op.kind == O_GETBLK ? "op_getblock" : "op_pad");
      break;
    }
    case O_SETBLK: {
      if (!live(op.a)) break;
      MT* src = nullptr; const Mod* sm = nullptr;
      if (op.d & 1) { Res& R = res[op.c % res.size()]; if (R.p) { src = R.p; sm = R.own >= 0 ? &sl[R.own].mod : &R.mod; } }
      else if (live(op.b)) { src = T.m; sm = &T.mod; }
      if (!src || src == S.m || sm->r > S.mod.r || sm->c > S.mod.c) break;
      size_t r0 = g.below(S.mod.r - sm->r + 1), c0 = g.below(S.mod.c - sm->c + 1);
      bool ok = call([&] { S.m->setBlockMat({r0, r0 + sm->r - 1}, {c0, c0 + sm->c - 1}, src); });
      if (!ok) { S.mod = snap(*S.m); break; }
      for (size_t i = 0; i < sm->r; i++) for (size_t j = 0; j < sm->c; j++) S.mod.at(r0 + i, c0 + j) = sm->v[i * sm->c + j];
      ctx.count("op_setblock");
      break;
    }
    case O_RESHAPE: {
      if (!live(op.a)) break;
      std::vector<size_t> ds; for (size_t k = 1; k <= S.mod.v.size(); k++) if (S.mod.v.size() % k == 0) ds.push_back(k);
      size_t r = ds[g.below(ds.size())];
      if (call([&] { S.m->reshape(r, S.mod.v.size() / r); })) { S.mod.c = S.mod.v.size() / r; S.mod.r = r; }
      break;
    }
    case O_COPYDATA: {
      if (!live(op.a)) break;
      if (live(op.b) && T.mod.v.size() == S.mod.v.size() && !(op.c & 1)) { if (call([&] { S.m->copyData(*(const MT*)T.m); })) S.mod.v = T.mod.v; }
      else {
        std::vector<Type> b; for (size_t i = 0; i < S.mod.v.size(); i++) b.push_back(mk(rnd(g)));
        if (call([&] { S.m->copyData(b.data()); })) for (size_t i = 0; i < b.size(); i++) S.mod.v[i] = un(b[i]);
        std::fill(b.begin(), b.end(), mk(C(77, 7)));
      }
      ctx.count("op_copydata");
      break;
    }
    case O_VEC: {
      int how = g.below(6);
      if (!vec) { call([&] { vec = new std::vector<MT>(); }); if (!vec) break; }
      size_t n = vmod.size();
      if (how <= 1) { if (live(op.b) && n < 8) { if (call([&] { vec->push_back(*(const MT*)T.m); })) vmod.push_back(T.mod); } }
      else if (how == 2 && n < 8) { Mod d; d.r = dim(g); d.c = dim(g); C v = rnd(g); d.v.assign(d.r * d.c, v); int w = g.below(3); if (call([&] { vec->push_back(make(d.r, d.c, mk(v), w)); })) vmod.push_back(d); }
      else if (how == 3 && n) { size_t k = g.below(n); if (call([&] { vec->erase(vec->begin() + k); })) vmod.erase(vmod.begin() + k); }
      else if (how == 4 && n > 1) { size_t a = g.below(n), b = g.below(n); if (a != b && call([&] { std::swap((*vec)[a], (*vec)[b]); })) std::swap(vmod[a], vmod[b]); }
      else if (how == 5 && n && live(op.b)) { size_t a = g.below(n); if (call([&] { (*vec)[a] = *(const MT*)T.m; })) vmod[a] = T.mod; }
      ctx.count("op_vector");
      break;
    }
    case O_RESULT: {  // the caller's own matrix receives the next block
      Res& R = res[op.c % res.size()];
      if (live(op.a)) { R.p = S.m; R.own = (int)(&S - &sl[0]); }
      break;
    }
    case O_BYVALUE: {
      if (fresh || S.external) break;
      Mod d; d.r = dim(g); d.c = dim(g); C v = rnd(g); d.v.assign(d.r * d.c, v); int w = g.below(3);
      if (call([&] { *S.m = make(d.r, d.c, mk(v), w); })) { S.mod = d; S.moved = false; }
      break;
    }
    case O_FROMLIB: {  // a copy of a result of the library stays what it was when the library computes on
      if (fresh) break;
      Mod d;
      for (size_t k = 0; k < ma.v.size(); k++) { ma.v[k] = C((double)g.range(-6, 6), 0); (*la)[k] = mk(ma.v[k]); }
      bool der = op.c & 1;
      bool ok = call([&] { const MT& r = der ? T2::DevalF(*ex, *x) : T2::Eval(*e); *S.m = r; });
      if (!ok) break;
      S.moved = false; S.external = false;
      if (!der) { d.r = 2; d.c = 2; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { C s(0, 0); for (int k = 0; k < 3; k++) s += ma.at(i, k) * mb.at(k, j); d.v.push_back(s); } }
      else { d.r = 4; d.c = 3; d.v.assign(12, C(0, 0)); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 2; k++) (void)k;
        // d(A*x)/dx, A 2x3, x 3x1: block (i,0) is row i of A as a 3x1 column
        d.r = 6; d.c = 1; d.v.clear(); for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) d.v.push_back(ma.at(i, k)); }
      S.mod = d;
      ctx.count("op_library_result");
      break;
    }
    case O_CYCLE: cycle(op); break;
    case O_RANDOM: {
#if !defined(USE_COMPLEX_MATH)
      MT* m = nullptr;
      size_t r = 1 + g.below(5), c = 1 + g.below(7); if (big) { r += g.below(30); c += g.below(30); } int how = g.below(3);
      call([&] {
        m = new MT(r, c);
        if (how == 0) CoolDiff::TensorR2::Details::FillRandomValues<std::uniform_real_distribution>(*m, -1.0, 1.0);
        else if (how == 1) CoolDiff::TensorR2::Details::FillRandomValues<std::normal_distribution>(*m, 0.0, 1.0);
        else CoolDiff::TensorR2::Details::FillRandomValues<std::uniform_int_distribution<int>>(*m, 0, 1000000);
      });
      if (!m) break;
      // both worlds start from the same generator: the draws are the same numbers, in whatever places
      std::vector<double> v(m->getMatrixPtr(), m->getMatrixPtr() + r * c);
      std::sort(v.begin(), v.end());
      checks++;
      for (size_t k = 0; k < v.size(); k++) { double w = ctx.obs(v[k]); if (w != v[k]) ctx.fail("schedule-changes-result", "random fill of a %zux%zu matrix: draw %zu in order of size is %.9g, sequentially %.9g", r, c, k, v[k], w); }
      ctx.count("op_random_fill");
      call([&] { delete m; });
#endif
      break;
    }
  }
}

void World::cycle(const Op& op) {
  // the same life of matrices again and again: nothing may stay behind
  uint64_t at = 0; int K = 5;
  for (int k = 0; k < 3 + K; k++) {
    ctx.api([&] {
      Rng h(op.r);
      MT a(dim(h), dim(h)), b(2, 2, mk(C(1, 0))), c(a);
      for (int t = 0; t < 6; t++) switch (h.below(8)) {
        case 0: a = b; break;
        case 1: a = std::move(c); c = MT(2, 3); break;
        case 2: std::swap(a, b); break;
        case 3: b = make(1 + h.below(3), 2, mk(C(2, 0)), h.below(3)); break;
        case 4: { MT d(a); d = c; a = d; break; }
        case 5: { std::vector<MT> v; for (int q = 0; q < 3; q++) v.push_back(a); v.erase(v.begin()); b = v[0]; break; }
        case 6: { auto w = std::make_shared<MT>(a); MT z = a.getRow(0); c = z; break; }
        default: c = a; a = a; break;
      }
    });
    if (k == 2) at = mem::live_bytes;
  }
  checks++;
  ctx.count("memory_cycles", 3 + K);
  if (mem::live_bytes > at) ctx.fail("unbounded-memory", "%d repetitions of creating, copying, moving and destroying matrices left %llu more bytes", K, (unsigned long long)(mem::live_bytes - at));
}

void World::run() {
  Rng g(plan.get("wseed"));
  sl.resize(3 + plan.get("n") % 5); res.resize(3);
  big = plan.get("big") != 0; if (big) ctx.count("large_shape_runs");
  ma.r = 2; ma.c = 3; mb.r = 3; mb.c = 2; ma.v.assign(6, C(1, 0)); mb.v.resize(6); mx.r = 3; mx.c = 1; mx.v.assign(3, C(1, 0));
  ctx.api([&] { la = new MT(2, 3); lb = new MT(3, 2); x = new MV(3, 1); for (int i = 0; i < 3; i++) (*x)[i] = mk(C(1.5, 0)); });
  for (int i = 0; i < 6; i++) { mb.v[i] = C((double)g.range(-5, 5), 0); (*lb)[i] = mk(mb.v[i]); (*la)[i] = mk(ma.v[i]); }
  ctx.api([&] { e = new ME((*la) * (*lb)); ex = new ME((*la) * (*x)); });
  for (size_t k = 0; k < plan.ops.size(); k++) {
    const Op& op = plan.ops[k];
    ctx.shm->cur_op = (int)k;
    ctx.desc = describe_op(op);
    if (ctx.verbose) ctx.note("%zu client %d: %s", k, op.client, ctx.desc.c_str());
    ctx.s(op.kind * 64 + op.a % 8 * 8 + op.b % 8);
    cur_fault = op.kind == O_NEW || op.kind == O_COPYNEW || op.kind == O_MOVENEW || op.kind == O_DESTROY ? 0 : op.fault;
    step(op);
    cur_fault = 0;
    all("");
    for (Slot& s : sl) if (s.external && s.m && !s.moved) { checks++; if (s.m->getMatrixPtr() == s.buf.data()) for (size_t i = 0; i < s.buf.size(); i++) if (un(s.buf[i]) != s.mod.v[i]) ctx.fail("wrong-contents", "caller storage differs from its matrix"); }
  }
  for (Slot& s : sl) drop(s);
  if (vec) call([&] { delete vec; vec = nullptr; });
  if (*mem::corrupt) ctx.fail("memory-corruption", "%s", mem::corrupt);
  ctx.count("checks", checks);
  ctx.count("failed_operations", failed);
  ctx.shm->nontrivial = checks >= 6;
}

struct Wl : Workload {
  Plan generate(Rng& g, const std::string& prop, bool thorough) override {
    Plan p;
    p.cfg["big"] = g.chance(prop == "C11" ? 0.06 : 0.1); p.cfg["n"] = g.below(5); p.cfg["wseed"] = g.below(1000000); p.cfg["teardown"] = prop != "C11";
    int n = 14 + g.below(thorough ? 120 : 60), ncl = 1 + g.below(4);
    bool faulty = prop != "C11" && g.chance(0.5);
    std::vector<int> w = {5, 4, 3, 8, 5, 3, 2, 6, 4, 6, 5, 5, 2, 3, 5, 2, 3, 3, 0, 0};
    if (prop == "C17") w[O_CYCLE] = 6;
    if (prop == "C11") w[O_RANDOM] = 3;
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < n; i++) {
      Op o;
      if (i < 3) o.kind = O_NEW; else { int x = g.below(tot), k = 0; while (x >= w[k]) x -= w[k++]; o.kind = k; }
      o.client = g.below(ncl);
      o.a = i < 3 ? i : g.chance(0.4) ? o.client : (long)g.below(16); o.b = g.chance(0.4) ? g.below(3) : g.below(16); o.c = g.below(16); o.d = g.below(16); o.r = g.next() >> 16;
      if (faulty && g.chance(0.3)) o.fault = 1 + (long)g.below(g.chance(0.7) ? 4 : 12);
      p.ops.push_back(o);
    }
    return p;
  }
  void execute(const Plan& plan, Ctx& ctx, const std::string& prop) override { World* w = new World(plan, ctx, prop); w->run(); }
  bool paired(const Plan&, const std::string& prop) override { return prop == "C11"; }
  std::string describe(const Op& op) override { return describe_op(op); }
  bool clean_exit(const Plan& p) override { return p.get("teardown"); }
};
int main(int argc, char** argv) { Wl w; return driver_main(argc, argv, w, "container"); }
