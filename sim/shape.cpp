// Shape workload (C18): histories of definitions, redefinitions, passes, resized operands, element and block accesses
// over matrices whose shapes sometimes do not fit.  An independent model knows the shape of everything; the run ends
// at the first diagnostic, which must be deserved, and no operation on shapes that do not fit may end without one.
#include "matrix.hpp"
#include <strings.h>
#include <unistd.h>
using namespace sim;
namespace T2 = CoolDiff::TensorR2;
using GP = CoolDiff::GlobalParameters;

// ------------------------------------------------------------------ shapes
namespace shp {
enum K { kLEAF, kEXPR, kCONST, kSAME, kMUL, kCONV, kTRANS, kVEC, kSQ, kDET, kUN };
struct Obj;
struct Lf { int kind = 0, r = 0, c = 0, id = 0; MT* t = nullptr; MV* v = nullptr; };   // kind: tT or tV
struct N { K k; N* a = nullptr; N* b = nullptr; int r = 0, c = 0; Lf* l = nullptr; Obj* o = nullptr; int p[4] = {1, 1, 0, 0}; bool eig = false; };
struct Obj { ME* e = nullptr; N* def = nullptr; int id = 0; int rr = -1, rc = -1; };   // rr, rc: shape known to the library (last definition or pass)
struct Sh { int r = -1, c = -1; bool ill = false, amb = false; };
static std::vector<std::unique_ptr<N>> g_n;
static N* mk(K k, N* a = nullptr, N* b = nullptr) { g_n.emplace_back(new N); N* n = g_n.back().get(); n->k = k; n->a = a; n->b = b; return n; }
static Sh shape(const N* n) {
  Sh x, a, b;
  switch (n->k) {
    case kLEAF: x.r = n->l->r; x.c = n->l->c; return x;
    case kCONST: x.r = n->r; x.c = n->c; return x;
    case kEXPR: return n->o->def ? shape(n->o->def) : x;
    default: break;
  }
  a = shape(n->a); if (n->b) b = shape(n->b);
  x.ill = a.ill || b.ill; x.amb = a.amb || b.amb;
  auto eq = [&](int p, int q) { if (p < 0 || q < 0) x.amb = true; else if (p != q) x.ill = true; };
  switch (n->k) {
    case kSAME: eq(a.r, b.r); eq(a.c, b.c); x.r = a.r; x.c = a.c; break;
    case kMUL: eq(a.c, b.r); x.r = a.r; x.c = b.c; break;
    case kTRANS: x.r = a.c; x.c = a.r; break;
    case kVEC: x.c = 1; x.r = a.r < 0 || a.c < 0 ? -1 : a.r * a.c; break;
    case kSQ: eq(a.r, a.c); x.r = a.r; x.c = a.c; break;
    case kDET: eq(a.r, a.c); x.r = x.c = 1; break;
    case kUN: x.r = a.r; x.c = a.c; break;
    case kCONV: {
      auto d = [&](int in, int k, int s, int pad) { if (in < 0 || k < 0) { x.amb = true; return -1; } if (in + 2 * pad < k) { x.ill = true; return -1; } return (in + 2 * pad - k) / s + 1; };
      x.r = d(a.r, b.r, n->p[0], n->p[2]); x.c = d(a.c, b.c, n->p[1], n->p[3]);
      break;
    }
    default: break;
  }
  if (x.ill) x.r = x.c = -1;
  return x;
}
static bool same_shape(const Sh& s, int r, int c) { return s.r == r && s.c == c; }
struct Rch { std::set<Obj*> objs; std::set<Lf*> leaves; bool eig = false, stale = false; int nodes = 0; };
static void reach(const N* n, Rch& r, std::set<const N*>& seen) {
  if (!n || !seen.insert(n).second) return;
  r.nodes++;
  if (n->eig) r.eig = true;
  if (n->k == kLEAF) r.leaves.insert(n->l);
  if (n->k == kEXPR) {
    r.objs.insert(n->o);
    if (n->o->def) { Sh s = shape(n->o->def); if (!same_shape(s, n->o->rr, n->o->rc)) r.stale = true; reach(n->o->def, r, seen); }
  }
  reach(n->a, r, seen); reach(n->b, r, seen);
}
static Rch reach(const N* n) { Rch r; std::set<const N*> s; reach(n, r, s); return r; }
// what the library can know when something is built: nothing certain about operands that do not fit or have changed
static Sh at_definition(const N* n) { Sh s = shape(n); if (s.ill || s.amb || reach(n).stale) { s.r = s.c = -1; } return s; }

struct R { N* n; };
struct S {};
static R con(int r, int c) { R x{mk(kCONST)}; x.n->r = r; x.n->c = c; return x; }
static R one(K k, R a) { return R{mk(k, a.n)}; }
static R same(R a, R b) { return R{mk(kSAME, a.n, b.n)}; }
static R operator+(R a, R b) { return same(a, b); }
static R operator-(R a, R b) { return same(a, b); }
static R operator^(R a, R b) { return same(a, b); }
static R operator*(R a, R b) { return R{mk(kMUL, a.n, b.n)}; }
static R inv(R a) { R x = one(kSQ, a); x.n->eig = true; return x; }
static R det(R a) { R x = one(kDET, a); x.n->eig = true; return x; }
static R operator%(R a, R b) { return a * inv(b); }
static R transpose(R a) { return one(kTRANS, a); }
static R vec(R a) { return one(kVEC, a); }
static R SinM(R a) { return one(kUN, a); }
static R CosM(R a) { return one(kUN, a); }
static R ExpM(R a) { return one(kUN, a); }
static R LogM(R a) { return one(kUN, a); }
static R SqrtM(R a) { return one(kUN, a); }
static R TanhM(R a) { return one(kUN, a); }
static R SigmoidM(R a) { return one(kUN, a); }
static R ReLUM(R a) { return one(kUN, a); }
static R LeakyReLUM(R a) { return one(kUN, a); }
static R AbsM(R a) { return one(kUN, a); }
static R operator/(R a, R b) { return ExpM(LogM(a) - LogM(b)); }
static R conv(R a, R b, int sx = 1, int sy = 1, int px = 0, int py = 0) { R x{mk(kCONV, a.n, b.n)}; int q[] = {sx, sy, px, py}; std::copy(q, q + 4, x.n->p); return x; }
template <Axis axis = Axis::ALL> R broadcast(R a, int n) {
  if constexpr (axis == Axis::COLUMN) return a * con(1, n);
  else if constexpr (axis == Axis::ROW) return con(n, 1) * a;
  else return con(n, 1) * a * con(1, n);
}
template <Axis axis = Axis::ALL> R Sigma(R a) {
  Sh s = at_definition(a.n);
  if constexpr (axis == Axis::ROW) return con(1, s.r) * a;
  else if constexpr (axis == Axis::COLUMN) return a * con(s.c, 1);
  else return con(1, s.r) * a * con(s.c, 1);
}
static R trace(R a) { Sh s = at_definition(a.n); return Sigma(a ^ con(s.r, s.r)); }
static R MatrixFrobeniusNorm(R a) { return SqrtM(Sigma(a ^ a)); }
template <ConcatAxis ax = ConcatAxis::VERTICAL> R concat(R a, R b) {
  Sh s = at_definition(a.n), t = at_definition(b.n);
  auto sum = [](int p, int q) { return p < 0 || q < 0 ? -1 : p + q; };
  if (ax == ConcatAxis::VERTICAL) return con(sum(s.r, t.r), s.r) * a + con(sum(s.r, t.r), t.r) * b;
  return a * con(s.c, sum(s.c, t.c)) + b * con(t.c, sum(s.c, t.c));
}
template <Axis axis = Axis::ALL> R SoftMax(R x) {
  Sh s = at_definition(x.n);
  if constexpr (axis == Axis::ROW) return ExpM(x - con(s.r, 1) * LogM(Sigma<Axis::ROW>(ExpM(x))));
  else if constexpr (axis == Axis::COLUMN) return ExpM(x - LogM(Sigma<Axis::COLUMN>(ExpM(x))) * con(1, s.c));
  else return ExpM(x - con(s.r, 1) * LogM(Sigma<Axis::ALL>(ExpM(x))) * con(1, s.c));
}
template <size_t P> R pow(R a) { if constexpr (P == 0) { Sh s = at_definition(a.n); return con(s.r, s.r); } else return a * pow<P - 1>(a); }
template <size_t P = 20> R MatrixExp(R a) { if constexpr (P == 0) { Sh s = at_definition(a.n); return con(s.r, s.r); } else return SinM(pow<P>(a)) + MatrixExp<P - 1>(a); }
template <size_t P = 20> R MatrixLog(R a) { Sh s = at_definition(a.n); if constexpr (P == 0) return con(s.r, s.r); else return SinM(pow<P>(con(s.r, s.r) - a)) + MatrixLog<P - 1>(a); }
static S operator*(S, S) { return S(); }
static S sin(S) { return S(); }
static R operator+(S, R a) { return one(kUN, a); }
static R operator+(R a, S) { return one(kUN, a); }
static R operator-(S, R a) { return one(kUN, a); }
static R operator-(R a, S) { return one(kUN, a); }
static R operator*(S, R a) { return one(kUN, a); }
static R operator*(R a, S) { return one(kUN, a); }
static R operator/(R a, S) { return one(kUN, a); }
static R operator*(R a, const Type&) { return one(kUN, a); }
static R operator*(const Type&, R a) { return one(kUN, a); }
static R operator+(R a, const Type&) { return one(kUN, a); }
static R operator-(const Type&, R a) { return one(kUN, a); }
static R operator-(R a, const Type&) { return one(kUN, a); }
static R operator+(const Type&, R a) { return one(kUN, a); }
static R operator/(R a, const Type&) { return one(kUN, a); }
#define X(i, x) case i: return x;
static R f1(int f, R a) { switch (f) { FORMS1(X) } return a; }
static R f2(int f, R a, R b) { switch (f) { FORMS2(X) } return a; }
static R fs(int f, S s, R a) { switch (f) { FORMSS(X) } return a; }
static R f3(int f, R a, R b, R c) { switch (f) { FORMS3A(X) FORMS3B(X) FORMS3C(X) FORMS3D(X) FORMS3E(X) } return a; }
#undef X
}  // namespace shp
using shp::Lf; using shp::Obj; using shp::R; using shp::Rch; using shp::Sh;

template <typename A, typename B> static void conv_(A& a, B& b, const int* p, Act& x) { x(conv(a, b, (size_t)p[0], (size_t)p[1], (size_t)p[2], (size_t)p[3])); }
template <typename A> static void conv_b(A& a, int tb, void* b, const int* p, Act& x) { if (tb == tT) conv_(a, *(MT*)b, p, x); else if (tb == tV) conv_(a, *(MV*)b, p, x); else conv_(a, *(ME*)b, p, x); }
static void libconv(int ta, void* a, int tb, void* b, const int* p, Act& x) { if (ta == tT) conv_b(*(MT*)a, tb, b, p, x); else if (ta == tV) conv_b(*(MV*)a, tb, b, p, x); else conv_b(*(ME*)a, tb, b, p, x); }

// ------------------------------------------------------------------ judging a diagnostic where it appears
static Ctx* g_ctx; static bool g_may = false; static const char* g_why = "";
[[noreturn]] static void finish(int status) {
  mem::armed = false;
  if (status == 1) g_ctx->shm->status = 1;
  g_ctx->shm->hash = g_ctx->hash; g_ctx->shm->sig = g_ctx->sig;
  _exit(0);
}
static bool names_mismatch(const char* t) {
  for (const char* w : {"dimension", "size", "square", "mismatch", "bound", "scalar", "broadcast", "same", "shape", "row", "column", "element", "index", "dim", "match", "fit", "conform", "range", "length"}) if (strcasestr(t, w)) return true;
  return false;
}
static void judge(const char* text) {
  mem::armed = false;
  on_diag = nullptr;
  try {
    if (!g_may) g_ctx->fail("spurious-diagnostic", "operands that fit are reported: %s", text);
    if (!names_mismatch(text)) g_ctx->fail("unclear-diagnostic", "%s, reported as: %s", g_why, text);
  } catch (const Stop&) { finish(2); }
  g_ctx->count("diagnosed"); g_ctx->shm->nontrivial = 1;
  g_ctx->note("   diagnosed: %s", text);
  finish(1);
}

enum { O_DEF, O_REDEF, O_EVAL, O_FWD, O_ELEM, O_ROWCOL, O_BLOCK, O_COPYDATA, O_RESIZE, O_RESHAPE, O_BACKEND, O_NEW, O_REV, O_N };
static const char* opname[] = {"define", "redefine", "Eval", "DevalF", "element", "row/column", "block", "copyData", "change an operand's shape", "reshape", "switch backend", "construct", "PreComp and DevalR"};
static std::string describe_op(const Op& op) { char b[120]; snprintf(b, sizeof b, "%s #%ld%s", opname[op.kind % O_N], op.a, op.d ? " (ill-shaped)" : ""); return b; }

struct World {
  const Plan& plan; Ctx& ctx;
  std::vector<Lf> leaves; std::vector<Obj> objs;
  Variable* sv; Expression* se; Type sn = tk(0.75);
  long fault = 0; int fitted = 0;
  GP::CPUHandlerType be = GP::CPUHandlerType::EIGEN;
  World(const Plan& p, Ctx& c) : plan(p), ctx(c) {}

  // one library call: `ill`: it must be diagnosed; `may`: a diagnostic is deserved
  bool call(bool ill, bool may, const char* why, const std::function<void()>& f) {
    g_may = ill || may; g_why = why;
    long ft = g_may ? 0 : fault; fault = 0;  // running out of memory while a diagnostic is composed loses its text
    bool ok;
    try { ok = ctx.api(f, ft); } catch (const Stop&) { if (ill && !strcmp(ctx.shm->vclass, "spurious-bad-alloc")) strcpy(ctx.shm->vclass, "not-diagnosed"); throw; }
    if (!ok) {  // out of memory: the same call again
      ctx.count("retried");
      ok = ctx.api(f, 0);
    }
    g_may = false;
    if (ill) ctx.fail("not-diagnosed", "%s, and nothing was reported", why);
    if (!may) fitted++;
    return ok;
  }
  void backend(GP::CPUHandlerType b) { if (b != be) { be = b; ctx.api([&] { GP::setCPUHandler(b); }); } }
  int dim(Rng& g) { static const int d[] = {1, 2, 2, 2, 3, 3, 3, 4}; return d[g.below(8)]; }
  void fill(MT* t, Rng& g) { for (size_t i = 0; i < t->getNumElem(); i++) t->getMatrixPtr()[i] = tk(0.5 + g.unit()); }
  struct Opd { int t; void* p; R r; Obj* o; };
  Opd operand(Rng& g, Obj* self, int want = -1) {
    for (int tries = 0; tries < 12; tries++) {
      if ((want == tE || (want < 0 && g.chance(0.35)))) {
        Obj& o = objs[g.below(objs.size())];
        if (!o.e || &o == self || shp::reach(o.def).objs.count(self) || shp::reach(o.def).nodes > 60) continue;
        R r{shp::mk(shp::kEXPR)}; r.n->o = &o;
        return Opd{tE, o.e, r, &o};
      }
      Lf& l = leaves[g.below(leaves.size())];
      if (want >= 0 && want != l.kind) continue;
      R r{shp::mk(shp::kLEAF)}; r.n->l = &l;
      return Opd{l.kind, l.kind == tT ? (void*)l.t : (void*)l.v, r, nullptr};
    }
    Lf& l = leaves[want == tV ? leaves.size() - 1 : 0];
    R r{shp::mk(shp::kLEAF)}; r.n->l = &l;
    return Opd{l.kind, l.kind == tT ? (void*)l.t : (void*)l.v, r, nullptr};
  }
  void define(Obj& o, const Op& op) {
    Rng g(op.r);
    R best{nullptr}; std::function<void(Act&)> lib; char what[160] = "";
    for (int t = 0; t < 60; t++) {
      char buf[160];
      std::function<void(Act&)> f; R d{nullptr};
      int k = g.below(10);
      if (k < 3) { Opd a = operand(g, &o); int i = g.below(N1); d = shp::f1(i, a.r); f = [=](Act& x) { if (a.t == tE) lib1(i, *(ME*)a.p, x); else if (a.t == tT) lib1(i, *(MT*)a.p, x); else lib1(i, *(MV*)a.p, x); }; snprintf(buf, sizeof buf, "form1 %d of kind %d", i, a.t); }
      else if (k < 7) { Opd a = operand(g, &o), b = operand(g, &o); int i = g.below(N2); d = shp::f2(i, a.r, b.r); f = [=](Act& x) { lib2(i, a.t, a.p, b.t, b.p, x); }; snprintf(buf, sizeof buf, "form2 %d of kinds %d, %d", i, a.t, b.t); }
      else if (k < 8) { Opd a = operand(g, &o), b = operand(g, &o); int p[4] = {1 + (int)g.below(3), 1 + (int)g.below(3), (int)g.below(3), (int)g.below(3)}; d = shp::conv(a.r, b.r, p[0], p[1], p[2], p[3]); std::vector<int> q(p, p + 4); f = [=](Act& x) { libconv(a.t, a.p, b.t, b.p, q.data(), x); }; snprintf(buf, sizeof buf, "conv stride %d,%d padding %d,%d of kinds %d, %d", p[0], p[1], p[2], p[3], a.t, b.t); }
      else if (k < 9) { Opd a = operand(g, &o); int i = g.below(NS), ts = g.below(3); d = shp::fs(i, shp::S(), a.r); f = [=](Act& x) { libs(i, ts, ts == 0 ? (void*)&sn : ts == 1 ? (void*)sv : (void*)se, a.t, a.p, x); }; snprintf(buf, sizeof buf, "scalar form %d of kind %d", i, a.t); }
      else {
        static const int c3[4][3] = {{tT, tT, tV}, {tV, tV, tV}, {tV, tT, tE}, {tE, tV, tT}};
        const int* c = c3[g.below(4)];
        Opd a = operand(g, &o, c[0]), b = operand(g, &o, c[1]), e = operand(g, &o, c[2]);
        if (a.t != c[0] || b.t != c[1] || e.t != c[2]) continue;
        int i = g.below(N3); d = shp::f3(i, a.r, b.r, e.r); f = [=](Act& x) { lib3(i, a.t, a.p, b.t, b.p, e.t, e.p, x); };
        snprintf(buf, sizeof buf, "form3 %d of kinds %d, %d, %d", i, a.t, b.t, e.t);
      }
      Sh s = shp::shape(d.n); Rch r = shp::reach(d.n);
      if (r.nodes > 120 || (!s.ill && s.r > 0 && (s.r > 24 || s.c > 24))) continue;
      bool fits = !s.ill && !s.amb && !r.stale;
      if (op.d ? s.ill : fits) { best = d; lib = f; memcpy(what, buf, sizeof what); break; }
    }
    if (!best.n) { ctx.count("define_skipped"); return; }
    ctx.desc += std::string(": ") + what;
    Sh s = shp::shape(best.n), a = shp::at_definition(best.n); Rch r = shp::reach(best.n);
    if (r.eig) backend(GP::CPUHandlerType::EIGEN);
    char why[100]; snprintf(why, sizeof why, "shapes that do not fit (%s)", what);
    bool fresh = o.e == nullptr;
    call(false, s.ill || s.amb || r.stale, why, [&] { Act x{fresh ? 0 : 1, o.e}; lib(x); o.e = x.out; });
    R eye = shp::con(a.c, a.c);
    o.def = (best * eye).n; o.rr = a.r; o.rc = a.c;
    ctx.count(s.ill ? "ill_definitions" : "definitions");
    if (ctx.verbose) ctx.note("   %s -> %dx%d%s", what, s.r, s.c, s.ill ? " ILL" : s.amb ? " ?" : "");
    if (s.ill && g.chance(0.7)) pass(o, g.chance(0.5) ? O_EVAL : g.chance(0.6) ? O_FWD : O_REV, g);
  }
  void pass(Obj& o, int kind, Rng& g) {
    Sh s = shp::shape(o.def); Rch r = shp::reach(o.def);
    if (r.eig) backend(GP::CPUHandlerType::EIGEN);
    Lf* X = &leaves[leaves.size() - 1 - g.below(3)];
    if (kind == O_REV && !s.ill) kind = O_EVAL;   // reverse mode asks more of a form than fitting shapes (see DESIGN.md): only its duty to diagnose is checked
    if (kind == O_FWD && (r.nodes > 80 || (s.r > 0 && s.r * s.c * X->r * X->c > 1500))) kind = O_EVAL;
    MT* got = nullptr;
    call(s.ill, s.amb, "an expression over shapes that do not fit was evaluated", [&] { if (kind == O_EVAL) got = &T2::Eval(*o.e); else if (kind == O_REV) { T2::PreComp(*o.e); got = &T2::DevalR(*o.e, *X->v); } else got = &T2::DevalF(*o.e, *X->v); });
    ctx.count(kind == O_EVAL ? "fitting_evaluations" : kind == O_REV ? "fitting_reverse_passes" : "fitting_derivatives");
    if (!s.amb) {
      int wr = kind == O_EVAL ? s.r : s.r * X->r, wc = kind == O_EVAL ? s.c : s.c * X->c;
      if ((int)got->getNumRows() != wr || (int)got->getNumColumns() != wc) ctx.fail("wrong-shape", "the result is %zux%zu, the operands give %dx%d", got->getNumRows(), got->getNumColumns(), wr, wc);
    }
    o.rr = s.r; o.rc = s.c;
    for (Obj* q : r.objs) if (q->def) { Sh t = shp::shape(q->def); q->rr = t.r; q->rc = t.c; }
  }
  void step(const Op& op) {
    Rng g(op.r);
    Obj& o = objs[op.a % objs.size()];
    Lf& l = leaves[op.a % 5]; Lf& m = leaves[op.b % 5]; Lf& v = leaves[5 + op.a % 3];
    bool ill = op.d != 0;
    switch (op.kind) {
      case O_DEF: { Obj* f = &o; for (Obj& q : objs) if (!q.e) { f = &q; break; } define(*f, op); break; }
      case O_REDEF: define(o, op); break;
      case O_EVAL: case O_FWD: case O_REV: if (o.e) pass(o, op.kind, g); break;
      case O_ELEM: {
        bool tt = g.chance(0.7);
        int R_ = tt ? l.r : v.r, C_ = tt ? l.c : v.c;
        int i = g.below(R_), j = g.below(C_), n = g.below(R_ * C_), how = g.below(3);
        if (ill) { if (how == 0) { if (g.chance(0.5)) i = R_ + g.below(2); else j = C_ + g.below(2); } else if (how == 1) n = R_ * C_ + g.below(3); else i = R_ + g.below(2); }
        if (how == 2 && !tt) how = 0;
        bool bad = how == 0 ? i >= R_ || j >= C_ : how == 1 ? n >= R_ * C_ : i >= R_;
        char why[100]; snprintf(why, sizeof why, "element (%d,%d) / [%d] of a %dx%d matrix was taken", i, j, n, R_, C_);
        bool cn = g.chance(0.5); volatile const void* sink = nullptr;
        auto go = [&](auto& q) {
          const auto& cq = q;
          if (how == 0) sink = cn ? (const void*)&cq(i, j) : (const void*)&q(i, j);
          else if (how == 1) sink = cn ? (const void*)&cq[n] : (const void*)&q[n];
          else sink = q.getRowPtr(i);
        };
        call(bad, false, why, [&] { if (tt) go(*l.t); else go(*v.v); });
        (void)sink;
        break;
      }
      case O_ROWCOL: {
        bool row = g.chance(0.5); int i = g.below(row ? l.r : l.c);
        if (ill) i = (row ? l.r : l.c) + g.below(2);
        char why[100]; snprintf(why, sizeof why, "%s %d of a %dx%d matrix was taken", row ? "row" : "column", i, l.r, l.c);
        call(i >= (row ? l.r : l.c), false, why, [&] { MT q = row ? l.t->getRow(i) : l.t->getColumn(i); });
        break;
      }
      case O_BLOCK: {
        size_t r0 = g.below(l.r), c0 = g.below(l.c), r1 = r0 + g.below(l.r - r0), c1 = c0 + g.below(l.c - c0);
        bool set = g.chance(0.5);
        int br = r1 - r0 + 1, bc = c1 - c0 + 1, how = g.below(set ? 5 : 3);
        if (ill) switch (how) { case 0: r1 = l.r + g.below(2); break; case 1: c1 = l.c + g.below(2); break; case 2: if (g.chance(0.5)) { r0 = r1 + 1; } else { c0 = c1 + 1; } break; case 3: br += g.chance(0.5) && br > 1 ? -1 : 1; break; default: bc += g.chance(0.5) && bc > 1 ? -1 : 1; }
        bool bad = ill;
        char why[120]; snprintf(why, sizeof why, "rows %zu-%zu, columns %zu-%zu of a %dx%d matrix were %s a %dx%d block", r0, r1, c0, c1, l.r, l.c, set ? "set to" : "taken as", br, bc);
        MT* blk = nullptr; MT* res = nullptr;
        ctx.api([&] { blk = new MT(br, bc, tk(0.625)); });
        call(bad, false, why, [&] { if (set) l.t->setBlockMat({r0, r1}, {c0, c1}, blk); else l.t->getBlockMat({r0, r1}, {c0, c1}, res); });
        if (!set && ((int)res->getNumRows() != br || (int)res->getNumColumns() != bc)) ctx.fail("wrong-shape", "the block is %zux%zu, asked for %dx%d", res->getNumRows(), res->getNumColumns(), br, bc);
        break;
      }
      case O_COPYDATA: {
        Lf* q = nullptr;
        for (int t = 0; t < 20 && !q; t++) { Lf& x = leaves[g.below(5)]; if (&x != &l && (x.r * x.c != l.r * l.c) == ill) q = &x; }
        if (!q) break;
        char why[100]; snprintf(why, sizeof why, "a %dx%d matrix was copied into a %dx%d matrix", q->r, q->c, l.r, l.c);
        call(ill, false, why, [&] { l.t->copyData(*q->t); });
        break;
      }
      case O_RESIZE: {
        int how = g.below(4), r = dim(g), c = dim(g);
        if (how == 3) { if (&m == &l) break; r = m.r; c = m.c; }
        if (op.c % 2) { int tot = l.r * l.c; (void)tot; c = l.c; if (how == 3 && m.c != l.c) how = 0; if (how == 3) r = m.r; }
        call(false, false, "", [&] { if (how == 0) *l.t = MT(r, c, tk(0.75)); else if (how == 1) { MT q(r, c, tk(0.25)); *l.t = std::move(q); } else if (how == 2) { MT q(r, c, tk(0.5)); *l.t = q; } else *l.t = *m.t; });
        l.r = r; l.c = c; fill(l.t, g);
        ctx.count("operands_resized");
        break;
      }
      case O_RESHAPE: {
        bool tt = g.chance(0.7); Lf& q = tt ? l : v;
        int n = q.r * q.c, r = 1 + g.below(n), c;
        while (n % r) r--;
        c = n / r;
        if (ill) { if (g.chance(0.5)) c++; else r++; }
        char why[100]; snprintf(why, sizeof why, "a %dx%d matrix was reshaped to %dx%d", q.r, q.c, r, c);
        call(r * c != n, false, why, [&] { if (tt) q.t->reshape(r, c); else q.v->reshape(r, c); });
        q.r = r; q.c = c;
        break;
      }
      case O_BACKEND: backend(g.chance(0.5) ? GP::CPUHandlerType::EIGEN : GP::CPUHandlerType::NAIVE); break;
      case O_NEW: {
        int r = dim(g), c = dim(g), how = g.below(2);
        if (ill) { if (g.chance(0.5)) r = 0; else c = 0; }
        char why[100]; snprintf(why, sizeof why, "a %dx%d matrix was constructed", r, c);
        MT* q = nullptr;
        call(ill, false, why, [&] { if (how == 0) q = new MT(r, c); else q = new MT(r, c, tk(1)); });
        break;
      }
    }
  }
  void run() {
    g_ctx = &ctx;
    Rng g(plan.get("wseed"));
    leaves.resize(8); objs.resize(6);
    ctx.api([&] {
      for (int i = 0; i < 8; i++) {
        Lf& l = leaves[i]; l.id = i; l.kind = i < 5 ? tT : tV; l.r = dim(g); l.c = dim(g);
        if (i == 0) l.r = l.c = 2; if (i == 5) l.r = l.c = 2; if (i == 6) { l.r = 2; l.c = 3; }
        if (i < 5) { l.t = new MT(l.r, l.c); fill(l.t, g); }
        else { l.v = new MV(l.r, l.c); for (int k = 0; k < l.r * l.c; k++) (*l.v)[k] = tk(0.5 + g.unit()); }
      }
      sv = new Variable(tk(1.25)); se = new Expression(); *se = *sv * *sv;
    });
    on_diag = judge;
    for (size_t k = 0; k < plan.ops.size(); k++) {
      const Op& op = plan.ops[k];
      ctx.shm->cur_op = (int)k;
      ctx.desc = describe_op(op);
      if (ctx.verbose) { std::string s; for (Lf& l : leaves) s += " " + std::to_string(l.r) + "x" + std::to_string(l.c); ctx.note("%zu client %d: %s   [%s ]", k, op.client, ctx.desc.c_str(), s.c_str()); }
      ctx.s(op.kind * 64 + op.a % 8 * 8 + (op.d != 0));
      ctx.h((uint64_t)op.kind);
      fault = op.fault;
      step(op);
      fault = 0;
    }
    on_diag = nullptr;
    ctx.count("checks", fitted);
    ctx.count("runs_without_mismatch");
    ctx.shm->nontrivial = fitted >= 4;
  }
};

struct Wl : Workload {
  Plan generate(Rng& g, const std::string&, bool thorough) override {
    Plan p;
    p.cfg["wseed"] = g.below(1000000);
    int n = 8 + g.below(thorough ? 50 : 30), ncl = 1 + g.below(4);
    bool faulty = g.chance(0.4);
    double pill = g.chance(0.3) ? 0 : 0.03 + 0.12 * g.unit();
    std::vector<int> w = {8, 6, 12, 9, 3, 2, 4, 2, g.chance(0.5) ? 3 : 0, g.chance(0.5) ? 2 : 0, 2, 1, 6};
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < n; i++) {
      Op o;
      if (i < 3) o.kind = O_DEF; else { int x = g.below(tot), k = 0; while (x >= w[k]) x -= w[k++]; o.kind = k; }
      o.client = g.below(ncl); o.a = g.below(30); o.b = g.below(30); o.c = g.below(16); o.r = g.next() >> 16;
      o.d = i >= 2 && g.chance(pill);
      if (faulty && g.chance(0.3)) o.fault = 1 + (long)g.below(g.chance(0.6) ? 6 : 40);
      p.ops.push_back(o);
    }
    return p;
  }
  void execute(const Plan& plan, Ctx& ctx, const std::string&) override { World* w = new World(plan, ctx); w->run(); }
  std::string describe(const Op& op) override { return describe_op(op); }
};
int main(int argc, char** argv) { Wl w; return driver_main(argc, argv, w, "shape"); }
