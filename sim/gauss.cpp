// Least-squares workload: the GaussNewton example (real code) against Gauss-Newton steps computed with dual numbers.
// Clients configure solvers, solve, change variables, data, oracles and backends, use the residuals themselves, and lose
// allocations in the middle of a solve.
#include "GaussNewton.hpp"
#include "simcore.hpp"
#include <cmath>
#include <cstdarg>
#include <memory>
#include <vector>
using namespace sim;
namespace T1 = CoolDiff::TensorR1;
namespace T2 = CoolDiff::TensorR2;
using MT = Matrix<Type>;
using GP = CoolDiff::GlobalParameters;
#if defined(USE_COMPLEX_MATH)
static double un(const Type& t) { return t.real(); }
static double im(const Type& t) { return t.imag(); }
#else
static double un(const Type& t) { return (double)t; }
static double im(const Type&) { return 0; }
#endif

// ------------------------------------------------------------------ dual numbers of second order (reference)
static const int NV = 4;
struct D2 { double v = 0, g[NV] = {}, h[NV][NV] = {}; D2(double x = 0) : v(x) {} };
static D2 op1(const D2& a, double f, double d, double dd) {
  D2 r(f);
  for (int i = 0; i < NV; i++) { r.g[i] = d * a.g[i]; for (int j = 0; j < NV; j++) r.h[i][j] = d * a.h[i][j] + dd * a.g[i] * a.g[j]; }
  return r;
}
static D2 operator+(const D2& a, const D2& b) { D2 r(a.v + b.v); for (int i = 0; i < NV; i++) { r.g[i] = a.g[i] + b.g[i]; for (int j = 0; j < NV; j++) r.h[i][j] = a.h[i][j] + b.h[i][j]; } return r; }
static D2 operator-(const D2& a) { return op1(a, -a.v, -1, 0); }
static D2 operator-(const D2& a, const D2& b) { return a + (-b); }
static D2 operator*(const D2& a, const D2& b) {
  D2 r(a.v * b.v);
  for (int i = 0; i < NV; i++) { r.g[i] = a.g[i] * b.v + a.v * b.g[i]; for (int j = 0; j < NV; j++) r.h[i][j] = a.h[i][j] * b.v + a.v * b.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i]; }
  return r;
}
static D2 sn(const D2& a) { return op1(a, sin(a.v), cos(a.v), -sin(a.v)); }
static D2 cs(const D2& a) { return op1(a, cos(a.v), -sin(a.v), -cos(a.v)); }
static D2 ex(const D2& a) { return op1(a, exp(a.v), exp(a.v), exp(a.v)); }

// ------------------------------------------------------------------ problems
struct Model { const char* name; bool mat; int n, r, dc; double lo, hi; };
static const Model models[] = {
  {"line (scalar residual, data)", false, 2, 1, 1, -3, 3},
  {"exponential (scalar residual, data)", false, 2, 1, 1, 0.3, 1.2},
  {"one variable (scalar residual, no data)", false, 1, 1, 0, 2, 9},
  {"rigid motion (matrix residual, data)", true, 3, 2, 2, -1.5, 1.5},
  {"two equations (matrix residual, no data)", true, 2, 2, 0, 2, 9},
  {"three equations (matrix residual, no data)", true, 2, 3, 0, 0.4, 1.4},
  {"linear map (matrix residual, data)", true, 4, 2, 2, -2, 2},
  {"parabola (scalar residual, data)", false, 3, 1, 1, -2, 2},
};
static const int NM = 8;
static void residual(int m, const D2* v, const double* x, const double* y, D2* e) {
  switch (m) {
    case 0: e[0] = v[0] * D2(x[0]) + v[1] - D2(y[0]); break;
    case 1: e[0] = v[0] * ex(v[1] * D2(x[0])) - D2(y[0]); break;
    case 2: e[0] = v[0] * v[0] - D2(2) * v[0] + D2(1); break;
    case 3: e[0] = D2(y[0]) - (cs(v[0]) * D2(x[0]) + sn(v[0]) * D2(x[1]) + v[1]); e[1] = D2(y[1]) - (cs(v[0]) * D2(x[1]) - sn(v[0]) * D2(x[0]) + v[2]); break;
    case 4: e[0] = v[0] * v[0] + v[1] * v[1] - D2(20); e[1] = v[0] - v[1] + D2(2); break;
    case 5: e[0] = v[0] * v[1] - D2(2); e[1] = v[0] + v[1] - D2(3); e[2] = sn(v[0]) - D2(0.5) * v[1]; break;
    case 6: e[0] = D2(y[0]) - (v[0] * D2(x[0]) + v[1] * D2(x[1])); e[1] = D2(y[1]) - (v[2] * D2(x[0]) + v[3] * D2(x[1])); break;
    case 7: e[0] = v[0] * D2(x[0] * x[0]) + v[1] * D2(x[0]) + v[2] - D2(y[0]); break;
  }
}
struct Data { MT *X = nullptr, *Y = nullptr; size_t rows = 0, cols = 0; std::vector<double> x, y; };
struct Prob {
  int m = -1; int shared_with = -1;
  Matrix<Variable>* V = nullptr; Matrix<Variable>* V2 = nullptr;
  Matrix<Parameter>*PX = nullptr, *PY = nullptr;
  Expression* E = nullptr; Matrix<Expression>* J = nullptr; Matrix<Expression>* R = nullptr;
  Oracle* o = nullptr; bool hessian_ready = false;
  std::vector<int> var;    // indices of the variables in the world's table
};
// vars: number of variables of the first oracle, fed: whether data were ever given
struct Solver { GaussNewton* g = nullptr; int prob = -1, data = -1; size_t iter = 4; int vars = 0; bool fed = false; };

enum { O_PROB, O_SOLVER, O_SOLVE, O_VARS, O_DATA, O_USEDATA, O_ORACLE, O_BACKEND, O_USE, O_HESS, O_EDIT, O_N };
static const char* opname[] = {"create problem", "create solver", "solve", "set variables", "replace data", "give solver data", "give solver another oracle", "switch backend", "use the residual", "jacobian and hessian", "edit data in place"};
static std::string describe_op(const Op& o) { char b[160]; snprintf(b, sizeof b, "%s #%ld (%ld, %ld, %ld)%s", opname[o.kind % O_N], o.a, o.b, o.c, o.d, o.fault ? " with allocation failure" : ""); return b; }

struct World {
  const Plan& plan; Ctx& ctx; std::string prop;
  std::vector<Prob> probs; std::vector<Solver> sol; std::vector<Data> data;
  std::vector<double> val;                 // current values of all variables
  std::vector<Variable*> extra;
  int checks = 0, failed = 0; long cur_fault = 0;
  bool finding;   // replays of listed findings may do what generated histories leave out (known-findings.txt)
  World(const Plan& p, Ctx& c, const std::string& pr) : plan(p), ctx(c), prop(pr), finding(p.get("finding")) {}
  bool call(const std::function<void()>& f) { long ft = cur_fault; cur_fault = 0; bool ok = ctx.api(f, ft > 0 ? ft : 0); if (!ok) failed++; return ok; }
  void near(double got, double want, double tol, const char* cls, const char* fmt, ...) {
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    checks++;
    double w = ctx.obs(got);
    if (ctx.obs_mode && !(got == w || fabs(got - w) <= 1e-9 * (1 + fabs(w)) || (got != got && w != w))) ctx.fail("schedule-changes-result", "%s is %.12g, sequentially %.12g", b, got, w);
    if (ctx.obs_mode) return;
    if (!(fabs(got - want) <= tol * (1 + fabs(want)))) ctx.fail(cls, "%s is %.12g, the reference gives %.12g", b, got, want);
  }
  void read(Prob& P) { for (size_t i = 0; i < P.var.size(); i++) ctx.api([&] { val[P.var[i]] = un(T1::Eval((*P.V)[i])); }); }
  void assign(Prob& P, Rng& g) {
    const Model& M = models[P.m];
    for (int i = 0; i < M.n; i++) {
      double v = M.lo + (M.hi - M.lo) * g.unit();
      if (P.m == 3 && i) v *= 4;
      val[P.var[i]] = v;
      ctx.api([&] { (*P.V)[i] = (Type)v; });
    }
  }
  // Gauss-Newton iterations on plain numbers; false: too ill-conditioned to judge
  bool reference(const Prob& P, const Data* D, size_t iters, std::vector<double>& v) {
    const Model& M = models[P.m];
    size_t rows = D ? D->rows : 1;
    int n = M.n;
    std::vector<double> px(4, 0.0), py(4, 0.0);
    for (size_t it = 0; it < iters; it++) {
      long double A[NV][NV] = {}, B[NV] = {};
      D2 x[NV];
      for (int i = 0; i < n; i++) { x[i] = D2(v[i]); x[i].g[i] = 1; }
      for (size_t row = 0; row < rows; row++) {
        if (D) for (size_t k = 0; k < D->cols; k++) { px[k] = D->x[row * D->cols + k]; py[k] = D->y[row * D->cols + k]; }
        D2 e[3];
        residual(P.m, x, px.data(), py.data(), e);
        for (int q = 0; q < M.r; q++) for (int i = 0; i < n; i++) { B[i] += (long double)e[q].g[i] * e[q].v; for (int j = 0; j < n; j++) A[i][j] += (long double)e[q].g[i] * e[q].g[j]; }
      }
      // Cholesky with a crude condition estimate: ratio of the pivots
      long double L[NV][NV] = {}, dmin = 1e300L, dmax = 0, y[NV], s[NV];
      for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
        long double t = A[i][j]; for (int k = 0; k < j; k++) t -= L[i][k] * L[j][k];
        if (i == j) { if (!(t > 1e-9L)) return false; L[i][i] = sqrtl(t); dmin = std::min(dmin, t); dmax = std::max(dmax, std::max(t, A[i][i])); }
        else L[i][j] = t / L[j][j];
      }
      if (dmax / dmin > 1e5L) return false;
      for (int i = 0; i < n; i++) { long double t = B[i]; for (int k = 0; k < i; k++) t -= L[i][k] * y[k]; y[i] = t / L[i][i]; }
      for (int i = n; i-- > 0;) { long double t = y[i]; for (int k = i + 1; k < n; k++) t -= L[k][i] * s[k]; s[i] = t / L[i][i]; }
      for (int i = 0; i < n; i++) { v[i] -= (double)s[i]; if (!(fabs(v[i]) < 50)) return false; }
    }
    return true;
  }
  void new_problem(const Op& op);
  void new_data(Data& D, size_t cols, Rng& g) {
    size_t n = 4 + g.below(9);
    Data N; N.rows = n; N.cols = cols; N.x.resize(n * cols); N.y.resize(n * cols);
    for (double& q : N.x) q = (double)g.range(-32, 32) / 20.0;
    for (double& q : N.y) q = (double)g.range(-32, 32) / 16.0;
    MT *X = nullptr, *Y = nullptr;
    ctx.api([&] { X = new MT(n, cols); Y = new MT(n, cols); });
    for (size_t k = 0; k < n * cols; k++) { X->getMatrixPtr()[k] = (Type)N.x[k]; Y->getMatrixPtr()[k] = (Type)N.y[k]; }
    N.X = X; N.Y = Y; D = N;   // replaced data stay alive: solvers may still point at them
  }
  int pick_data(int cols, long k) { std::vector<int> c; for (size_t i = 0; i < data.size(); i++) if ((int)data[i].cols == cols) c.push_back((int)i); return c.empty() ? -1 : c[k % c.size()]; }
  void give(Solver& S, long k) {
    const Model& M = models[probs[S.prob].m]; Prob& P = probs[S.prob];
    S.data = M.dc ? pick_data(M.dc, k) : -1;
    ctx.api([&] {
      if (M.dc) S.g->setData(data[S.data].X, data[S.data].Y).setDataParameters(P.PX, P.PY);
      else if (finding && S.fed) S.g->setData().setDataParameters();
    });
    if (M.dc) S.fed = true;
  }
  void step(const Op& op);
  void run();
};

void World::new_problem(const Op& op) {
  Rng g(op.r);
  Prob P; P.m = (int)(op.b % NM);
  const Model& M = models[P.m];
  int share = op.c & 1 ? (int)(op.d % probs.size()) : -1;
  if (share >= 0 && probs[share].m >= 0 && models[probs[share].m].n >= 1 && !(P.m == 3 || P.m == 6)) P.shared_with = share;
  size_t dc = M.dc ? M.dc : 1;
  ctx.api([&] {
    P.V = new Matrix<Variable>(1, M.n);
    P.PX = new Matrix<Parameter>(dc, 1); P.PY = new Matrix<Parameter>(dc, 1);
  });
  for (int i = 0; i < M.n; i++) {
    Prob* Q = P.shared_with >= 0 ? &probs[P.shared_with] : nullptr;
    if (Q && (size_t)i < Q->var.size()) { ctx.api([&] { (*P.V)[i] = (*Q->V)[i]; }); P.var.push_back(Q->var[i]); }
    else if (op.d & 8) { Variable* x = nullptr; ctx.api([&] { x = new Variable((Type)1.0); (*P.V)[i] = *x; }); extra.push_back(x); P.var.push_back((int)val.size()); val.push_back(1); }
    else { P.var.push_back((int)val.size()); val.push_back(0); }
  }
  assign(P, g);
  Matrix<Variable>& V = *P.V; Matrix<Parameter>&PX = *P.PX, &PY = *P.PY;
  ctx.api([&] {
    switch (P.m) {
      case 0: P.E = new Expression(V[0] * PX[0] + V[1] - PY[0]); break;
      case 1: P.E = new Expression(V[0] * exp(V[1] * PX[0]) - PY[0]); break;
      case 2: P.E = new Expression(V[0] * V[0] - (Type)2 * V[0] + (Type)1); break;
      case 3: {
        P.V2 = new Matrix<Variable>(2, 1, V.getMatrixPtr() + 1);
        P.R = new Matrix<Expression>(2, 2);
        auto& R = *P.R;
        R(0, 0) = cos(V[0]); R(0, 1) = sin(V[0]); R(1, 0) = -sin(V[0]); R(1, 1) = cos(V[0]);
        P.J = new Matrix<Expression>(PY - (R * PX + *P.V2));
        break;
      }
      case 4: { P.J = new Matrix<Expression>(2, 1); auto& E = *P.J; E(0, 0) = V[0] * V[0] + V[1] * V[1] - (Type)20; E(1, 0) = V[0] - V[1] + (Type)2; break; }
      case 5: { P.J = new Matrix<Expression>(3, 1); auto& E = *P.J; E(0, 0) = V[0] * V[1] - (Type)2; E(1, 0) = V[0] + V[1] - (Type)3; E(2, 0) = sin(V[0]) - (Type)0.5 * V[1]; break; }
      case 6: P.V2 = new Matrix<Variable>(2, 2, V.getMatrixPtr()); P.J = new Matrix<Expression>(PY - (*P.V2) * PX); break;
      case 7: P.E = new Expression(V[0] * PX[0] * PX[0] + V[1] * PX[0] + V[2] - PY[0]); break;
    }
    P.o = P.E ? Oracle::OracleFactory::CreateOracle(*P.E, V) : Oracle::OracleFactory::CreateOracle(*P.J, V);
  });
  ctx.count("problems");
  for (Solver& S : sol) if (S.prob == (int)(op.a % probs.size())) S.prob = -1;   // configured for a problem that is gone
  probs[op.a % probs.size()] = P;
}

void World::step(const Op& op) {
  Rng g(op.r);
  if (op.kind == O_PROB) { cur_fault = 0; new_problem(op); return; }
  Prob& P = probs[op.a % probs.size()];
  Solver& S = sol[op.b % sol.size()];
  switch (op.kind) {
    case O_SOLVER: {
      if (P.m < 0) break;
      S = Solver(); S.prob = (int)(op.a % probs.size());
      ctx.api([&] { S.g = new GaussNewton(); S.g->setOracle(P.o); });
      const Model& M = models[P.m];
      S.vars = M.n;
      if (M.dc) give(S, op.c);
      ctx.count("solvers");
      break;
    }
    case O_ORACLE: {
      if (P.m < 0 || !S.g) break;
      if (!finding && (models[P.m].n != S.vars || (!models[P.m].dc && S.fed))) break;
      S.prob = (int)(op.a % probs.size());
      ctx.api([&] { S.g->setOracle(P.o); });
      give(S, op.c);
      ctx.count("oracle_changes");
      break;
    }
    case O_USEDATA: if (S.g && S.prob >= 0 && models[probs[S.prob].m].dc) give(S, op.c); break;
    case O_DATA: { cur_fault = 0; new_data(data[op.c % data.size()], data[op.c % data.size()].cols, g); for (Solver& s : sol) if (s.data == (int)(op.c % data.size()) && s.g && s.prob >= 0) ctx.api([&] { s.g->setData(data[s.data].X, data[s.data].Y); }); break; }
    case O_EDIT: { Data& D = data[op.c % data.size()]; size_t k = g.below(D.x.size()); D.x[k] = (double)g.range(-32, 32) / 20.0; D.y[k] = (double)g.range(-32, 32) / 16.0; D.X->getMatrixPtr()[k] = (Type)D.x[k]; D.Y->getMatrixPtr()[k] = (Type)D.y[k]; break; }
    case O_VARS: if (P.m >= 0) assign(P, g); break;
    case O_BACKEND: GP::setCPUHandler(op.c & 1 ? GP::CPUHandlerType::EIGEN : GP::CPUHandlerType::NAIVE); ctx.count("backend_switches"); break;
    case O_SOLVE: {
      if (!S.g || S.prob < 0) break;
      Prob& Q = probs[S.prob];
      if (op.d & 1) { S.iter = 1 + g.below(4); ctx.api([&] { S.g->setMaxIterations(S.iter); }); }
      std::vector<double> v;
      for (int i : Q.var) v.push_back(val[i]);
      bool judged = reference(Q, S.data >= 0 ? &data[S.data] : nullptr, S.iter, v);
      if (!judged) {   // singular or wild from here: start elsewhere
        assign(Q, g);
        v.clear(); for (int i : Q.var) v.push_back(val[i]);
        judged = reference(Q, S.data >= 0 ? &data[S.data] : nullptr, S.iter, v);
      }
      if (!judged) { ctx.count("solves_not_judged"); break; }
      bool ok = call([&] { S.g->solve(); });
      if (!ok) { ctx.count("solves_failed"); read(Q); for (int i : Q.var) if (!(fabs(val[i]) < 50)) { assign(Q, g); break; } break; }
      for (size_t i = 0; i < Q.var.size(); i++) {
        Type t{}; ctx.api([&] { t = T1::Eval((*Q.V)[i]); });
        double x = un(t);
        ctx.h(x);
        near(x, v[i], 1e-6, "wrong-step", "variable %zu of %s after %zu iterations", i, models[Q.m].name, S.iter);
        if (im(t) != 0 && fabs(im(t)) > 1e-9) ctx.fail("wrong-step", "variable %zu became complex", i);
        val[Q.var[i]] = x;
      }
      ctx.count("solves"); ctx.count("iterations", S.iter);
      // operands are read only
      if (S.data >= 0) { Data& D = data[S.data]; for (size_t k = 0; k < D.x.size(); k++) if (un(D.X->getMatrixPtr()[k]) != D.x[k] || un(D.Y->getMatrixPtr()[k]) != D.y[k]) ctx.fail("data-changed", "solving changed its data"); }
      break;
    }
    case O_USE: case O_HESS: {   // the client evaluates or differentiates the residual itself, between solves
      if (P.m < 0) break;
      const Model& M = models[P.m];
      std::vector<double> px(4, 0.0), py(4, 0.0);
      for (int k = 0; k < M.dc; k++) { px[k] = (double)g.range(-20, 20) / 16.0; py[k] = (double)g.range(-20, 20) / 16.0; double a = px[k], b = py[k]; ctx.api([&] { (*P.PX)[k] = (Type)a; (*P.PY)[k] = (Type)b; }); }
      D2 x[NV], e[3];
      for (int i = 0; i < M.n; i++) { x[i] = D2(val[P.var[i]]); x[i].g[i] = 1; }
      residual(P.m, x, px.data(), py.data(), e);
      if (op.kind == O_USE || M.mat) {
        MT* r = nullptr; Type t{};
        if (M.mat) {
          if (call([&] { r = op.c & 1 ? P.o->evalMat() : &T2::Eval(*P.J); })) for (int q = 0; q < M.r; q++) near(un((*r)[q]), e[q].v, 1e-9, "wrong-residual", "residual %d of %s", q, M.name);
          if (op.kind == O_HESS && call([&] { r = op.c & 1 ? P.o->jacobian() : &T2::DevalF(*P.J, *P.V); })) {
            if (r->getNumRows() != (size_t)M.r || r->getNumColumns() != (size_t)M.n) ctx.fail("wrong-jacobian", "Jacobian of %s is %zux%zu", M.name, r->getNumRows(), r->getNumColumns());
            for (int q = 0; q < M.r; q++) for (int i = 0; i < M.n; i++) near(un((*r)(q, i)), e[q].g[i], 1e-9, "wrong-jacobian", "Jacobian entry (%d,%d) of %s", q, i, M.name);
          }
        } else if (call([&] { t = op.c & 1 ? P.o->eval() : T1::Eval(*P.E); })) near(un(t), e[0].v, 1e-9, "wrong-residual", "residual of %s", M.name);
      } else {
        MT* r = nullptr;
        if (call([&] { r = P.o->jacobian(); })) for (int i = 0; i < M.n; i++) near(un((*r)[i]), e[0].g[i], 1e-9, "wrong-jacobian", "Jacobian entry %d of %s", i, M.name);
        if (op.c & 2 && (finding || M.n == 1)) {
          cur_fault = op.fault && (finding || P.hessian_ready) ? 1 + op.r % 60 : 0;
          r = nullptr;
          if (call([&] { r = static_cast<OracleScalar*>(P.o)->hessian(); })) {
            if (r->getNumRows() != (size_t)M.n || r->getNumColumns() != (size_t)M.n) ctx.fail("wrong-hessian", "Hessian of %s is %zux%zu", M.name, r->getNumRows(), r->getNumColumns());
            for (int i = 0; i < M.n; i++) for (int j = 0; j < M.n; j++) near(un((*r)(i, j)), e[0].h[i][j], 1e-9, "wrong-hessian", "Hessian entry (%d,%d) of %s", i, j, M.name);
            P.hessian_ready = true;
            ctx.count("hessians");
          }
        }
      }
      break;
    }
  }
}

void World::run() {
  Rng g(plan.get("wseed"));
  probs.resize(3); sol.resize(3); data.resize(4);
  GP::setCPUHandler(plan.get("eigen") ? GP::CPUHandlerType::EIGEN : GP::CPUHandlerType::NAIVE);
  for (int i = 0; i < 4; i++) new_data(data[i], i < 2 ? 1 : 2, g);
  for (size_t k = 0; k < plan.ops.size(); k++) {
    const Op& op = plan.ops[k];
    ctx.shm->cur_op = (int)k;
    ctx.desc = describe_op(op);
    if (ctx.verbose) ctx.note("%zu client %d: %s", k, op.client, ctx.desc.c_str());
    ctx.s(op.kind * 64 + op.a % 8 * 8 + op.b % 8);
    cur_fault = op.fault;
    step(op);
    cur_fault = 0;
    if (*mem::corrupt) ctx.fail("memory-corruption", "%s", mem::corrupt);
  }
  ctx.count("checks", checks);
  ctx.count("failed_operations", failed);
  ctx.shm->nontrivial = checks >= 4;
}

struct Wl : Workload {
  Plan generate(Rng& g, const std::string& prop, bool thorough) override {
    Plan p;
    p.cfg["wseed"] = g.below(1000000); p.cfg["eigen"] = g.below(2);
    int n = 8 + g.below(thorough ? 60 : 30), ncl = 1 + g.below(3);
    bool faulty = prop != "C11" && g.chance(0.5);
    std::vector<int> w = {3, 3, 12, 3, 1, 2, 2, 1, 3, 3, 2};
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < n; i++) {
      Op o;
      if (i == 0) o.kind = O_PROB; else if (i == 1) o.kind = O_SOLVER; else { int x = g.below(tot), k = 0; while (x >= w[k]) x -= w[k++]; o.kind = k; }
      o.client = g.below(ncl);
      o.a = i < 2 ? 0 : g.chance(0.5) ? 0 : (long)g.below(3); o.b = o.kind == O_PROB ? (long)g.below(NM) : i < 2 ? 0 : g.chance(0.5) ? 0 : (long)g.below(3);
      o.c = g.below(16); o.d = g.below(16); o.r = g.next() >> 16;
      if (faulty && (o.kind == O_SOLVE || o.kind == O_USE || o.kind == O_HESS) && g.chance(0.35)) o.fault = 1 + (long)g.below(g.chance(0.5) ? 12 : 120);
      p.ops.push_back(o);
    }
    return p;
  }
  void execute(const Plan& plan, Ctx& ctx, const std::string& prop) override { World* w = new World(plan, ctx, prop); w->run(); }
  bool paired(const Plan&, const std::string& prop) override { return prop == "C11"; }
  std::string describe(const Op& op) override { return describe_op(op); }
};
int main(int argc, char** argv) { Wl w; return driver_main(argc, argv, w, "gauss"); }
