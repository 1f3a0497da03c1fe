// Training workload: the NeuralNet example (real code) on simulated threads.  One history of training runs is played in two
// worlds - without threads, and threaded under the seeded scheduler - and both are compared with plain gradient descent written
// by hand; concurrent matrix operators on results of their own are compared with the same operators one after the other.
#include "NeuralNet.hpp"
#include "simcore.hpp"
#include <cmath>
#include <iostream>
#include <memory>
#include <sstream>
#include <thread>
#include <vector>
using namespace sim;
namespace T2 = CoolDiff::TensorR2;
namespace MO = CoolDiff::TensorR2::MatOperators;
using MT = Matrix<Type>;
using GP = CoolDiff::GlobalParameters;

enum { A_LIN, A_LEAKY, A_SIGM, A_TANH, A_SOFT };
enum { E_SQ, E_CE };
struct Design { const char* name; std::vector<int> act; bool soft; int err; double l2, drop; };
static const Design designs[] = {
  {"linear, squares", {A_LIN}, false, E_SQ, 0, 0},
  {"leaky-softmax, cross entropy", {A_LEAKY, A_LEAKY}, true, E_CE, 0, 0},
  {"tanh-sigmoid, squares", {A_TANH, A_SIGM}, false, E_SQ, 0, 0},
  {"sigmoid-leaky-linear-softmax, cross entropy", {A_SIGM, A_LEAKY, A_LIN}, true, E_CE, 0, 0},
  {"tanh-linear, squares, L2", {A_TANH, A_LIN}, false, E_SQ, 0.01, 0},
  {"dropout leaky-leaky-softmax, cross entropy", {A_LEAKY, A_LEAKY}, true, E_CE, 0, 0.25},
};
static const int ND = 6;
#define PRE(l, in) ((in) * transpose(W(l)) + transpose(broadcast<Axis::COLUMN>(b(l), batch)))

struct Net0 : NeuralNet<Net0> {
  BASE_CLASS_DEF(Net0);
  auto networkLayers(const size_t batch) { auto l1 = PRE(0, X); return std::make_tuple(l1); }
  template <typename Z> auto error(Z& net) { auto Yp = GetFinalLayer(net); Matrix<Expression> e = Sigma((Yp - Y) ^ (Yp - Y)); return e; }
};
struct Net1 : NeuralNet<Net1> {
  BASE_CLASS_DEF(Net1);
  auto networkLayers(const size_t batch) { auto l1 = LeakyReLUM(PRE(0, X)); auto l2 = LeakyReLUM(PRE(1, l1)); auto l3 = SoftMax<Axis::COLUMN>(l2); return std::make_tuple(l1, l2, l3); }
  template <typename Z> auto error(Z& net) { auto Yp = GetFinalLayer(net); Matrix<Expression> e = -1 * Sigma(Y ^ LogM(Yp)); return e; }
};
struct Net2 : NeuralNet<Net2> {
  BASE_CLASS_DEF(Net2);
  auto networkLayers(const size_t batch) { auto l1 = TanhM(PRE(0, X)); auto l2 = SigmoidM(PRE(1, l1)); return std::make_tuple(l1, l2); }
  template <typename Z> auto error(Z& net) { auto Yp = GetFinalLayer(net); Matrix<Expression> e = Sigma((Yp - Y) ^ (Yp - Y)); return e; }
};
struct Net3 : NeuralNet<Net3> {
  BASE_CLASS_DEF(Net3);
  auto networkLayers(const size_t batch) {
    auto l1 = SigmoidM(PRE(0, X)); auto l2 = LeakyReLUM(PRE(1, l1)); auto l3 = PRE(2, l2); auto l4 = SoftMax<Axis::COLUMN>(l3);
    return std::make_tuple(l1, l2, l3, l4);
  }
  template <typename Z> auto error(Z& net) { auto Yp = GetFinalLayer(net); Matrix<Expression> e = -1 * Sigma(Y ^ LogM(Yp)); return e; }
};
struct Net4 : NeuralNet<Net4> {
  BASE_CLASS_DEF(Net4);
  auto networkLayers(const size_t batch) { auto l1 = TanhM(PRE(0, X)); auto l2 = PRE(1, l1); return std::make_tuple(l1, l2); }
  template <typename Z> auto error(Z& net) {
    auto Yp = GetFinalLayer(net); Matrix<Expression> e = Sigma((Yp - Y) ^ (Yp - Y));
    for (size_t i = 0; i < layerSize(); ++i) e = e + 0.01 * (Sigma((W(i) ^ W(i))) + Sigma((b(i) ^ b(i))));
    return e;
  }
};
struct Net5 : NeuralNet<Net5> {
  BASE_CLASS_DEF(Net5);
  auto networkLayers(const size_t batch) {
    auto l1 = Dropout(LeakyReLUM(PRE(0, X)), 0.25); auto l2 = Dropout(LeakyReLUM(PRE(1, l1)), 0.25); auto l3 = SoftMax<Axis::COLUMN>(l2);
    return std::make_tuple(l1, l2, l3);
  }
  template <typename Z> auto error(Z& net) { auto Yp = GetFinalLayer(net); Matrix<Expression> e = -1 * Sigma(Y ^ LogM(Yp)); return e; }
};

struct INet {
  virtual ~INet() = default;
  virtual void add(const Layer&) = 0;
  virtual void batch(size_t k) = 0;
  virtual void train(MT& X, MT& Y, double rate, size_t ep, bool th, bool st) = 0;
  virtual double accuracy(const MT& X, const MT& Y, size_t k) = 0;
  virtual MT& w(size_t l) = 0;
  virtual MT& b(size_t l) = 0;
};
template <typename N> struct NetOf : INet {
  N n; using B = NeuralNet<N>;
  NetOf(size_t in, size_t out) : n(Pair<size_t, size_t>{in, out}) {}
  B& base() { return n; }
  void add(const Layer& l) override { n.addLayer(l); }
  void batch(size_t k) override { base().networkLayers(k); }
  void train(MT& X, MT& Y, double rate, size_t ep, bool th, bool st) override { n.train(X, Y, (Type)rate, ep, th, st); }
  double accuracy(const MT& X, const MT& Y, size_t k) override { return (double)n.accuracy(X, Y, k); }
  MT& w(size_t l) override { return base().W(l); }
  MT& b(size_t l) override { return base().b(l); }
};

struct Mat { size_t r = 0, c = 0; std::vector<double> v; Mat() {} Mat(size_t a, size_t b) : r(a), c(b), v(a * b, 0.0) {} double& at(size_t i, size_t j) { return v[i * c + j]; } double at(size_t i, size_t j) const { return v[i * c + j]; } };
struct Data { Mat x, y; MT *X = nullptr, *Y = nullptr; };
struct Net { INet* n = nullptr; int d = 0; std::vector<size_t> dim; std::vector<Mat> W, b; size_t in() const { return dim.front(); } size_t out() const { return dim.back(); } bool known = true; };

enum { O_NET, O_TRAIN, O_WEIGHTS, O_DATA, O_ACC, O_BACKEND, O_OPS, O_N };
static const char* opname[] = {"create network", "train", "set weights", "change data", "accuracy", "switch backend", "concurrent operators"};
static std::string describe_op(const Op& o) { char b[160]; snprintf(b, sizeof b, "%s net %ld (%ld, %ld, %ld)", opname[o.kind % O_N], o.a, o.b, o.c, o.d); return b; }

struct World {
  const Plan& plan; Ctx& ctx; std::string prop;
  std::vector<Net> nets; std::vector<Data> data; std::vector<MT*> pool;
  int checks = 0; bool eigen = true;
  World(const Plan& p, Ctx& c, const std::string& pr) : plan(p), ctx(c), prop(pr) {}
  bool sequential() const { return ctx.obs_mode == 1; }
  bool scheduled() const { return ctx.obs_mode == 2; }
  void read(Net& N) {
    for (size_t l = 0; l + 1 < N.dim.size(); l++) {
      for (size_t k = 0; k < N.W[l].v.size(); k++) N.W[l].v[k] = (double)N.n->w(l).getMatrixPtr()[k];
      for (size_t k = 0; k < N.b[l].v.size(); k++) N.b[l].v[k] = (double)N.n->b(l).getMatrixPtr()[k];
    }
  }
  static double act(int a, double z) { return a == A_LEAKY ? (z < 0 ? 0.01 * z : z) : a == A_SIGM ? 1 / (1 + exp(-z)) : a == A_TANH ? tanh(z) : z; }
  static double dact(int a, double z) { double s; return a == A_LEAKY ? (z < 0 ? 0.01 : 1) : a == A_SIGM ? (s = 1 / (1 + exp(-z)), s * (1 - s)) : a == A_TANH ? (s = tanh(z), 1 - s * s) : 1; }
  // answers of the network for one row: values before the last soft-max, and what comes out
  std::vector<double> forward(const Net& N, const Data& D, size_t row) const {
    const Design& d = designs[N.d];
    std::vector<double> a(D.x.v.begin() + row * D.x.c, D.x.v.begin() + (row + 1) * D.x.c);
    for (size_t l = 0; l + 1 < N.dim.size(); l++) {
      std::vector<double> o(N.W[l].r);
      for (size_t q = 0; q < N.W[l].r; q++) { double s = N.b[l].v[q]; for (size_t i = 0; i < N.W[l].c; i++) s += a[i] * N.W[l].at(q, i); o[q] = act(d.act[l], s); }
      a = o;
    }
    return a;
  }
  double loss(const Net& N, const Data& D, size_t j, size_t B) const {
    const Design& d = designs[N.d];
    double e = 0;
    for (size_t row = j; row < j + B; row++) {
      std::vector<double> p = forward(N, D, row);
      const double* y = &D.y.v[row * N.out()];
      if (d.soft) { double s = 0; for (double& q : p) s += q = exp(q); for (double& q : p) q /= s; }
      for (size_t i = 0; i < p.size(); i++) e += d.err == E_SQ ? (p[i] - y[i]) * (p[i] - y[i]) : -y[i] * log(p[i]);
    }
    if (d.l2 != 0) for (size_t l = 0; l < N.W.size(); l++) { for (double q : N.W[l].v) e += d.l2 * q * q; for (double q : N.b[l].v) e += d.l2 * q * q; }
    return e;
  }
  // smallest and largest percentage a correct count may give (they differ when two classes are tied)
  void expected_accuracy(const Net& N, const Data& D, size_t n, size_t of, double& lo, double& hi) const {
    size_t sure = 0, maybe = 0;
    for (size_t row = 0; row < n; row++) {
      std::vector<double> p = forward(N, D, row), y(D.y.v.begin() + row * N.out(), D.y.v.begin() + (row + 1) * N.out());
      auto best = [](const std::vector<double>& q, bool& tie) { size_t b = 0; for (size_t i = 1; i < q.size(); i++) if (q[i] > q[b]) b = i; tie = false; for (size_t i = 0; i < q.size(); i++) if (i != b && !(q[b] - q[i] > 1e-9 * (1 + fabs(q[b])))) tie = true; return b; };
      bool tp, ty; size_t bp = best(p, tp), by = best(y, ty);
      if (tp || ty) maybe++; else if (bp == by) sure++;
    }
    lo = 100.0 * sure / of; hi = 100.0 * (sure + maybe) / of;
  }
  void judge_accuracy(const Net& N, const Data& D, double a, double tol, const char* what, size_t B) {
    double lo, hi;
    size_t n = D.x.r;
    expected_accuracy(N, D, n, n, lo, hi);
    checks++;
    ctx.count("accuracies");
    // listed finding: the last batch is skipped and the rows before it are the divisor; any other wrong value is reported
    if (!plan.get("finding")) {
      double l2, h2;
      if (B == n) { if (a != a) { ctx.count("accuracies_known_wrong"); return; } }
      else { expected_accuracy(N, D, (n - 1) / B * B, n - B, l2, h2); if (a >= l2 - tol && a <= h2 + tol) { if (!(a >= lo - tol && a <= hi + tol)) ctx.count("accuracies_known_wrong"); return; } }
    }
    if (!(a >= lo - tol && a <= hi + tol)) ctx.fail("wrong-accuracy", "%s of %zu rows in batches of %zu (%s) is %.9g %%, counted by hand %.9g %%", what, D.x.r, B, designs[N.d].name, a, lo);
  }
  // one mini-batch of plain gradient descent
  void step(Net& N, const Data& D, size_t j, size_t B, double alpha) {
    const Design& d = designs[N.d];
    size_t L = N.dim.size() - 1;
    std::vector<Mat> gW, gb;
    for (size_t l = 0; l < L; l++) { gW.emplace_back(N.W[l].r, N.W[l].c); gb.emplace_back(N.b[l].r, 1); }
    for (size_t row = j; row < j + B; row++) {
      std::vector<std::vector<double>> a(L + 1), z(L);
      a[0].assign(D.x.v.begin() + row * D.x.c, D.x.v.begin() + (row + 1) * D.x.c);
      for (size_t l = 0; l < L; l++) {
        z[l].assign(N.W[l].r, 0); a[l + 1].assign(N.W[l].r, 0);
        for (size_t o = 0; o < N.W[l].r; o++) {
          double s = N.b[l].v[o];
          for (size_t i = 0; i < N.W[l].c; i++) s += a[l][i] * N.W[l].at(o, i);
          z[l][o] = s; a[l + 1][o] = act(d.act[l], s);
        }
      }
      size_t M = N.out();
      std::vector<double> g(M);
      const double* y = &D.y.v[row * M];
      std::vector<double> p = a[L];
      if (d.soft) { double s = 0; for (double& q : p) s += q = exp(q); for (double& q : p) q /= s; }
      std::vector<double> gp(M);
      for (size_t i = 0; i < M; i++) gp[i] = d.err == E_SQ ? 2 * (p[i] - y[i]) : -y[i] / p[i];
      if (d.soft) { double s = 0; for (size_t i = 0; i < M; i++) s += gp[i] * p[i]; for (size_t i = 0; i < M; i++) g[i] = p[i] * (gp[i] - s); }
      else g = gp;
      for (size_t l = L; l-- > 0;) {
        std::vector<double> dz(N.W[l].r), ga(N.W[l].c, 0.0);
        for (size_t o = 0; o < N.W[l].r; o++) {
          dz[o] = g[o] * dact(d.act[l], z[l][o]);
          gb[l].v[o] += dz[o];
          for (size_t i = 0; i < N.W[l].c; i++) { gW[l].at(o, i) += dz[o] * a[l][i]; ga[i] += dz[o] * N.W[l].at(o, i); }
        }
        g = ga;
      }
    }
    for (size_t l = 0; l < L; l++) {
      for (size_t k = 0; k < gW[l].v.size(); k++) N.W[l].v[k] += alpha * (gW[l].v[k] + 2 * d.l2 * N.W[l].v[k]);
      for (size_t k = 0; k < gb[l].v.size(); k++) N.b[l].v[k] += alpha * (gb[l].v[k] + 2 * d.l2 * N.b[l].v[k]);
    }
  }
  void compare(Net& N, int id, bool reference, const char* when) {
    for (size_t l = 0; l + 1 < N.dim.size(); l++) for (int wb = 0; wb < 2; wb++) {
      MT& M = wb ? N.n->b(l) : N.n->w(l); Mat& R = wb ? N.b[l] : N.W[l];
      size_t r = (size_t)ctx.obs(M.getNumRows()), c = (size_t)ctx.obs(M.getNumColumns());
      if (r != M.getNumRows() || c != M.getNumColumns()) ctx.fail("schedule-changes-shape", "%s of layer %zu is %zux%zu, without threads %zux%zu", wb ? "bias" : "weights", l, M.getNumRows(), M.getNumColumns(), r, c);
      if (r != R.r || c != R.c) ctx.fail("wrong-shape", "%s of layer %zu is %zux%zu", wb ? "bias" : "weights", l, r, c);
      for (size_t k = 0; k < R.v.size(); k++) {
        double x = (double)M.getMatrixPtr()[k], w = ctx.obs(x);
        checks++;
        ctx.h(x);
        if (!(fabs(x - w) <= 1e-10 * (1 + fabs(w)))) ctx.fail("schedule-changes-training", "%s: %s %zu of layer %zu of network %d (%s) is %.12g with threads, %.12g without", when, wb ? "bias" : "weight", k, l, id, designs[N.d].name, x, w);
        if (reference && N.known && !(fabs(x - R.v[k]) <= 1e-7 * (1 + fabs(R.v[k])))) ctx.fail("wrong-update", "%s: %s %zu of layer %zu of network %d (%s) is %.12g, plain gradient descent gives %.12g", when, wb ? "bias" : "weight", k, l, id, designs[N.d].name, x, R.v[k]);
      }
    }
    read(N);
  }
  void make_data(Data& D, size_t n, size_t in, size_t out, Rng& g) {
    D.x = Mat(n, in); D.y = Mat(n, out);
    for (double& q : D.x.v) q = (double)g.range(-64, 64) / 48.0;
    for (size_t i = 0; i < n; i++) if (g.chance(0.7)) D.y.at(i, g.below(out)) = 1; else for (size_t k = 0; k < out; k++) D.y.at(i, k) = (double)g.range(1, 40) / 40.0;
    MT *X = nullptr, *Y = nullptr;
    ctx.api([&] { X = new MT(n, in); Y = new MT(n, out); });
    for (size_t k = 0; k < D.x.v.size(); k++) X->getMatrixPtr()[k] = (Type)D.x.v[k];
    for (size_t k = 0; k < D.y.v.size(); k++) Y->getMatrixPtr()[k] = (Type)D.y.v[k];
    D.X = X; D.Y = Y;   // earlier data stay alive: expressions of the past point at them
  }
  void weights(Net& N, Rng& g) {
    for (size_t l = 0; l + 1 < N.dim.size(); l++) {
      for (size_t k = 0; k < N.W[l].v.size(); k++) N.n->w(l).getMatrixPtr()[k] = (Type)((double)g.range(-60, 60) / 83.0);
      for (size_t k = 0; k < N.b[l].v.size(); k++) N.n->b(l).getMatrixPtr()[k] = (Type)((double)g.range(-60, 60) / 97.0);
    }
    read(N);
  }
  void step(const Op& op);
  void unchanged(Net& N, Data& D, const char* what) {
    for (size_t l = 0; l + 1 < N.dim.size(); l++) {
      for (size_t k = 0; k < N.W[l].v.size(); k++) if ((double)N.n->w(l).getMatrixPtr()[k] != N.W[l].v[k]) ctx.fail("weights-changed", "%s changed weight %zu of layer %zu", what, k, l);
      for (size_t k = 0; k < N.b[l].v.size(); k++) if ((double)N.n->b(l).getMatrixPtr()[k] != N.b[l].v[k]) ctx.fail("weights-changed", "%s changed bias %zu of layer %zu", what, k, l);
    }
    for (size_t k = 0; k < D.x.v.size(); k++) if ((double)D.X->getMatrixPtr()[k] != D.x.v[k]) ctx.fail("data-changed", "%s changed its input data", what);
    for (size_t k = 0; k < D.y.v.size(); k++) if ((double)D.Y->getMatrixPtr()[k] != D.y.v[k]) ctx.fail("data-changed", "%s changed its labels", what);
  }
  void report(const Op& op, Net& N, Data& D, size_t n, size_t B, size_t ep, double rate, bool st);
  void operators(const Op& op);
  void run();
};

void World::operators(const Op& op) {
  Rng g(op.r);
  int n = 2 + (int)g.below(5);
  struct Job { int kind; const MT *a, *b; MT* out; double s; size_t p[4]; };
  std::vector<Job> jobs;
  static const char* kn[] = {"MatrixAdd", "MatrixSub", "MatrixMul", "MatrixHadamard", "MatrixKron", "MatrixScalarAdd", "MatrixScalarMul", "MatrixTranspose", "MatrixDervTranspose", "MatrixUnary", "MatrixInverse", "MatrixDet", "MatrixTrace", "ResetZero"};
  int only = g.chance(0.4) ? (int)g.below(14) : -1;   // often the same operator everywhere: it has state if anything has
  // pool: 0-2: 3x3, 3-4: 2x3, 5: 4x4, 6: 3x2, 7: 6x6 (derivative of a 3x3 by a 2x2)
  for (int i = 0; i < n; i++) {
    Job j{}; j.kind = only >= 0 ? only : (int)g.below(14); j.s = (double)g.range(-20, 20) / 8.0;
    bool big = g.chance(0.5);
    size_t r = 3, c = 3;
    j.a = pool[g.below(3)]; j.b = pool[g.below(3)];
    switch (j.kind) {
      case 0: case 1: case 3: if (big) { j.a = pool[3 + g.below(2)]; j.b = pool[3 + g.below(2)]; r = 2; } break;
      case 2: if (big) { j.a = pool[3 + g.below(2)]; j.b = g.chance(0.5) ? pool[6] : pool[g.below(3)]; r = 2; c = j.b->getNumColumns(); } break;
      case 4: j.b = pool[3 + g.below(2)]; r = 6; c = 9; break;
      case 5: case 6: case 9: j.p[0] = g.below(3); if (big) { j.a = pool[5]; r = c = 4; } break;
      case 7: if (big) { j.a = pool[3]; r = 3; c = 2; } break;
      case 8: j.a = pool[7]; r = c = 6; j.p[0] = j.p[1] = 3; j.p[2] = j.p[3] = 2; break;
      case 10: if (!eigen) j.kind = 0; else if (big) { j.a = pool[5]; r = c = 4; } break;
      case 11: if (!eigen) { j.kind = 12; } else if (big) j.a = pool[5]; r = c = 1; break;
      case 12: if (big) j.a = pool[5]; r = c = 1; break;
      case 13: break;
    }
    ctx.api([&] { j.out = new MT(r, c, (Type)7.5); });
    jobs.push_back(j);
  }
  auto body = [&](Job& j) {
    MT* out = j.out;
    switch (j.kind) {
      case 0: MO::MatrixAdd(j.a, j.b, out); break;
      case 1: MO::MatrixSub(j.a, j.b, out); break;
      case 2: MO::MatrixMul(j.a, j.b, out); break;
      case 3: MO::MatrixHadamard(j.a, j.b, out); break;
      case 4: MO::MatrixKron(j.a, j.b, out); break;
      case 5: MO::MatrixScalarAdd((Type)j.s, j.a, out); break;
      case 6: MO::MatrixScalarMul((Type)j.s, j.a, out); break;
      case 7: MO::MatrixTranspose(j.a, out); break;
      case 8: MO::MatrixDervTranspose(j.p[0], j.p[1], j.p[2], j.p[3], j.a, out); break;
      case 9: { static const FunctionType f[] = {[](Type t) { return (Type)(t * t + 1); }, [](Type t) { return (Type)(3 - t); }, [](Type t) { return (Type)tanh(t); }}; MO::MatrixUnary(j.a, f[j.p[0] % 3], out); break; }
      case 10: MO::MatrixInverse(j.a, out); break;
      case 11: MO::MatrixDet(j.a, out); break;
      case 12: MO::MatrixTrace(j.a, out); break;
      case 13: T2::Details::ResetZero(out); break;
    }
    j.out = out;
  };
  ctx.api([&] {
    if (sequential()) for (Job& j : jobs) body(j);
    else {
      std::vector<std::thread> th;
      for (Job& j : jobs) th.emplace_back([&body, &j] { body(j); });
      for (auto& t : th) t.join();
    }
  });
  for (Job& j : jobs) {
    size_t m = (size_t)ctx.obs(j.out->getNumElem());
    checks++;
    ctx.s(j.kind);
    if (m != j.out->getNumElem()) ctx.fail("operators-interfere", "%s gave %zu elements, alone %zu", kn[j.kind], j.out->getNumElem(), m);
    for (size_t k = 0; k < m; k++) { double x = (double)j.out->getMatrixPtr()[k], w = ctx.obs(x); ctx.h(x); if (!(fabs(x - w) <= 1e-10 * (1 + fabs(w)))) ctx.fail("operators-interfere", "%s beside %zu other operators gave %.12g at element %zu, alone %.12g", kn[j.kind], jobs.size() - 1, x, k, w); }
  }
  ctx.count("concurrent_operators", jobs.size());
}

// a training run whose printed statistics are read: loss before each update, accuracy after each epoch
void World::report(const Op& op, Net& N, Data& D, size_t n, size_t B, size_t ep, double rate, bool st) {
  if (ctx.verbose) ctx.note("   %s, %zu rows in batches of %zu, %zu epochs, rate %g%s", designs[N.d].name, n, B, ep, rate, st ? ", statistics" : "");
  std::ostringstream out;
  std::streambuf* old = std::cout.rdbuf(out.rdbuf());
  bool done = ctx.api([&] { N.n->batch(B); N.n->train(*D.X, *D.Y, rate, ep, false, st); }, op.fault);
  std::cout.rdbuf(old);
  Net before = N;
  read(N);
  double big = 0, far = 0;
  for (auto& W : N.W) for (double q : W.v) big = std::max(big, fabs(q));
  if (!done || !(big < 30)) { ctx.count(done ? "weights_diverged" : "training_failed"); if (!(big < 30)) { Rng g(op.r + 7); weights(N, g); } return; }
  if (!st) return;
  // what is printed
  std::vector<double> L, A;
  std::string s = out.str();
  for (size_t p = 0; (p = s.find("[LOSS VALUE]:", p)) != std::string::npos; p++) L.push_back(atof(s.c_str() + p + 13));
  for (size_t p = 0; (p = s.find("[ACCURACY]:", p)) != std::string::npos; p++) A.push_back(atof(s.c_str() + p + 11));
  ctx.count("statistics_lines", A.size());
  if (A.size() == ep) judge_accuracy(N, D, A.back(), 1.1e-6, "accuracy printed after the last epoch", B);
  if (designs[N.d].drop != 0) return;
  Net ref = before;
  std::vector<double> el; std::vector<Net> at;
  for (size_t e = 0; e < ep; e++) {
    double sum = 0;
    for (size_t j = 0; j < n; j += B) { if (j + B > n) j = n - B; sum += loss(ref, D, j, B); step(ref, D, j, B, rate / (double)B); }
    el.push_back(sum); at.push_back(ref);
  }
  for (size_t l = 0; l < N.W.size(); l++) for (size_t k = 0; k < N.W[l].v.size(); k++) far = std::max(far, fabs(N.W[l].v[k] - ref.W[l].v[k]) / (1 + fabs(ref.W[l].v[k])));
  if (!(far < 1e-9)) { ctx.count("training_off_reference"); return; }   // another property's business
  for (size_t e = 0; e < ep; e++) {
    if (e + 1 < A.size()) judge_accuracy(at[e], D, A[e], 1.1e-6, "accuracy printed between epochs", B);
    if (L.size() == ep) { checks++; ctx.count("losses"); if (!(fabs(L[e] - el[e]) <= 1.1e-6 + 1e-6 * fabs(el[e]))) ctx.fail("wrong-loss", "loss printed for epoch %zu of %zu rows in batches of %zu (%s) is %.9g, computed by hand %.9g", e, n, B, designs[N.d].name, L[e], el[e]); }
  }
}

void World::step(const Op& op) {
  Rng g(op.r);
  size_t id = op.a % nets.size();
  Net& N = nets[id]; Data& D = data[id];
  switch (op.kind) {
    case O_NET: {
      N = Net();
      N.d = (int)(op.b % ND);
      size_t L = designs[N.d].act.size();
      for (size_t l = 0; l <= L; l++) N.dim.push_back(1 + g.below(4));
      if (N.dim.back() == 1 && designs[N.d].soft) N.dim.back() = 2;
      size_t in = N.dim.front(), out = N.dim.back();
      ctx.api([&] {
        switch (N.d) {
          case 0: N.n = new NetOf<Net0>(in, out); break;
          case 1: N.n = new NetOf<Net1>(in, out); break;
          case 2: N.n = new NetOf<Net2>(in, out); break;
          case 3: N.n = new NetOf<Net3>(in, out); break;
          case 4: N.n = new NetOf<Net4>(in, out); break;
          default: N.n = new NetOf<Net5>(in, out);
        }
        for (size_t l = 0; l < L; l++) {
          if (op.c & 1) N.n->add(Layer::LayerFactory::CreateLayer<UniformDistribution>(N.dim[l + 1], N.dim[l], (Type)-0.5, (Type)0.5));
          else N.n->add(N.dim[l + 1] == N.dim[l] && (op.c & 2) ? Layer::LayerFactory::CreateLayer(N.dim[l]) : Layer::LayerFactory::CreateLayer(N.dim[l + 1], N.dim[l]));
        }
      });
      for (size_t l = 0; l < L; l++) { N.W.emplace_back(N.dim[l + 1], N.dim[l]); N.b.emplace_back(N.dim[l + 1], 1); }
      if (!(op.c & 1)) weights(N, g);
      read(N);
      make_data(D, 2 + g.below(7), in, out, g);
      ctx.count("networks");
      break;
    }
    case O_DATA: if (N.n) make_data(D, 2 + g.below(7), N.in(), N.out(), g); break;
    case O_WEIGHTS: if (N.n) weights(N, g); break;
    case O_TRAIN: {
      if (!N.n) break;
      size_t n = D.x.r, B = 1 + g.below(n), ep = 1 + g.below(3);
      if (n / B > 4 && ep > 1) ep = 1;
      static const double rates[] = {-0.01, -0.1, -0.4, -1};
      double rate = rates[g.below(4)];
      bool st = g.chance(0.3), th = g.chance(0.9);
      if (prop == "C20") { report(op, N, D, n, B, ep, rate, st); break; }
      if (ctx.verbose) ctx.note("   %s, %zu rows in batches of %zu, %zu epochs, rate %g%s", designs[N.d].name, n, B, ep, rate, st ? ", statistics" : "");
      ctx.api([&] { N.n->batch(B); N.n->train(*D.X, *D.Y, rate, ep, th && !sequential(), st); });
      bool ref = designs[N.d].drop == 0;
      if (ref) for (size_t e = 0; e < ep; e++) for (size_t j = 0; j < n; j += B) { if (j + B > n) j = n - B; step(N, D, j, B, rate / (double)B); }
      double big = 0;
      for (auto& W : N.W) for (double q : W.v) big = std::max(big, fabs(q));
      compare(N, (int)id, ref && big < 30, "after training");
      // operands are read only
      for (size_t k = 0; k < D.x.v.size(); k++) if ((double)D.X->getMatrixPtr()[k] != D.x.v[k]) ctx.fail("data-changed", "training changed its input data");
      for (size_t k = 0; k < D.y.v.size(); k++) if ((double)D.Y->getMatrixPtr()[k] != D.y.v[k]) ctx.fail("data-changed", "training changed its labels");
      if (big > 30) weights(N, g);
      ctx.count("epochs", ep); ctx.count("batches", ep * ((n + B - 1) / B));
      break;
    }
    case O_ACC: {
      if (!N.n || D.x.r < 2) break;
      double a = 0;
      if (prop == "C20") {
        size_t B = 1 + g.below(D.x.r);
        if (!ctx.api([&] { a = N.n->accuracy(*D.X, *D.Y, B); }, op.fault)) { ctx.count("accuracy_failed"); break; }
        if (ctx.verbose) ctx.note("   %zu rows in batches of %zu: %g %%", D.x.r, B, a);
        judge_accuracy(N, D, a, 1e-6, "accuracy", B);
        unchanged(N, D, "measuring the accuracy");
        ctx.h(a);
        break;
      }
      ctx.api([&] { a = N.n->accuracy(*D.X, *D.Y, 1); });
      double w = ctx.obs(a);
      if (a != w) ctx.fail("schedule-changes-training", "accuracy of network %zu is %.9g with threads, %.9g without", id, a, w);
      checks++;
      compare(N, (int)id, true, "after measuring the accuracy");
      break;
    }
    case O_BACKEND: eigen = op.b & 1; GP::setCPUHandler(eigen ? GP::CPUHandlerType::EIGEN : GP::CPUHandlerType::NAIVE); ctx.count("backend_switches"); break;
    case O_OPS: operators(op); break;
  }
}

void World::run() {
  Rng g(plan.get("wseed"));
  nets.resize(2); data.resize(2);
  eigen = plan.get("eigen");
  GP::setCPUHandler(eigen ? GP::CPUHandlerType::EIGEN : GP::CPUHandlerType::NAIVE);
  static const size_t R[] = {3, 3, 3, 2, 2, 4, 3, 6}, Cc[] = {3, 3, 3, 3, 3, 4, 2, 6};
  for (int i = 0; i < 8; i++) {
    MT* m = nullptr;
    ctx.api([&] { m = new MT(R[i], Cc[i]); });
    for (size_t k = 0; k < R[i] * Cc[i]; k++) m->getMatrixPtr()[k] = (Type)((double)g.range(-30, 30) / 8.0 + (k % (Cc[i] + 1) == 0 ? 6.5 : 0));
    pool.push_back(m);
  }
  for (size_t k = 0; k < plan.ops.size(); k++) {
    const Op& op = plan.ops[k];
    ctx.shm->cur_op = (int)k;
    ctx.desc = describe_op(op);
    if (ctx.verbose) ctx.note("%zu: %s", k, ctx.desc.c_str());
    ctx.s(op.kind * 64 + op.a % 2 * 8 + op.b % 8);
    step(op);
  }
  if (*mem::corrupt) ctx.fail("memory-corruption", "%s", mem::corrupt);
  ctx.count("checks", checks);
  ctx.shm->nontrivial = checks >= (prop == "C20" ? 2 : 4);
}

struct Wl : Workload {
  Plan generate(Rng& g, const std::string& prop, bool thorough) override {
    Plan p;
    p.cfg["wseed"] = g.below(1000000); p.cfg["eigen"] = g.below(2);
    int n = 3 + g.below(thorough ? 14 : 7);
    bool acc = prop == "C20";
    if (acc) n = 4 + g.below(thorough ? 20 : 12);
    std::vector<int> w = acc ? std::vector<int>{2, 4, 3, 3, 7, 1, 0} : std::vector<int>{2, 7, 2, 2, 1, 1, 4};
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < n; i++) {
      Op o; int x = g.below(tot), k = 0; while (x >= w[k]) x -= w[k++]; o.kind = i ? k : O_NET;
      o.a = g.chance(0.7) ? 0 : 1; if (!i) o.a = 0;
      o.b = g.below(64); o.c = g.below(8); o.d = g.below(8); o.r = g.next() >> 16;
      if (acc && (o.kind == O_ACC || o.kind == O_TRAIN) && g.chance(0.15)) o.fault = 1 + g.below(g.chance(0.5) ? 12 : 120);
      p.ops.push_back(o);
    }
    return p;
  }
  void execute(const Plan& plan, Ctx& ctx, const std::string& prop) override { World* w = new World(plan, ctx, prop); w->run(); }
  bool paired(const Plan&, const std::string& prop) override { return prop == "C12"; }
  bool sequential_judged(const std::string& prop) override { return prop == "C12"; }
  std::string describe(const Op& op) override { return describe_op(op); }
};
int main(int argc, char** argv) { Wl w; return driver_main(argc, argv, w, "nnet"); }
