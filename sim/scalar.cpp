// Scalar workload: several clients share one graph of variables, parameters and expressions; the seeded scheduler
// interleaves their definitions, updates, evaluations and differentiations (and allocation failures); an independent
// reference (explicit DAG, symbolic rules + dual numbers) says what every answer must be.
#include "CoolDiff.hpp"
#include "simcore.hpp"
#include <cmath>
#include <complex>
#include <memory>
#include <unordered_map>
#include <variant>

using namespace sim;
using C = std::complex<double>;
namespace T1 = CoolDiff::TensorR1;
namespace T2 = CoolDiff::TensorR2;

#if defined(USE_COMPLEX_MATH)
static constexpr bool CPLX = true;
static Type mk(C z) { return Type(z.real(), z.imag()); }
static C un(const Type& t) { return C(t.real(), t.imag()); }
#else
static constexpr bool CPLX = false;
static Type mk(C z) { return (Type)z.real(); }
static C un(const Type& t) { return C(t, 0); }
#endif

// ------------------------------------------------------------------ reference graph
enum RK { kKONST, kRVAR, kRPAR, kREXP, kADD, kSUB, kMUL, kDIV, kPOW, kNEG, kSIN, kCOS, kTAN, kSINH, kCOSH, kTANH, kASIN, kACOS, kATAN, kASINH, kACOSH, kATANH, kSQRT, kEXP, kLOG };
struct Obj;
struct Node { RK k; Node* a = nullptr; Node* b = nullptr; C c{}; int i = 0; Obj* o = nullptr; };
static std::vector<std::unique_ptr<Node>> g_nodes;
static Node* mkn(RK k, Node* a = nullptr, Node* b = nullptr) { g_nodes.emplace_back(new Node{k, a, b}); return g_nodes.back().get(); }
static Node* kn(C c) { Node* n = mkn(kKONST); n->c = c; return n; }

struct Obj {
  Expression* e = nullptr;
  Node* def = nullptr;
  uint64_t ver = 1;
  bool handle = false;          // symbolic derivative handed out by the library
  bool symdone = false;
  std::vector<std::pair<Obj*, uint64_t>> deps;   // handle: definitions it was derived from
  uint64_t varver = 0;                           // handle: variable-binding version it was derived at
  int id = 0;
};

static const int MAXC = 16;  // variable cells
static int g_varcell[32];   // variable object -> cell
static int g_parcell[32];
static C g_cell[32], g_pcell[32];

struct Val { C v; C g[MAXC]; };
struct Ref {
  int nc;
  bool ok = true;
  double mag = 1;
  std::unordered_map<Node*, Val> memo;
  std::set<Node*> onpath;
  explicit Ref(int n) : nc(n) {}
  void lim(C z, double m = 300) { double a = std::abs(z); if (!(a < m)) ok = false; else if (a > mag) mag = a; }
  static bool axis(C u, double eps) { return u.real() <= eps && std::fabs(u.imag()) < eps; }  // near (-inf,0]
  const Val& ev(Node* n) {
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    Val r{};
    if (!ok) { return memo[n] = r; }
    switch (n->k) {
      case kKONST: r.v = n->c; break;
      case kRVAR: r.v = g_cell[g_varcell[n->i]]; r.g[g_varcell[n->i]] = 1; break;
      case kRPAR: r.v = g_pcell[g_parcell[n->i]]; break;
      case kREXP: r = ev(n->o->def); break;
      default: {
        Val a = ev(n->a);
        if (!ok) break;
        Val b{};
        if (n->b) b = ev(n->b);
        if (!ok) break;
        C u = a.v, w = b.v, da = 0, db = 0;
        switch (n->k) {
          case kADD: r.v = u + w; da = 1; db = 1; break;
          case kSUB: r.v = u - w; da = 1; db = -1; break;
          case kMUL: r.v = u * w; da = w; db = u; break;
          case kDIV: if (std::abs(w) < 0.02) ok = false; r.v = u / w; da = C(1) / w; db = -u / (w * w); break;
          case kPOW: {
            bool kexp = n->b->k == kKONST;
            bool intexp = kexp && n->b->c.imag() == 0 && n->b->c.real() == std::floor(n->b->c.real());
            if (std::abs(u) < 0.02) ok = false;
            if (CPLX ? axis(u, 0.02) : (u.real() < 0.02 && !intexp)) ok = false;
            if (!CPLX) r.v = C(std::pow(u.real(), w.real()), 0); else r.v = std::pow(u, w);
            da = w / u * r.v; db = kexp ? C(0) : std::log(u) * r.v;
            break;
          }
          case kNEG: r.v = -u; da = -1; break;
          case kSIN: r.v = std::sin(u); da = std::cos(u); break;
          case kCOS: r.v = std::cos(u); da = -std::sin(u); break;
          case kTAN: { C c = std::cos(u); if (std::abs(c) < 0.05) ok = false; r.v = std::tan(u); da = C(1) / (c * c); break; }
          case kSINH: r.v = std::sinh(u); da = std::cosh(u); break;
          case kCOSH: r.v = std::cosh(u); da = std::sinh(u); break;
          case kTANH: { C c = std::cosh(u); if (std::abs(c) < 0.05) ok = false; r.v = std::tanh(u); da = C(1) / (c * c); break; }
          case kASIN: if (std::abs(u) > 0.93) ok = false; r.v = std::asin(u); da = C(1) / std::sqrt(C(1) - u * u); break;
          case kACOS: if (std::abs(u) > 0.93) ok = false; r.v = std::acos(u); da = C(-1) / std::sqrt(C(1) - u * u); break;
          case kATAN: if (std::abs(u.imag()) > 0.9) ok = false; r.v = std::atan(u); da = C(1) / (C(1) + u * u); break;
          case kASINH: if (std::abs(u.imag()) > 0.9) ok = false; r.v = std::asinh(u); da = C(1) / std::sqrt(C(1) + u * u); break;
          case kACOSH: if (u.real() < 1.05) ok = false; r.v = std::acosh(u); da = C(1) / (std::sqrt(u - C(1)) * std::sqrt(u + C(1))); break;
          case kATANH: if (std::abs(u) > 0.93) ok = false; r.v = std::atanh(u); da = C(1) / (C(1) - u * u); break;
          case kSQRT: if (std::abs(u) < 0.02 || (CPLX ? axis(u, 0.02) : u.real() < 0.02)) ok = false; r.v = std::sqrt(u); da = C(0.5) / r.v; break;
          case kEXP: r.v = std::exp(u); da = r.v; break;
          case kLOG: if (std::abs(u) < 0.02 || (CPLX ? axis(u, 0.02) : u.real() < 0.02)) ok = false; r.v = std::log(u); da = C(1) / u; break;
          default: break;
        }
        lim(r.v); lim(da, 3000); lim(db, 3000);
        for (int i = 0; i < nc; i++) r.g[i] = da * a.g[i] + (n->b ? db * b.g[i] : C(0));
        for (int i = 0; i < nc; i++) lim(r.g[i], 3000);
      }
    }
    return memo[n] = r;
  }
};

struct Obj; static std::string show(Node* n);
static std::string show(Node* n) {
  static const char* nm[] = {"", "", "", "", "+", "-", "*", "/", "pow", "-", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan", "asinh", "acosh", "atanh", "sqrt", "exp", "log"};
  char b[64];
  switch (n->k) {
    case kKONST: snprintf(b, 64, "%.3g%+.3gi", n->c.real(), n->c.imag()); return b;
    case kRVAR: return "x" + std::to_string(n->i);
    case kRPAR: return "p" + std::to_string(n->i);
    case kREXP: return "E" + std::to_string(n->o->id);
    case kADD: case kSUB: case kMUL: case kDIV: return "(" + show(n->a) + nm[n->k] + show(n->b) + ")";
    case kPOW: return "pow(" + show(n->a) + "," + show(n->b) + ")";
    default: return std::string(nm[n->k]) + "(" + show(n->a) + ")";
  }
}

// symbolic differentiation on reference nodes (textbook rules); cell = variable cell
struct SymRef {
  int cell;
  std::unordered_map<Node*, Node*> memo;
  Node* zero; Node* one;
  explicit SymRef(int c) : cell(c) { zero = kn(0); one = kn(1); }
  Node* add(Node* a, Node* b) { return a == zero ? b : b == zero ? a : mkn(kADD, a, b); }
  Node* mul(Node* a, Node* b) { return a == zero || b == zero ? zero : a == one ? b : b == one ? a : mkn(kMUL, a, b); }
  Node* d(Node* n) {
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    Node* r = zero;
    Node* u = n->a; Node* w = n->b;
    auto in = [&](Node* f) { return mul(d(u), f); };
    auto one_m_sq = [&] { return mkn(kSUB, one, mkn(kMUL, u, u)); };
    auto one_p_sq = [&] { return mkn(kADD, one, mkn(kMUL, u, u)); };
    switch (n->k) {
      case kKONST: case kRPAR: break;
      case kRVAR: r = g_varcell[n->i] == cell ? one : zero; break;
      case kREXP: r = d(n->o->def); break;
      case kADD: r = add(d(u), d(w)); break;
      case kSUB: r = d(w) == zero ? d(u) : mkn(kSUB, d(u), d(w)); break;
      case kMUL: r = add(mul(d(u), w), mul(u, d(w))); break;
      case kDIV: { Node* num = mkn(kSUB, mul(d(u), w), mul(u, d(w))); r = (d(u) == zero && d(w) == zero) ? zero : mkn(kDIV, num, mkn(kMUL, w, w)); break; }
      case kPOW: {
        Node* t1 = d(u) == zero ? zero : mul(mkn(kMUL, mkn(kDIV, w, u), n), d(u));
        Node* t2 = (w->k == kKONST || d(w) == zero) ? zero : mul(mkn(kMUL, mkn(kLOG, u), n), d(w));
        r = add(t1, t2); break;
      }
      case kNEG: r = d(u) == zero ? zero : mkn(kNEG, d(u)); break;
      case kSIN: r = in(mkn(kCOS, u)); break;
      case kCOS: r = in(mkn(kNEG, mkn(kSIN, u))); break;
      case kTAN: r = in(one_p_sq_of(n)); break;
      case kSINH: r = in(mkn(kCOSH, u)); break;
      case kCOSH: r = in(mkn(kSINH, u)); break;
      case kTANH: r = in(mkn(kSUB, one, mkn(kMUL, n, n))); break;
      case kASIN: r = in(mkn(kDIV, one, mkn(kSQRT, one_m_sq()))); break;
      case kACOS: r = in(mkn(kNEG, mkn(kDIV, one, mkn(kSQRT, one_m_sq())))); break;
      case kATAN: r = in(mkn(kDIV, one, one_p_sq())); break;
      case kASINH: r = in(mkn(kDIV, one, mkn(kSQRT, one_p_sq()))); break;
      case kACOSH: r = in(mkn(kDIV, one, mkn(kSQRT, mkn(kSUB, mkn(kMUL, u, u), one)))); break;
      case kATANH: r = in(mkn(kDIV, one, one_m_sq())); break;
      case kSQRT: r = in(mkn(kDIV, kn(0.5), n)); break;
      case kEXP: r = in(n); break;
      case kLOG: r = in(mkn(kDIV, one, u)); break;
    }
    memo[n] = r;
    return r;
  }
  Node* one_p_sq_of(Node* n) { return mkn(kADD, one, mkn(kMUL, n, n)); }
};

// ------------------------------------------------------------------ one formula text for library and reference
struct RN { Node* n; };
static RN R(Node* n) { return RN{n}; }
#define RBIN(op, K) \
  static RN operator op(RN a, RN b) { return R(mkn(K, a.n, b.n)); } \
  static RN operator op(RN a, const Type& b) { return R(mkn(K, a.n, kn(un(b)))); } \
  static RN operator op(const Type& a, RN b) { return R(mkn(K, kn(un(a)), b.n)); }
RBIN(+, kADD) RBIN(-, kSUB) RBIN(*, kMUL) RBIN(/, kDIV)
static RN operator-(RN a) { return R(mkn(kNEG, a.n)); }
static RN pow(RN a, RN b) { return R(mkn(kPOW, a.n, b.n)); }
static RN pow(RN a, const Type& b) { return R(mkn(kPOW, a.n, kn(un(b)))); }
static RN pow(const Type& a, RN b) { return R(mkn(kPOW, kn(un(a)), b.n)); }
#define RUN(f, K) static RN f(RN a) { return R(mkn(K, a.n)); }
RUN(sin, kSIN) RUN(cos, kCOS) RUN(tan, kTAN) RUN(sinh, kSINH) RUN(cosh, kCOSH) RUN(tanh, kTANH) RUN(asin, kASIN) RUN(acos, kACOS) RUN(atan, kATAN)
RUN(asinh, kASINH) RUN(acosh, kACOSH) RUN(atanh, kATANH) RUN(sqrt, kSQRT) RUN(exp, kEXP) RUN(log, kLOG)
RUN(SinS, kSIN) RUN(CosS, kCOS)
static RN ProductS(RN a, RN b) { return R(mkn(kMUL, a.n, b.n)); }

static Type tk(double re, double im = 0) { return mk(C(re, im)); }

// an unnamed node used several times
#define LET(t, body, x) ([&](const auto& t) -> decltype(auto) { return body; }(x))
// catalogue of composite formulas over three expression-or-variable operands
#define FORMS(X) \
  X(0,  sin(a * b) + c) \
  X(1,  (a + b) * (a - c)) \
  X(2,  exp(-(a * a)) * b) \
  X(3,  pow(a, tk(2)) / (b * b + tk(2))) \
  X(4,  a * b * c + a * a) \
  X(5,  tanh(a + b) * cosh(c * tk(0.3))) \
  X(6,  log(a * a + b * b + tk(3)) - c) \
  X(7,  sqrt(tk(4) + a * b) * c) \
  X(8,  (a - b) / (tk(3) + cos(c))) \
  X(9,  pow(tk(2) + sin(a), b) + c * tk(0.5)) \
  X(10, atan(a * tk(0.3)) + asin(b * tk(0.2)) * c) \
  X(11, acos(a * tk(0.2)) - asinh(b * tk(0.4)) + c) \
  X(12, sinh(a * tk(0.5)) * cos(b) - (-(c))) \
  X(13, atanh(a * tk(0.2)) * (b + tk(1)) * (c + tk(1))) \
  X(14, tk(1) / (tk(2) + exp(-(a))) + tk(2) * b - tk(0.25) * c) \
  X(15, acosh(tk(3) + a * tk(0.1)) * b + c) \
  X(16, tan(a * tk(0.2)) + pow(tk(2), b * tk(0.5)) - c * c * c) \
  X(17, tk(2) - a * (tk(3) - b) * tk(0.5) / (c * c + tk(4))) \
  X(18, sin(sin(sin(a) + b) * c)) \
  X(19, (a + a) * (a + a) - b * b + (c - c * a)) \
  X(20, LET(t, t * t + exp(t * tk(0.3)) * c, sin(a * b))) \
  X(21, LET(t, LET(u, u * t + cos(u) + u, t * tk(0.5) + a), a * b) + c) \
  X(22, LET(t, sin(t) / (t * t + tk(2)) - t * b, a + c)) \
  X(23, LET(t, pow(t, tk(2)) + t * (t + b), b - c * a)) \
  X(24, LET(t, (t + t) * (t - c) + (t * b + t), -(a) * b)) \
  X(25, LET(t, LET(u, LET(w, w * u + w * t + w, u - t * u), sin(t) + t), tanh(a + b * c)))
#define FORMS_NOSYM(X) \
  X(26, SinS(a) * b + c) \
  X(27, CosS(a * b) - c) \
  X(28, ProductS(a, b) + ProductS(b, c)) \
  X(29, SinS(CosS(a) + b) * ProductS(a, c)) \
  X(30, LET(t, SinS(t) * t + ProductS(t, c), a * b))
static const int NFORM = 31, NSYM = 26;

using Operand = std::variant<Variable*, Expression*, Parameter*, Type>;
struct Opn { Operand lib; Node* ref; Obj* obj; };

// every operator applied twice to the same unnamed node
#define SHARED(X) \
  X(0, sin(t) * (sin(t) + c)) X(1, cos(t) * (cos(t) + c)) X(2, tan(t) * (tan(t) + c)) X(3, sinh(t) * (sinh(t) + c)) X(4, cosh(t) * (cosh(t) + c)) \
  X(5, tanh(t) * (tanh(t) + c)) X(6, asin(t) * (asin(t) + c)) X(7, acos(t) * (acos(t) + c)) X(8, atan(t) * (atan(t) + c)) X(9, asinh(t) * (asinh(t) + c)) \
  X(10, acosh(t) * (acosh(t) + c)) X(11, atanh(t) * (atanh(t) + c)) X(12, sqrt(t) * (sqrt(t) + c)) X(13, exp(t) * (exp(t) + c)) X(14, log(t) * (log(t) + c)) \
  X(15, (-(t)) * (c - (-(t)))) X(16, (t + b) * (t + c)) X(17, (b + t) * (c + t)) X(18, (t - b) * (t - c)) X(19, (b - t) * (c - t)) X(20, (t * b) * (t * c)) \
  X(21, (b * t) + (c * t)) X(22, (t / b) * (t / c)) X(23, (b / t) + (c / t)) X(24, pow(t, b) * pow(t, c)) X(25, pow(b, t) * pow(c, t)) \
  X(26, (t + tk(2)) * (t + tk(3))) X(27, (tk(2) - t) * (tk(3) - t)) X(28, (t - tk(2)) * (t - tk(3))) X(29, (t * tk(2)) * (t * tk(3)) + c) X(30, (t / tk(2)) * (t / tk(3))) \
  X(31, (tk(2) / t) * (tk(3) / t)) X(32, pow(t, tk(2)) * pow(t, tk(3))) X(33, pow(tk(2), t) * pow(tk(3), t)) X(34, (t + t) * (t - t + b)) X(35, (t * t) * (t / t)) \
  X(36, pow(t, t) * (t * c))
#define SHARED_NOSYM(X) X(37, SinS(t) * (SinS(t) + c)) X(38, CosS(t) * (CosS(t) + c)) X(39, ProductS(t, b) * ProductS(t, c)) X(40, ProductS(b, t) + ProductS(c, t))
static const int NSHARED = 41, NSHSYM = 37;

// ------------------------------------------------------------------ world
struct World {
  const Plan& plan; Ctx& ctx; std::string prop;
  size_t maxsize = 160;
  bool special = false;            // data full of exact zeros, ones and powers of two
  int nv, np, ne, nvo;             // variables (cells), params, slots, variable objects (with aliases)
  std::vector<Variable*> vars;     // objects; several may alias one cell
  std::vector<Parameter*> pars;
  std::vector<std::unique_ptr<Obj>> objs;
  std::vector<Obj*> slots;
  std::vector<Obj*> handles;
  uint64_t varver = 0;
  uint64_t checks = 0, diff_checks = 0;
  bool want_eval, want_fwd, want_rev, want_sym, want_ni, want_fault, want_mem;
  // a reference to an unnamed node (auto& t = x * y), kept by a client and used in later definitions
  struct Held { Node* ref; std::function<void(int, Expression&, Variable&, Expression*&)> use; };
  std::vector<Held> held;
  static const int NUSE = 10;
  void hold(Rng g);
  Node* use_held(const Held& h, int how, Node* e, Node* v) {
    RN t = R(h.ref), E = R(e), x = R(v);
    switch (how) {
#define USES(X) X(0, t + E) X(1, t * x) X(2, x - t) X(3, sin(t)) X(4, t * t + E) X(5, E / (t * t + tk(3))) X(6, exp(t * tk(0.2)) - t) X(7, pow(t, tk(2)) * E) X(8, tk(2) * t + t * x) X(9, -(t))
#define X(i, expr) case i: return (expr).n;
      USES(X)
#undef X
    }
    return nullptr;
  }
  struct Snap { Obj* o; C g[MAXC]; bool have; bool ok; double mag; long id; };
  struct NiVal { long id; size_t what; C v; };  // id 0: a leaf, else the snapshot the value was read from
  long snapid = 0;
  std::vector<Snap> snaps;
  std::set<int> clients_seen;
  long cur_fault = 0;

  World(const Plan& p, Ctx& c, const std::string& pr) : plan(p), ctx(c), prop(pr) {
    want_eval = pr == "C01" || (pr == "C10" || pr == "C11"); want_fwd = pr == "C02" || (pr == "C10" || pr == "C11"); want_rev = pr == "C03" || (pr == "C10" || pr == "C11");
    want_sym = pr == "C04" || (pr == "C10" || pr == "C11"); want_ni = pr == "C09"; want_fault = pr == "C10"; want_mem = pr == "C17";
  }

  // reachable objects from a node
  void reach(Node* n, std::set<Obj*>& s, std::set<Node*>& seen) {
    if (!n || !seen.insert(n).second) return;
    if (n->k == kREXP) { if (s.insert(n->o).second) reach(n->o->def, s, seen); }
    reach(n->a, s, seen); reach(n->b, s, seen);
  }
  std::set<Obj*> reach(Obj* o) { std::set<Obj*> s; std::set<Node*> seen; s.insert(o); reach(o->def, s, seen); return s; }
  size_t size(Node* n) { std::set<Node*> seen; std::set<Obj*> s; reach(n, s, seen); return seen.size(); }

  bool broken(Obj* o) {
    for (Obj* x : reach(o)) if (x->handle) {
      if (x->varver != varver) return true;
      for (auto& d : x->deps) if (d.first->ver != d.second) return true;
    }
    return false;
  }
  bool has_handle(Obj* o) { for (Obj* x : reach(o)) if (x->handle) return true; return false; }

  bool api(const std::function<void()>& f) {
    bool ok = ctx.api(f, cur_fault);
    if (n_diag) ctx.fail("unexpected-diagnostic", "the library reported %s", last_diag);
    return ok;
  }
  // run with the planned failure, then repeat without it until it succeeds
  void call(const std::function<void()>& f, const std::function<void()>& between = {}) {
    long flt = cur_fault;
    if (flt == -1) {  // sweep: fail every allocation of the operation in turn
      for (long n = 1; n < 400; n = n < 12 ? n + 1 : n + 1 + n / 6) {
        uint64_t f0 = mem::n_faults;
        cur_fault = n;
        if (api(f)) { cur_fault = 0; if (mem::n_faults == f0) return; }
        else { cur_fault = 0; if (between && n % 3 == 1) between(); }
        cur_fault = -1;
      }
      cur_fault = 0; api(f); cur_fault = flt;
      return;
    }
    if (!api(f)) { cur_fault = 0; if (between) between(); api(f); cur_fault = flt; }
  }

  bool close(C got, C want, double mag) {
    double tol = (sizeof(Real) == 8 ? 2e-7 : 2e-2) * std::max(1.0, mag);
    double e = std::abs(got - want);
    return e <= tol;
  }
  void check(const char* cls, const char* what, C got, C want, double mag) {
    checks++;
    ctx.h(got.real()); ctx.h(got.imag());
    if (ctx.obs_mode) {
      C w(ctx.obs(got.real()), ctx.obs(got.imag()));
      if (!close(got, w, mag)) ctx.fail("schedule-changes-result", "%s = (%.10g,%.10g), sequentially (%.10g,%.10g)", what, got.real(), got.imag(), w.real(), w.imag());
      return;
    }
    if (!close(got, want, mag)) ctx.fail(cls, "%s = (%.10g,%.10g), exact (%.10g,%.10g)", what, got.real(), got.imag(), want.real(), want.imag());
  }
  bool active(Obj* o, bool base) {
    // C04 checks everything that involves a symbolic derivative; the others check everything that does not
    bool h = has_handle(o);
    if (prop == "C04") return h;
    if (prop == "C10" || prop == "C11") return true;
    return base && !h;
  }

  Opn operand(Rng& g, int want = -1, Obj* forbid = nullptr, bool nocomplex = false) {
    for (int tries = 0;; tries++) {
      int k = want >= 0 ? want : (int)g.below(10);
      if (tries > 20) k = 0;
      if (k < 4 ) { int i = g.below(vars.size()); Node* n = mkn(kRVAR); n->i = i; return {vars[i], n, nullptr}; }
      if (k < 8) {
        Obj* o = (!handles.empty() && (prop == "C04" || prop == "C10") && g.chance(0.3)) ? handles[g.below(handles.size())] : slots[g.below(slots.size())];
        if (!o || o == forbid) continue;
        if (forbid && reach(o).count(forbid)) continue;
        Node* n = mkn(kREXP); n->o = o; return {o->e, n, o};
      }
      if (k == 8) { int i = g.below(pars.size()); Node* n = mkn(kRPAR); n->i = i; return {pars[i], n, nullptr}; }
      C c(0.3 + g.unit() * 1.7, CPLX && g.chance(0.4) ? g.unit() - 0.5 : 0);
      if (g.chance(0.2)) c = -c;
      c = un(mk(c));
      return {mk(c), kn(c), nullptr};
    }
  }

  // The definition of one new right-hand side. kind/form drawn from g. `sink` receives the library expression.
  // returns the reference node
  template <typename Sink> void libdef(Rng g, Sink sink, bool rec_self, Obj* self, Node** out, bool dry);

  void setvar(int i, C v) {
    v = un(mk(v));
    api([&] { *vars[i] = mk(v); });
    g_cell[g_varcell[i]] = v;
  }
  // a value that the client computes from a real number and a number of the scalar type
  void mixed(int i, const Op& op) {
    C c = un(mk(rndval(op.r))); Real r = (Real)un(mk(rndval(op.r + 1))).real(); Type t = mk(c);
    if (op.c % 3 == 0) r = (Real)c.real(); else if (op.c % 3 == 1 && op.b % 2) r = (Real)c.imag();
    if (c == C(0) || r == 0) return;
    C a((double)r, 0), w; Type got = t;
    int f = (int)(op.b % 8);
    switch (f) {
      case 0: got = r + t; w = a + c; break;
      case 1: got = t + r; w = c + a; break;
      case 2: got = r - t; w = a - c; break;
      case 3: got = t - r; w = c - a; break;
      case 4: got = r * t; w = a * c; break;
      case 5: got = t * r; w = c * a; break;
      case 6: got = r / t; w = a / c; break;
      default: got = t / r; w = c / a;
    }
    static const char* nm[] = {"real + scalar", "scalar + real", "real - scalar", "scalar - real", "real * scalar", "scalar * real", "real / scalar", "scalar / real"};
    ctx.count("op_mixed_arithmetic");
    if (prop == "C01") {
      check("wrong-value", nm[f], un(got), w, std::abs(c) + std::abs(a) + std::abs(w));
      bool same = c == a;
      if ((t == r) != same || (r == t) != same || (t != r) == same || (r != t) == same) ctx.fail("wrong-value", "comparing the scalar (%.10g,%.10g) with the real number %.10g", c.real(), c.imag(), a.real());
    }
    if (std::abs(w) < 1e3 && std::abs(w) > 1e-3) setvar(i, w);
  }
  C rndval(uint64_t r) {
    Rng g(r);
    double re = 0.2 + g.unit() * 1.3; if (g.chance(0.35)) re = -re;
    double im = CPLX && plan.get("imag") ? (g.unit() - 0.5) * 0.8 : 0;
    if (special) { double x = g.unit(); if (x < 0.6) return C(x < 0.18 ? 0 : x < 0.4 ? 1 : x < 0.48 ? -1 : x < 0.54 ? 2 : 0.5, 0); }
    if (g.chance(0.05)) re = 0; else if (g.chance(0.05)) re = 1;
    else if (g.chance(0.03)) { double k = std::pow(10.0, -1 - 5 * g.unit()); re *= k; im *= k; }
    else if (g.chance(0.02)) re *= 2 + 12 * g.unit();
    return C(re, im);
  }
  bool good(Node* n, int nc) { Ref r(nc); r.ev(n); return r.ok; }
  // value of an object, together with the domain guards of everything it was derived from (a textbook derivative may
  // drop a term that the library legitimately keeps as 0 * f(x))
  Val value(Ref& r, Obj* o) {
    Val v = r.ev(o->def);
    for (Obj* x : reach(o)) for (auto& d : x->deps) r.ev(d.first->def);
    return v;
  }
  void invalidate(Obj* root) {
    auto s = reach(root);
    // a derivative handle drags along the expression it was derived from
    std::set<Obj*> more = s;
    for (Obj* o : s) for (auto& d : o->deps) more.insert(d.first);
    for (auto it = snaps.begin(); it != snaps.end();) if (more.count(it->o)) it = snaps.erase(it); else ++it;
  }
  void define(Obj* o, const Op& op, bool reassign, bool extend);
  void do_eval(Obj* o);
  void do_fwd(Obj* o, int vi);
  void do_pre(Obj* o, bool viacache);
  void do_devalr(const Op& op);
  void do_sym(Obj* o, int vi);
  void do_hess(Obj* o, Rng& g);
  void do_table(Obj* o, Rng& g);
  void others_ok(Obj* except, Rng g);
  void run();
  void cycle(const Op& op);
  // C09
  std::vector<NiVal> snap_vals();
  void ni_check(const std::vector<NiVal>& before, const char* what);
};

template <typename F> static void with3(Opn* o, F f) {
  // operands as Variable or Expression
  auto go = [&](auto* a, auto* b, auto* c) { f(*a, *b, *c); };
  if (auto pa = std::get_if<Variable*>(&o[0].lib)) {
    if (auto pb = std::get_if<Variable*>(&o[1].lib)) go(*pa, *pb, std::get<Expression*>(o[2].lib));
    else go(*pa, std::get<Expression*>(o[1].lib), std::get<Expression*>(o[2].lib));
  } else go(std::get<Expression*>(o[0].lib), std::get<Expression*>(o[1].lib), std::get<Expression*>(o[2].lib));
}

static int pick_form(Rng& g, bool nosym) { return nosym && g.chance(0.25) ? NSYM + (int)g.below(NFORM - NSYM) : (int)g.below(NSYM); }

template <typename Sink>
void World::libdef(Rng g, Sink sink, bool rec_self, Obj* self, Node** out, bool dry) {
  Obj* forbid = self;
  int sel = g.below(10);
  bool nosym = !plan.get("sym");  // the custom scalar operators define no symbolic derivative
  auto E_of = [&](Opn& x) -> bool { return std::holds_alternative<Expression*>(x.lib); };
  (void)E_of;
  bool haveE = false;
  for (Obj* s : slots) if (s && s != forbid) haveE = true;
  if (sel < 4 && haveE && !rec_self) {
    // composite formula
    int form = pick_form(g, nosym);
    int shape = g.below(3);
    Opn o[3] = {operand(g, shape == 2 ? 4 : 0, forbid), operand(g, shape == 0 ? 0 : 4, forbid), operand(g, 4, forbid)};
    // fall back to variables wrapped in a fresh simple expression is not possible here, so require expressions
    for (int i = 0; i < 3; i++) {
      bool needE = i == 2 || (i == 1 && shape != 0) || (i == 0 && shape == 2);
      if (needE && !std::holds_alternative<Expression*>(o[i].lib)) { sel = 9; break; }
    }
    if (sel != 9) {
      RN a = R(o[0].ref), b = R(o[1].ref), c = R(o[2].ref);
      switch (form) {
#define X(i, expr) case i: *out = (expr).n; break;
        FORMS(X) FORMS_NOSYM(X)
#undef X
      }
      if (dry) return;
      with3(o, [&](auto& a, auto& b, auto& c) {
        switch (form) {
#define X(i, expr) case i: sink(expr); break;
          FORMS(X) FORMS_NOSYM(X)
#undef X
        }
      });
      return;
    }
  }
  if (sel < 6 && !rec_self && haveE && g.chance(0.35)) {
    int f = nosym && g.chance(0.2) ? NSHSYM + (int)g.below(NSHARED - NSHSYM) : (int)g.below(NSHSYM);
    Opn o[3] = {operand(g, 0, forbid), operand(g, 4, forbid), operand(g, 0, forbid)};
    if (std::holds_alternative<Expression*>(o[1].lib)) {
      bool sum = g.chance(0.3);
      {
        RN a = R(o[0].ref), b = R(o[1].ref), c = R(o[2].ref), t = sum ? a + b : a * b;
        switch (f) {
#define X(i, expr) case i: *out = (expr).n; break;
          SHARED(X) SHARED_NOSYM(X)
#undef X
        }
      }
      if (dry) return;
      ctx.count("op_define_shared");
      auto& a = *std::get<Variable*>(o[0].lib); auto& b = *std::get<Expression*>(o[1].lib); auto& c = *std::get<Variable*>(o[2].lib);
      auto go = [&](const auto& t) {
        switch (f) {
#define X(i, expr) case i: sink(expr); break;
          SHARED(X) SHARED_NOSYM(X)
#undef X
        }
      };
      if (sum) go(a + b); else go(a * b);
      return;
    }
  }
  if (sel < 6 && !rec_self) {
    int f = g.below(16);
    Opn o = operand(g, g.chance(0.4) ? 0 : 4, forbid);
    RN a = R(o.ref);
#define UN1(X) X(0, sin) X(1, cos) X(2, tan) X(3, sinh) X(4, cosh) X(5, tanh) X(6, asin) X(7, acos) X(8, atan) X(9, asinh) X(10, acosh) X(11, atanh) X(12, sqrt) X(13, exp) X(14, log) X(15, -)
    switch (f) {
#define X(i, fn) case i: *out = (fn(a)).n; break;
      UN1(X)
#undef X
    }
    if (dry) return;
    auto go = [&](auto& a) {
      switch (f) {
#define X(i, fn) case i: sink(fn(a)); break;
        UN1(X)
#undef X
      }
    };
    if (auto p = std::get_if<Variable*>(&o.lib)) go(**p); else go(*std::get<Expression*>(o.lib));
    return;
  }
  // binary over every operand kind
  int f = g.below(11);
  f = f < 3 ? 0 : f < 5 ? 1 : f < 8 ? 2 : f < 10 ? 3 : 4;
  Opn l = operand(g, -1, forbid), r = operand(g, -1, forbid);
  if (rec_self) { Node* old = self->def; if (g.chance(0.7)) { l.lib = self->e; l.ref = old; } else { r.lib = self->e; r.ref = old; } if (g.chance(0.15)) { l.lib = self->e; l.ref = old; r = l; } }
  if (std::holds_alternative<Type>(l.lib) && std::holds_alternative<Type>(r.lib)) l = operand(g, 0, forbid);
  Node* n = nullptr;
  static const RK ks[5] = {kADD, kSUB, kMUL, kDIV, kPOW};
  n = mkn(ks[f], l.ref, r.ref);
  *out = n;
  if (ctx.verbose) ctx.note("   %s binary %d %s %s (operand kinds %d %d)", dry ? "dry" : "real", f, show(l.ref).c_str(), show(r.ref).c_str(), (int)l.lib.index(), (int)r.lib.index());
  if (dry) return;
  std::visit([&](auto lp) {
    std::visit([&](auto rp) {
      using L = decltype(lp); using RR = decltype(rp);
      auto go = [&](auto& a, auto& b) {
        switch (f) {
          case 0: sink(a + b); break;
          case 1: sink(a - b); break;
          case 2: sink(a * b); break;
          case 3: sink(a / b); break;
          default: sink(pow(a, b)); break;
        }
      };
      if constexpr (std::is_pointer_v<L> && std::is_pointer_v<RR>) go(*lp, *rp);
      else if constexpr (std::is_pointer_v<L>) go(*lp, rp);
      else if constexpr (std::is_pointer_v<RR>) go(lp, *rp);
    }, r.lib);
  }, l.lib);
}

void World::hold(Rng g) {
  Opn l = operand(g, g.chance(0.5) ? 0 : 4), r = operand(g, g.chance(0.5) ? 0 : 4);
  int f = g.below(5);
  RN a = R(l.ref), b = R(r.ref);
  Node* ref = nullptr;
  switch (f) {
#define NODES(X) X(0, a + b) X(1, a * b) X(2, a - b) X(3, sin(a)) X(4, cos(a * b))
#define X(i, expr) case i: ref = (expr).n; break;
    NODES(X)
#undef X
  }
  if (size(ref) > maxsize / 4) return;
  Held h; h.ref = ref;
  auto keep = [&](const auto& t) {
    const auto* p = &t;
    h.use = [p](int how, Expression& E, Variable& x, Expression*& target) {
      const auto& t = *p;
      auto sink = [&](const auto& e) { if (target) *target = e; else target = new Expression(e); };
      switch (how) {
#define X(i, expr) case i: sink(expr); break;
        USES(X)
#undef X
      }
    };
  };
  if (!api([&] {
    auto go = [&](auto& a, auto& b) {
      switch (f) {
#define X(i, expr) case i: keep(expr); break;
        NODES(X)
#undef X
      }
    };
    auto second = [&](auto& a) { if (auto p = std::get_if<Variable*>(&r.lib)) go(a, **p); else go(a, *std::get<Expression*>(r.lib)); };
    if (auto p = std::get_if<Variable*>(&l.lib)) second(**p); else second(*std::get<Expression*>(l.lib));
  })) return;
  if (held.size() < 6) held.push_back(h); else held[g.below(6)] = h;
  ctx.count("op_hold");
}

void World::define(Obj* o, const Op& op, bool reassign, bool extend) {
  // choose a right-hand side that is comfortably inside the domain at the current values
  uint64_t seed = op.r;
  Node* def = nullptr;
  bool copyform = false;
  Obj* src = nullptr;
  bool found = false;
  Rng gh(mix64(op.r + 0x4e1d));
  if (!extend && gh.chance(0.3)) {
    if (held.size() < 2 || gh.chance(0.4)) hold(gh);
    if (!held.empty()) {
      Held& h = held[gh.below(held.size())];
      Obj* e = slots[gh.below(slots.size())];
      int v = gh.below(vars.size()), how = gh.below(NUSE);
      Node *ne = mkn(kREXP), *nx = mkn(kRVAR); ne->o = e; nx->i = v;
      Node* d = e ? use_held(h, how, ne, nx) : nullptr;
      std::set<Obj*> in; std::set<Node*> seen;
      if (d) reach(d, in, seen);
      if (d && !(reassign && in.count(o)) && good(d, nv) && size(d) < maxsize) {
        auto between = [&] { others_ok(o, Rng(op.r)); };
        Expression* t = nullptr;
        if (reassign) { invalidate(o); t = o->e; o->ver++; }
        call([&] { h.use(how, *e->e, *vars[v], t); }, between);
        o->e = t; o->def = d;
        if (ctx.verbose) ctx.note("   E%d := %s (held node)", o->id, show(d).c_str());
        ctx.count("op_define_held");
        return;
      }
    }
  }
  for (int t = 0; t < 12 && !found; t++) {
    Rng g(mix64(seed + t));
    if (!extend && Rng(seed + t).chance(0.08)) {
      src = slots[Rng(seed + t + 77).below(slots.size())];
      if (src && (src == o ? false : !reach(src).count(o))) { Node* n = mkn(kREXP); n->o = src; def = n; copyform = true; found = good(def, nv) && size(def) < maxsize; if (found) { seed = seed + t; break; } copyform = false; }
    }
    libdef(g, [](const auto&) {}, extend, reassign || extend ? o : nullptr, &def, true);
    if (good(def, nv) && size(def) < maxsize) { found = true; seed = seed + t; }
  }
  if (!found) { ctx.count("define_skipped"); return; }
  Rng g0(mix64(seed));
  auto between = [&] { others_ok(o, Rng(seed)); };
  if (reassign || extend) {
    invalidate(o);
    // snapshots of expressions that contain o stay as they were; nothing to do for them
    if (copyform) call([&] { *o->e = *src->e; }, between);
    else call([&] { Node* d2; libdef(g0, [&](const auto& x) { *o->e = x; }, extend, o, &d2, false); }, between);
    o->def = def; o->ver++;
  } else {
    if (copyform) call([&] { o->e = new Expression(*src->e); }, between);
    else call([&] { Node* d2; libdef(g0, [&](const auto& x) { o->e = new Expression(x); }, false, nullptr, &d2, false); }, between);
    o->def = def;
  }
  if (ctx.verbose) ctx.note("   E%d := %s", o->id, show(def).c_str());
  ctx.count(extend ? "op_extend" : reassign ? "op_reassign" : "op_define");
}

void World::do_eval(Obj* o) {
  if (broken(o)) { ctx.count("skipped_redefined_handle"); return; }
  Type got{};
  invalidate(o);
  call([&] { got = T1::Eval(*o->e); }, [&] { others_ok(o, Rng(o->id)); });
  Ref r(nv); Val v = value(r, o);
  if (!r.ok) { ctx.count("guarded"); return; }
  if (active(o, want_eval)) check("wrong-value", "Eval", un(got), v.v, r.mag);
}
void World::do_fwd(Obj* o, int vi) {
  if (broken(o)) { ctx.count("skipped_redefined_handle"); return; }
  Type got{};
  invalidate(o);
  call([&] { got = T1::DevalF(*o->e, *vars[vi]); }, [&] { others_ok(o, Rng(o->id)); });
  Ref r(nv); Val v = value(r, o);
  if (!r.ok) { ctx.count("guarded"); return; }
  if (active(o, want_fwd)) check("wrong-forward-derivative", "DevalF", un(got), v.g[g_varcell[vi]], r.mag);
}
void World::do_pre(Obj* o, bool viacache) {
  if (broken(o)) { ctx.count("skipped_redefined_handle"); return; }
  invalidate(o);
  Ref r(nv); Val v = value(r, o);
  OMPair* cache = nullptr;
  if (viacache) call([&] { cache = &T1::PreCompCache(*o->e); }, [&] { others_ok(o, Rng(o->id)); });
  else call([&] { T1::PreComp(*o->e); }, [&] { others_ok(o, Rng(o->id)); });
  Snap s; s.o = o; s.have = true; s.id = ++snapid; s.ok = r.ok; s.mag = r.mag;
  for (int i = 0; i < nv; i++) s.g[i] = v.g[i];
  snaps.push_back(s);
  if (snaps.size() > 6) snaps.erase(snaps.begin());
  if (viacache && r.ok && active(o, want_rev)) {
    for (size_t i = 0; i < vars.size(); i++) {
      auto it = cache->find(vars[i]->m_nidx);
      C got = it == cache->end() ? C(0) : un(it->second);
      check("wrong-adjoint", "PreCompCache entry", got, v.g[g_varcell[i]], r.mag);
    }
  }
}
void World::do_devalr(const Op& op) {
  if (snaps.empty()) return;
  Rng g(op.r);
  Snap& s = snaps[op.a % snaps.size()];
  if (!s.ok) { ctx.count("guarded"); return; }
  bool act = active(s.o, want_rev);
  if (&s != &snaps.back()) ctx.count("old_snapshot_reads");
  for (size_t i = 0; i < vars.size(); i++) {
    Type got{};
    call([&] { got = T1::DevalR(*s.o->e, *vars[i]); });
    if (act) check("wrong-adjoint", "DevalR", un(got), s.g[g_varcell[i]], s.mag);
  }
}
void World::do_sym(Obj* o, int vi) {
  if (broken(o)) return;
  if (size(o->def) > (o->handle ? 60 : 110)) return;
  Node* d;
  { SymRef s(g_varcell[vi]); d = s.d(o->def); }
  if (size(d) > 900) return;
  // second derivatives of large graphs are enormous
  if (mem::live_blocks > 120000) { ctx.count("skipped_enormous_graph"); return; }
  invalidate(o);
  Expression* res = nullptr;
  call([&] { res = &T1::SymDiff(*o->e, *vars[vi]); }, [&] { others_ok(o, Rng(o->id)); });
  objs.emplace_back(new Obj);
  Obj* h = objs.back().get();
  h->id = objs.size();
  h->e = res; h->def = d; h->handle = true; h->varver = varver;
  for (Obj* x : reach(o)) { x->symdone = true; h->deps.push_back({x, x->ver}); for (auto& dd : x->deps) h->deps.push_back(dd); }
  if (handles.size() < 8) handles.push_back(h); else handles[o->id % 8] = h;
  ctx.count(o->handle ? "op_symdiff_higher" : "op_symdiff");
}
void World::do_hess(Obj* o, Rng& g) {
  if (broken(o) || o->handle) return;
  if (size(o->def) > 30) return;
  int n = 2 + (vars.size() > 2 && g.chance(0.3));
  std::vector<int> vi(n);
  for (int i = 0; i < n; i++) vi[i] = g.below(vars.size());
  std::vector<Variable> vec;
  vec.reserve(n);
  for (int i = 0; i < n; i++) vec.push_back(*vars[vi[i]]);
  bool grad = g.chance(0.4);
  int shape = g.below(3);
  Matrix<Expression>* H = nullptr;
  invalidate(o);
  if (grad && shape == 0) call([&] { H = &T2::SymGradient(*o->e, vec); });
  else if (grad) call([&] { Matrix<Variable> X(1, n); for (int i = 0; i < n; i++) X[i] = vec[i]; H = shape == 1 ? &T2::SymGradient(*o->e, X) : &T2::SymMatDiff(*o->e, X); });
  else if (shape == 0) call([&] { H = &T2::SymHessian(*o->e, vec); });
  else call([&] { Matrix<Variable> X(1, n); for (int i = 0; i < n; i++) X[i] = vec[i]; H = &T2::SymHessian(*o->e, X); });
  for (Obj* x : reach(o)) x->symdone = true;
  for (int i = 0; i < n; i++) for (int j = 0; j < (grad ? 1 : n); j++) {
    Node* d;
    { SymRef s(g_varcell[vi[i]]); d = s.d(o->def); }
    if (!grad) { SymRef s(g_varcell[vi[j]]); d = s.d(d); }
    Ref r(nv); Val v = r.ev(d); value(r, o);
    { SymRef s(g_varcell[vi[i]]); r.ev(s.d(o->def)); }
    if (!r.ok) { ctx.count("guarded"); continue; }
    Type got{};
    Expression& e = grad ? (*H)[i] : (*H)(i, j);
    call([&] { got = T1::Eval(e); });
    if (ctx.verbose) ctx.note("   entry %d,%d by x%d,x%d (cells %d,%d) got %.9g exact %.9g", i, j, vi[i], vi[j], g_varcell[vi[i]], g_varcell[vi[j]], un(got).real(), v.v.real());
    if (prop == "C04" || prop == "C10" || prop == "C11") check(grad ? "wrong-symbolic-gradient" : "wrong-symbolic-hessian", grad ? "SymGradient/SymMatDiff entry" : "SymHessian entry", un(got), v.v, r.mag);
  }
  ctx.count(grad ? "op_symgradient" : "op_symhessian");
}
// derivatives by several variables at once: a matrix or a list of them
void World::do_table(Obj* o, Rng& g) {
  if (broken(o)) { ctx.count("skipped_redefined_handle"); return; }
  int how = (int)g.below(plan.get("sym") && !o->handle && size(o->def) <= 30 && mem::live_blocks <= 120000 ? 6 : 5);
  int r = 1 + (int)g.below(2), c = 1 + (int)g.below(3), n = how == 5 ? 2 + (vars.size() > 2 && g.chance(0.3)) : r * c;
  std::vector<int> vi(n);
  for (int i = 0; i < n; i++) vi[i] = (int)g.below(vars.size());
  bool list = how == 3 || (how == 5 && g.chance(0.5)), serial = g.chance(0.5);
  Matrix<Type>* R = nullptr;
  invalidate(o);
  Ref ref(nv); Val v = value(ref, o);
  call([&] {
    std::vector<Variable> vec; vec.reserve(n);
    for (int i = 0; i < n; i++) vec.push_back(*vars[vi[i]]);
    if (list) { R = how == 5 ? &T2::HessianR(*o->e, vec) : &T2::JacobianR(*o->e, vec); return; }
    Matrix<Variable> X(how == 5 ? 1 : r, how == 5 ? n : c);
    for (int i = 0; i < n; i++) X[i] = vec[i];
    switch (how) {
      case 0: case 1: R = &T2::DevalF(*o->e, X, serial); break;
      case 2: R = &T2::DevalR(*o->e, X); break;
      case 4: R = &T2::JacobianR(*o->e, X); break;
      default: R = &T2::HessianR(*o->e, X);
    }
  }, [&] { others_ok(o, Rng(o->id)); });
  if (how == 5) for (Obj* x : reach(o)) x->symdone = true;
  if (how >= 2 && how < 5) {
    Snap s; s.o = o; s.have = true; s.id = ++snapid; s.ok = ref.ok; s.mag = ref.mag;
    for (int i = 0; i < nv; i++) s.g[i] = v.g[i];
    snaps.push_back(s);
    if (snaps.size() > 6) snaps.erase(snaps.begin());
  }
  static const char* cnt[6] = {"op_table_forward", "op_table_forward", "op_table_reverse", "op_jacobian", "op_jacobian", "op_hessian"};
  ctx.count(cnt[how]);
  bool all = prop == "C10" || prop == "C11";
  if (how < 5) {
    if (!ref.ok) { ctx.count("guarded"); return; }
    if (how < 2 ? !want_fwd : !want_rev) return;
    int er = how == 3 || how == 4 ? n : r, ec = how == 3 || how == 4 ? 1 : c;
    if (R->getNumRows() != (size_t)er || R->getNumColumns() != (size_t)ec) ctx.fail("wrong-shape", "%zux%zu derivatives by %dx%d variables", R->getNumRows(), R->getNumColumns(), er, ec);
    if (active(o, how < 2 ? want_fwd : want_rev))
      for (int i = 0; i < n; i++) check(how < 2 ? "wrong-forward-derivative" : "wrong-adjoint", how < 2 ? "entry of DevalF by a matrix" : how == 2 ? "entry of DevalR by a matrix" : "entry of JacobianR", un((*R)[i]), v.g[g_varcell[vi[i]]], ref.mag);
    return;
  }
  if (!all && prop != "C04") return;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    Node* d;
    { SymRef s(g_varcell[vi[std::max(i, j)]]); d = s.d(o->def); }
    Ref r2(nv); Val dv = r2.ev(d); value(r2, o);
    if (!r2.ok) { ctx.count("guarded"); continue; }
    check("wrong-hessian", "HessianR entry", un((*R)(i, j)), dv.g[g_varcell[vi[std::min(i, j)]]], r2.mag);
  }
}
// after a failed operation everything it was not asked to change must still be right
void World::others_ok(Obj* except, Rng g) {
  if (prop == "C09" || prop == "C17") return;
  long save = cur_fault; cur_fault = 0;
  for (int t = 0; t < 2; t++) {
    Obj* o = slots[g.below(slots.size())];
    if (!o || o == except || (except && reach(o).count(except)) || broken(o)) continue;
    Type got{};
    invalidate(o);
    api([&] { got = T1::Eval(*o->e); });
    Ref r(nv); Val v = value(r, o);
    ctx.count("checks_right_after_failure");
    if (r.ok && active(o, want_eval)) check("damaged-by-failure", "Eval of another expression after a failed allocation", un(got), v.v, r.mag);
  }
  cur_fault = save;
}

std::vector<World::NiVal> World::snap_vals() {
  std::vector<NiVal> v;
  auto leaf = [&](C x) { v.push_back({0, v.size(), x}); };
  for (auto* x : vars) leaf(un(T1::Eval(*x)));
  for (auto* p : pars) leaf(un(T1::Eval(*p)));
  leaf(un(T1::Eval(Variable::t0)));
  leaf(un(T1::Eval(Variable::t1)));
  for (Snap& s : snaps) for (size_t i = 0; i < vars.size(); i++) v.push_back({s.id, i, un(T1::DevalR(*s.o->e, *vars[i]))});
  return v;
}
void World::ni_check(const std::vector<NiVal>& before, const char* what) {
  std::vector<NiVal> now = snap_vals();
  // a snapshot list may have gained an entry at the end and lost its oldest one: compare what is in both
  std::map<std::pair<long, size_t>, C> old;
  for (auto& x : before) old[{x.id, x.what}] = x.v;
  for (auto& x : now) {
    auto it = old.find({x.id, x.what});
    if (it == old.end()) continue;
    checks++;
    if (memcmp(&x.v, &it->second, sizeof(C)) && !(std::isnan(x.v.real()) && std::isnan(it->second.real()))) {
      size_t i = x.what;
      ctx.fail("operand-disturbed", "%s changed %s %zu from (%.17g,%.17g) to (%.17g,%.17g)", what, x.id ? "a reverse snapshot of another expression, the adjoint of variable" : i < vars.size() ? "the value of variable" : i < vars.size() + pars.size() ? "the value of parameter" : "a shared constant", i, it->second.real(), it->second.imag(), x.v.real(), x.v.imag());
    }
  }
}

void World::cycle(const Op& op) {
  // C17: the same mix of numeric passes over the unchanged graph, again and again
  Rng g(op.r);
  std::vector<std::pair<int, std::pair<Obj*, int>>> todo;
  int n = 2 + g.below(6);
  for (int i = 0; i < n; i++) {
    Obj* o = slots[g.below(slots.size())];
    if (!handles.empty() && g.chance(0.3)) o = handles[g.below(handles.size())];
    if (o) todo.push_back({(int)g.below(5), {o, (int)g.below(vars.size())}});
  }
  uint64_t at = 0, blocks = 0;
  int K = 4 + 2 * (int)g.below(10);
  if (mem::live_blocks > 120000) { ctx.count("cycles_over_enormous_graphs"); K = 2; if (todo.size() > 2) todo.resize(2); for (auto& t : todo) if (t.first > 3) t.first = 1; }
  for (int k = 0; k < 10 + K; k++) {
    // K is even.  Data never seen before (in two patterns of exact zeros and ones), and at the end once more the data of
    // the first rounds: what is cached may depend on the data (an overflow), so equal data are compared
    int q = k < 6 + K ? k : k - K - 4;
    for (size_t i = 0; i < vars.size(); i++) {
      C v = rndval(op.r + 1000 * (q & 1) + i);
      if (v != C(0) && std::abs(v) != 1) v *= 1 + 0.003 * q;
      setvar(i, v);
    }
    for (auto& t : todo) {
      Obj* o = t.second.first; int vi = t.second.second;
      invalidate(o);
      switch (t.first) {
        case 0: api([&] { T1::Eval(*o->e); }); break;
        case 1: api([&] { T1::DevalF(*o->e, *vars[vi]); }); break;
        case 2: api([&] { T1::PreComp(*o->e); T1::DevalR(*o->e, *vars[vi]); }); break;
        case 3: api([&] { T1::PreCompCache(*o->e); }); break;
        default: for (size_t j = 0; j < vars.size(); j++) api([&] { T1::DevalF(*o->e, *vars[j]); });
      }
    }
    if (k == 5) { at = mem::live_bytes; blocks = mem::live_blocks; }
  }
  checks++;
  ctx.count("memory_cycles", 10 + K);
  if (mem::live_bytes > at) ctx.fail("unbounded-memory", "%d repetitions of the same passes left %llu more bytes in %lld more blocks", K, (unsigned long long)(mem::live_bytes - at), (long long)(mem::live_blocks - blocks));
}

enum { O_SETVAR, O_SETPAR, O_DEFINE, O_REASSIGN, O_EXTEND, O_EVAL, O_FWD, O_PRE, O_CACHE, O_DEVALR, O_SYM, O_SYMH, O_HESS, O_USEH, O_REBIND, O_PARCOPY, O_TEMPL, O_CYCLE, O_TABLE, O_N };

void World::run() {
  nv = 2 + plan.get("nv") % 4; np = 1 + plan.get("np") % 3; ne = 3 + plan.get("ne") % 6;
  if (plan.get("deep")) { nv = 6 + plan.get("nv") % 9; ne = 6 + plan.get("ne") % 12; maxsize = 500; ctx.count("deep_runs"); }  // long-lived, large graphs over many variables
  special = plan.get("special") != 0;
  if (special) ctx.count("special_value_runs");
  int nal = plan.get("alias") % 3;
  Rng g(plan.get("wseed"));
  for (int i = 0; i < nv; i++) {
    C v = un(mk(rndval(g.next())));
    Variable* x = nullptr;
    ctx.api([&] { x = g.chance(0.5) ? new Variable(mk(v)) : &Variable::VariableFactory::CreateVariable(mk(v)); });
    g_varcell[vars.size()] = i; g_cell[i] = v; vars.push_back(x);
  }
  for (int i = 0; i < nal; i++) {
    int s = g.below(nv); Variable* x = nullptr;
    ctx.api([&] { x = new Variable(*vars[s]); });
    g_varcell[vars.size()] = g_varcell[s]; vars.push_back(x);
  }
  for (int i = 0; i < np; i++) {
    C v = un(mk(rndval(g.next()))); Parameter* x = nullptr;
    ctx.api([&] { x = g.chance(0.5) ? new Parameter(mk(v)) : &Parameter::ParameterFactory::CreateParameter(mk(v)); });
    g_parcell[i] = i; g_pcell[i] = v; pars.push_back(x);
  }
  slots.assign(ne, nullptr);
  for (size_t k = 0; k < plan.ops.size(); k++) {
    const Op& op = plan.ops[k];
    ctx.shm->cur_op = (int)k;
    cur_fault = op.fault;
    if (ctx.verbose) { extern std::string describe_op(const Op&); ctx.desc = describe_op(op); ctx.note("%zu client %d: %s", k, op.client, ctx.desc.c_str()); }
    else { extern std::string describe_op(const Op&); ctx.desc = describe_op(op); }
    clients_seen.insert(op.client);
    ctx.s(op.kind * 64 + op.a % 8 * 8 + op.client);
    Rng g(op.r);
    std::vector<NiVal> before;
    bool mutates = op.kind == O_SETVAR || op.kind == O_SETPAR || op.kind == O_REBIND || op.kind == O_PARCOPY;
    Obj* sl = slots[op.a % ne];
    auto pre_ni = [&] { if (want_ni && !mutates) before = snap_vals(); };
    switch (op.kind) {
      case O_SETVAR: {  // new data; now and then data that leave a sum, a square or the set of values as it was
        int i = op.a % vars.size(), j = op.b % vars.size(); C vi = g_cell[g_varcell[i]], vj = g_cell[g_varcell[j]];
        static std::map<int, C> prev;
        switch (op.d % 12) {
          case 0: setvar(i, vj); setvar(j, vi); ctx.count("op_swap_values"); break;
          case 1: setvar(i, -vi); break;
          case 2: setvar(i, prev.count(g_varcell[i]) ? prev[g_varcell[i]] : vi); break;
          case 3: { C d = C(std::round(rndval(op.r).real() * 16) / 64, 0); setvar(i, vi + d); setvar(j, g_cell[g_varcell[j]] - d); break; }
          case 4: mixed(i, op); break;
          default: setvar(i, rndval(op.r));
        }
        prev[g_varcell[i]] = vi;
        ctx.count("op_setvar"); break; }
      case O_SETPAR: { C v = un(mk(rndval(op.r))); int i = op.a % np;
        // copies of a parameter may or may not stay tied to their source: every member of such a group is set
        for (int k = 0; k < np; k++) if (g_parcell[k] == g_parcell[i]) call([&] { *pars[k] = mk(v); });
        g_pcell[g_parcell[i]] = v; ctx.count("op_setpar"); break; }
      case O_DEFINE: {
        pre_ni();
        objs.emplace_back(new Obj); Obj* o = objs.back().get(); o->id = objs.size();
        define(o, op, false, false);
        if (o->e) slots[op.a % ne] = o;
        break;
      }
      case O_REASSIGN: if (sl) { invalidate(sl); pre_ni(); define(sl, op, true, false); } break;
      case O_EXTEND: if (sl && size(sl->def) < maxsize - 60) { invalidate(sl); pre_ni(); define(sl, op, false, true); } break;
      case O_EVAL: if (sl) { invalidate(sl); pre_ni(); do_eval(sl); } ctx.count("op_eval"); break;
      case O_FWD: if (sl) { invalidate(sl); pre_ni(); do_fwd(sl, op.b % vars.size()); } ctx.count("op_forward"); break;
      case O_PRE: if (sl) { invalidate(sl); pre_ni(); do_pre(sl, false); } ctx.count("op_reverse"); break;
      case O_CACHE: if (sl) { invalidate(sl); pre_ni(); do_pre(sl, true); } ctx.count("op_reverse_cache"); break;
      case O_DEVALR: pre_ni(); do_devalr(op); ctx.count("op_adjoint_read"); break;
      case O_SYM: if (sl && plan.get("sym")) { invalidate(sl); pre_ni(); do_sym(sl, op.b % vars.size()); } break;
      case O_SYMH: if (!handles.empty() && plan.get("sym")) { Obj* h = handles[op.a % handles.size()]; invalidate(h); pre_ni(); do_sym(h, op.b % vars.size()); } break;
      case O_HESS: if (sl && plan.get("sym")) { invalidate(sl); pre_ni(); do_hess(sl, g); } break;
      case O_USEH: {
        if (handles.empty()) break;
        Obj* h = handles[op.a % handles.size()];
        if (broken(h)) { ctx.count("skipped_redefined_handle"); break; }
        invalidate(h); pre_ni();
        switch (op.b % 3) { case 0: do_eval(h); break; case 1: do_fwd(h, op.c % vars.size()); break; default: do_pre(h, op.c & 1); }
        ctx.count("op_use_derivative");
        break;
      }
      case O_REBIND: {  // one variable object becomes an alias of another
        int i = op.a % vars.size(), j = op.b % vars.size();
        if (i == j || handles.size()) break;
        bool anysym = false;
        for (auto& q : objs) anysym |= q->symdone;
        if (anysym) break;  // derivatives taken before refer to the old binding
        if (i < nv) break;  // keep one primary object per cell
        call([&] { *vars[i] = *vars[j]; });
        g_varcell[i] = g_varcell[j]; varver++;
        snaps.clear();
        ctx.count("op_rebind");
        break;
      }
      case O_PARCOPY: {
        int i = op.a % np, j = op.b % np;
        if (i == j || handles.size()) break;
        bool tied = false;
        for (int k = 0; k < np; k++) tied |= k != i && g_parcell[k] == g_parcell[i];
        if (tied) break;
        call([&] { *pars[i] = *pars[j]; });
        // the copy and whatever was tied to it before: only take copies of parameters that are not tied themselves
        g_parcell[i] = g_parcell[j];
        ctx.count("op_parcopy");
        break;
      }
      case O_TEMPL: if (sl) {  // passes over an unnamed expression
        Node* a = mkn(kREXP); a->o = sl; int vi = op.b % vars.size(); Node* b = mkn(kRVAR); b->i = vi;
        Node* n = (op.c & 1) ? mkn(kMUL, a, mkn(kSIN, b)) : mkn(kSUB, mkn(kMUL, a, b), a);
        Obj tmp; tmp.def = n;
        if (broken(sl)) break;
        invalidate(sl); pre_ni();
        Type got{}; Type dgot{};
        auto go = [&](const auto& t) { if (op.d & 1) got = T1::Eval(t); else dgot = T1::DevalF(t, *vars[op.d / 2 % vars.size()]); };
        call([&] { if (op.c & 1) go(*sl->e * sin(*vars[vi])); else go(*sl->e * *vars[vi] - *sl->e); });
        Ref r(nv); Val v = value(r, &tmp);
        if (r.ok) {
          if (op.d & 1) { if (active(&tmp, want_eval)) check("wrong-value", "Eval of an unnamed expression", un(got), v.v, r.mag); }
          else if (active(&tmp, want_fwd)) check("wrong-forward-derivative", "DevalF of an unnamed expression", un(dgot), v.g[g_varcell[op.d / 2 % vars.size()]], r.mag);
        }
        ctx.count("op_unnamed");
        break;
      }
      case O_CYCLE: if (want_mem) cycle(op); break;
      case O_TABLE: {
        Obj* o = sl;
        if (!handles.empty() && op.b % 4 == 0) o = handles[op.b / 4 % handles.size()];
        if (o) { invalidate(o); pre_ni(); do_table(o, g); }
        break;
      }
    }
    if (want_ni && !mutates && !before.empty()) {
      ni_check(before, "the operation");
    }
  }
  ctx.count("checks", checks);
  ctx.maxi("live_expressions", objs.size());
  ctx.maxi("live_blocks", mem::live_blocks);
  ctx.shm->nontrivial = checks >= 2;
}

static const char* opname[] = {"set variable", "set parameter", "define expression", "redefine expression", "extend expression in place", "Eval", "DevalF", "PreComp", "PreCompCache", "DevalR of all variables", "SymDiff", "SymDiff of a derivative", "SymGradient/SymHessian", "use a symbolic derivative", "rebind variable alias", "assign parameter", "pass over an unnamed expression", "repeat passes and watch memory", "derivatives by several variables"};
std::string describe_op(const Op& op) {
  char b[200];
  snprintf(b, sizeof b, "%s #%ld%s", opname[op.kind % O_N], op.a, op.kind == O_FWD || op.kind == O_SYM || op.kind == O_SYMH ? (" by variable " + std::to_string(op.b)).c_str() : "");
  return b;
}

struct ScalarWl : Workload {
  Plan generate(Rng& g, const std::string& prop, bool thorough) override {
    Plan p;
    p.cfg["deep"] = g.chance(0.1); p.cfg["special"] = g.chance(0.15);
    p.cfg["nv"] = g.below(36); p.cfg["np"] = g.below(3); p.cfg["ne"] = g.below(12); p.cfg["alias"] = g.below(3);
    p.cfg["imag"] = g.below(3); p.cfg["wseed"] = g.below(1000000);
    p.cfg["sym"] = prop == "C11" || prop == "C04" || prop == "C10" || prop == "C17" || g.chance(0.4);
    p.cfg["teardown"] = prop == "C17";
    bool faulty = prop == "C10" || ((prop == "C01" || prop == "C02" || prop == "C03" || prop == "C04") && g.chance(0.25));
    int nclients = 1 + g.below(4);
    int n = 12 + g.below(thorough || p.cfg["deep"] ? 110 : 50);
    // per-client scripts, interleaved by the scheduler
    std::vector<int> w(O_N, 0);
    auto set = [&](std::initializer_list<int> l) { int i = 0; for (int x : l) w[i++] = x; };
    //    setv setp def reas ext eval fwd pre cache devr sym symh hess useh reb parc templ cycle table
    if (prop == "C01") set({6, 3, 6, 3, 2, 14, 3, 2, 1, 1, 1, 1, 0, 1, 1, 1, 2, 0, 1});
    else if (prop == "C02") set({6, 2, 6, 3, 2, 3, 14, 2, 1, 1, 1, 1, 0, 1, 1, 0, 2, 0, 3});
    else if (prop == "C03") set({6, 2, 6, 3, 2, 2, 2, 10, 3, 10, 1, 1, 0, 1, 1, 0, 0, 0, 4});
    else if (prop == "C04") set({6, 2, 6, 1, 1, 2, 2, 2, 0, 2, 6, 4, 2, 12, 0, 0, 1, 0, 2});
    else if (prop == "C09") set({3, 2, 5, 2, 2, 6, 6, 6, 2, 3, 3, 2, 1, 3, 0, 0, 2, 0, 2});
    else if (prop == "C17") set({3, 1, 6, 2, 2, 3, 3, 3, 1, 1, 2, 2, 0, 2, 0, 0, 0, 3, 0});
    else set({4, 2, 6, 3, 2, 5, 5, 6, 2, 5, 5, 3, 1, 6, 0, 0, 1, 0, 2});
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < n; i++) {
      Op o;
      if (i < 3) o.kind = O_DEFINE;
      else { int x = g.below(tot); int k = 0; while (x >= w[k]) x -= w[k++]; o.kind = k; }
      o.client = g.below(nclients);
      o.a = i < 3 ? i : (g.chance(0.35) ? o.client : g.below(64)); o.b = g.below(64); o.c = g.below(64); o.d = g.below(64); o.r = g.next() >> 16;
      if (faulty && o.kind != O_SETVAR && g.chance(prop == "C10" ? 0.35 : 0.12)) {
        o.fault = g.chance(0.15) && prop == "C10" ? -1 : 1 + (long)g.below(g.chance(0.5) ? 8 : 60);
      }
      p.ops.push_back(o);
      // PreComp is usually followed, later, by reads of the adjoints
      if ((o.kind == O_PRE || o.kind == O_CACHE) && g.chance(0.7)) { Op d = o; d.fault = 0; d.kind = O_DEVALR; d.a = g.below(4); p.ops.push_back(d); }
    }
    if (prop == "C17") { Op o; o.kind = O_CYCLE; o.r = g.next() >> 16; p.ops.push_back(o); }
    return p;
  }
  void execute(const Plan& plan, Ctx& ctx, const std::string& prop) override {
    World* w = new World(plan, ctx, prop);
    w->run();
  }
  bool paired(const Plan&, const std::string& prop) override { return prop == "C11"; }
  std::string describe(const Op& op) override { return describe_op(op); }
  bool clean_exit(const Plan& p) override { return p.get("teardown"); }
};

int main(int argc, char** argv) { ScalarWl w; return driver_main(argc, argv, w, "scalar"); }
