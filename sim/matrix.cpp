// Matrix workload: several clients share matrices (numbers, variables, parameters, element-wise expressions, caller-owned
// storage) and matrix expressions over them; the seeded scheduler interleaves updates, definitions, evaluation, forward and
// reverse passes, backend switches and allocation failures; the dual-number reference says what every answer must be.
#include "matrix.hpp"

using namespace sim;
namespace T1 = CoolDiff::TensorR1;
namespace T2 = CoolDiff::TensorR2;
using GP = CoolDiff::GlobalParameters;

std::vector<std::unique_ptr<MNode>> g_mn;
std::vector<std::unique_ptr<SNode>> g_sn;
MNode* mkm(MK k, MNode* a, MNode* b, int r, int c) { g_mn.emplace_back(new MNode); MNode* n = g_mn.back().get(); n->k = k; n->a = a; n->b = b; n->r = r; n->c = c; return n; }
SNode* mks(SK k, SNode* a, SNode* b) { g_sn.emplace_back(new SNode); SNode* n = g_sn.back().get(); n->k = k; n->a = a; n->b = b; return n; }
SNode* skon(C c) { SNode* n = mks(sK); n->c = c; return n; }

static const int MAXCELL = 256;
static C g_cell[MAXCELL], g_par[8];
static int g_ncell;

struct SVal { C v; std::map<int, C> g; };
struct Slot { int leaf, elem; int cell; SNode* el; };   // leaf -1: scalar variable `cell` in scalar position
struct DM { int r = 0, c = 0; std::vector<C> v; std::map<int, std::vector<C>> g; };

struct Ref {
  bool ok = true; double mag = 1;
  std::map<std::pair<int, int>, int> slotid;
  std::vector<Slot> slots;
  std::unordered_map<MNode*, DM> memo;
  std::unordered_map<SNode*, SVal> smemo;
  bool want_g;
  explicit Ref(bool g = true) : want_g(g) {}
  int slot(int leaf, int elem, int cell, SNode* el) {
    auto it = slotid.find({leaf, elem});
    if (it != slotid.end()) return it->second;
    slots.push_back({leaf, elem, cell, el});
    return slotid[{leaf, elem}] = (int)slots.size() - 1;
  }
  void lim(C z, double m) { double a = std::abs(z); if (!(a < m)) ok = false; else if (a > mag) mag = a; }
  const SVal& sev(SNode* n) {
    auto it = smemo.find(n);
    if (it != smemo.end()) return it->second;
    SVal r;
    auto comb = [&](C da, SNode* a, C db, SNode* b) { for (auto& kv : sev(a).g) r.g[kv.first] += da * kv.second; if (b) for (auto& kv : sev(b).g) r.g[kv.first] += db * kv.second; };
    switch (n->k) {
      case sK: r.v = n->c; break;
      case sV: r.v = g_cell[n->i]; r.g[n->i] = 1; break;
      case sP: r.v = g_par[n->i]; break;
      case sE: r = sev(n->o->def); break;
      case sADD: r.v = sev(n->a).v + sev(n->b).v; comb(1, n->a, 1, n->b); break;
      case sSUB: r.v = sev(n->a).v - sev(n->b).v; comb(1, n->a, -1, n->b); break;
      case sMUL: r.v = sev(n->a).v * sev(n->b).v; comb(sev(n->b).v, n->a, sev(n->a).v, n->b); break;
      case sDIV: { C d = sev(n->b).v; if (std::abs(d) < 0.05) ok = false; r.v = sev(n->a).v / d; comb(C(1) / d, n->a, -sev(n->a).v / (d * d), n->b); break; }
      case sSIN: r.v = std::sin(sev(n->a).v); comb(std::cos(sev(n->a).v), n->a, 0, nullptr); break;
      case sEXP: r.v = std::exp(sev(n->a).v); comb(r.v, n->a, 0, nullptr); break;
      case sSQ: r.v = sev(n->a).v * sev(n->a).v; comb(C(2) * sev(n->a).v, n->a, 0, nullptr); break;
    }
    lim(r.v, 300);
    return smemo[n] = r;
  }
  // tangent of a linear/bilinear operation
  template <typename F> void lin(DM& r, const DM& a, F f) { if (want_g) for (auto& kv : a.g) { auto t = f(kv.second); auto& d = r.g[kv.first]; if (d.empty()) d = t; else for (size_t i = 0; i < t.size(); i++) d[i] += t[i]; } }
  static std::vector<C> mul(const std::vector<C>& a, const std::vector<C>& b, int r, int k, int c) {
    std::vector<C> o(r * c);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { C s = 0; for (int l = 0; l < k; l++) s += a[i * k + l] * b[l * c + j]; o[i * c + j] = s; }
    return o;
  }
  bool inverse(const std::vector<C>& a, int n, std::vector<C>& out, C& det) {
    std::vector<C> m = a; out.assign(n * n, C(0)); for (int i = 0; i < n; i++) out[i * n + i] = 1;
    det = 1;
    for (int k = 0; k < n; k++) {
      int p = k; for (int i = k; i < n; i++) if (std::abs(m[i * n + k]) > std::abs(m[p * n + k])) p = i;
      if (std::abs(m[p * n + k]) < 1e-9) { det = 0; return false; }
      if (p != k) { for (int j = 0; j < n; j++) { std::swap(m[p * n + j], m[k * n + j]); std::swap(out[p * n + j], out[k * n + j]); } det = -det; }
      C d = m[k * n + k]; det *= d;
      for (int j = 0; j < n; j++) { m[k * n + j] /= d; out[k * n + j] /= d; }
      for (int i = 0; i < n; i++) if (i != k) { C f = m[i * n + k]; for (int j = 0; j < n; j++) { m[i * n + j] -= f * m[k * n + j]; out[i * n + j] -= f * out[k * n + j]; } }
    }
    return true;
  }
  std::vector<C> convlin(const std::vector<C>& in, int R, int Cc, const std::vector<C>& k, int kr, int kc, const int* p, int orr, int oc) {
    std::vector<C> o(orr * oc);
    for (int i = 0; i < orr; i++) for (int j = 0; j < oc; j++) { C s = 0; for (int u = 0; u < kr; u++) for (int v = 0; v < kc; v++) { int x = i * p[0] + u - p[2], y = j * p[1] + v - p[3]; if (x >= 0 && x < R && y >= 0 && y < Cc) s += in[x * Cc + y] * k[u * kc + v]; } o[i * oc + j] = s; }
    return o;
  }
  const DM& ev(MNode* n) {
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    DM r; r.r = n->r; r.c = n->c;
    int N = n->r * n->c;
    r.v.assign(N, C(0));
    if (!ok) return memo[n] = r;
    switch (n->k) {
      case mLEAF: {
        Leaf* l = n->leaf;
        for (int i = 0; i < N; i++) {
          r.v[i] = l->kind == 1 ? g_cell[l->cell[i]] : l->kind == 3 ? sev(l->el[i]).v : l->val[i];
          if (want_g) { int s = slot(l->id, i, l->kind == 1 ? l->cell[i] : -1, l->kind == 3 ? l->el[i] : nullptr); auto& g = r.g[s]; g.assign(N, C(0)); g[i] = 1; }
        }
        break;
      }
      case mEXPR: r = ev(n->o->def); break;
      case mCONST: for (int i = 0; i < n->r; i++) for (int j = 0; j < n->c; j++) r.v[i * n->c + j] = n->f == 1 ? 1 : n->f == 2 ? (i == j) : 0; break;
      case mADD: case mSUB: {
        const DM a = ev(n->a), b = ev(n->b); double s = n->k == mADD ? 1 : -1;
        if (!ok) break;
        for (int i = 0; i < N; i++) r.v[i] = a.v[i] + s * b.v[i];
        lin(r, a, [](const std::vector<C>& g) { return g; });
        lin(r, b, [s](const std::vector<C>& g) { auto t = g; for (auto& x : t) x *= s; return t; });
        break;
      }
      case mMUL: {
        const DM a = ev(n->a), b = ev(n->b);
        if (!ok) break;
        r.v = mul(a.v, b.v, a.r, a.c, b.c);
        lin(r, a, [&](const std::vector<C>& g) { return mul(g, b.v, a.r, a.c, b.c); });
        lin(r, b, [&](const std::vector<C>& g) { return mul(a.v, g, a.r, a.c, b.c); });
        break;
      }
      case mHAD: {
        const DM a = ev(n->a), b = ev(n->b);
        if (!ok) break;
        for (int i = 0; i < N; i++) r.v[i] = a.v[i] * b.v[i];
        lin(r, a, [&](const std::vector<C>& g) { auto t = g; for (int i = 0; i < N; i++) t[i] *= b.v[i]; return t; });
        lin(r, b, [&](const std::vector<C>& g) { auto t = g; for (int i = 0; i < N; i++) t[i] *= a.v[i]; return t; });
        break;
      }
      case mTRANS: {
        const DM a = ev(n->a);
        if (!ok) break;
        auto tr = [&](const std::vector<C>& g) { std::vector<C> t(N); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) t[j * a.r + i] = g[i * a.c + j]; return t; };
        r.v = tr(a.v); lin(r, a, tr);
        break;
      }
      case mINV: case mDET: {
        const DM a = ev(n->a);
        if (!ok) break;
        std::vector<C> iv; C d; int k = a.r;
        if (!inverse(a.v, k, iv, d) || std::abs(d) < 0.05) {
          // the determinant itself is fine near singularity, its derivative through the inverse is not
          ok = false; break;
        }
        for (C x : iv) lim(x, 100);
        if (n->k == mINV) { r.v = iv; lin(r, a, [&](const std::vector<C>& g) { auto t = mul(mul(iv, g, k, k, k), iv, k, k, k); for (auto& x : t) x = -x; return t; }); }
        else { r.v[0] = d; lin(r, a, [&](const std::vector<C>& g) { auto t = mul(iv, g, k, k, k); C s = 0; for (int i = 0; i < k; i++) s += t[i * k + i]; return std::vector<C>{d * s}; }); }
        break;
      }
      case mVEC: { const DM a = ev(n->a); r.v = a.v; lin(r, a, [](const std::vector<C>& g) { return g; }); break; }
      case mCONV: {
        const DM a = ev(n->a), b = ev(n->b);
        if (!ok) break;
        r.v = convlin(a.v, a.r, a.c, b.v, b.r, b.c, n->p, n->r, n->c);
        lin(r, a, [&](const std::vector<C>& g) { return convlin(g, a.r, a.c, b.v, b.r, b.c, n->p, n->r, n->c); });
        lin(r, b, [&](const std::vector<C>& g) { return convlin(a.v, a.r, a.c, g, b.r, b.c, n->p, n->r, n->c); });
        break;
      }
      case mUN: {
        const DM a = ev(n->a);
        if (!ok) break;
        std::vector<C> d(N);
        for (int i = 0; i < N; i++) {
          C u = a.v[i];
          switch (n->f) {
            case uSIN: r.v[i] = std::sin(u); d[i] = std::cos(u); break;
            case uCOS: r.v[i] = std::cos(u); d[i] = -std::sin(u); break;
            case uEXP: r.v[i] = std::exp(u); d[i] = r.v[i]; break;
            case uLOG: if (std::abs(u) < 0.05 || (u.real() < 0.05 && (!CPLX || std::fabs(u.imag()) < 0.05))) { ok = false; break; } r.v[i] = std::log(u); d[i] = C(1) / u; break;
            case uSQRT: if (std::abs(u) < 0.05 || (u.real() < 0.05 && (!CPLX || std::fabs(u.imag()) < 0.05))) { ok = false; break; } r.v[i] = std::sqrt(u); d[i] = C(0.5) / r.v[i]; break;
            case uTANH: if (std::abs(std::cosh(u)) < 0.1) ok = false; r.v[i] = std::tanh(u); d[i] = C(1) - r.v[i] * r.v[i]; break;
            case uSIGM: if (std::abs(C(1) + std::exp(-u)) < 0.1) ok = false; r.v[i] = C(1) / (C(1) + std::exp(-u)); d[i] = r.v[i] * (C(1) - r.v[i]); break;
            case uRELU: if (std::fabs(u.real()) < 1e-6) ok = false; r.v[i] = u.real() > 0 ? u : C(0); d[i] = u.real() > 0; break;
            case uLRELU: if (std::fabs(u.real()) < 1e-6) ok = false; r.v[i] = u.real() > 0 ? u : 0.01 * u; d[i] = u.real() > 0 ? 1 : 0.01; break;
            case uABS: if (std::fabs(u.real()) < 1e-6) ok = false; r.v[i] = std::fabs(u.real()); d[i] = u.real() > 0 ? 1 : -1; break;
          }
        }
        lin(r, a, [&](const std::vector<C>& g) { auto t = g; for (int i = 0; i < N; i++) t[i] *= d[i]; return t; });
        for (C x : d) lim(x, 3000);
        break;
      }
      case mSADD: case mSMUL: {
        const DM a = ev(n->a); const SVal s = sev(n->s);
        if (!ok) break;
        bool m = n->k == mSMUL;
        for (int i = 0; i < N; i++) r.v[i] = m ? s.v * a.v[i] : s.v + a.v[i];
        lin(r, a, [&](const std::vector<C>& g) { auto t = g; if (m) for (auto& x : t) x *= s.v; return t; });
        if (want_g) for (auto& kv : s.g) { int sl = slot(-1, kv.first, kv.first, nullptr); auto& g = r.g[sl]; if (g.empty()) g.assign(N, C(0)); for (int i = 0; i < N; i++) g[i] += kv.second * (m ? a.v[i] : C(1)); }
        break;
      }
      case mCATV: case mCATH: {
        const DM a = ev(n->a), b = ev(n->b);
        if (!ok) break;
        auto put = [&](const std::vector<C>& g, const DM& m, int ro, int co) { std::vector<C> t(N); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) t[(i + ro) * n->c + j + co] = g[i * m.c + j]; return t; };
        int ro = n->k == mCATV ? a.r : 0, co = n->k == mCATH ? a.c : 0;
        auto x = put(a.v, a, 0, 0), y = put(b.v, b, ro, co);
        for (int i = 0; i < N; i++) r.v[i] = x[i] + y[i];
        lin(r, a, [&](const std::vector<C>& g) { return put(g, a, 0, 0); });
        lin(r, b, [&](const std::vector<C>& g) { return put(g, b, ro, co); });
        break;
      }
    }
    for (C x : r.v) lim(x, 300);
    for (auto& kv : r.g) for (C x : kv.second) lim(x, 3000);
    return memo[n] = r;
  }
  // d result(e) / d cell
  C dcell(const DM& m, int e, int cell) {
    C s = 0;
    for (auto& kv : m.g) {
      Slot& sl = slots[kv.first];
      if (sl.cell == cell) s += kv.second[e];
      if (sl.el) { auto& g = sev(sl.el).g; auto it = g.find(cell); if (it != g.end()) s += kv.second[e] * it->second; }
    }
    return s;
  }
};

static std::string show(SNode* n) {
  char b[48];
  switch (n->k) {
    case sK: snprintf(b, 48, "%.3g", n->c.real()); return b;
    case sV: return "v" + std::to_string(n->i);
    case sP: return "p" + std::to_string(n->i);
    case sE: return "S" + std::to_string(n->o->id);
    case sADD: return "(" + show(n->a) + "+" + show(n->b) + ")"; case sSUB: return "(" + show(n->a) + "-" + show(n->b) + ")";
    case sMUL: return "(" + show(n->a) + "*" + show(n->b) + ")"; case sDIV: return "(" + show(n->a) + "/" + show(n->b) + ")";
    case sSIN: return "sin(" + show(n->a) + ")"; case sEXP: return "exp(" + show(n->a) + ")"; default: return "sq(" + show(n->a) + ")";
  }
}
static std::string show(MNode* n) {
  static const char* uf[] = {"sin", "cos", "exp", "log", "sqrt", "tanh", "sigm", "relu", "lrelu", "abs"};
  std::string d = "[" + std::to_string(n->r) + "x" + std::to_string(n->c) + "]";
  switch (n->k) {
    case mLEAF: return std::string(1, "TVPLX"[n->leaf->kind]) + std::to_string(n->leaf->id) + d;
    case mEXPR: return "E" + std::to_string(n->o->id) + d;
    case mCONST: return (n->f == 1 ? "ones" : n->f == 2 ? "eye" : "zeros") + d;
    case mADD: return "(" + show(n->a) + "+" + show(n->b) + ")"; case mSUB: return "(" + show(n->a) + "-" + show(n->b) + ")";
    case mMUL: return "(" + show(n->a) + "*" + show(n->b) + ")"; case mHAD: return "(" + show(n->a) + "^" + show(n->b) + ")";
    case mTRANS: return show(n->a) + "'"; case mINV: return "inv(" + show(n->a) + ")"; case mDET: return "det(" + show(n->a) + ")"; case mVEC: return "vec(" + show(n->a) + ")";
    case mCONV: return "conv(" + show(n->a) + "," + show(n->b) + ";" + std::to_string(n->p[0]) + std::to_string(n->p[1]) + std::to_string(n->p[2]) + std::to_string(n->p[3]) + ")";
    case mUN: return std::string(uf[n->f]) + "(" + show(n->a) + ")";
    case mSADD: return "(" + show(n->s) + ".+" + show(n->a) + ")"; case mSMUL: return "(" + show(n->s) + ".*" + show(n->a) + ")";
    case mCATV: return "[" + show(n->a) + ";" + show(n->b) + "]"; default: return "[" + show(n->a) + "," + show(n->b) + "]";
  }
}

// ------------------------------------------------------------------ world
struct Reach { std::set<MObj*> objs; std::set<Leaf*> leaves; bool eigen_only = false, conv = false, copy = false; int nodes = 0; };
struct Opnd { int t; void* p; RM ref; Leaf* leaf; MObj* o; };

struct World {
  const Plan& plan; Ctx& ctx; std::string prop;
  std::vector<Variable*> vars;             // scalar variables (cells 0..)
  std::vector<Parameter*> pars;
  std::vector<SObj*> sexps;
  std::vector<Leaf*> leaves;
  std::vector<std::unique_ptr<MObj>> objs;
  std::vector<MObj*> slots;
  int ne;
  bool big = false, special = false;
  long cur_fault = 0;
  uint64_t checks = 0;
  bool w_eval, w_fwd, w_rev, w_diff, w_ni, w_mem, w_fault;
  GP::CPUHandlerType backend = GP::CPUHandlerType::EIGEN;
  struct Snap { MObj* o; bool ok; double mag; struct G { int r, c; std::vector<C> v; }; std::map<int, G> leaf; std::map<int, C> cell; std::vector<int> cells; };
  std::vector<Snap> snaps;
  struct Res { MObj* o; Leaf* l; MT* p; int r, c; std::vector<Type> v; const char* what; };
  std::vector<Res> results;
  std::set<int> clients;

  World(const Plan& p, Ctx& c, const std::string& pr) : plan(p), ctx(c), prop(pr) {
    w_eval = pr == "C05" || (pr == "C10" || pr == "C11"); w_fwd = pr == "C06" || (pr == "C10" || pr == "C11"); w_rev = pr == "C07" || (pr == "C10" || pr == "C11"); w_diff = pr == "C08";
    w_ni = pr == "C09"; w_mem = pr == "C17"; w_fault = pr == "C10";
  }

  void reach(MNode* n, Reach& r, std::set<MNode*>& seen) {
    if (!n || !seen.insert(n).second) return;
    r.nodes++;
    if (n->k == mEXPR) { if (r.objs.insert(n->o).second) { if (n->o->copyform) r.copy = true; reach(n->o->def, r, seen); } }
    if (n->k == mLEAF) r.leaves.insert(n->leaf);
    if (n->k == mINV || n->k == mDET) r.eigen_only = true;
    if (n->k == mCONV) r.conv = true;
    reach(n->a, r, seen); reach(n->b, r, seen);
  }
  Reach reach(MNode* n) { Reach r; std::set<MNode*> s; reach(n, r, s); return r; }
  Reach reach(MObj* o) { Reach r; std::set<MNode*> s; r.objs.insert(o); if (o->copyform) r.copy = true; reach(o->def, r, s); return r; }

  bool api(const std::function<void()>& f) {
    bool ok = ctx.api(f, cur_fault);
    if (n_diag) ctx.fail("unexpected-diagnostic", "the library reported %s", last_diag);
    return ok;
  }
  void call(const std::function<void()>& f, const std::function<void()>& between = {}) {
    long flt = cur_fault;
    if (flt == -1) {
      for (long n = 1; n < 300; n = n < 8 ? n + 1 : n + 1 + n / 4) {
        uint64_t f0 = mem::n_faults;
        cur_fault = n;
        if (api(f)) { cur_fault = 0; if (mem::n_faults == f0) { cur_fault = flt; return; } }
        else { cur_fault = 0; if (between && n % 3 == 1) between(); }
        cur_fault = -1;
      }
      cur_fault = 0; api(f); cur_fault = flt;
      return;
    }
    if (!api(f)) { cur_fault = 0; if (between) between(); api(f); cur_fault = flt; }
  }
  bool close(C got, C want, double mag) { return std::abs(got - want) <= 1e-7 * std::max(1.0, mag); }
  void set_backend(GP::CPUHandlerType b) { if (b != backend) { backend = b; GP::setCPUHandler(b); ctx.count("backend_switches"); } }
  void need(const Reach& r) { if (r.eigen_only) set_backend(GP::CPUHandlerType::EIGEN); }

  // ---- data
  C rnd(Rng& g) {
    double re = 0.2 + g.unit() * 1.1; if (g.chance(0.3)) re = -re;
    double im = CPLX && plan.get("imag") ? (g.unit() - 0.5) * 0.7 : 0;
    if (special) { double x = g.unit(); if (x < 0.6) return un(mk(C(x < 0.18 ? 0 : x < 0.48 ? 1 : x < 0.54 ? -1 : x < 0.57 ? 2 : 0.5, 0))); }
    if (g.chance(0.12)) { re = 0; im = 0; } else if (g.chance(0.08)) { re = 1; im = 0; }
    else if (g.chance(0.03)) { double k = std::pow(10.0, -1 - 5 * g.unit()); re *= k; im *= k; }
    else if (g.chance(0.02)) re *= 2 + 8 * g.unit();
    return un(mk(C(re, im)));
  }
  Leaf* mkleaf(int kind, int r, int c, Rng& g) {
    Leaf* l = new Leaf; l->kind = kind; l->r = r; l->c = c; l->id = leaves.size();
    int n = r * c;
    if (kind != 1 && kind != 3) { l->val.resize(n); for (auto& x : l->val) x = rnd(g); }
    ctx.api([&] {
      switch (kind) {
        case 0: l->t = new MT(r, c); for (int i = 0; i < n; i++) (*l->t)[i] = mk(l->val[i]); break;
        case 1: {
          l->v = new MV(r, c);
          for (int i = 0; i < n; i++) {
            if (g.chance(0.12) && g_ncell > 0) {  // shares an existing variable
              int cell = (int)g.below(g_ncell); Variable* src = varof(cell);
              if (src) { (*l->v)[i] = *src; l->cell.push_back(cell); continue; }
            }
            if (g_ncell >= MAXCELL) { l->cell.push_back(0); (*l->v)[i] = *vars[0]; continue; }
            int cell = g_ncell++; g_cell[cell] = rnd(g); l->cell.push_back(cell);
            (*l->v)[i] = mk(g_cell[cell]);
          }
          break;
        }
        case 2: l->p = new MP(r, c); for (int i = 0; i < n; i++) (*l->p)[i] = mk(l->val[i]); break;
        case 3: {
          l->l = new ME(r, c);
          for (int i = 0; i < n; i++) { SNode* d = nullptr; seldef(g, [&](const auto& x) { (*l->l)[i] = x; }, &d); l->el.push_back(d); }
          break;
        }
        case 4: {
          for (int b = 0; b < 2; b++) { Type* q = new Type[n]; for (int i = 0; i < n; i++) q[i] = mk(l->val[i]); l->bufs.push_back(q); }
          l->t = new MT(r, c, l->bufs[0]);
        }
      }
    });
    leaves.push_back(l);
    return l;
  }
  Variable* varof(int cell) {
    if (cell < (int)vars.size()) return vars[cell];
    for (Leaf* l : leaves) if (l->kind == 1) for (int i = 0; i < l->n(); i++) if (l->cell[i] == cell) return &(*l->v)[i];
    return nullptr;
  }
  // small scalar formulas over variables
  template <typename F> void seldef(Rng& g, F sink, SNode** out) {
    auto pick = [&](int& cell) -> Variable& {
      for (;;) { cell = (int)g.below(g_ncell); if (Variable* v = varof(cell)) return *v; }
    };
    int c1, c2; Variable& a = pick(c1); Variable& b = pick(c2); int f = (int)g.below(7);
    SNode* x = mks(sV); x->i = c1; SNode* y = mks(sV); y->i = c2;
    double k = 0.3 + g.unit();
    switch (f) {
      case 0: *out = mks(sMUL, x, y); sink(a * b); break;
      case 1: *out = mks(sADD, mks(sSIN, x), mks(sMUL, skon(k), y)); sink(sin(a) + tk(k) * b); break;
      case 2: *out = mks(sMUL, mks(sEXP, mks(sMUL, skon(0.3), x)), y); sink(exp(tk(0.3) * a) * b); break;
      case 3: *out = mks(sSUB, mks(sSQ, x), y); sink(a * a - b); break;
      case 4: *out = mks(sADD, x, skon(k)); sink(a + tk(k)); break;
      case 5: *out = mks(sMUL, mks(sSIN, mks(sADD, x, y)), x); sink(sin(a + b) * a); break;
      default: *out = mks(sADD, mks(sMUL, x, mks(sMUL, x, y)), mks(sSIN, y)); sink(a * a * b + sin(b));
    }
  }
  void setcell(int cell, C v) { g_cell[cell] = v; Variable* x = varof(cell); api([&] { *x = mk(v); }); }
  // the same entries in other places, or with other signs
  bool rearrange(Leaf* l, Rng& g) {
    int n = l->n(), how = (int)g.below(3); if (n < 2 && how < 2) return false;
    std::vector<C> w(n); for (int i = 0; i < n; i++) w[i] = l->kind == 1 ? g_cell[l->cell[i]] : l->val[i];
    if (how == 0) std::rotate(w.begin(), w.begin() + 1 + g.below(n - 1), w.end());
    else if (how == 1) std::swap(w[g.below(n)], w[g.below(n)]);
    else for (C& x : w) x = -x;
    for (int i = 0; i < n; i++) {
      if (l->kind == 1) { g_cell[l->cell[i]] = w[i]; api([&] { (*l->v)[i] = mk(w[i]); }); }
      else if (l->kind == 2) { l->val[i] = w[i]; api([&] { (*l->p)[i] = mk(w[i]); }); }
      else { l->val[i] = w[i]; (*l->t)[i] = mk(w[i]); }
    }
    ctx.count("op_rearrange");
    return true;
  }
  void setleaf(Leaf* l, Rng& g) {
    int n = l->n();
    if (l->kind != 3 && g.chance(0.2) && rearrange(l, g)) return;
    switch (l->kind) {
      case 0: case 4: {
        if (l->kind == 4 && g.chance(0.5)) {
          l->cur ^= 1; Type* q = l->bufs[l->cur];
          for (int i = 0; i < n; i++) { l->val[i] = rnd(g); q[i] = mk(l->val[i]); }
          api([&] { l->t->setMatrixPtr(q); });
          ctx.count("op_repoint");
        } else if (g.chance(0.2) && l->kind == 0) {
          MT tmp(l->r, l->c);
          for (int i = 0; i < n; i++) { l->val[i] = rnd(g); tmp[i] = mk(l->val[i]); }
          api([&] { l->t->copyData(tmp); });
        } else {
          int k = 1 + (int)g.below(n);
          for (int q = 0; q < k; q++) { int i = k == n ? q : (int)g.below(n); l->val[i] = rnd(g); if (g.chance(0.5)) (*l->t)[i] = mk(l->val[i]); else (*l->t)(i / l->c, i % l->c) = mk(l->val[i]); }
        }
        break;
      }
      case 1: { int k = 1 + (int)g.below(n); for (int q = 0; q < k; q++) { int i = k == n ? q : (int)g.below(n); C v = rnd(g); g_cell[l->cell[i]] = v; api([&] { (*l->v)(i / l->c, i % l->c) = mk(v); }); } break; }
      case 2: { int i = (int)g.below(n); l->val[i] = rnd(g); api([&] { (*l->p)[i] = mk(l->val[i]); }); break; }
      case 3: break;
    }
  }
  void redefel(Leaf* l, Rng& g) {  // a new scalar expression in one element
    int i = (int)g.below(l->n()); SNode* d = nullptr;
    uint64_t s = g.next();
    call([&] { Rng q(s); seldef(q, [&](const auto& x) { (*l->l)[i] = x; }, &d); });
    l->el[i] = d;
  }

  // ---- definitions
  Opnd operand(Rng& g, int want = -1, MObj* forbid = nullptr, bool scalarE = false) {
    for (int t = 0;; t++) {
      int k = want >= 0 ? want : (int)(g.below(10) < 4 ? tE : g.below(10) < 5 ? tV : g.below(8) ? tT : tP);
      if (t > 30) k = scalarE ? k : want >= 0 ? want : tV;
      if (k == tE && (scalarE || !g.chance(0.25))) {
        MObj* o = slots[g.below(slots.size())];
        if (o && o != forbid && !(forbid && reach(o).objs.count(forbid)) && (!scalarE || (o->r == 1 && o->c == 1))) { MNode* n = mkm(mEXPR, nullptr, nullptr, o->r, o->c); n->o = o; return {tE, o->e, RM{n}, nullptr, o}; }
        if (scalarE) { if (t > 40) return {-1, nullptr, RM{nullptr}, nullptr, nullptr}; continue; }
        if (t < 30) continue;
      }
      Leaf* l = leaves[g.below(leaves.size())];
      int lt = l->kind == 0 || l->kind == 4 ? tT : l->kind == 1 ? tV : l->kind == 2 ? tP : tE;
      if (t < 200 && lt != k) continue;
      if (lt != k) return {-1, nullptr, RM{nullptr}, nullptr, nullptr};
      return leafop(l);
    }
  }
  Opnd leafop(Leaf* l) {
    MNode* n = mkm(mLEAF, nullptr, nullptr, l->r, l->c); n->leaf = l;
    int lt = l->kind == 0 || l->kind == 4 ? tT : l->kind == 1 ? tV : l->kind == 2 ? tP : tE;
    return {lt, l->t ? (void*)l->t : l->v ? (void*)l->v : l->p ? (void*)l->p : (void*)l->l, RM{n}, l, nullptr};
  }
  // draws one right-hand side; dry: reference only. self: expression being redefined (must not be reached), ext: extend self in place
  bool def(Rng g, Act* act, MObj* self, bool ext, bool scalar, MNode** out) {
    int sel = (int)g.below(100);
    Act dummy; (void)dummy;
    if (ext) {  // self (op) something, shape kept
      Opnd me{tE, self->e, RM{mkm(mEXPR, nullptr, nullptr, self->r, self->c)}, nullptr, self};
      // the reference operand is the definition so far
      me.ref.n = self->def;
      int f = (int)g.below(8);
      if (f < 5) {
        Opnd o = g.chance(0.12) ? me : operand(g, -1, self); if (o.t < 0) return false;  // both sides may be the expression itself
        int f2 = (int)g.below(4); bool left = g.chance(0.6);
        if (left ? !has2(tE, o.t) : !has2(o.t, tE)) return false;
        *out = left ? ref2(f2, me.ref, o.ref).n : ref2(f2, o.ref, me.ref).n;
        if (act) { if (left) lib2(f2, tE, self->e, o.t, o.p, *act); else lib2(f2, o.t, o.p, tE, self->e, *act); }
      } else if (f < 7) {
        static const int u[] = {4, 9, 10, 26}; int f1 = u[g.below(4)];
        *out = ref1(f1, me.ref).n; if (act) lib1(f1, *self->e, *act);
      } else {
        int i = (int)g.below(vars.size()); SNode* s = mks(sV); s->i = i; int fs = (int)g.below(6);
        *out = refs(fs, RS{s}, me.ref).n; if (act) libs(fs, 1, vars[i], tE, self->e, *act);
      }
      return true;
    }
    if (scalar && sel < 62) {
      // scalar-valued composite over leaves
      if (sel < 34) {
        static const int tri[4][3] = {{tT, tT, tV}, {tV, tV, tV}, {tV, tT, tE}, {tE, tV, tT}};
        const int* t = tri[g.below(4)]; int f = (int)g.below(N3);
        Opnd o[3]; for (int i = 0; i < 3; i++) { o[i] = t[i] == tE ? (g.chance(0.5) ? operand(g, tE, self, true) : operand(g, tE, self)) : operand(g, t[i], self); if (o[i].t != t[i]) return false; }
        *out = ref3(f, o[0].ref, o[1].ref, o[2].ref).n;
        if (act) lib3(f, o[0].t, o[0].p, o[1].t, o[1].p, o[2].t, o[2].p, *act);
        return true;
      }
      if (sel < 44) {
        int f = (int)g.below(NX); int i = (int)g.below(vars.size()), j = (int)g.below(vars.size()); Opnd o = operand(g, g.chance(0.5) ? tT : tV, self);
        SNode* s = mks(sV); s->i = i; SNode* t = mks(sV); t->i = j;
        *out = refx(f, RS{s}, RS{t}, o.ref).n;
        if (act) libx(f, *vars[i], *vars[j], o.t, o.p, *act);
        return true;
      }
      int f = (int)g.below(NN); Opnd a = operand(g, tE, self, true); if (a.t < 0) return false;
      Opnd b = operand(g, (int)g.below(3), self); if (b.t < 0) return false;
      *out = refn(f, a.ref, b.ref).n;
      if (act) libn(f, *(ME*)a.p, b.t, b.p, *act);
      return true;
    }
    sel = (int)g.below(10);
    if (sel < 4) {
      Opnd a = operand(g, -1, self), b = operand(g, -1, self); if (a.t < 0 || b.t < 0 || !has2(a.t, b.t)) return false;
      int f = (int)g.below(N2);
      *out = ref2(f, a.ref, b.ref).n;
      if (act) lib2(f, a.t, a.p, b.t, b.p, *act);
      return true;
    }
    if (sel < 8) {
      Opnd a = operand(g, -1, self); if (a.t < 0) return false;
      int f = (int)g.below(N1);
      if (a.t == tP) { static const int u[] = {0, 4, 16}; f = u[g.below(3)]; }
      *out = ref1(f, a.ref).n;
      if (act) switch (a.t) { case tE: lib1(f, *(ME*)a.p, *act); break; case tT: lib1(f, *(MT*)a.p, *act); break; case tV: lib1(f, *(MV*)a.p, *act); break; default: lib1(f, *(MP*)a.p, *act); }
      return true;
    }
    Opnd a = operand(g, -1, self); int ts = (int)g.below(4); if (a.t < 0 || !hass(ts, a.t)) return false;
    int f = (int)g.below(NS); SNode* s; void* sp; Type num{};
    switch (ts) {
      case 0: { C v = C(0.4 + g.unit(), 0); num = mk(v); s = skon(v); sp = &num; break; }
      case 1: { int i = (int)g.below(vars.size()); s = mks(sV); s->i = i; sp = vars[i]; break; }
      case 2: { if (sexps.empty()) return false; SObj* e = sexps[g.below(sexps.size())]; s = mks(sE); s->o = e; sp = e->e; break; }
      default: { int i = (int)g.below(pars.size()); s = mks(sP); s->i = i; sp = pars[i]; }
    }
    *out = refs(f, RS{s}, a.ref).n;
    if (act) libs(f, ts, sp, a.t, a.p, *act);
    return true;
  }
  bool good(MNode* n) { if (bad(n) || n->r * n->c > (big ? 81 : 36) || n->r > (big ? 81 : 9) || n->c > (big ? 81 : 9)) return false; Ref r(false); r.ev(n); return r.ok; }
  // a reference to an unnamed node (auto& t = X * Y), kept by a client and used in later definitions
  struct Held { RM ref; std::function<void(int, ME&, Act&)> use; };
  std::vector<Held> held;
  void hold(Rng& g) {
    for (int t = 0; t < 12; t++) {
      Opnd a = operand(g, g.chance(0.3) ? tE : tV), b = operand(g, (int)g.below(3)); if (a.t < 0 || b.t < 0 || !hasheld(a.t, b.t)) continue;
      int f = (int)g.below(NHELD);
      Held h; h.ref = refheld(f, a.ref, b.ref);
      if (!good(h.ref.n) || reach(h.ref.n).nodes > 30) continue;
      call([&] { h.use = libheld(f, a.t, a.p, b.t, b.p); });
      for (MObj* x : reach(h.ref.n).objs) x->parents = true;
      if (held.size() < 5) held.push_back(h); else held[g.below(5)] = h;
      ctx.count("op_hold");
      return;
    }
  }
  bool define_held(MObj* o, const Op& op, bool re) {
    Rng g(mix64(op.r + 0x4e1d));
    if (!g.chance(0.22)) return false;
    if (held.size() < 2 || g.chance(0.4)) hold(g);
    bool scalar = (prop == "C07" || prop == "C17" || w_ni || w_fault) ? (op.c % 4 != 0) : (op.c % 4 == 0);
    for (int t = 0; t < 40 && !held.empty(); t++) {
      Held& h = held[g.below(held.size())];
      MObj* e = slots[g.below(slots.size())]; int f = (int)g.below(NUSES);
      if (!e || e == o) continue;
      MNode* n = mkm(mEXPR, nullptr, nullptr, e->r, e->c); n->o = e;
      MNode* d = refuse(f, h.ref, RM{n}).n;
      if (bad(d) || (scalar && d->r * d->c != 1) || (re && o->parents && (d->r != o->r || d->c != o->c))) continue;
      Reach r = reach(d);
      if (r.nodes > 60 || (re && r.objs.count(o)) || !good(d)) continue;
      if (re) invalidate(o);
      Act act{re ? 1 : 0, o->e};
      call([&] { act.out = o->e; h.use(f, *e->e, act); }, [&] { others_ok(o, Rng(op.r)); });
      o->e = act.out;
      if (re && (o->r != d->r || o->c != d->c)) ctx.count("op_reassign_new_shape");
      o->def = d; o->r = d->r; o->c = d->c; o->copyform = false;
      for (MObj* x : r.objs) x->parents = true;
      if (ctx.verbose) ctx.note("   E%d := %s (held node)", o->id, show(d).c_str());
      ctx.count("op_define_held");
      return true;
    }
    return false;
  }
  void define(MObj* o, const Op& op, bool re, bool ext) {
    if (!ext && define_held(o, op, re)) return;
    uint64_t seed = op.r; MNode* d = nullptr; bool found = false; MObj* src = nullptr;
    bool scalar = (prop == "C07" || prop == "C17" || w_ni || w_fault) ? (op.c % 4 != 0) : (op.c % 4 == 0);
    bool keep = re || ext;
    for (int t = 0; t < 60 && !found; t++) {
      d = nullptr;
      if (!ext && prop != "C07" && Rng(seed + t).chance(0.02)) {
        MObj* s = slots[Rng(seed + t + 77).below(slots.size())];
        if (s && s != o && !reach(s).objs.count(o) && !s->copyform) { d = mkm(mEXPR, nullptr, nullptr, s->r, s->c); d->o = s; if ((!keep || !o->parents || (d->r == o->r && d->c == o->c)) && good(d)) { src = s; found = true; break; } }
        d = nullptr;
      }
      if (!def(Rng(mix64(seed + t)), nullptr, keep ? o : nullptr, ext, scalar, &d)) continue;
      if (!good(d)) continue;
      if ((ext || (re && o->parents)) && (d->r != o->r || d->c != o->c)) continue;  // a new shape is fine while nothing is built on it
      Reach r = reach(d);
      if (r.nodes > 60) continue;
      found = true; seed = mix64(seed + t);
    }
    if (!found) { ctx.count("define_skipped"); return; }
    auto between = [&] { others_ok(o, Rng(seed)); };
    if (keep) invalidate(o);
    Act act{keep ? 1 : 0, o->e};
    if (src) { if (keep) call([&] { *o->e = *src->e; }, between); else call([&] { o->e = new ME(*src->e); }, between); }
    else call([&] { act.out = o->e; MNode* d2; def(Rng(seed), &act, keep ? o : nullptr, ext, scalar, &d2); }, between);
    if (!src) o->e = act.out;
    if (re && (o->r != d->r || o->c != d->c)) ctx.count("op_reassign_new_shape");
    o->def = d; o->r = d->r; o->c = d->c; o->copyform = src != nullptr; o->pinned = ext;
    for (MObj* x : reach(d).objs) x->parents = true;
    if (ctx.verbose) ctx.note("   E%d := %s", o->id, show(d).c_str());
    ctx.count(ext ? "op_extend" : re ? "op_reassign" : src ? "op_define_copy" : "op_define");
  }

  // an expression object moved to another address, or onto another expression; what was computed through it
  // before stays readable through its new owner
  void do_move(MObj* o, const Op& op) {
    if (!o->e || o->parents || o->pinned) { ctx.count("move_skipped"); return; }
    MObj* t = slots[op.b % slots.size()];
    Reach r = reach(o);
    bool onto = op.c % 3 == 0 && t && t != o && !r.objs.count(t) && !t->pinned && !(o->copyform && t->copyform) && (!t->parents || (t->r == o->r && t->c == o->c));
    if (op.c % 3 == 0 && !onto) { ctx.count("move_skipped"); return; }
    ME* old = o->e;
    if (!onto) {
      call([&] { o->e = new ME(std::move(*old)); }, [&] { others_ok(o, Rng(op.r)); });
      delete old;
      ctx.count("op_move");
      if (ctx.verbose) ctx.note("   E%d moved", o->id);
      return;
    }
    invalidate(t);
    call([&] { *t->e = std::move(*old); }, [&] { others_ok(o, Rng(op.r)); });
    delete old; o->e = nullptr;
    t->def = o->def; t->r = o->r; t->c = o->c; t->copyform = o->copyform;
    for (auto& x : snaps) if (x.o == o) x.o = t;
    for (auto& x : results) if (x.o == o) x.o = t;
    for (auto& x : slots) if (x == o) x = nullptr;
    ctx.count("op_move_onto");
    if (ctx.verbose) ctx.note("   E%d := moved E%d", t->id, o->id);
  }

  // results and snapshots that a pass over o may legitimately overwrite
  void invalidate(MObj* root) { invalidate(reach(root)); }
  void invalidate(const Reach& r) {
    for (auto it = snaps.begin(); it != snaps.end();) if (r.objs.count(it->o)) it = snaps.erase(it); else ++it;
    for (auto it = results.begin(); it != results.end();) if ((it->o && (r.objs.count(it->o) || inter(it->o, r))) || (it->l && r.leaves.count(it->l))) it = results.erase(it); else ++it;
  }
  // a copy of an expression is the same expression under another name
  bool inter(MObj* o, const Reach& r) {
    while (o->copyform) { o = o->def->o; if (r.objs.count(o)) return true; }
    for (MObj* x : r.objs) { MObj* y = x; while (y->copyform) { y = y->def->o; if (y == o) return true; } }
    return false;
  }
  void remember(MObj* o, Leaf* l, MT* p, const char* what) {
    if (!w_ni) return;
    Res r{o, l, p, (int)p->getNumRows(), (int)p->getNumColumns(), {}, what};
    r.v.assign(p->getMatrixPtr(), p->getMatrixPtr() + r.r * r.c);
    results.push_back(r);
    if (results.size() > 8) results.erase(results.begin());
  }

  void cmp(const char* cls, const char* what, MT& got, int r, int c, const std::vector<C>& want, double mag) {
    checks++;
    if (ctx.obs_mode) { cmp_worlds(what, got, mag); return; }
    if ((int)got.getNumRows() != r || (int)got.getNumColumns() != c) ctx.fail(std::string(cls).find("derivative") != std::string::npos ? "wrong-derivative-shape" : "wrong-shape", "%s has shape %dx%d, exact %dx%d", what, (int)got.getNumRows(), (int)got.getNumColumns(), r, c);
    for (int i = 0; i < r * c; i++) { C x = un(got[i]); ctx.h(x.real()); ctx.h(x.imag()); if (!close(x, want[i], mag)) ctx.fail(cls, "%s entry (%d,%d) = (%.10g,%.10g), exact (%.10g,%.10g)", what, i / c, i % c, x.real(), x.imag(), want[i].real(), want[i].imag()); }
  }
  // C11: the answer of the world in which every parallel part runs in order
  void cmp_worlds(const char* what, MT& got, double mag) {
    int r = (int)ctx.obs(got.getNumRows()), c = (int)ctx.obs(got.getNumColumns());
    if (r != (int)got.getNumRows() || c != (int)got.getNumColumns()) ctx.fail("schedule-changes-shape", "%s has shape %dx%d, sequentially %dx%d", what, (int)got.getNumRows(), (int)got.getNumColumns(), r, c);
    for (int i = 0; i < r * c; i++) {
      C x = un(got[i]); C w(ctx.obs(x.real()), ctx.obs(x.imag())); ctx.h(x.real());
      if (!close(x, w, mag)) ctx.fail("schedule-changes-result", "%s entry (%d,%d) = (%.10g,%.10g), sequentially (%.10g,%.10g)", what, i / c, i % c, x.real(), x.imag(), w.real(), w.imag());
    }
  }
  std::vector<C> copy(MT& m) { std::vector<C> v; for (size_t i = 0; i < m.getNumElem(); i++) v.push_back(un(m[i])); return v; }

  void do_eval(MObj* o) {
    Reach r = reach(o); need(r); invalidate(r);
    MT* got = nullptr;
    call([&] { got = &T2::Eval(*o->e); }, [&] { others_ok(o, Rng(o->id)); });
    Ref ref(false); const DM& d = ref.ev(o->def);
    remember(o, nullptr, got, "value");
    if (!ref.ok) { ctx.count("guarded"); return; }
    if (w_eval) cmp("wrong-value", "Eval", *got, d.r, d.c, d.v, ref.mag);
    if (w_diff && !r.eigen_only) {
      std::vector<C> a = copy(*got); int gr = got->getNumRows(), gc = got->getNumColumns();
      flip(); api([&] { got = &T2::Eval(*o->e); });
      cmp("backends-differ", "Eval on the other backend", *got, gr, gc, a, ref.mag);
    }
  }
  void flip() { set_backend(backend == GP::CPUHandlerType::EIGEN ? GP::CPUHandlerType::NAIVE : GP::CPUHandlerType::EIGEN); }
  Leaf* pickV(Rng& g) { for (int t = 0; t < 50; t++) { Leaf* l = leaves[g.below(leaves.size())]; if (l->kind == 1) return l; } for (Leaf* l : leaves) if (l->kind == 1) return l; return nullptr; }
  void fwd_want(Ref& ref, const DM& d, Leaf* X, std::vector<C>& w) {
    int R = d.r * X->r, Cc = d.c * X->c; w.assign(R * Cc, C(0));
    for (int l = 0; l < d.r; l++) for (int k = 0; k < d.c; k++) for (int i = 0; i < X->r; i++) for (int j = 0; j < X->c; j++)
      w[(l * X->r + i) * Cc + k * X->c + j] = ref.dcell(d, l * d.c + k, X->cell[i * X->c + j]);
  }
  void do_fwd(MObj* o, Leaf* X) {
    Reach r = reach(o); need(r); invalidate(r);
    invalidate_leaf(X);
    MT* got = nullptr;
    call([&] { got = &T2::DevalF(*o->e, *X->v); }, [&] { others_ok(o, Rng(o->id)); });
    Ref ref; const DM d = ref.ev(o->def);
    remember(o, nullptr, got, "forward derivative");
    if (!ref.ok) { ctx.count("guarded"); return; }
    std::vector<C> w; fwd_want(ref, d, X, w);
    for (C x : w) ref.lim(x, 1e9);
    if (w_fwd) cmp("wrong-forward-derivative", "DevalF", *got, d.r * X->r, d.c * X->c, w, ref.mag);
    if (w_diff && !r.eigen_only) {
      std::vector<C> a = copy(*got); int gr = got->getNumRows(), gc = got->getNumColumns();
      flip(); api([&] { got = &T2::DevalF(*o->e, *X->v); });
      cmp("backends-differ", "DevalF on the other backend", *got, gr, gc, a, ref.mag);
    }
  }
  void invalidate_leaf(Leaf* l) { for (auto it = results.begin(); it != results.end();) if (it->l == l) it = results.erase(it); else ++it; }
  bool rev_ok(MObj* o, Reach& r) {
    if (o->r != 1 || o->c != 1 || r.copy) return false;
    for (MObj* x : r.objs) if (x->r != 1 || x->c != 1) return false;
    return true;
  }
  void do_rev(MObj* o) {
    Reach r = reach(o);
    if (!rev_ok(o, r)) { ctx.count("reverse_not_scalar"); return; }
    need(r); invalidate(r);
    call([&] { T2::PreComp(*o->e); }, [&] { others_ok(o, Rng(o->id)); });
    Ref ref; const DM d = ref.ev(o->def);
    Snap s; s.o = o; s.ok = ref.ok; s.mag = ref.mag;
    if (ref.ok) {
      for (Leaf* l : leaves) { Snap::G q{l->r, l->c, std::vector<C>(l->n())}; s.leaf[l->id] = q; }
      for (auto& kv : d.g) { Slot& sl = ref.slots[kv.first]; if (sl.leaf >= 0) s.leaf[sl.leaf].v[sl.elem] += kv.second[0]; else s.cell[sl.cell] += kv.second[0]; }
    }
    snaps.push_back(s);
    if (snaps.size() > 5) snaps.erase(snaps.begin());
    if (w_diff && ref.ok && !r.eigen_only) {
      std::map<int, std::vector<C>> a;
      for (Leaf* l : r.leaves) api([&] { a[l->id] = copy(devalr(o, l)); });
      flip(); api([&] { T2::PreComp(*o->e); });
      for (Leaf* l : r.leaves) api([&] { cmp("backends-differ", "DevalR on the other backend", devalr(o, l), l->r, l->c, a[l->id], ref.mag); });
    }
  }
  MT& devalr(MObj* o, Leaf* l) {
    switch (l->kind) { case 1: return T2::DevalR(*o->e, *l->v); case 2: return T2::DevalR(*o->e, *l->p); case 3: return T2::DevalR(*o->e, *l->l); default: return T2::DevalR(*o->e, *l->t); }
  }
  void do_devalr(const Op& op) {
    if (snaps.empty()) return;
    Snap& s = snaps[op.a % snaps.size()];
    if (!s.ok) { ctx.count("guarded"); return; }
    if (&s != &snaps.back()) ctx.count("old_snapshot_reads");
    for (Leaf* l : leaves) {
      MT* got = nullptr;
      call([&] { got = &devalr(s.o, l); });
      auto& w = s.leaf[l->id];
      char nm[64]; snprintf(nm, sizeof nm, "DevalR by %c%d", "TVPLX"[l->kind], l->id);
      if (w_rev) cmp("wrong-gradient", nm, *got, w.r, w.c, w.v, s.mag);
    }
    for (size_t i = 0; i < vars.size(); i++) {
      MT* got = nullptr;
      call([&] { got = &T2::DevalR(*s.o->e, *vars[i]); });
      if (w_rev) cmp("wrong-gradient", "DevalR by a scalar variable", *got, 1, 1, {s.cell[i]}, s.mag);
    }
  }
  void do_leaf(Leaf* l, Rng& g) {  // passes directly over an operand matrix
    Reach r; r.leaves.insert(l); invalidate(r);
    MNode* n = mkm(mLEAF, nullptr, nullptr, l->r, l->c); n->leaf = l;
    bool fw = g.chance(0.4); Leaf* X = pickV(g); MT* got = nullptr;
    auto go = [&](auto& m) { if (fw) got = &T2::DevalF(m, *X->v); else got = &T2::Eval(m); };
    call([&] { switch (l->kind) { case 1: go(*l->v); break; case 2: go(*l->p); break; case 3: go(*l->l); break; default: go(*l->t); } });
    Ref ref; const DM d = ref.ev(n);
    remember(nullptr, l, got, "operand pass");
    if (!ref.ok) return;
    if (fw) { std::vector<C> w; fwd_want(ref, d, X, w); if (w_fwd) cmp("wrong-forward-derivative", "DevalF of an operand", *got, d.r * X->r, d.c * X->c, w, ref.mag); }
    else if (w_eval) cmp("wrong-value", "Eval of an operand", *got, d.r, d.c, d.v, ref.mag);
    ctx.count("op_leaf_pass");
  }
  void others_ok(MObj* except, Rng g) {
    if (w_ni || w_mem || w_diff) return;
    long save = cur_fault; cur_fault = 0;
    for (int t = 0; t < 2; t++) {
      MObj* o = slots[g.below(slots.size())];
      if (!o || o == except || (except && reach(o).objs.count(except))) continue;
      Reach r = reach(o); need(r); invalidate(r);
      MT* got = nullptr;
      api([&] { got = &T2::Eval(*o->e); });
      Ref ref(false); const DM& d = ref.ev(o->def);
      ctx.count("checks_right_after_failure");
      if (ref.ok && w_eval) cmp("damaged-by-failure", "Eval of another expression after a failed allocation", *got, d.r, d.c, d.v, ref.mag);
    }
    cur_fault = save;
  }

  // ---- C09
  struct Bits { std::vector<C> leaf; std::vector<C> consts; };
  void bits(Bits& b) {
    for (Leaf* l : leaves) for (int i = 0; i < l->n(); i++) {
      if (l->kind == 1) b.leaf.push_back(un(T1::Eval((*l->v)[i]))); else if (l->kind == 2) b.leaf.push_back(un(T1::Eval((*l->p)[i]))); else if (l->kind != 3) b.leaf.push_back(un((*l->t)[i]));
    }
    for (auto* v : vars) b.leaf.push_back(un(T1::Eval(*v)));
    for (auto* p : pars) b.leaf.push_back(un(T1::Eval(*p)));
  }
  void ni(const Bits& before) {
    Bits now; bits(now);
    checks++;
    for (size_t i = 0; i < before.leaf.size(); i++) if (memcmp(&now.leaf[i], &before.leaf[i], sizeof(C))) ctx.fail("operand-disturbed", "an operand entry changed from (%.17g,%.17g) to (%.17g,%.17g)", before.leaf[i].real(), before.leaf[i].imag(), now.leaf[i].real(), now.leaf[i].imag());
    for (Leaf* l : leaves) { int r, c; if (l->v) r = l->v->getNumRows(), c = l->v->getNumColumns(); else if (l->t) r = l->t->getNumRows(), c = l->t->getNumColumns(); else if (l->p) r = l->p->getNumRows(), c = l->p->getNumColumns(); else r = l->l->getNumRows(), c = l->l->getNumColumns(); if (r != l->r || c != l->c) ctx.fail("operand-disturbed", "operand %c%d changed its shape from %dx%d to %dx%d", "TVPLX"[l->kind], l->id, l->r, l->c, r, c); }
    for (int n = 1; n <= 9; n++) {
      MT* e = const_cast<MT*>(T2::MatrixBasics::Eye("CPUMemoryStrategy", n));
      if ((int)e->getNumRows() != n || (int)e->getNumColumns() != n) ctx.fail("constant-disturbed", "the shared identity matrix of size %d now has shape %dx%d", n, (int)e->getNumRows(), (int)e->getNumColumns());
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (un((*e)(i, j)) != C(i == j)) ctx.fail("constant-disturbed", "the shared identity matrix of size %d has entry (%d,%d) = %.17g", n, i, j, un((*e)(i, j)).real());
    }
    for (int r = 1; r <= 6; r++) for (int c = 1; c <= 6; c++) for (int k = 0; k < 2; k++) {
      if (r > 3 && c > 3) continue;
      MT* e = const_cast<MT*>(k ? T2::MatrixBasics::Ones("CPUMemoryStrategy", r, c) : T2::MatrixBasics::Zeros("CPUMemoryStrategy", r, c));
      if ((int)e->getNumRows() != r || (int)e->getNumColumns() != c) ctx.fail("constant-disturbed", "the shared %s matrix %dx%d now has shape %dx%d", k ? "one" : "zero", r, c, (int)e->getNumRows(), (int)e->getNumColumns());
      for (int i = 0; i < r * c; i++) if (un((*e)[i]) != C(k)) ctx.fail("constant-disturbed", "the shared %s matrix %dx%d has entry %d = %.17g", k ? "one" : "zero", r, c, i, un((*e)[i]).real());
    }
    for (Res& x : results) {
      checks++;
      if ((int)x.p->getNumRows() != x.r || (int)x.p->getNumColumns() != x.c) ctx.fail("result-disturbed", "an earlier %s of %s%d changed its shape from %dx%d to %dx%d", x.what, x.o ? "E" : "operand ", x.o ? x.o->id : x.l->id, x.r, x.c, (int)x.p->getNumRows(), (int)x.p->getNumColumns());
      if (memcmp(x.p->getMatrixPtr(), x.v.data(), sizeof(Type) * x.v.size())) ctx.fail("result-disturbed", "an earlier %s of %s%d changed its contents", x.what, x.o ? "E" : "operand ", x.o ? x.o->id : x.l->id);
    }
  }
  void prime_constants() {
    ctx.api([&] {
      for (int n = 1; n <= 9; n++) T2::MatrixBasics::Eye("CPUMemoryStrategy", n);
      for (int r = 1; r <= 6; r++) for (int c = 1; c <= 6; c++) { T2::MatrixBasics::Ones("CPUMemoryStrategy", r, c); T2::MatrixBasics::Zeros("CPUMemoryStrategy", r, c); }
    });
  }
  void cycle(const Op& op) {
    Rng g(op.r);
    struct T { int k; MObj* o; Leaf* x; };
    std::vector<T> todo;
    int n = 1 + (int)g.below(5);
    for (int i = 0; i < n; i++) { MObj* o = slots[g.below(slots.size())]; if (!o) continue; int k = (int)g.below(5); Reach r = reach(o); if (k == 2 && !rev_ok(o, r)) k = 0; todo.push_back({k, o, pickV(g)}); }
    uint64_t at = 0; int K = 4 + 2 * (int)g.below(6);
    bool sw = g.chance(0.3);
    for (int k = 0; k < 10 + K; k++) {
      int dk = k < 6 + K ? k : k - K - 4;  // K is even; the data of the first rounds come back at the end
      Rng q(op.r + (dk & 1));
      for (Leaf* l : leaves) if (l->kind == 0 && q.chance(0.5)) for (int i = 0; i < l->n(); i++) {
        l->val[i] = rnd(q); if (l->val[i] != C(0) && std::abs(l->val[i]) != 1) l->val[i] = un(mk(l->val[i] * (1 + 0.003 * dk)));  // data never seen before
        (*l->t)[i] = mk(l->val[i]);
      }
      if (sw) flip();
      for (auto& t : todo) {
        Reach r = reach(t.o); need(r); invalidate(r);
        switch (t.k) {
          case 0: api([&] { T2::Eval(*t.o->e); }); break;
          case 1: api([&] { T2::DevalF(*t.o->e, *t.x->v); }); break;
          case 2: api([&] { T2::PreComp(*t.o->e); for (Leaf* l : leaves) devalr(t.o, l); }); break;
          case 3: for (Leaf* l : leaves) if (l->kind == 1) api([&] { T2::DevalF(*t.o->e, *l->v); }); break;
          default: api([&] { T2::Eval(*t.o->e); T2::DevalF(*t.o->e, *t.x->v); });
        }
      }
      if (k == 5) at = mem::live_bytes;
    }
    checks++;
    ctx.count("memory_cycles", 10 + K);
    if (mem::live_bytes > at) { std::string s; for (auto& t : todo) s += std::string(" ") + std::to_string(t.k) + ":E" + std::to_string(t.o->id); ctx.fail("unbounded-memory", "%d repetitions of the same passes left %llu more bytes; passes%s", K, (unsigned long long)(mem::live_bytes - at), s.c_str()); }
  }
  void run();
};

enum { O_SETLEAF, O_SETVAR, O_SETPAR, O_DEFINE, O_REASSIGN, O_EXTEND, O_EVAL, O_FWD, O_REV, O_DEVALR, O_LEAF, O_SWITCH, O_REDEFEL, O_CYCLE, O_MOVE, O_N };
static const char* opname[] = {"update matrix", "set scalar variable", "set scalar parameter", "define expression", "redefine expression", "extend expression in place", "Eval", "DevalF", "PreComp", "DevalR of all operands", "pass over an operand", "switch backend", "redefine an element expression", "repeat passes and watch memory", "move expression"};
static std::string describe_op(const Op& op) { char b[120]; snprintf(b, sizeof b, "%s #%ld", opname[op.kind % O_N], op.a); return b; }

void World::run() {
  Rng g(plan.get("wseed"));
  int n1 = 1 + plan.get("n1") % 3, n2 = 1 + plan.get("n2") % 3;
  big = plan.get("big") != 0;  // shapes of up to 9 rows or columns instead of 3
  special = plan.get("special") != 0;  // data full of exact zeros, ones and powers of two
  if (special) ctx.count("special_value_runs");
  if (big) { n1 = 1 + plan.get("n1") % 8; n2 = 4 + plan.get("n2") % 6; ctx.count("large_shape_runs"); }
  ne = 3 + plan.get("ne") % 5;
  if (plan.get("imag") % 2 == 0) const_cast<Plan&>(plan).cfg["imag"] = 0;
  int nb = plan.get("backend") % 3;
  set_backend(nb == 1 ? GP::CPUHandlerType::NAIVE : GP::CPUHandlerType::EIGEN);
  for (int i = 0; i < 3; i++) { g_cell[g_ncell] = rnd(g); ctx.api([&] { vars.push_back(new Variable(mk(g_cell[g_ncell]))); }); g_ncell++; }
  for (int i = 0; i < 2; i++) { g_par[i] = rnd(g); ctx.api([&] { pars.push_back(new Parameter(mk(g_par[i]))); }); }
  int sh[6][2] = {{n1, n1}, {n1, n2}, {n2, n1}, {n1, 1}, {1, n2}, {1, 1}};
  for (int i = 0; i < 6; i++) if (i < 4 || g.chance(0.5)) mkleaf(0, sh[i][0], sh[i][1], g);
  for (int i = 0; i < 5; i++) if (i < 3 || g.chance(0.5)) mkleaf(1, sh[i][0], sh[i][1], g);
  { int i = (int)g.below(3); mkleaf(2, sh[i][0], sh[i][1], g); }
  { int i = (int)g.below(3); mkleaf(4, sh[i][0], sh[i][1], g); }
  for (int t = 0; t < 2; t++) { int i = t ? 5 : (int)g.below(3); if (g.chance(0.7)) mkleaf(3, sh[i][0], sh[i][1], g); }
  for (int i = 0; i < 2; i++) { SObj* s = new SObj; s->id = i; ctx.api([&] { seldef(g, [&](const auto& x) { s->e = new Expression(x); }, &s->def); }); sexps.push_back(s); }
  if (w_ni || w_mem) prime_constants();
  slots.assign(ne, nullptr);
  for (size_t k = 0; k < plan.ops.size(); k++) {
    const Op& op = plan.ops[k];
    ctx.shm->cur_op = (int)k;
    cur_fault = op.fault;
    ctx.desc = describe_op(op);
    if (ctx.verbose) ctx.note("%zu client %d: %s%s", k, op.client, ctx.desc.c_str(), backend == GP::CPUHandlerType::EIGEN ? "" : " (naive)");
    ctx.s(op.kind * 64 + op.a % 8 * 8 + op.client);
    Rng g(op.r);
    Bits before;
    bool mut = op.kind == O_SETLEAF || op.kind == O_SETVAR || op.kind == O_SETPAR || op.kind == O_CYCLE;
    if (w_ni && !mut) bits(before);
    MObj* sl = slots[op.a % ne];
    switch (op.kind) {
      case O_SETLEAF: { Leaf* l = leaves[op.b % leaves.size()]; setleaf(l, g); ctx.count("op_setleaf"); break; }
      case O_SETVAR: {
        int i = op.a % vars.size(), j = op.b % vars.size(); C vi = g_cell[i], vj = g_cell[j];
        switch (op.d % 8) { case 0: setcell(i, vj); setcell(j, vi); break; case 1: setcell(i, -vi); break; default: setcell(i, rnd(g)); }
        ctx.count("op_setvar"); break; }
      case O_SETPAR: { int i = op.a % pars.size(); g_par[i] = rnd(g); api([&] { *pars[i] = mk(g_par[i]); }); break; }
      case O_DEFINE: { objs.emplace_back(new MObj); MObj* o = objs.back().get(); o->id = objs.size(); define(o, op, false, false); if (o->e) slots[op.a % ne] = o; break; }
      case O_REASSIGN: if (sl) define(sl, op, true, false); break;
      case O_EXTEND: if (sl && !sl->copyform && reach(sl).nodes < 25) define(sl, op, false, true); break;
      case O_EVAL: if (sl) { do_eval(sl); ctx.count("op_eval"); } break;
      case O_FWD: if (sl) { do_fwd(sl, pickV(g)); ctx.count("op_forward"); } break;
      case O_REV: if (sl) { do_rev(sl); ctx.count("op_reverse"); } break;
      case O_DEVALR: do_devalr(op); ctx.count("op_gradient_read"); break;
      case O_LEAF: do_leaf(leaves[op.b % leaves.size()], g); break;
      case O_SWITCH: if (nb == 2) flip(); break;
      case O_REDEFEL: { std::vector<Leaf*> c; for (Leaf* l : leaves) if (l->kind == 3) c.push_back(l); if (!c.empty()) { redefel(c[op.b % c.size()], g); ctx.count("op_redefine_element"); } break; }
      case O_CYCLE: if (w_mem) cycle(op); break;
      case O_MOVE: if (sl) do_move(sl, op); break;
    }
    if (w_ni && !mut) ni(before);
  }
  ctx.count("checks", checks);
  ctx.maxi("live_expressions", objs.size());
  ctx.shm->nontrivial = checks >= 2;
}

struct MatrixWl : Workload {
  Plan generate(Rng& g, const std::string& prop, bool thorough) override {
    Plan p;
    p.cfg["big"] = g.chance(0.12); p.cfg["special"] = g.chance(0.15); p.cfg["n1"] = g.below(24); p.cfg["n2"] = g.below(24); p.cfg["ne"] = g.below(5); p.cfg["imag"] = g.below(2); p.cfg["wseed"] = g.below(1000000);
    p.cfg["backend"] = prop == "C08" ? 2 : g.chance(0.5) ? 0 : g.below(3); p.cfg["teardown"] = prop == "C17";
    bool faulty = prop == "C10" || ((prop == "C05" || prop == "C06" || prop == "C07") && g.chance(0.25));
    int nclients = 1 + g.below(4), n = 10 + g.below(p.cfg["big"] ? 15 : thorough ? 90 : 40);
    std::vector<int> w(O_N, 0);
    auto set = [&](std::initializer_list<int> l) { int i = 0; for (int x : l) w[i++] = x; };
    //    setl setv setp def reas ext eval fwd rev devr leaf sw redefel cycle move
    if (prop == "C05") set({8, 2, 1, 6, 3, 2, 16, 3, 2, 1, 1, 2, 1, 0, 1});
    else if (prop == "C06") set({7, 2, 1, 6, 3, 2, 3, 16, 2, 1, 2, 2, 1, 0, 1});
    else if (prop == "C07") set({8, 2, 1, 7, 2, 2, 3, 2, 12, 10, 1, 2, 1, 0, 1});
    else if (prop == "C08") set({6, 2, 1, 6, 3, 2, 7, 7, 6, 1, 1, 2, 1, 0, 1});
    else if (prop == "C09") set({4, 1, 1, 6, 2, 1, 6, 6, 6, 4, 2, 2, 0, 0, 1});
    else if (prop == "C17") set({4, 1, 1, 6, 2, 1, 3, 3, 3, 1, 1, 1, 0, 3, 1});
    else set({5, 1, 1, 6, 3, 2, 6, 6, 5, 4, 1, 1, 1, 0, 1});
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < n; i++) {
      Op o;
      if (i < 3) o.kind = O_DEFINE; else { int x = g.below(tot); int k = 0; while (x >= w[k]) x -= w[k++]; o.kind = k; }
      o.client = g.below(nclients);
      o.a = i < 3 ? i : (g.chance(0.35) ? o.client : g.below(64)); o.b = g.below(64); o.c = g.below(64); o.d = g.below(64); o.r = g.next() >> 16;
      if (faulty && o.kind > O_SETPAR && g.chance(prop == "C10" ? 0.35 : 0.1)) o.fault = g.chance(0.1) && prop == "C10" ? -1 : 1 + (long)g.below(g.chance(0.5) ? 8 : 80);
      p.ops.push_back(o);
      if (o.kind == O_REV && g.chance(0.7)) { Op d = o; d.fault = 0; d.kind = O_DEVALR; d.a = g.below(3) ? 0 : g.below(5); d.a = g.below(5); p.ops.push_back(d); }
    }
    if (prop == "C17") { Op o; o.kind = O_CYCLE; o.r = g.next() >> 16; p.ops.push_back(o); }
    return p;
  }
  void execute(const Plan& plan, Ctx& ctx, const std::string& prop) override { World* w = new World(plan, ctx, prop); w->run(); }
  bool paired(const Plan&, const std::string& prop) override { return prop == "C11"; }
  std::string describe(const Op& op) override { return describe_op(op); }
  bool clean_exit(const Plan& p) override { return p.get("teardown"); }
};

int main(int argc, char** argv) { MatrixWl w; return driver_main(argc, argv, w, "matrix"); }
