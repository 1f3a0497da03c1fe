// Matrix workload, shared part: independent reference (explicit DAG of matrix operations evaluated with dual numbers)
// and the catalogue of formulas, written once and instantiated for the library and for the reference.
#pragma once
#include "CoolDiff.hpp"
#include "simcore.hpp"
#include <cmath>
#include <complex>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <vector>

using C = std::complex<double>;
using ME = Matrix<Expression>;
using MT = Matrix<Type>;
using MV = Matrix<Variable>;
using MP = Matrix<Parameter>;

#if defined(USE_COMPLEX_MATH)
static constexpr bool CPLX = true;
static inline Type mk(C z) { return Type(z.real(), z.imag()); }
static inline C un(const Type& t) { return C(t.real(), t.imag()); }
#else
static constexpr bool CPLX = false;
static inline Type mk(C z) { return (Type)z.real(); }
static inline C un(const Type& t) { return C(t, 0); }
#endif
static inline Type tk(double re) { return mk(C(re, 0)); }

// ------------------------------------------------------------------ scalar part of the reference
enum SK { sK, sV, sP, sE, sADD, sSUB, sMUL, sDIV, sSIN, sEXP, sSQ };
struct SObj;
struct SNode { SK k; SNode* a = nullptr; SNode* b = nullptr; C c{}; int i = 0; SObj* o = nullptr; };
struct SObj { Expression* e = nullptr; SNode* def = nullptr; int id = 0; };

// ------------------------------------------------------------------ matrix part
enum UF { uSIN, uCOS, uEXP, uLOG, uSQRT, uTANH, uSIGM, uRELU, uLRELU, uABS };
enum MK { mLEAF, mEXPR, mCONST, mADD, mSUB, mMUL, mHAD, mTRANS, mINV, mDET, mVEC, mCONV, mUN, mSADD, mSMUL, mCATV, mCATH };
struct MObj; struct Leaf;
struct MNode {
  MK k; MNode* a = nullptr; MNode* b = nullptr;
  int r = 0, c = 0;             // shape; r==0 means ill-shaped
  Leaf* leaf = nullptr; MObj* o = nullptr;
  SNode* s = nullptr;           // scalar operand
  int f = 0;                    // unary function / constant kind
  int p[4] = {1, 1, 0, 0};      // convolution parameters
};
struct Leaf {
  int kind;                     // 0 numeric 1 variables 2 parameters 3 element-wise expressions 4 numeric on caller storage
  int r, c, id;
  MT* t = nullptr; MV* v = nullptr; MP* p = nullptr; ME* l = nullptr;
  std::vector<C> val;           // numeric, parameters
  std::vector<int> cell;        // variables
  std::vector<SNode*> el;       // element expressions
  std::vector<Type*> bufs; int cur = 0;
  int n() const { return r * c; }
};
struct MObj {
  ME* e = nullptr; MNode* def = nullptr; int r = 0, c = 0, id = 0;
  bool copyform = false, parents = false, pinned = false;  // pinned: extended in place, refers to itself by its address
};

extern std::vector<std::unique_ptr<MNode>> g_mn;
extern std::vector<std::unique_ptr<SNode>> g_sn;
MNode* mkm(MK k, MNode* a, MNode* b, int r, int c);
SNode* mks(SK k, SNode* a = nullptr, SNode* b = nullptr);
SNode* skon(C c);

// reference operand wrappers: the formulas below are instantiated with these too
struct RM { MNode* n; };
struct RS { SNode* n; };
static inline bool bad(const MNode* a) { return !a || a->r <= 0 || a->c <= 0; }
static inline RM same(MK k, RM a, RM b) { bool ok = !bad(a.n) && !bad(b.n) && a.n->r == b.n->r && a.n->c == b.n->c; return RM{mkm(k, a.n, b.n, ok ? a.n->r : 0, ok ? a.n->c : 0)}; }
static inline RM operator+(RM a, RM b) { return same(mADD, a, b); }
static inline RM operator-(RM a, RM b) { return same(mSUB, a, b); }
static inline RM operator^(RM a, RM b) { return same(mHAD, a, b); }
static inline RM operator*(RM a, RM b) { bool ok = !bad(a.n) && !bad(b.n) && a.n->c == b.n->r; return RM{mkm(mMUL, a.n, b.n, ok ? a.n->r : 0, ok ? b.n->c : 0)}; }
static inline RM inv(RM a) { bool ok = !bad(a.n) && a.n->r == a.n->c; return RM{mkm(mINV, a.n, nullptr, ok ? a.n->r : 0, ok ? a.n->c : 0)}; }
static inline RM operator%(RM a, RM b) { return a * inv(b); }
static inline RM det(RM a) { bool ok = !bad(a.n) && a.n->r == a.n->c; return RM{mkm(mDET, a.n, nullptr, ok ? 1 : 0, ok ? 1 : 0)}; }
static inline RM transpose(RM a) { bool ok = !bad(a.n); return RM{mkm(mTRANS, a.n, nullptr, ok ? a.n->c : 0, ok ? a.n->r : 0)}; }
static inline RM vec(RM a) { bool ok = !bad(a.n); return RM{mkm(mVEC, a.n, nullptr, ok ? a.n->r * a.n->c : 0, ok ? 1 : 0)}; }
static inline RM un_(int f, RM a) { RM r{mkm(mUN, a.n, nullptr, bad(a.n) ? 0 : a.n->r, bad(a.n) ? 0 : a.n->c)}; r.n->f = f; return r; }
static inline RM SinM(RM a) { return un_(uSIN, a); }
static inline RM CosM(RM a) { return un_(uCOS, a); }
static inline RM ExpM(RM a) { return un_(uEXP, a); }
static inline RM LogM(RM a) { return un_(uLOG, a); }
static inline RM SqrtM(RM a) { return un_(uSQRT, a); }
static inline RM TanhM(RM a) { return un_(uTANH, a); }
static inline RM SigmoidM(RM a) { return un_(uSIGM, a); }
static inline RM ReLUM(RM a) { return un_(uRELU, a); }
static inline RM LeakyReLUM(RM a) { return un_(uLRELU, a); }
static inline RM AbsM(RM a) { return un_(uABS, a); }
static inline RM operator/(RM a, RM b) { return ExpM(LogM(a) - LogM(b)); }
static inline RM rconst(int kind, int r, int c) { RM x{mkm(mCONST, nullptr, nullptr, r, c)}; x.n->f = kind; return x; }
static inline RM rones(int r, int c) { return rconst(1, r, c); }
static inline RM reye(int n) { return rconst(2, n, n); }
static inline RM rzeros(int n) { return rconst(0, n, n); }
static inline RM conv(RM a, RM b, size_t sx = 1, size_t sy = 1, size_t px = 0, size_t py = 0) {
  bool ok = !bad(a.n) && !bad(b.n);
  int r = ok ? a.n->r + 2 * (int)px - b.n->r : -1, c = ok ? a.n->c + 2 * (int)py - b.n->c : -1;
  ok = ok && r >= 0 && c >= 0;
  RM x{mkm(mCONV, a.n, b.n, ok ? r / (int)sx + 1 : 0, ok ? c / (int)sy + 1 : 0)};
  x.n->p[0] = sx; x.n->p[1] = sy; x.n->p[2] = px; x.n->p[3] = py;
  return x;
}
template <Axis axis = Axis::ALL> RM broadcast(RM a, size_t n) {
  if (bad(a.n) || (a.n->c != 1 && a.n->r != 1)) return RM{mkm(mADD, nullptr, nullptr, 0, 0)};
  if constexpr (axis == Axis::COLUMN) return a * rones(1, n);
  else if constexpr (axis == Axis::ROW) return rones(n, 1) * a;
  else return rones(n, 1) * a * rones(1, n);
}
template <Axis axis = Axis::ALL> RM Sigma(RM a) {
  if (bad(a.n)) return a;
  if constexpr (axis == Axis::ROW) return rones(1, a.n->r) * a;
  else if constexpr (axis == Axis::COLUMN) return a * rones(a.n->c, 1);
  else return rones(1, a.n->r) * a * rones(a.n->c, 1);
}
static inline RM trace(RM a) { if (bad(a.n) || a.n->r != a.n->c) return RM{mkm(mADD, nullptr, nullptr, 0, 0)}; return Sigma(a ^ reye(a.n->r)); }
static inline RM MatrixFrobeniusNorm(RM a) { return SqrtM(Sigma(a ^ a)); }
template <ConcatAxis ax = ConcatAxis::VERTICAL> RM concat(RM a, RM b) {
  bool v = ax == ConcatAxis::VERTICAL;
  bool ok = !bad(a.n) && !bad(b.n) && (v ? a.n->c == b.n->c : a.n->r == b.n->r);
  return RM{mkm(v ? mCATV : mCATH, a.n, b.n, !ok ? 0 : v ? a.n->r + b.n->r : a.n->r, !ok ? 0 : v ? a.n->c : a.n->c + b.n->c)};
}
template <Axis axis = Axis::ALL> RM SoftMax(RM x) {
  if (bad(x.n)) return x;
  int r = x.n->r, c = x.n->c;
  if constexpr (axis == Axis::ROW) return ExpM(x - rones(r, 1) * LogM(Sigma<Axis::ROW>(ExpM(x))));
  else if constexpr (axis == Axis::COLUMN) return ExpM(x - LogM(Sigma<Axis::COLUMN>(ExpM(x))) * rones(1, c));
  else return ExpM(x - rones(r, 1) * LogM(Sigma<Axis::ALL>(ExpM(x))) * rones(1, c));
}
static inline RM smul(SNode* s, RM a) { RM r{mkm(mSMUL, a.n, nullptr, bad(a.n) ? 0 : a.n->r, bad(a.n) ? 0 : a.n->c)}; r.n->s = s; return r; }
static inline RM sadd(SNode* s, RM a) { RM r{mkm(mSADD, a.n, nullptr, bad(a.n) ? 0 : a.n->r, bad(a.n) ? 0 : a.n->c)}; r.n->s = s; return r; }
template <size_t N> RM pow(RM a) {
  if (bad(a.n) || a.n->r != a.n->c) return RM{mkm(mADD, nullptr, nullptr, 0, 0)};
  if constexpr (N == 0) return reye(a.n->r); else return a * pow<N - 1>(a);
}
template <size_t N = 20> RM MatrixExp(RM a) {
  if (bad(a.n) || a.n->r != a.n->c) return RM{mkm(mADD, nullptr, nullptr, 0, 0)};
  if constexpr (N == 0) return reye(a.n->r);
  else { double f = 1; for (size_t i = 2; i <= N; i++) f *= i; return smul(skon(1.0 / f), pow<N>(a)) + MatrixExp<N - 1>(a); }
}
template <size_t N = 20> RM MatrixLog(RM a) {
  if (bad(a.n) || a.n->r != a.n->c) return RM{mkm(mADD, nullptr, nullptr, 0, 0)};
  if constexpr (N == 0) return rzeros(a.n->r);
  else return smul(skon(-1.0 / N), pow<N>(reye(a.n->r) - a)) + MatrixLog<N - 1>(a);
}
// scalar - matrix
static inline RS operator+(RS a, RS b) { return RS{mks(sADD, a.n, b.n)}; }
static inline RS operator*(RS a, RS b) { return RS{mks(sMUL, a.n, b.n)}; }
static inline RS sin(RS a) { return RS{mks(sSIN, a.n)}; }
static inline RM operator+(RS s, RM a) { return sadd(s.n, a); }
static inline RM operator+(RM a, RS s) { return sadd(s.n, a); }
static inline RM operator-(RS s, RM a) { return sadd(s.n, smul(skon(-1), a)); }
static inline RM operator-(RM a, RS s) { return sadd(mks(sMUL, skon(-1), s.n), a); }
static inline RM operator*(RS s, RM a) { return smul(s.n, a); }
static inline RM operator*(RM a, RS s) { return smul(s.n, a); }
static inline RM operator/(RM a, RS s) { return smul(mks(sDIV, skon(1), s.n), a); }
static inline RM operator+(RM a, const Type& s) { return sadd(skon(un(s)), a); }
static inline RM operator+(const Type& s, RM a) { return sadd(skon(un(s)), a); }
static inline RM operator*(RM a, const Type& s) { return smul(skon(un(s)), a); }
static inline RM operator*(const Type& s, RM a) { return smul(skon(un(s)), a); }
static inline RM operator-(RM a, const Type& s) { return sadd(skon(-un(s)), a); }
static inline RM operator-(const Type& s, RM a) { return sadd(skon(un(s)), smul(skon(-1), a)); }
static inline RM operator/(RM a, const Type& s) { return smul(skon(C(1) / un(s)), a); }

// ------------------------------------------------------------------ what is done with a library expression
struct Act {
  int mode; ME* out;  // 0 construct, 1 assign
  template <typename Z> void operator()(const IMatrix<Z>& x) { if (mode == 0) out = new ME(x); else *out = x; }
};

// ------------------------------------------------------------------ formulas
// an unnamed node used several times
#define LET(t, body, x) ([&](const auto& t) -> decltype(auto) { return body; }(x))
#if defined(USE_COMPLEX_MATH)
#define FORMS1_REAL(X)
#define N1 30
#else
#define FORMS1_REAL(X) X(30, ReLUM(a)) X(31, LeakyReLUM(a)) X(32, AbsM(a))
#define N1 33
#endif
#define FORMS1(X) \
  X(0, transpose(a)) X(1, inv(a)) X(2, det(a)) X(3, vec(a)) X(4, SinM(a)) X(5, CosM(a)) X(6, ExpM(a)) X(7, LogM(a)) X(8, SqrtM(a)) \
  X(9, TanhM(a)) X(10, SigmoidM(a)) X(11, broadcast<Axis::COLUMN>(a, 2)) X(12, broadcast<Axis::ROW>(a, 2)) X(13, broadcast(a, 2)) \
  X(14, Sigma<Axis::ROW>(a)) X(15, Sigma<Axis::COLUMN>(a)) X(16, Sigma(a)) X(17, trace(a)) X(18, MatrixFrobeniusNorm(a)) \
  X(19, SoftMax<Axis::ROW>(a)) X(20, SoftMax<Axis::COLUMN>(a)) X(21, SoftMax(a)) X(22, pow<2>(a)) X(23, pow<3>(a)) \
  X(24, MatrixExp<3>(a)) X(25, MatrixLog<2>(a)) X(26, a * tk(0.5)) X(27, transpose(transpose(a)) + a) \
  X(28, LET(t, (t ^ SinM(t)) + t, transpose(a))) X(29, LET(t, LET(u, (u ^ t) - u * tk(0.5), t + CosM(t)), a * tk(0.7))) FORMS1_REAL(X)
#define FORMS2(X) \
  X(0, a + b) X(1, a - b) X(2, a * b) X(3, a ^ b) X(4, a % b) X(5, a / b) X(6, conv(a, b)) X(7, conv(a, b, 1, 1, 1, 1)) \
  X(8, conv(a, b, 2, 1, 1, 0)) X(9, concat<ConcatAxis::VERTICAL>(a, b)) X(10, concat<ConcatAxis::HORIZONTAL>(a, b))
#define N2 11
#define FORMSS(X) \
  X(0, s + a) X(1, a + s) X(2, s - a) X(3, a - s) X(4, s * a) X(5, a * s) X(6, a / s)
#define NS 7
// scalar-valued composites over three operands of free shape (value, forward and reverse mode)
#define FORMS3A(X) \
  X(0, Sigma(a ^ b) + trace(c)) X(1, transpose(c) * a * b) X(2, trace(a * b * c)) X(3, MatrixFrobeniusNorm(a * b - c)) \
  X(4, det(a) * trace(b) - Sigma(c)) X(5, Sigma(SinM(a * b) + c)) X(6, trace(inv(a) * b) + Sigma(c)) X(7, Sigma(SigmoidM(a * b + c)))
#define FORMS3B(X) \
  X(8, transpose(vec(a)) * vec(b) + Sigma(c)) X(9, Sigma(SoftMax<Axis::COLUMN>(a) ^ b) * Sigma(c)) X(10, Sigma(conv(a, b)) + Sigma(c)) \
  X(11, Sigma(concat<ConcatAxis::VERTICAL>(a, b) * c)) X(12, Sigma((a + b) ^ (a - b)) - Sigma(c)) X(13, det(a * b + c)) \
  X(14, Sigma(TanhM(a) ^ ExpM(b) ^ c)) X(15, Sigma(CosM(transpose(a) * b)) * (tk(2) - Sigma(c)))
#define FORMS3C(X) \
  X(16, Sigma(a * (b ^ b) * c)) X(17, trace(pow<2>(a) * b) + Sigma(c)) X(18, Sigma(broadcast<Axis::COLUMN>(a, 2) * b) + Sigma(c)) \
  X(19, (tk(3) * Sigma(a * b + tk(0.5))) / tk(2) - Sigma(c)) X(20, Sigma(SqrtM((a ^ a) + tk(1)) + b * c)) X(21, Sigma(MatrixExp<2>(a) * b) + Sigma(c)) \
  X(22, Sigma(LogM((a ^ a) + (b ^ b) + tk(1))) * Sigma(c)) X(23, transpose(a) * b * transpose(b) * a + Sigma(c))
#define FORMS3D(X) \
  X(24, LET(t, Sigma(t ^ SinM(t)) + Sigma(c), a * b)) X(25, LET(t, Sigma((t ^ t) + t) - Sigma(c), a + b)) \
  X(26, LET(t, trace(t) * Sigma(t ^ t) + Sigma(c ^ c), a * b)) X(27, LET(t, LET(u, Sigma(u * u) - Sigma(t) * Sigma(u), t - transpose(t)), a * b) + Sigma(c)) \
  X(28, LET(t, LET(u, u * t + CosM(u) + u, SinM(t) * t), Sigma(a ^ b)) * Sigma(c)) \
  X(29, LET(t, LET(u, LET(w, Sigma(w ^ u) * trace(transpose(w) * t), u + t), t ^ t), a - b) + Sigma(c)) \
  X(30, Sigma(c) * LET(t, transpose(vec(t)) * vec(t ^ t) - Sigma(t), a * b))
#define FORMS3E(X) \
  X(31, LET(t, Sigma((t + tk(2)) ^ (tk(3) + t)), a * b) + Sigma(c)) X(32, LET(t, Sigma((t * tk(2)) ^ (tk(3) * t)), a * b) - Sigma(c)) \
  X(33, LET(t, det(t) * det(t), a * b) + Sigma(c)) X(34, LET(t, Sigma(inv(t) ^ inv(t)), a * b) + Sigma(c)) \
  X(35, LET(t, transpose(vec(t)) * vec(t), a ^ b) + Sigma(c)) X(36, LET(t, Sigma(conv(t, b) ^ conv(t, b)), a - c)) \
  X(37, LET(t, Sigma(conv(a, t) ^ conv(a, t)), b + c)) X(38, LET(t, Sigma((t / tk(2)) * (t - tk(1))), a + b) * Sigma(c)) \
  X(39, LET(t, Sigma(concat<ConcatAxis::VERTICAL>(t, t) * c) + Sigma(concat<ConcatAxis::HORIZONTAL>(t, b)), a * b))
#define N3 40
// scalar variables inside scalar-valued composites
#define FORMSX(X) \
  X(0, s * Sigma(a)) X(1, Sigma(s * a) + t * Sigma(a ^ a)) X(2, Sigma((a + s) ^ (a * t))) X(3, trace(s - a) * t) X(4, SinM(t * Sigma(a) + s)) \
  X(5, Sigma(a - s) - s * t * Sigma(a)) X(6, Sigma(a / s) + t) X(7, (s * t) * (sin(s) * Sigma(a))) \
  X(8, LET(u, Sigma((s * u) ^ (s * u)), a + a) + t) X(9, LET(u, Sigma((u + s) ^ (u + s)), a ^ a) * t) X(10, LET(w, LET(u, Sigma((u * w) ^ (u - w)), a - a * tk(0.5)), s * t))
#define NX 11
// a nested scalar-valued expression (a) together with one other operand
#define FORMSN(X) \
  X(0, a * Sigma(b)) X(1, a + trace(b)) X(2, (a ^ MatrixFrobeniusNorm(b)) - a) X(3, SinM(a) * Sigma(b ^ b)) X(4, ExpM(a * tk(0.2)) + Sigma(SinM(b))) \
  X(5, a * a * Sigma(b) + a) X(6, Sigma(b) - TanhM(a)) X(7, Sigma(b * a)) X(8, Sigma(broadcast(a, 2)) + Sigma(b)) X(9, transpose(a) * Sigma(b))
#define NN 10

// nodes a client keeps by reference, and what it builds on them later (E: an expression)
#define HELD(X) X(0, a * b) X(1, a + b) X(2, SinM(a)) X(3, transpose(a) * b)
#define NHELD 4
#define USES(X) \
  X(0, t + E) X(1, t * E) X(2, t ^ t) X(3, Sigma(t * t)) X(4, Sigma(t)) X(5, Sigma(t ^ E)) X(6, transpose(t) * E) \
  X(7, Sigma(t) * Sigma(E)) X(8, E - t) X(9, trace(t) + Sigma(t ^ t))
#define NUSES 10
// reference side
static inline RM ref1(int f, RM a) { switch (f) {
#define X(i, x) case i: return x;
  FORMS1(X)
  } return a; }
static inline RM ref2(int f, RM a, RM b) { switch (f) { FORMS2(X) } return a; }
static inline RM refs(int f, RS s, RM a) { switch (f) { FORMSS(X) } return a; }
static inline RM ref3(int f, RM a, RM b, RM c) { switch (f) { FORMS3A(X) FORMS3B(X) FORMS3C(X) FORMS3D(X) FORMS3E(X) } return a; }
static inline RM refx(int f, RS s, RS t, RM a) { switch (f) {
  case 0: return s * Sigma(a); case 1: return Sigma(s * a) + t * Sigma(a ^ a); case 2: return Sigma((a + s) ^ (a * t)); case 3: return trace(s - a) * t;
  case 4: return SinM(t * Sigma(a) + s); case 5: return Sigma(a - s) - (s * t) * Sigma(a); case 6: return Sigma(a / s) + t; case 7: return (s * t) * (sin(s) * Sigma(a));
  case 8: return LET(u, Sigma((s * u) ^ (s * u)), a + a) + t; case 9: return LET(u, Sigma((u + s) ^ (u + s)), a ^ a) * t; case 10: return LET(w, LET(u, Sigma((u * w) ^ (u - w)), a - a * tk(0.5)), s * t); } return a; }
static inline RM refheld(int f, RM a, RM b) { switch (f) { HELD(X) } return a; }
static inline RM refuse(int f, RM t, RM E) { switch (f) { USES(X) } return t; }
static inline RM refn(int f, RM a, RM b) { switch (f) { FORMSN(X) } return a; }
#undef X

// library side (defined in matforms.cpp, split over translation units)
void lib1(int f, ME& a, Act& x); void lib1(int f, MT& a, Act& x); void lib1(int f, MV& a, Act& x); void lib1(int f, MP& a, Act& x);
enum { tE, tT, tV, tP };
bool has2(int ta, int tb);
void lib2(int f, int ta, void* a, int tb, void* b, Act& x);
bool hass(int ts, int ta);
void libs(int f, int ts, void* s, int ta, void* a, Act& x);   // ts: 0 number 1 Variable 2 Expression 3 Parameter
bool has3(int ta, int tb, int tc);
void lib3(int f, int ta, void* a, int tb, void* b, int tc, void* c, Act& x);
void libx(int f, Variable& s, Variable& t, int ta, void* a, Act& x);
bool hasheld(int ta, int tb);
std::function<void(int, ME&, Act&)> libheld(int f, int ta, void* a, int tb, void* b);
void libn(int f, ME& a, int tb, void* b, Act& x);

template <typename F> void as_matrix(int t, void* p, F f) {
  switch (t) { case tE: f(*(ME*)p); break; case tT: f(*(MT*)p); break; case tV: f(*(MV*)p); break; default: f(*(MP*)p); }
}
