// Library-side instantiations of the formulas; compiled in parts (-DPART=n) to keep builds parallel.
#include "matrix.hpp"
#define X(i, x) case i: act(x); break;
#if PART == 1
void lib1(int f, ME& a, Act& act) { switch (f) { FORMS1(X) } }
void lib1(int f, MP& a, Act& act) { switch (f) { X(4, SinM(a)) X(16, Sigma(a)) default: act(transpose(a)); } }
#endif
#if PART == 2
void lib1(int f, MT& a, Act& act) { switch (f) { FORMS1(X) } }
void lib1(int f, MV& a, Act& act) { switch (f) { FORMS1(X) } }
#endif
#if PART == 3
template <typename A, typename B> static void go2(int f, A& a, B& b, Act& act) { switch (f) { FORMS2(X) } }
bool has2(int ta, int tb) {
  static const bool ok[4][4] = {{1, 1, 1, 0}, {1, 1, 1, 0}, {1, 1, 1, 0}, {1, 0, 1, 0}};
  return ok[ta][tb];
}
void lib2(int f, int ta, void* a, int tb, void* b, Act& act) {
  switch (ta * 4 + tb) {
    case 0: go2(f, *(ME*)a, *(ME*)b, act); break;
    case 1: go2(f, *(ME*)a, *(MT*)b, act); break;
    case 2: go2(f, *(ME*)a, *(MV*)b, act); break;
    case 4: go2(f, *(MT*)a, *(ME*)b, act); break;
    case 5: go2(f, *(MT*)a, *(MT*)b, act); break;
    case 6: go2(f, *(MT*)a, *(MV*)b, act); break;
    case 8: go2(f, *(MV*)a, *(ME*)b, act); break;
    case 9: go2(f, *(MV*)a, *(MT*)b, act); break;
    case 10: go2(f, *(MV*)a, *(MV*)b, act); break;
    case 12: go2(f, *(MP*)a, *(ME*)b, act); break;
    case 14: go2(f, *(MP*)a, *(MV*)b, act); break;
  }
}
#endif
#if PART == 4
template <typename S, typename A> static void gos(int f, S& s, A& a, Act& act) { switch (f) { FORMSS(X) } }
bool hass(int ts, int ta) { return ta != tP && (ts < 3 || ta == tV); }
void libs(int f, int ts, void* s, int ta, void* a, Act& act) {
  auto go = [&](auto& m) {
    switch (ts) {
      case 0: gos(f, *(Type*)s, m, act); break;
      case 1: gos(f, *(Variable*)s, m, act); break;
      case 2: gos(f, *(Expression*)s, m, act); break;
    }
  };
  if (ts == 3) gos(f, *(Parameter*)s, *(MV*)a, act);
  else if (ta == tE) go(*(ME*)a); else if (ta == tT) go(*(MT*)a); else go(*(MV*)a);
}
template <typename A> static void gox(int f, Variable& s, Variable& t, A& a, Act& act) { switch (f) { FORMSX(X) } }
void libx(int f, Variable& s, Variable& t, int ta, void* a, Act& act) { if (ta == tT) gox(f, s, t, *(MT*)a, act); else gox(f, s, t, *(MV*)a, act); }
template <typename B> static void gon(int f, ME& a, B& b, Act& act) { switch (f) { FORMSN(X) } }
void libn(int f, ME& a, int tb, void* b, Act& act) { if (tb == tT) gon(f, a, *(MT*)b, act); else if (tb == tV) gon(f, a, *(MV*)b, act); else gon(f, a, *(ME*)b, act); }
bool has3(int ta, int tb, int tc) {
  int k = ta * 16 + tb * 4 + tc;
  return k == tT * 16 + tT * 4 + tV || k == tV * 16 + tV * 4 + tV || k == tV * 16 + tT * 4 + tE || k == tE * 16 + tV * 4 + tT;
}
void lib3a(int f, int, void*, int, void*, int, void*, Act&);
void lib3b(int f, int, void*, int, void*, int, void*, Act&);
void lib3c(int f, int, void*, int, void*, int, void*, Act&);
void lib3d(int f, int, void*, int, void*, int, void*, Act&);
void lib3e(int f, int, void*, int, void*, int, void*, Act&);
void lib3(int f, int ta, void* a, int tb, void* b, int tc, void* c, Act& act) { (f < 8 ? lib3a : f < 16 ? lib3b : f < 24 ? lib3c : f < 31 ? lib3d : lib3e)(f, ta, a, tb, b, tc, c, act); }
#endif
#if PART >= 9 && PART <= 11
template <typename A, typename B> static std::function<void(int, ME&, Act&)> goheld(int f, A& a, B& b) {
  auto keep = [](const auto& t) -> std::function<void(int, ME&, Act&)> {
    const auto* p = &t;
    return [p](int f, ME& E, Act& act) { const auto& t = *p; switch (f) { USES(X) } };
  };
#undef X
#define X(i, x) case i: return keep(x);
  switch (f) { HELD(X) }
  return {};
}
typedef std::function<void(int, ME&, Act&)> Use;
#if PART == 9
Use libheld1(int f, void* a, void* b); Use libheld2(int f, void* a, void* b);
bool hasheld(int ta, int tb) { return tb != tP && (ta == tV ? tb != tE : ta == tE ? tb == tV : false); }
Use libheld(int f, int ta, void* a, int tb, void* b) {
  return ta == tE ? libheld1(f, a, b) : tb == tT ? libheld2(f, a, b) : goheld(f, *(MV*)a, *(MV*)b);
}
#elif PART == 10
Use libheld1(int f, void* a, void* b) { return goheld(f, *(ME*)a, *(MV*)b); }
#else
Use libheld2(int f, void* a, void* b) { return goheld(f, *(MV*)a, *(MT*)b); }
#endif
#elif PART >= 5
#if PART == 5
#define FF FORMS3A
#define NAME lib3a
#elif PART == 6
#define FF FORMS3B
#define NAME lib3b
#elif PART == 7
#define FF FORMS3C
#define NAME lib3c
#elif PART == 8
#define FF FORMS3D
#define NAME lib3d
#else
#define FF FORMS3E
#define NAME lib3e
#endif
template <typename A, typename B, typename CC> static void go3(int f, A& a, B& b, CC& c, Act& act) { switch (f) { FF(X) } }
void NAME(int f, int ta, void* a, int tb, void* b, int tc, void* c, Act& act) {
  if (ta == tT && tb == tT) go3(f, *(MT*)a, *(MT*)b, *(MV*)c, act);
  else if (ta == tV && tb == tV) go3(f, *(MV*)a, *(MV*)b, *(MV*)c, act);
  else if (ta == tV && tb == tT) go3(f, *(MV*)a, *(MT*)b, *(ME*)c, act);
  else go3(f, *(ME*)a, *(MV*)b, *(MT*)c, act);
}
#endif
