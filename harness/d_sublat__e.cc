#include "sublat.h"
using namespace qx;
// scalars narrowed to a subset: every statement acts on the scalar, once
template <class T, int KIND> struct Nar {
  typedef OScalar<T> C; typedef typename WordType<T>::Type_t W; vh::Rng& g; int lo = KIND == 1 ? 1 : -3, hi = KIND == 1 ? 6 : 3;
  void one(const char* ty) {
    for (int q = 0; q < 20; ++q) {
      C x, y, a, b; whole(x, g, lo, hi); y = x; whole(a, g, lo, hi); whole(b, g, lo, hi); const Subset& s = *subs->q[g.range(0, (int)subs->q.size() - 1)]; int k = g.range(0, KIND == 1 ? 11 : 8); lg("%s%d ", ty, k); vh::count("scalar_statements");
      // the frame of the narrowed scalar lies over used memory
      auto run = [&](auto&& v) { switch (k) { case 0: v = a; break; case 1: v = a + b; break; case 2: v = W(3); break; case 3: v += a; break; case 4: v -= a + b; break; case 5: v += W(2); break; case 6: v -= W(1); break; case 7: v *= W(2); break;
        default: if constexpr (KIND == 1) switch (k) { case 8: v %= a; break; case 9: v |= a + b; break; case 10: v &= a; break; case 11: v ^= b; break; default: v <<= a; } else v *= Real(2); } };
      run(y); volatile unsigned char junk[256]; for (int i = 0; i < 256; ++i) junk[i] = (unsigned char)(q & 1 ? 255 : 0); run(x[s]);
      if (!eqel(x.elem(), y.elem())) { vh::fail("sublat:scalar", "statement %d on a %s narrowed to a subset is wrong", k, ty); return; }
    }
  }
};
template <class X> static bool eqs(const X& a, const X& b) { return eqel(a.elem(), b.elem()); }
static void scalars() {
  Nar<Real::Subtype_t, 0>{cx.g}.one("Real"); Nar<Complex::Subtype_t, 0>{cx.g}.one("Complex"); Nar<Integer::Subtype_t, 1>{cx.g}.one("Integer"); Nar<ColorMatrix::Subtype_t, 0>{cx.g}.one("ColorMatrix"); Nar<SpinMatrix::Subtype_t, 0>{cx.g}.one("SpinMatrix");
  vh::Rng& g = cx.g; const Subset& s = *subs->q[g.range(0, (int)subs->q.size() - 1)]; int a = g.range(0, Nc - 1), b = g.range(0, Nc - 1), c = g.range(0, Ns - 1), d = g.range(0, Ns - 1);
  { ColorMatrix x, y; Complex z; whole(x, g, -3, 3); y = x; whole(z, g, -3, 3); pokeColor(y, z, a, b); pokeColor(x[s], z, a, b); vh::count("pokes"); if (!eqs(x, y)) vh::fail("sublat:scalar", "pokeColor into a scalar narrowed to a subset is wrong"); }
  { Propagator x, y; ColorMatrix z; whole(x, g, -3, 3); y = x; whole(z, g, -3, 3); pokeSpin(y, z + z, c, d); pokeSpin(x[s], z + z, c, d); vh::count("pokes"); if (!eqs(x, y)) vh::fail("sublat:scalar", "pokeSpin into a scalar narrowed to a subset is wrong"); }
  { Fermion x, y; ColorVector z; whole(x, g, -3, 3); y = x; whole(z, g, -3, 3); pokeSpin(y, z, c); pokeSpin(x[s], z, c); SpinVector w; whole(w, g, -3, 3); pokeColor(y, w, a); pokeColor(x[s], w, a); vh::count("pokes", 2); if (!eqs(x, y)) vh::fail("sublat:scalar", "poking a vector narrowed to a subset is wrong"); }
}
static Part p1("scalars", scalars);
