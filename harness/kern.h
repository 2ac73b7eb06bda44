// Statements that the type-matched kernels pick up, with every aliasing pattern
// of destination and operands, on the whole lattice and on subsets of each kind.
#ifndef KERN_H
#define KERN_H
#include "gam.h"
namespace qx {
typedef GammaConst<4, 15> G5;

struct KSc { Real a, b; Complex c, e; R ra, rb, rc, re; };
inline void kscalars(KSc& k, Mode m) {
  auto one = [&](Real& q, R& r, bool nz) { fill(q, r, cx.g, m); int s = cx.g.range(0, 9); double v = r.d[0].real(); if (s == 0 && !nz) v = 0; if (s == 1) v = 1; if (s == 2) v = -1; if (nz && std::fabs(v) < 0.2) v = 2; r.d[0] = v; r.m[0] = std::fabs(v); q.elem().elem().elem().elem() = v; };
  one(k.a, k.ra, false); one(k.b, k.rb, true);
  auto onec = [&](Complex& q, R& r, bool nz) { fill(q, r, cx.g, m); int s = cx.g.range(0, 9); cd v = r.d[0]; if (s == 0 && !nz) v = 0; if (s == 1) v = cd(0, 1); if (s == 2) v = -1; if (nz && std::abs(v) < 0.2) v = cd(2, 1); r.d[0] = v; r.m[0] = std::fabs(v.real()) + std::fabs(v.imag()); q.elem().elem().elem().real() = v.real(); q.elem().elem().elem().imag() = v.imag(); };
  onec(k.c, k.rc, false); onec(k.e, k.re, true);
}
inline bool isOrdered(const Subset& s) { return s.hasOrderedRep(); }
template <class D, class X, class Y, class FQ, class FR> void kern(const char* nm, FQ fq, FR fr) {
  if (!startEx(nm, cx.m)) return;
  double eps = emax({epsOf<D>(), epsOf<X>(), epsOf<Y>()});
  int n = (int)cx.pool->q.size();
  const bool dx = std::is_same<D, X>::value, dy = std::is_same<D, Y>::value, xy = std::is_same<X, Y>::value;
  for (int pat = 0; pat < 5; ++pat) {
    if ((pat == 1 && !dx) || (pat == 2 && !dy) || (pat == 3 && !xy) || (pat == 4 && !(dx && dy))) continue;
    for (int t = 0; t < 4; ++t) { // whole, ordered, unordered, any
      int k = -1;
      if (t) { for (int tries = 0; tries < 60; ++tries) { k = cx.g.range(0, n - 1); if (t == 3 || isOrdered(*cx.pool->q[k]) == (t == 1)) break; } }
      KSc s; kscalars(s, cx.m);
      D d; X x; Y y; R rd, rx, ry; fill(d, rd, cx.g, cx.m); fill(x, rx, cx.g, cx.m); fill(y, ry, cx.g, cx.m);
      const X* px = &x; const Y* py = &y;
      if constexpr (std::is_same<D, X>::value) if (pat == 1 || pat == 4) { px = &d; rx = rd; }
      if constexpr (std::is_same<D, Y>::value) if (pat == 2 || pat == 4) { py = &d; ry = rd; }
      if constexpr (std::is_same<X, Y>::value) if (pat == 3) { py = &x; ry = rx; }
      const Subset* q = t ? cx.pool->q[k] : nullptr;
      fq(d, q, s, *px, *py);
      R v = rd; fr(v, s, rx, ry);
      if (q) { const Sub& u = cx.pool->r[k]; for (int i = 0; i < rd.ns; ++i) for (int c = 0; c < rd.nc(); ++c) { size_t z = (size_t)i * rd.nc() + c; if (!u.in[i]) { v.d[z] = rd.d[z]; v.m[z] = 0; } } }
      static const char* pn[] = {"", ", d is x", ", d is y", ", x is y", ", all the same"};
      std::string what = std::string(nm) + (q ? ": on " + cx.pool->r[k].name : std::string(": whole")) + pn[pat];
      eq((std::string("kernel:") + nm + (pat ? " aliased" : "")).c_str(), d, v, what.c_str(), cx.K, eps);
      vh::count(q ? (isOrdered(*q) ? "ordered_subset_kernels" : "unordered_subset_kernels") : "whole_kernels");
      if (pat) vh::count("aliased_kernels");
    }
  }
}
#define KERN(D, X, Y, OPX, EXPR) \
  kern<D, X, Y>(#D " " #OPX " " #EXPR " [" #X "," #Y "]", [](D& d, const Subset* s_, const KSc& k_, const X& x, const Y& y) { const Real &a = k_.a, &b = k_.b; const Complex &c = k_.c, &e_ = k_.e; (void)a; (void)b; (void)c; (void)e_; (void)x; (void)y; if (s_) d[*s_] OPX EXPR; else d OPX EXPR; }, \
    [](R& d, const KSc& k_, const R& x, const R& y) { const R &a = k_.ra, &b = k_.rb, &c = k_.rc, &e_ = k_.re; (void)a; (void)b; (void)c; (void)e_; (void)x; (void)y; d OPX EXPR; })
} // namespace qx
#endif
