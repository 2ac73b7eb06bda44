#include "gam.h"
using namespace qx;
#define F LatticeFermion
#define HF LatticeHalfFermion
#define SV LatticeSpinVector
#define HS LatticeHalfSpinVector
#define U LatticeColorMatrix
#define ALLD(M) M(0, Plus) M(1, Plus) M(2, Plus) M(3, Plus) M(0, Minus) M(1, Minus) M(2, Minus) M(3, Minus)
template <class D, class A> static void rtp(const char* t) {
  for (int mu = 0; mu < 4; ++mu) for (int sg = -1; sg <= 1; sg += 2) {
    std::string nm = std::string(t) + " mu " + std::to_string(mu) + (sg > 0 ? "+" : "-");
    if (startEx("spinProject " + nm, cx.m)) { A a; R ra; fill(a, ra, cx.g, cx.m); D d; d = spinProject(a, mu, sg); R rd; shapeR(rd, shape<typename ElemOf<D>::type>(), geom.vol); rd = projR(ra, mu, sg); eq(cx.key, d, rd, ("spinProject " + nm).c_str(), cx.K, epsOf<D>());
      D h; R rh; fill(h, rh, cx.g, cx.m); A b; b = spinReconstruct(h, mu, sg); R rb; shapeR(rb, shape<typename ElemOf<A>::type>(), geom.vol); rb = reconR(rh, mu, sg); eq(cx.key, b, rb, ("spinReconstruct " + nm).c_str(), cx.K, epsOf<D>());
      int g = 1 << mu; A c, e; c = spinReconstruct(D(spinProject(a, mu, sg)), mu, sg); R rc = sg > 0 ? ra + Gm{0, g} * ra : ra - Gm{0, g} * ra; eq(cx.key, c, rc, ("reconstruct(project) " + nm).c_str(), cx.K, epsOf<D>());
      if (sg > 0) e = a + Gamma(g) * a; else e = a - Gamma(g) * a; eq(cx.key, e, rc, ("1+-gamma " + nm).c_str(), cx.K, epsOf<D>());
      vh::count("projections", 4); }
  }
}
static void go() {
#define M(d, s) E1(HF, F, spinProjectDir##d##s(a)); E1(F, HF, spinReconstructDir##d##s(a)); E1(F, F, spinReconstructDir##d##s(spinProjectDir##d##s(a))); E2(HF, F, F, spinProjectDir##d##s(a - b)); vh::count("projections", 4);
  ALLD(M)
#undef M
  rtp<HF, F>("F");
  E1(F, F, chiralProjectPlus(a)); E1(F, F, chiralProjectMinus(a)); E2(F, F, F, chiralProjectPlus(a) + chiralProjectMinus(b)); E1(F, F, chiralProjectPlus(a) + chiralProjectMinus(a));
  E1(LatticePropagator, LatticePropagator, chiralProjectPlus(a)); E1(LatticePropagator, LatticePropagator, chiralProjectMinus(a)); E1(LatticeSpinMatrix, LatticeSpinMatrix, chiralProjectPlus(a)); E1(LatticeSpinMatrix, LatticeSpinMatrix, chiralProjectMinus(a));
  E1(SV, SV, chiralProjectPlus(a)); E1(SV, SV, chiralProjectMinus(a));
  vh::count("projections", 10);
}
static Part part("proj", go);
