#include "gam.h"
using namespace qx;
#define F LatticeFermion
#define HF LatticeHalfFermion
#define FD LatticeDiracFermionD
#define HFD LatticeHalfFermionD
#define SV LatticeSpinVector
#define U LatticeColorMatrix
#define ALLD(M) M(0, Plus) M(1, Plus) M(2, Plus) M(3, Plus) M(0, Minus) M(1, Minus) M(2, Minus) M(3, Minus)
static void go() {
#define M(d, s) E2(HF, U, F, a * spinProjectDir##d##s(b)); E2(HF, U, F, adj(a) * spinProjectDir##d##s(b)); E2(F, U, HF, spinReconstructDir##d##s(a * b)); E2(F, U, F, spinReconstructDir##d##s(adj(a) * spinProjectDir##d##s(b))); E2(F, U, HF, spinReconstructDir##d##s(adj(a) * b)); vh::count("projections", 5);
  ALLD(M)
#undef M
#define M(d, s) E1(HFD, FD, spinProjectDir##d##s(a)); E1(FD, HFD, spinReconstructDir##d##s(a)); vh::count("projections", 4);
  ALLD(M)
#undef M
}
static Part part("projfused", go);
