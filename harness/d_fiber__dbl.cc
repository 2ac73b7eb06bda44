#include "ex.h"
using namespace qx;
// the other word type, and mixtures of the two
#define CMD LatticeColorMatrixD
#define CVD LatticeColorVectorD
#define SMD LatticeSpinMatrixD
#define FD LatticeDiracFermionD
#define PD LatticeDiracPropagatorD
#define CD LatticeComplexD
#define RD LatticeRealD
#define CMF LatticeColorMatrixF
#define FF LatticeDiracFermionF
#define CF LatticeComplexF
#define RF LatticeRealF
static void go() {
  E2(CMD, CMD, CMD, a * b); E2(CMD, CMD, CMD, adj(a) * b); E2(CMD, CMD, CMD, a * adj(b)); E2(CMD, CMD, CMD, adj(a) * adj(b)); E2(CMD, CMD, CMD, a + b); E2(CMD, CMD, CMD, a - b); E1(CMD, CMD, adj(a)); E1(CD, CMD, trace(a)); E2(CD, CMD, CMD, trace(adj(a) * b)); E2(CMD, CD, CMD, a * b); E2(CMD, RD, CMD, a * b);
  E2(CVD, CMD, CVD, a * b); E2(CVD, CMD, CVD, adj(a) * b); E2(CVD, CVD, CVD, a - b); E2(CD, CVD, CVD, localInnerProduct(a, b));
  E2(SMD, SMD, SMD, a * b); E2(SMD, SMD, SMD, a * adj(b)); E1(CD, SMD, trace(a));
  E2(FD, CMD, FD, a * b); E2(FD, CMD, FD, adj(a) * b); E2(FD, FD, FD, a + b); E2(FD, FD, FD, a - b); E2(FD, RD, FD, a * b); E2(FD, FD, RD, a * b); E2(FD, CD, FD, a * b); E3(FD, RD, FD, FD, a * b + c); E3(FD, RD, FD, FD, c - a * b); E3(FD, CD, FD, FD, a * b + c); E1(RD, FD, localNorm2(a)); E2(CD, FD, FD, localInnerProduct(a, b)); E2(RD, FD, FD, localInnerProductReal(a, b)); E2(FD, SMD, FD, a * b);
  E2(PD, PD, PD, a * b); E2(PD, PD, PD, adj(a) * b); E1(CD, PD, trace(a)); E2(PD, PD, PD, quarkContract13(a, b));
  E1(CMF, CMD, a); E1(CMD, CMF, a); E1(FF, FD, a); E1(FD, FF, a); E1(RF, RD, a); E1(CF, CD, a); E1(PD, LatticeDiracPropagatorF, a); E1(LatticeDiracPropagatorF, PD, a);
  E2(CMD, CMF, CMD, a * b); E2(CMD, CMD, CMF, a * adj(b)); E2(FD, CMF, FD, a * b); E2(FD, FF, FD, a + b); E2(FD, FD, FF, a - b); E2(FD, RF, FD, a * b); E2(CMF, CMD, CMF, a + b); E2(FF, FD, FF, a - b); E2(FF, RD, FF, a * b); E2(FF, CMF, FF, a * b); E2(FF, CMF, FF, adj(a) * b); E3(FF, RF, FF, FF, a * b + c);
  // two colours and one
  E2(LatticeColorMatrixF2, LatticeColorMatrixF2, LatticeColorMatrixF2, a * adj(b)); E2(LatticeColorMatrixD2, LatticeColorMatrixD2, LatticeColorMatrixD2, adj(a) * b); E2(LatticeColorVectorF2, LatticeColorMatrixF2, LatticeColorVectorF2, a * b); E2(LatticeDiracFermionF2, LatticeColorMatrixF2, LatticeDiracFermionF2, adj(a) * b); E1(CF, LatticeColorMatrixF2, trace(a)); E2(LatticeDiracPropagatorF2, LatticeDiracPropagatorF2, LatticeDiracPropagatorF2, a * adj(b));
  E2(LatticeStaggeredFermionF, CMF, LatticeStaggeredFermionF, a * b); E2(LatticeStaggeredPropagatorF, CMF, LatticeStaggeredPropagatorF, a * b);
}
static Part part("dbl", go);
