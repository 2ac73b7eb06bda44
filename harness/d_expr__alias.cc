#include "stm.h"
using namespace qx;
#define CM LatticeColorMatrix
#define CV LatticeColorVector
#define SM LatticeSpinMatrix
#define F LatticeFermion
#define P LatticePropagator
#define CC LatticeComplex
#define RR LatticeReal
static void go() {
  AL(CM, CM, d * a); AL(CM, CM, a * d); AL(CM, CM, adj(d) * a); AL(CM, CM, a * adj(d)); AL(CM, CM, adj(d) * adj(a)); AL(CM, CM, d * d); AL(CM, CM, adj(d) * d); AL(CM, CM, d * adj(d)); AL(CM, CM, adj(d)); AL(CM, CM, transpose(d)); AL(CM, CM, a - d); AL(CM, CC, a * d); AL(CM, RR, a * d); AL(CM, CM, a + d * a); AL(CM, CM, d * (a * d));
  AL(CV, CM, a * d); AL(CV, CM, adj(a) * d); AL(CV, CV, a - d); AL(CV, CV, colorCrossProduct(d, a)); AL(CV, CV, timesI(d) + a);
  AL(SM, SM, d * a); AL(SM, SM, a * adj(d)); AL(SM, SM, transpose(d)); AL(SM, SM, adj(d) * d);
  AL(F, CM, a * d); AL(F, CM, adj(a) * d); AL(F, RR, a * d); AL(F, CC, d * a); AL(F, F, a + d); AL(F, F, a - d); AL(F, SM, a * d); AL(F, F, d + d); AL(F, F, timesMinusI(d) - a);
  AL(P, P, d * a); AL(P, P, a * adj(d)); AL(P, P, adj(d) * d); AL(P, P, transpose(d)); AL(P, SM, a * d); AL(P, CM, d * a); AL(P, P, quarkContract13(d, a)); AL(P, P, quarkContract24(d, d)); AL(P, P, transposeSpin(d));
  AL(CC, CC, d * a); AL(CC, CC, adj(d) * d); AL(CC, CC, timesI(d)); AL(CC, RR, d * a); AL(CC, CC, conj(d) - a * d); AL(RR, RR, d * a - d);
}
static Part part("alias", go);
