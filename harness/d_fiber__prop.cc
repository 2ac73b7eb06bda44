#include "ex.h"
using namespace qx;
#define F LatticeFermion
#define P LatticePropagator
#define HP LatticeHalfPropagator
#define CM LatticeColorMatrix
#define SM LatticeSpinMatrix
#define CC LatticeComplex
#define RR LatticeReal
static void go() {
  E1(P, P, -a); E1(P, P, adj(a)); E1(P, P, conj(a)); E1(P, P, transpose(a)); E1(P, P, transposeSpin(a)); E1(P, P, timesI(a)); E1(P, P, timesMinusI(a));
  E1(CC, P, trace(a)); E1(CM, P, traceSpin(a)); E1(SM, P, traceColor(a)); E1(CC, P, traceSpin(traceColor(a))); E1(CC, P, traceColor(traceSpin(a))); E1(RR, P, realTrace(a)); E1(RR, P, imagTrace(a)); E1(RR, P, real(trace(a))); E1(RR, P, localNorm2(a));
  E2(P, P, P, a + b); E2(P, P, P, a - b); E2(P, P, P, a * b); E2(P, P, P, adj(a) * b); E2(P, P, P, a * adj(b)); E2(P, P, P, adj(a) * adj(b));
  E2(P, CM, P, a * b); E2(P, P, CM, a * b); E2(P, CM, P, adj(a) * b); E2(P, P, CM, a * adj(b)); E2(P, CM, P, a * adj(b)); E2(P, P, CM, adj(a) * b); E2(P, SM, P, a * b); E2(P, P, SM, a * b); E2(P, SM, P, adj(a) * b); E2(P, P, SM, a * adj(b)); E2(P, SM, P, a * adj(b)); E2(P, P, SM, adj(a) * b);
  E2(P, CM, SM, a * b); E2(P, SM, CM, a * b); E2(P, P, CC, a * b); E2(P, CC, P, a * b); E2(P, P, RR, a * b); E2(P, RR, P, a * b); E2(P, P, CC, a + b); E2(P, P, SM, a + b); E2(P, P, CM, a - b); E2(P, CM, P, a + b);
  E2(F, P, F, a * b); E2(F, P, F, adj(a) * b); E3(P, SM, P, SM, a * b * c); E3(P, SM, P, SM, a * (b * c)); E3(P, CM, P, CM, a * b * adj(c)); E3(P, P, P, P, a * b * c);
  E2(CC, P, P, trace(a * b)); E2(CC, P, P, trace(adj(a) * b)); E2(CC, P, P, trace(a * adj(b))); E2(RR, P, P, real(trace(adj(a) * b))); E2(SM, P, P, traceColor(a * b)); E2(CM, P, P, traceSpin(a * b)); E2(SM, P, P, traceColor(a * adj(b))); E2(CM, P, P, traceSpin(adj(a) * b));
  E2(CC, P, SM, trace(a * b)); E2(CC, CM, P, trace(a * b)); E2(CC, P, CM, trace(a * b)); E2(CC, SM, P, trace(a * b)); E2(CM, SM, P, traceSpin(a * b)); E2(CM, P, SM, traceSpin(a * b)); E2(SM, CM, P, traceColor(a * b)); E2(SM, P, CM, traceColor(a * b));
  E2(CC, P, P, localInnerProduct(a, b)); E2(RR, P, P, localInnerProductReal(a, b)); E2(SM, LatticeColorVectorSpinMatrix, LatticeColorVectorSpinMatrix, localColorInnerProduct(a, b));
  E2(P, P, P, quarkContract13(a, b)); E2(P, P, P, quarkContract14(a, b)); E2(P, P, P, quarkContract23(a, b)); E2(P, P, P, quarkContract24(a, b)); E2(P, P, P, quarkContract12(a, b)); E2(P, P, P, quarkContract34(a, b));
  E2(CM, P, P, traceSpin(quarkContract13(a, b))); E3(CC, P, P, P, trace(a * traceSpin(quarkContract13(b, c)))); E3(CC, P, P, P, trace(traceColor(a * quarkContract13(b, c))));
  E1(CM, P, peekSpin(a, 1, 2)); E1(SM, P, peekColor(a, 2, 0)); E3(P, LatticeBoolean, P, P, where(a, b, c));
  E1(HP, HP, adj(a)); E2(HP, HP, HP, a * b); E2(HP, HP, HP, adj(a) * b); E1(CC, HP, trace(a));
  ex2<P, P, CC>("P = a / b", [](const auto& a, const auto& b) { return a / b; }, Any(), [](cd x) { return std::abs(x) < 0.2 ? cd(1, 2) : x; });
}
static Part part("prop", go);
