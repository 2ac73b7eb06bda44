#include "ex.h"
using namespace qx;
#define F LatticeFermion
#define HF LatticeHalfFermion
#define CM LatticeColorMatrix
#define CV LatticeColorVector
#define SM LatticeSpinMatrix
#define HSM LatticeHalfSpinMatrix
#define SV LatticeSpinVector
#define CC LatticeComplex
#define RR LatticeReal
static void go() {
  E1(F, F, -a); E1(F, F, +a); E1(F, F, conj(a)); E1(F, F, timesI(a)); E1(F, F, timesMinusI(a)); E1(RR, F, localNorm2(a)); E1(HF, HF, -a); E1(HF, HF, timesI(a)); E1(RR, HF, localNorm2(a));
  E2(F, F, F, a + b); E2(F, F, F, a - b); E2(HF, HF, HF, a + b); E2(HF, HF, HF, a - b);
  E2(F, CM, F, a * b); E2(F, CM, F, adj(a) * b); E2(F, SM, F, a * b); E2(F, SM, F, adj(a) * b); E2(HF, CM, HF, a * b); E2(HF, CM, HF, adj(a) * b); E2(HF, HSM, HF, a * b);
  E2(F, F, CC, a * b); E2(F, CC, F, a * b); E2(F, F, RR, a * b); E2(F, RR, F, a * b); E2(F, CC, F, adj(a) * b); E2(F, F, CC, a * adj(b)); E2(F, CC, F, conj(a) * b);
  E2(HF, HF, CC, a * b); E2(HF, CC, HF, a * b); E2(HF, RR, HF, a * b);
  E3(F, CM, CM, F, (a * b) * c); E3(F, CM, CM, F, a * (b * c)); E3(F, CM, CM, F, adj(a) * (b * c)); E3(F, CM, F, F, a * b + c); E3(F, CM, F, F, c - a * b); E3(F, CM, F, F, adj(a) * (b - c)); E3(F, RR, F, F, a * b + c); E3(F, RR, F, F, b - a * c); E3(F, CC, F, F, a * b + c); E3(F, CC, F, F, c - a * b); E3(F, CM, SM, F, a * (b * c)); E3(F, CM, SM, F, b * (adj(a) * c));
  E2(F, CV, SV, a * b); E2(F, SV, CV, a * b);
  E2(CC, F, F, localInnerProduct(a, b)); E2(RR, F, F, localInnerProductReal(a, b)); E2(RR, F, F, real(localInnerProduct(a, b))); E2(CC, HF, HF, localInnerProduct(a, b)); E2(LatticePropagator, F, F, outerProduct(a, b));
  E2(CM, F, F, traceSpin(outerProduct(a, b))); E2(CM, HF, HF, traceSpin(outerProduct(a, b))); E3(CM, F, F, RR, traceSpin(outerProduct(a * c, b - a)));
  E1(CV, F, peekSpin(a, 3)); E1(SV, F, peekColor(a, 1)); E3(F, LatticeBoolean, F, F, where(a, b, c)); E3(HF, LatticeBoolean, HF, HF, where(a, b, c));
  E3(F, F, RR, RR, (b * c) * a); E3(F, F, F, RR, (a + b) * c); E3(F, F, F, CC, c * (a - b)); E3(F, F, F, F, a + b - c); E3(F, F, F, F, a - (b + c));
  ex2<F, F, CC>("F = a / b", [](const auto& a, const auto& b) { return a / b; }, Any(), [](cd x) { return std::abs(x) < 0.2 ? cd(1, 2) : x; });
  ex2<F, F, RR>("F = a / b (real)", [](const auto& a, const auto& b) { return a / b; }, Any(), [](cd x) { return std::abs(x) < 0.2 ? cd(2) : x; });
}
static Part part("ferm", go);
