#include "ex.h"
using namespace qx;
#define SM LatticeSpinMatrix
#define SV LatticeSpinVector
#define CC LatticeComplex
#define RR LatticeReal
static void go() {
  E1(SM, SM, -a); E1(SM, SM, +a); E1(SM, SM, adj(a)); E1(SM, SM, conj(a)); E1(SM, SM, transpose(a)); E1(SM, SM, transposeSpin(a)); E1(SM, SM, timesI(a)); E1(SM, SM, timesMinusI(a));
  E1(CC, SM, trace(a)); E1(CC, SM, traceSpin(a)); E1(RR, SM, realTrace(a)); E1(RR, SM, imagTrace(a)); E1(RR, SM, real(trace(a))); E1(RR, SM, localNorm2(a)); E1(RR, SV, localNorm2(a));
  E1(SV, SV, -a); E1(SV, SV, conj(a)); E1(SV, SV, timesI(a)); E1(SV, SV, timesMinusI(a));
  E2(SM, SM, SM, a + b); E2(SM, SM, SM, a - b); E2(SM, SM, SM, a * b); E2(SM, SM, SM, adj(a) * b); E2(SM, SM, SM, a * adj(b)); E2(SM, SM, SM, adj(a) * adj(b));
  E2(SM, SM, SM, transpose(a) * b); E2(SM, SM, SM, transposeSpin(a * b)); E2(SM, SM, SM, adj(a + b) * adj(b)); E3(SM, SM, SM, SM, a * b * adj(c)); E3(SM, SM, SM, SM, adj(a) * b * c);
  E2(SM, SM, CC, a * b); E2(SM, CC, SM, a * b); E2(SM, SM, RR, a * b); E2(SM, RR, SM, a * b); E2(SM, SM, CC, a + b); E2(SM, CC, SM, a - b); E2(SM, SM, CC, adj(a) * b); E2(SM, SM, CC, a * adj(b)); E2(SM, CC, SM, a * adj(b)); E2(SM, CC, SM, adj(a) * b); E2(SM, CC, SM, adj(a) * adj(b)); E2(SM, SM, CC, adj(a) * adj(b));
  E2(SV, SV, SV, a + b); E2(SV, SV, SV, a - b); E2(SV, SM, SV, a * b); E2(SV, SM, SV, adj(a) * b); E3(SV, SM, SM, SV, (a * b) * c); E3(SV, SM, SM, SV, adj(a) * (b * c));
  E2(SV, SV, CC, a * b); E2(SV, CC, SV, a * b); E2(SV, SV, RR, a * b); E2(SV, RR, SV, a * b); E2(SV, CC, SV, adj(a) * b); E2(SV, SV, CC, a * adj(b));
  E2(SM, SV, SV, outerProduct(a, b)); E2(CC, SV, SV, localInnerProduct(a, b)); E2(RR, SV, SV, localInnerProductReal(a, b)); E2(CC, SM, SM, localInnerProduct(a, b)); E2(RR, SM, SM, localInnerProductReal(a, b)); E2(RR, SV, SV, real(localInnerProduct(a, b)));
  E2(CC, SV, SV, traceSpin(outerProduct(a, b)));
  E2(CC, SM, SM, trace(a * b)); E2(CC, SM, SM, trace(adj(a) * b)); E2(CC, SM, SM, trace(a * adj(b))); E2(CC, SM, SM, trace(adj(a) * adj(b))); E2(CC, SM, SM, traceSpin(a * b)); E2(CC, SM, SM, traceSpin(adj(a) * b)); E2(CC, SM, SM, traceSpin(a * adj(b))); E2(RR, SM, SM, real(trace(a * b))); E2(RR, SM, SM, realTrace(a * b)); E2(RR, SM, SM, imagTrace(a * b));
  E2(CC, SM, CC, trace(a * b)); E2(CC, CC, SM, trace(a * b));
  E3(CC, SM, SM, SM, trace(a * b * c)); E3(CC, SM, SM, SM, traceSpin(a * b * adj(c)));
  E3(SM, LatticeBoolean, SM, SM, where(a, b, c)); E3(SV, LatticeBoolean, SV, SV, where(a, b, c));
  E1(CC, SM, peekSpin(a, 0, 3)); E1(CC, SM, peekSpin(a, 2, 1)); E1(CC, SV, peekSpin(a, 2)); E1(CC, SV, peekSpin(a, 0));
  ex2<SM, SM, CC>("SM = a / b", [](const auto& a, const auto& b) { return a / b; }, Any(), [](cd x) { return std::abs(x) < 0.2 ? cd(1, 2) : x; });
  ex2<SV, SV, CC>("SV = a / b", [](const auto& a, const auto& b) { return a / b; }, Any(), [](cd x) { return std::abs(x) < 0.2 ? cd(1, 2) : x; });
  ex2<SV, SV, RR>("SV = a / b (real)", [](const auto& a, const auto& b) { return a / b; }, Any(), [](cd x) { return std::abs(x) < 0.2 ? cd(2) : x; });
}
static Part part("spin", go);
