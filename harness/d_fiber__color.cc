#include "ex.h"
using namespace qx;
#define CM LatticeColorMatrix
#define CV LatticeColorVector
#define CC LatticeComplex
#define RR LatticeReal
static void go() {
  E1(CM, CM, -a); E1(CM, CM, +a); E1(CM, CM, adj(a)); E1(CM, CM, conj(a)); E1(CM, CM, transpose(a));
  E1(CM, CM, timesI(a)); E1(CM, CM, timesMinusI(a));
  E1(CC, CM, trace(a)); E1(RR, CM, realTrace(a)); E1(RR, CM, imagTrace(a)); E1(CC, CM, traceColor(a));
  E1(RR, CM, real(trace(a))); E1(RR, CM, imag(trace(a)));
  E1(RR, CM, localNorm2(a)); E1(RR, CV, localNorm2(a)); E1(RR, CC, localNorm2(a)); E1(RR, RR, localNorm2(a));
  E1(CV, CV, -a); E1(CV, CV, +a); E1(CV, CV, conj(a)); E1(CV, CV, timesI(a)); E1(CV, CV, timesMinusI(a));
  E2(CM, CM, CM, a + b); E2(CM, CM, CM, a - b); E2(CM, CM, CM, a * b);
  E2(CM, CM, CM, adj(a) * b); E2(CM, CM, CM, a * adj(b)); E2(CM, CM, CM, adj(a) * adj(b));
  E2(CM, CM, CM, transpose(a) * b); E2(CM, CM, CM, conj(a) * b); E2(CM, CM, CM, adj(a * b)); E2(CM, CM, CM, adj(a + b) * b);
  E2(CM, CM, CM, a * adj(b + a)); E2(CM, CM, CM, adj(a - b) * adj(a)); E2(CM, CM, CM, (a * b) * adj(b)); E2(CM, CM, CM, a * (b * adj(b)));
  E3(CM, CM, CM, CM, a * b * c); E3(CM, CM, CM, CM, a * b * adj(c)); E3(CM, CM, CM, CM, adj(a) * b * c); E3(CM, CM, CM, CM, adj(a) * adj(b) * adj(c));
  E3(CM, CM, CM, CM, a + b * c); E3(CM, CM, CM, CM, a * b - adj(c) * a);
  E2(CM, CM, CC, a * b); E2(CM, CC, CM, a * b); E2(CM, CM, RR, a * b); E2(CM, RR, CM, a * b);
  E2(CM, CM, CC, adj(a) * b); E2(CM, CC, CM, a * adj(b)); E2(CM, CM, CC, a * adj(b)); E2(CM, CC, CM, adj(a) * b);
  E2(CM, CM, CC, adj(a) * adj(b)); E2(CM, CC, CM, adj(a) * adj(b));
  E2(CM, CM, CC, a + b); E2(CM, CC, CM, a + b); E2(CM, CM, CC, a - b); E2(CM, CC, CM, a - b); E2(CM, CM, RR, a + b); E2(CM, RR, CM, a - b);
  E2(CV, CV, CV, a + b); E2(CV, CV, CV, a - b);
  E2(CV, CM, CV, a * b); E2(CV, CM, CV, adj(a) * b); E3(CV, CM, CV, CV, a * (b + c)); E3(CV, CM, CM, CV, a * (b * c)); E3(CV, CM, CM, CV, adj(a) * (adj(b) * c)); E3(CV, CM, CM, CV, (a * b) * c);
  E2(CV, CV, CC, a * b); E2(CV, CC, CV, a * b); E2(CV, CV, RR, a * b); E2(CV, RR, CV, a * b); E2(CV, CC, CV, adj(a) * b); E2(CV, CV, CC, a * adj(b)); E2(CV, CC, CV, conj(a) * b);
  E2(CM, CV, CV, outerProduct(a, b)); E2(CC, CV, CV, localInnerProduct(a, b)); E2(RR, CV, CV, localInnerProductReal(a, b));
  E2(CC, CM, CM, localInnerProduct(a, b)); E2(RR, CM, CM, localInnerProductReal(a, b)); E2(RR, CM, CM, real(localInnerProduct(a, b))); E2(RR, CV, CV, real(localInnerProduct(a, b)));
  E2(CC, CM, CC, localInnerProduct(a, b)); E2(CC, CC, CM, localInnerProduct(a, b)); E2(RR, CM, CC, localInnerProductReal(a, b)); E2(RR, CC, CM, localInnerProductReal(a, b));
  E2(CC, CV, CV, localColorInnerProduct(a, b)); E2(CC, CV, CV, colorVectorContract(a, b)); E2(CV, CV, CV, colorCrossProduct(a, b));
  E3(CC, CM, CM, CM, colorContract(a, b, c));
  E2(CC, CM, CM, trace(a * b)); E2(CC, CM, CM, trace(adj(a) * b)); E2(CC, CM, CM, trace(a * adj(b))); E2(CC, CM, CM, trace(adj(a) * adj(b))); E2(RR, CM, CM, real(trace(a * b)));
  E2(RR, CM, CM, real(trace(a * adj(b)))); E2(RR, CM, CM, real(trace(adj(a) * b))); E2(CC, CM, CM, traceColor(a * b)); E2(CC, CM, CM, traceColor(a * adj(b))); E2(RR, CM, CM, imag(trace(a * b)));
  E2(RR, CM, CM, realTrace(a * b)); E2(RR, CM, CM, imagTrace(a * b)); E3(CC, CM, CM, CM, trace(a * b * c)); E3(RR, CM, CM, CM, real(trace(a * b * adj(c))));
  E2(CC, CM, CC, trace(a * b)); E2(CC, CC, CM, trace(a * b)); E2(CC, CM, CC, traceColor(a * b)); E2(CC, CC, CM, traceColor(a * b));
  E3(CM, LatticeBoolean, CM, CM, where(a, b, c)); E3(CV, LatticeBoolean, CV, CV, where(a, b, c));
  E1(CC, CM, peekColor(a, 0, 2)); E1(CC, CM, peekColor(a, 2, 1)); E1(CC, CV, peekColor(a, 1));
  E1(CM, LatticeReal, a + a * a); 
  ex2<CM, CM, CC>("CM = a / b", [](const auto& a, const auto& b) { return a / b; }, Any(), [](cd x) { return std::abs(x) < 0.2 ? cd(1, 2) : x; });
  ex2<CM, CM, RR>("CM = a / b (real)", [](const auto& a, const auto& b) { return a / b; }, Any(), [](cd x) { return std::abs(x) < 0.2 ? cd(2) : x; });
  ex2<CV, CV, CC>("CV = a / b", [](const auto& a, const auto& b) { return a / b; }, Any(), [](cd x) { return std::abs(x) < 0.2 ? cd(1, 2) : x; });
  ex2<CV, CV, RR>("CV = a / b (real)", [](const auto& a, const auto& b) { return a / b; }, Any(), [](cd x) { return std::abs(x) < 0.2 ? cd(2) : x; });
}
static Part part("color", go);
