#include "ex.h"
using namespace qx;
#define CC LatticeComplex
#define RR LatticeReal
#define RD LatticeRealD
#define CD LatticeComplexD
#define II LatticeInteger
#define BB LatticeBoolean
namespace qx {
template <class A, class B> auto quot(const A& a, const B& b) { return a / b; }
inline R quot(const R& a, const R& b) { return map2(a, b, [](double x, double y) { return std::trunc(x / y); }, true); }
inline R truncR(const R& a) { return mapr(a, [](double x) { return std::trunc(x); }, true); }
template <class A> const A& truncR(const A& a) { return a; }
}
static cd nz(cd x) { return std::abs(x) < 0.2 ? cd(1, x.imag() == 0 ? 0 : 2) : x; }
static cd nzr(cd x) { return std::abs(x) < 0.2 ? cd(2) : x; }
static cd sh(cd x) { return cd((double)(((long)x.real() % 9 + 9) % 9)); }
static cd nonneg(cd x) { return cd(std::fabs(x.real())); }
static void go() {
  // complex
  E1(CC, CC, -a); E1(CC, CC, +a); E1(CC, CC, adj(a)); E1(CC, CC, conj(a)); E1(CC, CC, transpose(a)); E1(CC, CC, timesI(a)); E1(CC, CC, timesMinusI(a)); E1(CC, CC, trace(a)); E1(RR, CC, real(a)); E1(RR, CC, imag(a)); E1(RR, CC, realTrace(a)); E1(RR, CC, imagTrace(a));
  E2(CC, CC, CC, a + b); E2(CC, CC, CC, a - b); E2(CC, CC, CC, a * b); E2(CC, CC, RR, a + b); E2(CC, RR, CC, a + b); E2(CC, CC, RR, a - b); E2(CC, RR, CC, a - b); E2(CC, CC, RR, a * b); E2(CC, RR, CC, a * b);
  E2(CC, CC, CC, adj(a) * b); E2(CC, CC, CC, a * adj(b)); E2(CC, CC, CC, adj(a) * adj(b)); E2(CC, CC, CC, conj(a) * b); E2(CC, CC, CC, trace(a * b)); E2(RR, CC, CC, real(trace(a * b))); E2(RR, CC, CC, real(a * b)); E2(RR, CC, CC, imag(adj(a) * b));
  E2(CC, RR, RR, cmplx(a, b)); E2(CC, RR, RR, cmplx(a * b, a - b)); E1(CC, RR, timesI(a)); E1(CC, RR, timesMinusI(a)); E2(CC, CC, CC, localInnerProduct(a, b)); E2(RR, CC, CC, localInnerProductReal(a, b)); E2(CC, CC, CC, outerProduct(a, b));
  E3(CC, CC, CC, CC, a * b + c); E3(CC, CC, CC, CC, a * (b - c)); E3(CC, BB, CC, CC, where(a, b, c)); E3(CC, BB, CC, RR, where(a, b, c)); E3(CC, BB, RR, CC, where(a, b, c));  E3(RR, BB, RR, RR, where(a, b, c)); E3(II, BB, II, II, where(a, b, c));
  ex2<CC, CC, CC>("C/C", [](const auto& a, const auto& b) { return a / b; }, Any(), nz); ex2<CC, CC, RR>("C/R", [](const auto& a, const auto& b) { return a / b; }, Any(), nzr); ex2<CC, RR, CC>("R/C", [](const auto& a, const auto& b) { return a / b; }, Any(), nz); ex2<RR, RR, RR>("R/R", [](const auto& a, const auto& b) { return a / b; }, Any(), nzr);
  // reals
  E1(RR, RR, -a); E1(RR, RR, +a); E1(RR, RR, adj(a)); E1(RR, RR, conj(a)); E1(RR, RR, transpose(a)); E1(RR, RR, trace(a)); E1(RR, RR, real(a));
  E2(RR, RR, RR, a + b); E2(RR, RR, RR, a - b); E2(RR, RR, RR, a * b); E2(RR, RR, RR, adj(a) * b); E2(RR, RR, RR, a * adj(b)); E2(RR, RR, RR, localInnerProduct(a, b)); E3(RR, RR, RR, RR, a * b - c); E3(RR, RR, RR, RR, (a + b) * (b - c)); E3(RR, RR, RR, RR, -(a * b) + (+c));
  E2(BB, RR, RR, a < b); E2(BB, RR, RR, a <= b); E2(BB, RR, RR, a > b); E2(BB, RR, RR, a >= b); E2(BB, RR, RR, a == b); E2(BB, RR, RR, a != b); E2(BB, RR, II, a < b); E2(BB, II, RR, a >= b); E2(RR, RR, RR, where(a < b, b - a, a - b)); E3(BB, RR, RR, RR, (a < b) && (b < c)); E3(BB, RR, RR, RR, (a == b) || !(b > c));
  // integers
  E1(II, II, -a); E1(II, II, +a); E2(II, II, II, a + b); E2(II, II, II, a - b); E2(II, II, II, a * b); E3(II, II, II, II, a * b + c); E2(II, II, II, a & b); E2(II, II, II, a | b); E2(II, II, II, a ^ b); E3(II, II, II, II, (a & b) | (b ^ c));
  ex2<II, II, II>("I/I", [](const auto& a, const auto& b) { return quot(a, b); }, Any(), nzr); ex2<II, II, II>("I%I", [](const auto& a, const auto& b) { return a % b; }, Any(), nzr);
  ex2<II, II, II>("I<<I", [](const auto& a, const auto& b) { return a << b; }, nonneg, sh); ex2<II, II, II>("I>>I", [](const auto& a, const auto& b) { return a >> b; }, Any(), sh);
  E2(BB, II, II, a < b); E2(BB, II, II, a <= b); E2(BB, II, II, a > b); E2(BB, II, II, a >= b); E2(BB, II, II, a == b); E2(BB, II, II, a != b); E2(BB, II, II, (a - b) == (b - a));
  E1(BB, BB, !a); E2(BB, BB, BB, a && b); E2(BB, BB, BB, a || b); E2(BB, BB, BB, a == b); E2(BB, BB, BB, a != b); E3(BB, BB, BB, BB, (a && b) || !c); E2(BB, BB, BB, a & b); E2(BB, BB, BB, a | b); E2(BB, BB, BB, a ^ b);
  E2(RR, II, RR, a * b); E2(RR, RR, II, a + b); E2(CC, II, CC, a * b); E2(RR, RR, II, a - b); ex2<RR, RR, II>("R/I", [](const auto& a, const auto& b) { return a / b; }, Any(), nzr);
  // conversions by assignment
  E1(RR, II, a); E1(RD, II, a); E1(RD, RR, a); E1(RR, RD, a); E1(CD, CC, a); E1(CC, CD, a);
  E2(RD, RD, RR, a * b); E2(RD, RR, RD, a + b); E2(CD, CD, CC, a * b); E2(CD, CC, RD, a * b); E2(CD, RD, CD, a - b);
  E1(LatticeInteger, LatticeReal, truncR(a)); E1(LatticeInteger, LatticeBoolean, a); E1(LatticeReal, LatticeBoolean, a);
}
static Part part("scal", go);
