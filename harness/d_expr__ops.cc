#include "stm.h"
using namespace qx;
#define CM LatticeColorMatrix
#define CV LatticeColorVector
#define SM LatticeSpinMatrix
#define F LatticeFermion
#define HF LatticeHalfFermion
#define P LatticePropagator
#define CC LatticeComplex
#define RR LatticeReal
static cd nz(cd x) { return std::abs(x) < 0.2 ? cd(1, x.imag() == 0 ? 0 : 2) : x; }
static cd nzr(cd x) { return std::abs(x) < 0.2 ? cd(2) : x; }
static void go() {
  S_(set, CM, CM, a * a); S_(add, CM, CM, a * adj(a)); S_(sub, CM, CM, adj(a)); S_(mul, CM, CC, a * a); S_(mul, CM, RR, -a); S_(add, CM, CC, -a); S_(sub, CM, RR, a + a);
  st_div<CM, RR>("CM /= R", [](const auto& a) { return -a; }, nzr); st_div<CM, CC>("CM /= C", [](const auto& a) { return -a; }, nz);
  S_(set, F, F, -a); S_(add, F, F, a + a); S_(sub, F, F, timesI(a)); S_(mul, F, RR, -a); S_(mul, F, CC, conj(a)); st_div<F, RR>("F /= R", [](const auto& a) { return -a; }, nzr);
  S_(set, CV, CV, conj(a)); S_(add, CV, CV, -a); S_(sub, CV, CV, a + a); S_(mul, CV, CC, -a);
  S_(set, SM, SM, adj(a)); S_(add, SM, SM, a * a); S_(sub, SM, CC, -a);
  S_(set, HF, HF, -a); S_(add, HF, HF, -a); S_(sub, HF, HF, a + a); S_(mul, HF, RR, -a);
  S_(set, P, P, adj(a)); S_(add, P, P, -a); S_(sub, P, P, timesI(a)); S_(mul, P, CC, -a); S_(mul, P, RR, -a); 
  S_(set, CC, CC, a * a); S_(add, CC, CC, adj(a)); S_(sub, CC, CC, timesI(a)); S_(mul, CC, CC, a + a); S_(add, CC, RR, -a); S_(mul, CC, RR, -a); st_div<CC, CC>("C /= C", [](const auto& a) { return -a; }, nz); st_div<CC, RR>("C /= R", [](const auto& a) { return -a; }, nzr);
}
static Part part("ops", go);
