#include "stm.h"
using namespace qx;
#define RR LatticeReal
#define RD LatticeRealD
#define II LatticeInteger
#define BB LatticeBoolean
static cd nzr(cd x) { return std::abs(x) < 0.2 ? cd(2) : x; }
static cd sh(cd x) { return cd((double)(((long)x.real() % 9 + 9) % 9)); }
static cd nonneg(cd x) { return cd(std::fabs(x.real())); }
template <class A> auto id(const A& a) { return +a; }
static void go() {
  S_(set, RR, RR, a * a); S_(add, RR, RR, -a); S_(sub, RR, RR, a + a); S_(mul, RR, RR, a - a * a); st_div<RR, RR>("R /= R", [](const auto& a) { return -a; }, nzr);
  S_(set, RD, RR, -a); S_(add, RD, RR, a * a); S_(sub, RR, RD, a + a); S_(mul, RD, RD, -a); S_(set, RR, II, a + a); S_(add, RR, II, a); S_(mul, RR, II, -a);
  S_(set, II, II, a + a); S_(add, II, II, -a); S_(sub, II, II, a * a); S_(mul, II, II, -a); S_(or, II, II, a + a); S_(and, II, II, -a); S_(xor, II, II, a + a);
  st_mod<II, II>("I %= I", [](const auto& a) { return -a; }, nzr);
  st_shl<II, II>("I <<= I", [](const auto& a) { return id(a); }, sh, nonneg); st_shr<II, II>("I >>= I", [](const auto& a) { return id(a); }, sh);
  S_(set, BB, BB, !a); S_(or, BB, BB, !a); S_(and, BB, BB, !a); S_(xor, BB, BB, !a); S_(set, BB, BB, !a);
}
static Part part("ops2", go);
