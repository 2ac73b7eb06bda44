#include "kern.h"
using namespace qx;
#define U LatticeColorMatrix
#define HF LatticeHalfFermion
#define F LatticeFermion
#define D2(M) M(0, Plus) M(1, Plus) M(0, Minus) M(1, Minus)
static void go() {
  cx.key = "kernel";
#define M(d_, s) KERN(HF, F, F, =, spinProjectDir##d_##s(x)); KERN(F, HF, HF, =, spinReconstructDir##d_##s(x)); KERN(F, HF, HF, +=, spinReconstructDir##d_##s(x)); KERN(HF, U, F, =, adj(x) * spinProjectDir##d_##s(y)); KERN(HF, U, F, =, x * spinProjectDir##d_##s(y)); KERN(F, U, HF, =, spinReconstructDir##d_##s(x * y)); KERN(F, U, HF, +=, spinReconstructDir##d_##s(x * y)); KERN(F, U, HF, -=, spinReconstructDir##d_##s(x * y)); KERN(F, HF, HF, -=, spinReconstructDir##d_##s(x));
  D2(M)
}
static Part part("fused0", go);
