#include "red.h"
using namespace qx;
static void go() { NORMS(LatticeHalfFermion); NORMS(LatticeColorVector); NORMS(LatticeSpinVector); NORMS(LatticeSpinMatrix); NORMS(LatticeDiracFermionD3); NORMS(LatticeColorMatrixD3); 
#if !(defined(QDP_USE_SSE) && BASE_PRECISION == 64) // that build has no single precision fermion kernels
  NORMS(LatticeDiracFermionF3);
#endif
}
static Part part("norm2", go);
