#include "red.h"
using namespace qx;
static void go() {
  SUMF(LatticeReal); SUMF(LatticeComplex); SUMF(LatticeInteger); SUMF(LatticeRealD); SUMF(LatticeRealF);
  SUMF(LatticeColorMatrix);
  SUMF(LatticeFermion);
  SUMF(LatticePropagator);
  SUMF(LatticeSpinMatrix);
  SUMF(LatticeColorVector);
}
static Part part("sum", go);
