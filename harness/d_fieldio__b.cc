#include "fio.h"
using namespace qx;
static void go() { FTEST(LatticeColorMatrix); FTEST(LatticeFermion); FTEST(LatticeHalfFermion); FTEST(LatticeSpinMatrix); FTEST(LatticeSpinVector); FTEST(LatticePropagator); FTEST(LatticeColorMatrixD); FTEST(LatticeColorMatrixF); FTEST(LatticeDiracFermionF); FTEST(LatticeDiracFermionD); }
static Part part("b", go);
