#include "rng.h"
using namespace qx;
static void go() { DRAWER(LatticeSpinVector); DRAWER(LatticeSpinMatrix); DRAWER(LatticePropagator); DRAWER(LatticeRealD); DRAWER(LatticeRealF); DRAWER(LatticeComplexD); DRAWER(LatticeHalfFermion); }
static Part part("b", go);
