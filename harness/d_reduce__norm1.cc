#include "red.h"
using namespace qx;
static void go() { NORMS(LatticeFermion); NORMS(LatticeColorMatrix); NORMS(LatticePropagator); NORMS(LatticeComplex); NORMS(LatticeReal);  }
static Part part("norm1", go);
