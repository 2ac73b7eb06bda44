#include "rng.h"
using namespace qx;
static void go() { DRAWER(LatticeReal); DRAWER(LatticeComplex); DRAWER(LatticeColorVector); DRAWER(LatticeColorMatrix); DRAWER(LatticeFermion); }
static Part part("a", go);
