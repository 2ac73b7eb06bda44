#include "fio.h"
using namespace qx;
static void go() { FTEST(LatticeReal); FTEST(LatticeComplex); FTEST(LatticeInteger); FTEST(LatticeBoolean); FTEST(LatticeSeed); FTEST(LatticeColorVector); FTEST(LatticeDouble); FTEST(LatticeDComplex); }
static Part part("a", go);
