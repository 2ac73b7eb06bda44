#include "sublat.h"
using namespace qx;
static void real() { Sl<LatticeReal::Subtype_t, 0> h(cx.g); h.run(60); }
static void dbl() { Sl<LatticeDouble::Subtype_t, 0> h(cx.g); h.run(40); }
static void integer() { Sl<LatticeInteger::Subtype_t, 1> h(cx.g); h.run(60); }
static void boolean() { Sl<LatticeBoolean::Subtype_t, 2> h(cx.g); h.run(50); }
static void complex_() { Sl<LatticeComplex::Subtype_t, 0> h(cx.g); h.run(50); }
static Part p1("Real", real), p2("Integer", integer), p3("Boolean", boolean), p4("Double", dbl), p5("Complex", complex_);
