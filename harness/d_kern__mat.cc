#include "kern.h"
using namespace qx;
#define U LatticeColorMatrix
#define V LatticeColorVector
#define HF LatticeHalfFermion
#define F LatticeFermion
static void go() {
  cx.key = "kernel";
#define MM(OPX) KERN(U, U, U, OPX, x * y); KERN(U, U, U, OPX, adj(x) * y); KERN(U, U, U, OPX, x * adj(y)); KERN(U, U, U, OPX, adj(x) * adj(y)); KERN(U, U, U, OPX, x); KERN(U, U, U, OPX, a * x); KERN(U, U, U, OPX, adj(x));
  MM(=) MM(+=) MM(-=)
  KERN(U, U, U, *=, a); KERN(U, U, U, *=, c); KERN(U, U, U, /=, b); KERN(U, U, U, =, x + y); KERN(U, U, U, =, x - y); KERN(U, U, U, =, c * x); KERN(U, U, U, =, a * x + b * y);
#define MV(T, OPX) KERN(T, U, T, OPX, x * y); KERN(T, U, T, OPX, adj(x) * y);
  MV(V, =) MV(V, +=) MV(V, -=) MV(HF, =) MV(HF, +=) MV(HF, -=) MV(F, =) MV(F, +=) MV(F, -=)
  KERN(V, V, V, =, x + y); KERN(V, V, V, =, x - y); KERN(HF, HF, HF, =, x + y); KERN(HF, HF, HF, +=, a * x); KERN(HF, HF, HF, =, a * x + y); KERN(V, V, V, =, a * x + y);
}
static Part part("matrix", go);
