#include "kern.h"
using namespace qx;
#define F LatticeFermion
// the exact expression shapes: the operands' references are kept in the tree
#define g5(v) (gsel(v, 0, 15, G5()) * v)
#define g5i(v) (gsel(v, 0, 15, G5()) * timesI(v))
#define g5t(p, v, q, w) (gsel(v, 0, 15, G5()) * (p * v - q * w))
static void go() {
  cx.key = "kernel";
  KERN(F, F, F, =, a * x + chiralProjectMinus(y));
  KERN(F, F, F, =, a * x + b * chiralProjectMinus(y));
  KERN(F, F, F, =, x + chiralProjectMinus(y));
  KERN(F, F, F, =, x - a * chiralProjectMinus(y));
  KERN(F, F, F, =, a * x - chiralProjectMinus(y));
  KERN(F, F, F, =, a * x - b * chiralProjectMinus(y));
  KERN(F, F, F, =, x - chiralProjectMinus(y));
  KERN(F, F, F, =, a * g5(x));
  KERN(F, F, F, =, x - a * g5(y));
  KERN(F, F, F, =, x + a * g5(y));
  KERN(F, F, F, =, a * x + b * g5(y));
  KERN(F, F, F, =, a * x - b * g5(y));
  KERN(F, F, F, =, g5t(a, x, b, y));
  KERN(F, F, F, =, a * x + b * g5i(y));
  KERN(F, F, F, =, a * x - b * g5i(y));
  KERN(F, F, F, =, x + a * g5i(y));
  KERN(F, F, F, =, x - a * g5i(y));
  KERN(F, F, F, +=, a * g5i(x));
  KERN(F, F, F, -=, a * g5i(x));
  KERN(F, F, F, +=, a * g5(x));
  KERN(F, F, F, =, a * g5i(x));
}
static Part part("chiral2", go);
