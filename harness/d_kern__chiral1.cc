#include "kern.h"
using namespace qx;
#define F LatticeFermion
// the exact expression shapes: the operands' references are kept in the tree
#define g5(v) (gsel(v, 0, 15, G5()) * v)
#define g5i(v) (gsel(v, 0, 15, G5()) * timesI(v))
#define g5t(p, v, q, w) (gsel(v, 0, 15, G5()) * (p * v - q * w))
static void go() {
  cx.key = "kernel";
  KERN(F, F, F, +=, a * chiralProjectPlus(x));
  KERN(F, F, F, +=, chiralProjectPlus(x));
  KERN(F, F, F, -=, a * chiralProjectPlus(x));
  KERN(F, F, F, -=, chiralProjectPlus(x));
  KERN(F, F, F, =, a * chiralProjectPlus(x));
  KERN(F, F, F, =, chiralProjectPlus(x));
  KERN(F, F, F, =, x + a * chiralProjectPlus(y));
  KERN(F, F, F, =, a * x + chiralProjectPlus(y));
  KERN(F, F, F, =, a * x + b * chiralProjectPlus(y));
  KERN(F, F, F, =, x + chiralProjectPlus(y));
  KERN(F, F, F, =, x - a * chiralProjectPlus(y));
  KERN(F, F, F, =, a * x - chiralProjectPlus(y));
  KERN(F, F, F, =, a * x - b * chiralProjectPlus(y));
  KERN(F, F, F, =, x - chiralProjectPlus(y));
  KERN(F, F, F, +=, a * chiralProjectMinus(x));
  KERN(F, F, F, +=, chiralProjectMinus(x));
  KERN(F, F, F, -=, a * chiralProjectMinus(x));
  KERN(F, F, F, -=, chiralProjectMinus(x));
  KERN(F, F, F, =, a * chiralProjectMinus(x));
  KERN(F, F, F, =, chiralProjectMinus(x));
  KERN(F, F, F, =, x + a * chiralProjectMinus(y));
}
static Part part("chiral1", go);
