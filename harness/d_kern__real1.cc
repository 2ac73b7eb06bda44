#include "kern.h"
using namespace qx;
#define F LatticeFermion
static void go() {
  cx.key = "kernel";
  KERN(F, F, F, =, a * x);
  KERN(F, F, F, =, x * a);
  KERN(F, F, F, +=, a * x);
  KERN(F, F, F, +=, x * a);
  KERN(F, F, F, -=, a * x);
  KERN(F, F, F, -=, x * a);
  KERN(F, F, F, +=, x);
  KERN(F, F, F, -=, x);
  KERN(F, F, F, =, x);
  KERN(F, F, F, *=, a);
  KERN(F, F, F, =, a * x + y);
  KERN(F, F, F, =, a * x - y);
  KERN(F, F, F, =, y + a * x);
  KERN(F, F, F, =, y - a * x);
  KERN(F, F, F, =, a * x + b * y);
}
static Part part("real1", go);
