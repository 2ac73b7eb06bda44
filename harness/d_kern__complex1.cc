#include "kern.h"
using namespace qx;
#define F LatticeFermion
static void go() {
  cx.key = "kernel";
  KERN(F, F, F, =, c * x);
  KERN(F, F, F, =, x * c);
  KERN(F, F, F, +=, c * x);
  KERN(F, F, F, +=, x * c);
  KERN(F, F, F, -=, c * x);
  KERN(F, F, F, -=, x * c);
  KERN(F, F, F, *=, c);
  KERN(F, F, F, =, c * x + y);
  KERN(F, F, F, =, c * x - y);
  KERN(F, F, F, =, y + c * x);
  KERN(F, F, F, =, y - c * x);
  KERN(F, F, F, =, c * x + e_ * y);
}
static Part part("complex1", go);
