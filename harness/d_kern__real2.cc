#include "kern.h"
using namespace qx;
#define F LatticeFermion
static void go() {
  cx.key = "kernel";
  KERN(F, F, F, =, a * x - b * y);
  KERN(F, F, F, =, a * x + y * b);
  KERN(F, F, F, =, a * x - y * b);
  KERN(F, F, F, =, x * a + y);
  KERN(F, F, F, =, x * a - y);
  KERN(F, F, F, =, y + x * a);
  KERN(F, F, F, =, y - x * a);
  KERN(F, F, F, =, x * a + b * y);
  KERN(F, F, F, =, x * a - b * y);
  KERN(F, F, F, =, x * a + y * b);
  KERN(F, F, F, =, x * a - y * b);
  KERN(F, F, F, /=, b);
  KERN(F, F, F, =, x + y);
  KERN(F, F, F, =, x - y);
}
static Part part("real2", go);
