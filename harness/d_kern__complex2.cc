#include "kern.h"
using namespace qx;
#define F LatticeFermion
static void go() {
  cx.key = "kernel";
  KERN(F, F, F, =, c * x - e_ * y);
  KERN(F, F, F, =, c * x + y * e_);
  KERN(F, F, F, =, c * x - y * e_);
  KERN(F, F, F, =, x * c + y);
  KERN(F, F, F, =, x * c - y);
  KERN(F, F, F, =, y + x * c);
  KERN(F, F, F, =, y - x * c);
  KERN(F, F, F, =, x * c + e_ * y);
  KERN(F, F, F, =, x * c - e_ * y);
  KERN(F, F, F, =, x * c + y * e_);
  KERN(F, F, F, =, x * c - y * e_);
  KERN(F, F, F, /=, e_);
}
static Part part("complex2", go);
