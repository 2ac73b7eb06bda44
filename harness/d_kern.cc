// USES ex qx ref
// C07: kernels chosen by expression type against the reference, with aliasing and subsets of all kinds.
#include "kern.h"
using namespace qx;
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,3,2");
  cx.key = "kernel";
  Pool pool;
  { vh::Rng g(vh::mix(vh::opt.seed, 77)); pool.make(g, 8); }
  cx.pool = &pool;
  for (int k = 0; k < vh::opt.cases; ++k) {
    cx.g = vh::Rng(vh::mix(vh::opt.seed, k));
    cx.m = (Mode)((k + vh::opt.seed) % 3);
    runParts();
  }
  pool.sets.clear();
  qx::stop();
  return vh::finish();
}
