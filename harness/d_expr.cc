// USES ex qx ref
// C04: statements: assignment forms, subsets, aliasing, masks, site access.
// The generated translation units (tools/genexpr.py) add random expressions.
#include "ex.h"
using namespace qx;
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,2,4");
  cx.key = "statement";
  Pool pool;
  { vh::Rng g(vh::mix(vh::opt.seed, 77)); pool.make(g, 6); }
  cx.pool = &pool;
  for (int k = 0; k < vh::opt.cases; ++k) {
    cx.g = vh::Rng(vh::mix(vh::opt.seed, k));
    cx.m = (Mode)((k + vh::opt.seed) % 3);
    runParts();
  }
  pool.sets.clear();
  qx::stop();
  return vh::finish();
}
