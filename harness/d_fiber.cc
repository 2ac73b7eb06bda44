// USES ex qx ref
// C05: the site-local algebra, every operation and combination of element types.
#include "ex.h"
using namespace qx;
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,2,4");
  cx.key = "fiber";
  Pool pool;
  { vh::Rng g(vh::opt.seed); pool.make(g, 4); }
  cx.pool = &pool; cx.subsets = vh::opt.geti("subsets", 0);
  for (int k = 0; k < vh::opt.cases; ++k) {
    cx.g = vh::Rng(vh::mix(vh::opt.seed, k));
    cx.m = (Mode)((k + vh::opt.seed) % 3);
    runParts();
  }
  pool.sets.clear();
  qx::stop();
  return vh::finish();
}
