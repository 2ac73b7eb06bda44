// USES ex qx ref
// C06: gamma matrices from either side through every interface, projectors, reconstructors.
#include "gam.h"
using namespace qx;
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,1,2");
  cx.key = "gamma";
  // self-test of the reference: the Clifford algebra
  for (int b = 0; b < 2; ++b) for (int mu = 0; mu < 4; ++mu) for (int nu = 0; nu < 4; ++nu) {
    M4 x = mm(gamma1of4(b, mu), gamma1of4(b, nu)), y = mm(gamma1of4(b, nu), gamma1of4(b, mu));
    for (int i = 0; i < 16; ++i) if (std::abs(x[i] + y[i] - (mu == nu && i % 5 == 0 ? 2.0 : 0.0)) > 0) { fprintf(stderr, "reference gammas broken\n"); return 3; }
  }
  Pool pool;
  { vh::Rng g(vh::mix(vh::opt.seed, 77)); pool.make(g, 6); }
  cx.pool = &pool;
  for (int k = 0; k < vh::opt.cases; ++k) {
    cx.g = vh::Rng(vh::mix(vh::opt.seed, k));
    cx.m = (Mode)((k + vh::opt.seed) % 3);
    runParts();
  }
  pool.sets.clear();
  qx::stop();
  return vh::finish();
}
