// USES ex qx ref
// C12: fields in binary files: lexicographic order, big-endian words, whatever the layout.
#include "fio.h"
namespace qx { std::vector<FTest> ftests; }
using namespace qx;
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,3,2"); runParts();
  int n = ftests.size();
  for (int k = 0; k < vh::opt.cases * n; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    vh::Rng g(vh::mix(vh::opt.seed, k)); FTest& t = ftests[k % n];
    vh::begin(k, "%s to and from binary files, lattice %s, round %d", t.name, vh::join(geom.L).c_str(), k / n);
    vh::distinct(std::string(t.name) + vh::join(geom.L) + "." + std::to_string(k / n)); if (k < 3) vh::sample("%s", vh::current().c_str());
    t.f(g, t.name);
    if (vh::failures() > 20) break;
  }
  qx::stop();
  return vh::finish();
}
