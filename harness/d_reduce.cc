// USES ex qx ref
// C08: sums, norms, inner products, extrema and classification against the reference.
#include "red.h"
namespace qx {
std::vector<RSet> rsets;
const Subset& pickSub(const Sub*& u) { int k = cx.g.range(0, (int)cx.pool->q.size() - 1); u = &cx.pool->r[k]; return *cx.pool->q[k]; }
}
using namespace qx;
struct RandCol : public SetFunc {
  uint64_t seed; int n;
  RandCol(uint64_t s, int m) : seed(s), n(m) {}
  int col(int lex) const { return (int)(vh::mix(seed, lex) % n); }
  int operator()(const multi1d<int>& c) const { return col(geom.lex(sv(c))); }
  int numSubsets() const { return n + 1; } // the last is empty
};
struct Slice : public SetFunc {
  int mu; Slice(int m) : mu(m) {}
  int operator()(const multi1d<int>& c) const { return c[mu]; }
  int numSubsets() const { return geom.L[mu]; }
};
template <class SF> RSet mk(const SF& f, std::vector<std::unique_ptr<Set>>& own, const char* nm) {
  own.push_back(std::unique_ptr<Set>(new Set(f)));
  RSet t; t.s = own.back().get(); t.r.resize(f.numSubsets());
  for (int k = 0; k < (int)t.r.size(); ++k) { t.r[k].in.assign(geom.vol, 0); t.r[k].name = std::string(nm) + " " + std::to_string(k); }
  for (int x = 0; x < geom.vol; ++x) t.r[f(mv(geom.coord(x)))].in[x] = 1;
  return t;
}
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,3,2");
  cx.key = "reduce";
  Pool pool;
  { vh::Rng g(vh::mix(vh::opt.seed, 77)); pool.make(g, 8); }
  cx.pool = &pool;
  std::vector<std::unique_ptr<Set>> own;
  for (int mu = 0; mu < Nd; ++mu) rsets.push_back(mk(Slice(mu), own, "slice"));
  for (int k = 0; k < 4; ++k) rsets.push_back(mk(RandCol(vh::mix(vh::opt.seed, 900 + k), 1 + k * 2), own, "random"));
  for (int k = 0; k < vh::opt.cases; ++k) {
    cx.g = vh::Rng(vh::mix(vh::opt.seed, k));
    cx.m = (Mode)((k + vh::opt.seed) % 3);
    runParts();
  }
  rsets.clear(); own.clear(); pool.sets.clear();
  qx::stop();
  return vh::finish();
}
