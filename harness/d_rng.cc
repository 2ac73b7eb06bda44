// USES ex qx ref
// C09: the lattice random generator against its congruential sequence, in any order of draws.
#include "rng.h"
namespace qx { Rngm model; std::string hist; std::vector<Drawer> drawers; }
using namespace qx;
static u64 anySeed(vh::Rng& g) { switch (g.range(0, 7)) { case 0: return 1; case 1: return M47; case 2: return 1ULL << g.range(0, 46); case 3: return g.range(0, 100); default: return g.next() & M47; } }
static void seedAlgebra(vh::Rng& g) {
  u64 a = anySeed(g), b = anySeed(g); Seed s = mkSeed(a), t = mkSeed(b), p;
  p = s * t; if (seedVal(p) != mul47(a, b)) vh::fail("rng:seed product", "%llx * %llx = %llx, want %llx", a, b, seedVal(p), mul47(a, b));
  p = s * s; if (seedVal(p) != mul47(a, a)) vh::fail("rng:seed product", "%llx squared = %llx, want %llx", a, seedVal(p), mul47(a, a));
  int k = g.range(0, 12); Integer kk = k;
  p = s << kk; if (seedVal(p) != ((a << k) & M47)) vh::fail("rng:seed shift", "%llx << %d = %llx, want %llx", a, k, seedVal(p), (a << k) & M47);
  p = s | t; if (seedVal(p) != (a | b)) vh::fail("rng:seed or", "%llx | %llx = %llx", a, b, seedVal(p));
  int n = (int)(g.next() & 0x7fffffff); Integer nn = n; p = n; if (seedVal(p) != (u64)n) vh::fail("rng:seed from int", "%x gives %llx", n, seedVal(p));
  p = nn; if (seedVal(p) != (u64)n) vh::fail("rng:seed from Integer", "%x gives %llx", n, seedVal(p));
  int m = g.range(0, 4095); Integer mm = m; p = s | mm; if (seedVal(p) != (a | (u64)m)) vh::fail("rng:seed or", "%llx | %x = %llx", a, m, seedVal(p));
  Seed e = mkSeed(a); Boolean r; r = (s == e); if (!toBool(r)) vh::fail("rng:seed compare", "%llx differs from itself", a);
  r = (s == t); if (toBool(r) != (a == b)) vh::fail("rng:seed compare", "%llx == %llx is %d", a, b, (int)toBool(r));
  u64 c = a ^ (1ULL << g.range(0, 46)); Seed f = mkSeed(c); r = (s == f); if (toBool(r)) vh::fail("rng:seed compare", "%llx == %llx", a, c);
  LatticeSeed L; L = s; Seed z; z = peekSite(L, mv(geom.coord(g.range(0, geom.vol - 1)))); if (seedVal(z) != a) vh::fail("rng:seed lattice", "%llx becomes %llx", a, seedVal(z));
  LatticeSeed L2; L2 = L * t; z = peekSite(L2, mv(geom.coord(g.range(0, geom.vol - 1)))); if (seedVal(z) != mul47(a, b)) vh::fail("rng:seed lattice", "%llx * %llx on the lattice is %llx", a, b, seedVal(z));
  vh::count("seed_operations", 12);
}
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,3,2");
  Pool pool; { vh::Rng g(vh::mix(vh::opt.seed, 77)); pool.make(g, 8); } cx.pool = &pool;
  model.init(); runParts();
  vh::begin(0, "default seed, lattice %s", vh::join(geom.L).c_str());
  model.x = 11; hist = "start; "; checkSeed("");
  std::vector<std::pair<u64, Seed>> saved;
  for (int k = 0; k < vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    vh::Rng g(vh::mix(vh::opt.seed, k));
    vh::begin(k, "random draws, history %d, lattice %s", k, vh::join(geom.L).c_str());
    vh::distinct("h" + std::to_string(vh::opt.seed) + "." + std::to_string(k) + vh::join(geom.L));
    if (k < 2) vh::sample("%s", vh::current().c_str());
    u64 f0 = vh::failures();
    // the first history goes on from the default seed
    if (k) { model.x = anySeed(g); RNG::setrn(mkSeed(model.x)); hist = "setrn; "; checkSeed(""); }
    saved.clear();
    for (int i = 0; i < 12 && vh::failures() == f0; ++i) {
      const Drawer& d = drawers[g.range(0, (int)drawers.size() - 1)];
      switch (g.range(0, 7)) {
      case 0: case 1: case 2: d.f(g, d.n); break;
      case 3: d.s(g, d.n); break;
      case 4: d.g(g, d.n); break;
      case 5: { Seed s; RNG::savern(s); saved.push_back({model.x, s}); hist += "savern; "; break; }
      case 6: if (!saved.empty()) { auto& s = saved[g.range(0, (int)saved.size() - 1)]; RNG::setrn(s.second); model.x = s.first; hist += "setrn(saved); "; checkSeed(""); vh::count("restores"); } break;
      default: seedAlgebra(g); checkSeed("");
      }
    }
  }
  pool.sets.clear();
  qx::stop();
  return vh::finish();
}
