// USES qx ref
// C01: the layout is a bijection between coordinates and (node, linear index).
#include "qx.h"
#include "qdp_util.h"
#include <sys/wait.h>
#include <set>
using namespace qx;

static void checkAll(int k) {
  const multi1d<int>& L = Layout::lattSize();
  std::vector<int> l = sv(L);
  vh::begin(k, "lattice %s on %d nodes", vh::join(l).c_str(), Layout::numNodes());
  vh::distinct("latt " + vh::join(l));
  int vol = 1; for (int x : l) vol *= x;
  if (Layout::vol() != vol) vh::fail("volume", "vol()=%d, sizes %s", Layout::vol(), vh::join(l).c_str());
  if (l != vh::opt.latt) vh::fail("lattsize", "lattSize()=%s", vh::join(l).c_str());
  std::vector<int> sg = sv(Layout::subgridLattSize()), lg = sv(Layout::logicalSize());
  int sgv = 1, lgv = 1;
  for (int i = 0; i < Nd; ++i) { if (sg[i] * lg[i] != l[i]) vh::fail("subgrid", "subgrid %s x machine %s is not the lattice", vh::join(sg).c_str(), vh::join(lg).c_str()); sgv *= sg[i]; lgv *= lg[i]; }
  if (sgv != Layout::sitesOnNode()) vh::fail("subgrid", "sitesOnNode %d", Layout::sitesOnNode());
  if (lgv != Layout::numNodes()) vh::fail("subgrid", "numNodes %d", Layout::numNodes());
  if ((Layout::nodeNumber() == 0) != Layout::primaryNode()) vh::fail("primary", "primaryNode on node %d", Layout::nodeNumber());
  std::vector<int> seen(vol, 0);
  for (int n = 0; n < Layout::numNodes(); ++n) {
    multi1d<int> lc = Layout::getLogicalCoordFrom(n);
    if (Layout::getNodeNumberFrom(lc) != n) vh::fail("node-coord", "getNodeNumberFrom(getLogicalCoordFrom(%d))=%d", n, Layout::getNodeNumberFrom(lc));
    if (n == Layout::nodeNumber() && sv(Layout::nodeCoord()) != sv(lc)) vh::fail("node-coord", "nodeCoord()");
    for (int i = 0; i < Layout::sitesOnNode(); ++i) {
      multi1d<int> c = Layout::siteCoords(n, i);
      bool in = c.size() == Nd;
      for (int m = 0; in && m < Nd; ++m) in = c[m] >= 0 && c[m] < l[m];
      if (!in) { vh::fail("range", "siteCoords(%d,%d) is out of the lattice: %s", n, i, vh::join(sv(c)).c_str()); continue; }
      vh::count("sites");
      ++seen[geom.lex(sv(c))];
      if (Layout::nodeNumber(c) != n) vh::fail("inverse-node", "nodeNumber(siteCoords(%d,%d))=%d", n, i, Layout::nodeNumber(c));
      if (Layout::linearSiteIndex(c) != i) vh::fail("inverse", "linearSiteIndex(siteCoords(%d,%d))=%d", n, i, Layout::linearSiteIndex(c));
      if (sv(Layout::nodeCoord(c)) != sv(lc)) vh::fail("node-coord", "nodeCoord(%s)", vh::join(sv(c)).c_str());
      int cc[Nd], cd2[Nd]; Layout::QDPXX_getSiteCoords(cc, n, i);
      for (int m = 0; m < Nd; ++m) { cd2[m] = c[m]; if (cc[m] != c[m]) vh::fail("c-wrapper", "QDPXX_getSiteCoords(%d,%d)", n, i); }
      if (Layout::QDPXX_getLinearSiteIndex(cd2) != i) vh::fail("c-wrapper", "QDPXX_getLinearSiteIndex");
      if (Layout::QDPXX_nodeNumber(cd2) != n) vh::fail("c-wrapper", "QDPXX_nodeNumber");
    }
  }
  for (int x = 0; x < vol; ++x) if (seen[x] != 1) { vh::fail("bijection", "coordinate %s is reported by %d (node,index) pairs", vh::join(geom.coord(x)).c_str(), seen[x]); break; }
  // lexicographic decomposition: crtesn and local_site are inverse bijections over any box
  vh::Rng g(vh::mix(vh::opt.seed, k));
  for (int t = 0; t < 6; ++t) {
    int nd = t == 0 ? Nd : g.range(2, 5);
    multi1d<int> box(nd); int v = 1;
    for (int i = 0; i < nd; ++i) { box[i] = t == 0 ? l[i] : g.range(1, 5); v *= box[i]; }
    std::set<std::vector<int>> all;
    for (int p = 0; p < v; ++p) {
      multi1d<int> c = crtesn(p, box);
      for (int i = 0; i < nd; ++i) if (c[i] < 0 || c[i] >= box[i]) vh::fail("crtesn", "crtesn(%d) in box %s out of range", p, vh::join(sv(box)).c_str());
      all.insert(sv(c));
      if (local_site(c, box) != p) vh::fail("crtesn", "local_site(crtesn(%d))=%d in box %s", p, local_site(c, box), vh::join(sv(box)).c_str());
      vh::count("box_sites");
    }
    if ((int)all.size() != v) vh::fail("crtesn", "crtesn is not injective in box %s", vh::join(sv(box)).c_str());
    vh::distinct("box " + vh::join(sv(box)));
  }
  // the single-argument form takes the global lexicographic index
  for (int x = 0; x < vol; ++x) {
    multi1d<int> c = crtesn(x, L);
    if (Layout::linearSiteIndex(x) != Layout::linearSiteIndex(c)) vh::fail("lexico", "linearSiteIndex(lexicographic %d)=%d, by coordinate %d", x, Layout::linearSiteIndex(x), Layout::linearSiteIndex(c));
    if (sv(c) != geom.coord(x)) vh::fail("lexico", "lexicographic site %d is %s", x, vh::join(sv(c)).c_str());
  }
  for (int i = 0; i < Layout::sitesOnNode(); ++i) { // local lexicographic coordinate: x fastest in the subgrid
    multi1d<int> c = Layout::localLexiCoordFromLinear(i); int r = i;
    for (int m = 0; m < Nd; ++m) { if (c[m] != r % sg[m]) vh::fail("local-lexi", "localLexiCoordFromLinear(%d)=%s", i, vh::join(sv(c)).c_str()); r /= sg[m]; }
  }
  for (int mu = 0; mu < Nd; ++mu) {
    LatticeInteger c = Layout::latticeCoordinate(mu);
    for (int i = 0; i < Layout::sitesOnNode(); ++i)
      if ((int)getv(c, i)[0] != Layout::siteCoords(Layout::nodeNumber(), i)[mu]) { vh::fail("latticecoordinate", "latticeCoordinate(%d) at %d", mu, i); break; }
    vh::count("coordinate_fields");
  }
  // the coordinate field, reached by peeking a site
  for (int t = 0; t < 20; ++t) {
    std::vector<int> x(Nd); for (int i = 0; i < Nd; ++i) x[i] = g.range(0, l[i] - 1);
    int mu = g.range(0, Nd - 1);
    LatticeInteger c = Layout::latticeCoordinate(mu);
    Integer v = peekSite(c, mv(x));
    if (toInt(v) != x[mu]) vh::fail("latticecoordinate", "peekSite(latticeCoordinate(%d),%s)=%d", mu, vh::join(x).c_str(), toInt(v));
  }
  vh::sample("lattice %s: %d sites mapped both ways, %d boxes", vh::join(l).c_str(), vol, 6);
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  if (vh::opt.geti("odd", 0)) { // hostile sizes: refused, or right
    vh::Rng g(vh::opt.seed);
    for (int k = 0; k < vh::opt.cases; ++k) {
      std::vector<int> l(4); for (int& x : l) x = g.range(1, 5);
      vh::begin(k, "possibly unsupported lattice %s", vh::join(l).c_str());
      uint64_t before = vh::failures();
      int st = vh::in_child([&] {
        vh::opt.latt = l;
        std::string o = vh::opt.out; vh::opt.out = "/dev/null"; vh::reopen("");
        qx::start("4,4,4,4"); checkAll(k); _exit(vh::failures() > before ? 9 : 0);
      });
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { vh::count("accepted"); vh::distinct("acc " + vh::join(l)); }
      else if (WIFEXITED(st) && WEXITSTATUS(st) == 9) vh::fail("accepted-but-wrong", "lattice %s is accepted, and the layout is not a bijection", vh::join(l).c_str());
      else if (WIFEXITED(st) && WEXITSTATUS(st) != 77 /* a division by a halved extent of 0 also ends the program */) { vh::count("refused"); vh::distinct("ref " + vh::join(l)); }
      else vh::fail("unsupported-crash", "lattice %s: status %x", vh::join(l).c_str(), st);
    }
    return vh::finish();
  }
  qx::start("4,4,4,4");
  checkAll(0);
  qx::stop();
  return vh::finish();
}
