#include "red.h"
#include <limits>
using namespace qx;
// extrema: exact, whatever site they are at
template <class A> void extrema(const char* name) {
  if (!startEx(std::string("extrema ") + name, cx.m)) return;
  typedef typename UnaryReturn<A, FnGlobalMax>::Type_t M;
  for (int t = 0; t < 8; ++t) {
    A a; R ra; fill(a, ra, cx.g, cx.m);
    int x = t == 0 ? 0 : t == 1 ? geom.vol - 1 : cx.g.range(0, geom.vol - 1), y = cx.g.range(0, geom.vol - 1);
    if (t < 6) { // a single site holds the extremum, all of one sign otherwise
      bool up = t & 1;
      double off = t < 2 ? 0 : t < 4 ? 600 : -600;
      for (int i = 0; i < geom.vol; ++i) ra.d[i] = std::floor(ra.d[i].real()) + off;
      ra.d[x] = off + (up ? 1000 : -1000); ra.d[y] = off + (up ? 999 : -999);
      if (x == y) ra.d[x] = off + (up ? 1000 : -1000);
      putAny(a, ra);
    }
    if (t == 6) { for (int i = 0; i < geom.vol; ++i) ra.d[i] = ra.d[0]; putAny(a, ra); }
    R mx(ra.s, ra.c, 1), mn(ra.s, ra.c, 1); double hi = ra.d[0].real(), lo = hi;
    for (int i = 0; i < geom.vol; ++i) { hi = std::max(hi, ra.d[i].real()); lo = std::min(lo, ra.d[i].real()); }
    mx.d[0] = hi; mn.d[0] = lo; // magnitude 0: exact
    M p = globalMax(a), q = globalMin(a);
    cmpS("globalMax", p, mx, std::string(name) + ": globalMax", 0); cmpS("globalMin", q, mn, std::string(name) + ": globalMin", 0);
    mx.d[0] = -lo; mn.d[0] = -hi;
    M p2 = globalMax(-a), q2 = globalMin(-a);
    cmpS("globalMax", p2, mx, std::string(name) + ": globalMax(-a)", 0); cmpS("globalMin", q2, mn, std::string(name) + ": globalMin(-a)", 0);
    SOf<A> c; R rc; fill(c, rc, cx.g, cx.m); rc.m[0] = 0;
    M p3 = globalMax(c), q3 = globalMin(c);
    cmpS("globalMax", p3, rc, std::string(name) + ": globalMax of a constant", 0); cmpS("globalMin", q3, rc, std::string(name) + ": globalMin of a constant", 0);
    vh::count("extrema", 6);
  }
}
// isnan & co: one odd value anywhere decides
template <class A> void classify(const char* name) {
  if (!startEx(std::string("classify ") + name, cx.m)) return;
  Shape s = shape<typename ElemOf<A>::type>();
  bool single = s.eps > 1e-10;
  double odd[] = {0.5, NAN, INFINITY, -INFINITY, 0.0, single ? 1e-40 : 1e-310};
  for (int t = 0; t < 12; ++t) {
    A a; std::vector<double> w(s.words);
    int site = cx.g.range(0, geom.vol - 1), k = cx.g.range(0, s.words - 1); double v = odd[t % 6];
    if (t >= 6) site = (t & 1) ? geom.vol - 1 : 0;
    if (single) v = (float)v;
    for (int i = 0; i < geom.vol; ++i) { for (double& z : w) z = (cx.g.coin() ? 1 : -1) * (1 + cx.g.range(0, 8)); if (i == site) w[k] = v; setv(a, lex2lin[i], w.data()); }
    SOf<A> c; w = getv(a, lex2lin[site]); setv(c, w.data());
    bool tiny = t % 6 >= 4;
    struct { const char* n; bool got, want; } z[] = {
      {"isnan", isnan(a), std::isnan(v)}, {"isinf", isinf(a), std::isinf(v)}, {"isfinite", isfinite(a), std::isfinite(v)}, {"isnormal", isnormal(a), std::isfinite(v) && !tiny},
      {"isnan scalar", isnan(c), std::isnan(v)}, {"isinf scalar", isinf(c), std::isinf(v)}, {"isfinite scalar", isfinite(c), std::isfinite(v)}, {"isnormal scalar", isnormal(c), std::isfinite(v) && !tiny},
      {"isnan expression", isnan(-a), std::isnan(v)}, {"isinf expression", isinf(-a), std::isinf(v)}, {"isfinite expression", isfinite(-a), std::isfinite(v)}, {"isnormal expression", isnormal(-a), std::isfinite(v) && !tiny}};
    for (auto& q : z) { vh::count("classifications"); if (q.got != q.want) vh::fail((std::string("reduce:") + q.n).c_str(), "%s: %s is %d with the value %g at component %d of site %d", name, q.n, q.got, v, k, site); }
  }
}
// contractions over all sites of products, and the partition identity is covered by set sums; sums of expressions
#define SUMX(D, A, B, e) if (startEx("sum(" #e ") [a:" #A " b:" #B "]", cx.m)) { auto f = [](const auto& a, const auto& b) { return e; }; A a; B b; R ra, rb; fill(a, ra, cx.g, cx.m); fill(b, rb, cx.g, cx.m); auto q = f(a, b); sums<D>(#e, q, f(ra, rb), emax({epsOf<A>(), epsOf<B>()})); }
static void go() {
  extrema<LatticeReal>("LatticeReal"); extrema<LatticeRealD>("LatticeRealD"); extrema<LatticeRealF>("LatticeRealF"); extrema<LatticeInteger>("LatticeInteger");
#define C(A) classify<A>(#A);
  C(LatticeReal) C(LatticeRealD) C(LatticeComplex) C(LatticeColorMatrix) C(LatticeFermion) C(LatticePropagator) C(LatticeSpinMatrix) C(LatticeColorVector) C(LatticeSpinVector) C(LatticeHalfFermion)
  SUMX(Double, LatticeReal, LatticeReal, a * b + a)
  SUMX(DComplex, LatticeComplex, LatticeReal, a * b)
  SUMX(DComplex, LatticeColorMatrix, LatticeColorMatrix, trace(adj(a) * b))
  SUMX(Double, LatticeColorMatrix, LatticeColorMatrix, real(trace(a * b)))
  SUMX(DComplex, LatticePropagator, LatticePropagator, trace(adj(a) * b))
  typedef UnaryReturn<LatticeColorMatrix, FnSum>::Type_t CMD; typedef UnaryReturn<LatticeSpinMatrix, FnSum>::Type_t SMD;
  SUMX(CMD, LatticeColorMatrix, LatticeColorMatrix, a * adj(b))
  SUMX(SMD, LatticePropagator, LatticePropagator, traceColor(a * adj(b)))
  SUMX(DComplex, LatticeFermion, LatticeFermion, localInnerProduct(a, b))
  SUMX(Double, LatticeReal, LatticeComplex, where(a > real(b), a, real(b)))
  SUMX(DComplex, LatticeComplex, LatticeComplex, a * shf(b, 1, 1))
}
static Part part("max", go);
