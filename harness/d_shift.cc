// USES qx ref
// C03: maps and shifts move every site's value from where the map function says.
#include "qx.h"
#include <memory>
using namespace qx;

struct RndMap : public MapFunc { // arbitrary (also many-to-one) maps
  int kind; uint64_t seed; std::vector<int> off; std::vector<int> perm, inv;
  RndMap(int k, uint64_t s) : kind(k), seed(s) {
    vh::Rng g(s); for (int i = 0; i < Nd; ++i) off.push_back(g.range(-7, 7));
    perm.resize(geom.vol); inv.resize(geom.vol);
    for (int i = 0; i < geom.vol; ++i) perm[i] = i;
    for (int i = geom.vol - 1; i > 0; --i) std::swap(perm[i], perm[g.range(0, i)]);
    for (int i = 0; i < geom.vol; ++i) inv[perm[i]] = i;
  }
  int f(int x, int sign) const { // source site of destination x
    std::vector<int> c = geom.coord(x); int s = sign > 0 ? 1 : -1;
    switch (kind) {
    case 0: for (int i = 0; i < Nd; ++i) c[i] += s * off[i]; return geom.lex(c);      // displacement
    case 1: return s > 0 ? perm[x] : inv[x];                                          // permutation
    case 2: return (int)(vh::mix(seed + s, x) % geom.vol);                            // many to one
    case 3: for (int i = 0; i < Nd; ++i) c[i] = geom.L[i] - 1 - c[i]; return geom.lex(c); // reflection
    default: for (int i = 0; i < Nd; ++i) c[i] = 0; return geom.lex(c);               // broadcast of the origin
    }
  }
  multi1d<int> operator()(const multi1d<int>& c, int sign) const { return mv(geom.coord(f(geom.lex(sv(c)), sign))); }
};
struct RndArr : public ArrayMapFunc {
  std::vector<RndMap> m;
  multi1d<int> operator()(const multi1d<int>& c, int sign, int dir) const { return m[dir](c, sign); }
  int numArray() const { return (int)m.size(); }
};
static R c_ref(const R& a, const R& b, int par) { R o = a; o[evenodd(par)] = b; return o; }
static const char* KN[] = {"displacement", "permutation", "many-to-one", "reflection", "origin"};

template <class F, class G> static void both(const char* key, const char* what, F&& mapq, G&& src, vh::Rng& g, Mode m) {
  { LatticeFermion a, b; R ra; fill(a, ra, g, m); b = mapq(a); eq(key, b, shiftR(ra, src), what); }
  { LatticeColorMatrix a, b, c; R ra, rb; fill(a, ra, g, m); fill(b, rb, g, m);
    c = mapq(a * adj(b)); eq(key, c, shiftR(ra * adj(rb), src), what);                     // of an expression
    c = b * mapq(a); eq(key, c, rb * shiftR(ra, src), what);                               // inside an expression
    c[even] = mapq(b); R e = c_ref(rb * shiftR(ra, src), shiftR(rb, src), 0); eq(key, c, e, what); // only the even destinations
  }
  { LatticeInteger a, b; R ra; fill(a, ra, g, m); b = mapq(a); eq(key, b, shiftR(ra, src), what); }
  { LatticeRealD a, b; R ra; fill(a, ra, g, m); b = mapq(a) - mapq(mapq(a)); eq(key, b, shiftR(ra, src) - shiftR(shiftR(ra, src), src), what); }
  { LatticeBoolean a, b; R ra; fill(a, ra, g, m); b = mapq(a); eq(key, b, shiftR(ra, src), what); }
  vh::count("maps_applied", 7);
}

int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("4,4,2,4");
  for (int k = 0; k < vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    vh::Rng g(vh::mix(vh::opt.seed, k));
    Mode m = (Mode)g.range(0, 2);
    int what = k % 5;
    if (what == 0) { // nearest neighbours, all directions
      vh::begin(k, "shift, lattice %s", vh::join(geom.L).c_str());
      vh::distinct(vh::current() + std::to_string(m));
      for (int mu = 0; mu < Nd; ++mu) for (int s : {FORWARD, BACKWARD}) {
        auto src = [&](int x) { auto c = geom.coord(x); c[mu] += s; return geom.lex(c); };
        both("shift", ("shift sign " + std::to_string(s) + " dir " + std::to_string(mu)).c_str(), [&](const auto& x) { return QDP::shift(x, s, mu); }, src, g, m);
        LatticeColorMatrix a, b, c; R ra; fill(a, ra, g, m);
        b = QDP::shift(QDP::shift(a, s, mu), -s, mu); eq("shift-inverse", b, ra, "there and back");
        int nu = g.range(0, Nd - 1);
        b = QDP::shift(QDP::shift(a, s, mu), FORWARD, nu); c = QDP::shift(QDP::shift(a, FORWARD, nu), s, mu);
        eq("shift-commute", b, take(c), "order of two shifts");
        b = a; for (int t = 0; t < geom.L[mu]; ++t) { c = QDP::shift(b, s, mu); b = c; } eq("shift-period", b, ra, "once round the lattice");
        // on one checkerboard only the other is read
        if (geom.L[mu] % 2 == 0) { b = a; b[rb[0]] = QDP::shift(b, s, mu); R rbv = ra; rbv[evenodd(0)] = shf(ra, s, mu); eq("shift-inplace", b, rbv, "in place on a checkerboard"); }
        // shifting a constant field is the identity
        LatticeComplex z0, z; z0 = cmplx(Real(2), Real(3)); z = QDP::shift(z0, s, mu); eq("shift-const", z, cmplx(R(2), R(3)), "constant field");
      }
    } else {
      uint64_t sd = g.next(); int kind = g.range(0, 4);
      vh::begin(k, "%s map %s, lattice %s", what == 1 ? "single" : what == 2 ? "array" : what == 3 ? "bidirectional" : "array bidirectional", KN[kind], vh::join(geom.L).c_str());
      vh::distinct(vh::current() + std::to_string(sd));
      RndMap f(kind, sd);
      RndArr arr; int n = g.range(1, 5); for (int i = 0; i < n; ++i) arr.m.push_back(RndMap(g.range(0, 4), g.next()));
      if (what == 1) {
        std::unique_ptr<Map> mp(g.coin() ? new Map(f) : new Map);
        mp->make(f);
        if (g.coin()) { mp->make(RndMap(g.range(0, 4), 3)); mp->make(f); } // remade
        both("map", vh::current().c_str(), [&](const auto& x) { return (*mp)(x); }, [&](int x) { return f.f(x, +1); }, g, m);
      } else if (what == 2) {
        ArrayMap am; am.make(arr);
        for (int d = 0; d < n; ++d) both("arraymap", vh::current().c_str(), [&](const auto& x) { return am(x, d); }, [&](int x) { return arr.m[d].f(x, +1); }, g, m);
      } else if (what == 3) {
        BiDirectionalMap bm(f);
        for (int s : {-1, 1}) both("bimap", vh::current().c_str(), [&](const auto& x) { return bm(x, s); }, [&](int x) { return f.f(x, s); }, g, m);
        if (kind == 0 || kind == 1 || kind == 3) { LatticeFermion a, b; R ra; fill(a, ra, g, m); b = bm(bm(a, 1), -1); eq("bimap-inverse", b, ra, "map and inverse"); }
      } else {
        ArrayBiDirectionalMap ab; ab.make(arr);
        for (int d = 0; d < n; ++d) for (int s : {-1, 1}) both("arraybimap", vh::current().c_str(), [&](const auto& x) { return ab(x, s, d); }, [&](int x) { return arr.m[d].f(x, s); }, g, m);
      }
      vh::count("maps_made");
    }
    vh::sample("%s", vh::current().c_str());
  }
  qx::stop();
  return vh::finish();
}
