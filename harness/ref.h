// Reference model: an eager, double precision lattice of (spin x colour) tensors,
// indexed by lexicographic site. Knows nothing of QDP++'s layouts, expression
// templates or kernels. Carries a bound of the magnitude of all intermediates,
// which makes the comparison tolerance a running error bound rather than a guess.
#ifndef REF_H
#define REF_H
#include <complex>
#include <vector>
#include <array>
#include <cmath>
#include <cassert>
#include <functional>
#include "vh.h"

namespace qx {
typedef std::complex<double> cd;

struct Geom {
  std::vector<int> L;
  int vol = 0;
  void set(const std::vector<int>& l) { L = l; vol = 1; for (int x : l) vol *= x; }
  std::vector<int> coord(int lex) const { std::vector<int> c(L.size()); for (size_t i = 0; i < L.size(); ++i) { c[i] = lex % L[i]; lex /= L[i]; } return c; }
  int lex(const std::vector<int>& c) const { int r = 0; for (int i = (int)L.size() - 1; i >= 0; --i) { int x = ((c[i] % L[i]) + L[i]) % L[i]; r = r * L[i] + x; } return r; }
};
extern Geom geom;

// shape of one level: kind 0 scalar, 1 vector, 2 matrix
struct Lev { int k = 0, n = 1; int dim() const { return k == 0 ? 1 : k == 1 ? n : n * n; } bool operator==(const Lev& o) const { return k == o.k && (k == 0 || n == o.n); } };

struct Sub { std::vector<char> in; std::string name; };  // by lexicographic site

struct R {
  Lev s, c;               // spin, colour
  int ns = 0;             // sites (1: no site index)
  bool exact = true;      // only integers so far: floating point is exact while small
  std::vector<cd> d;
  std::vector<double> m;  // magnitude bound
  R() {}
  R(Lev s_, Lev c_, int n_) : s(s_), c(c_), ns(n_), d((size_t)n_ * s_.dim() * c_.dim()), m(d.size()) {}
  R(double x) : ns(1), exact(x == std::floor(x)), d(1, cd(x)), m(1, std::fabs(x)) {}
  R(const R&) = default;
  R& operator=(const R& o) { // broadcast assignment
    if (this == &o) return *this;
    if (ns > 1 && o.ns == 1) { // keep the site index
      R t(o.s, o.c, ns); t.exact = o.exact;
      for (int i = 0; i < ns; ++i) for (int k = 0; k < o.nc(); ++k) { t.d[(size_t)i * o.nc() + k] = o.d[k]; t.m[(size_t)i * o.nc() + k] = o.m[k]; }
      return assignv(t);
    }
    if (ns == 0) { s = o.s; c = o.c; ns = o.ns; d = o.d; m = o.m; exact = o.exact; return *this; }
    return assignv(o);
  }
  // assignment into an existing shape: matrices accept scalars (times the unit matrix)
  R& assignv(const R& o);
  int nc() const { return s.dim() * c.dim(); }
  size_t ix(int site, int a, int b) const { return ((size_t)(ns == 1 ? 0 : site) * s.dim() + a) * c.dim() + b; }
  struct Proxy {
    R& r; const Sub& u;
    template <class F> void go(const R& o, F f) { R t = f(r, o); R w = r; w = t; for (int i = 0; i < r.ns; ++i) if (u.in[i]) for (int k = 0; k < r.nc(); ++k) { size_t x = (size_t)i * r.nc() + k; r.d[x] = w.d[x]; r.m[x] = w.m[x]; } r.exact = r.exact && w.exact; }
    void operator=(const R& o);
    void operator=(const Proxy& o) = delete;
    void operator+=(const R& o);
    void operator-=(const R& o);
    void operator*=(const R& o);
    void operator/=(const R& o);
    void operator%=(const R& o);
    void operator|=(const R& o);
    void operator&=(const R& o);
    void operator^=(const R& o);
    void operator<<=(const R& o);
    void operator>>=(const R& o);
  };
  Proxy operator[](const Sub& u) { return Proxy{*this, u}; }
  R& operator+=(const R& o); R& operator-=(const R& o); R& operator*=(const R& o); R& operator/=(const R& o);
  R& operator%=(const R& o); R& operator|=(const R& o); R& operator&=(const R& o); R& operator^=(const R& o);
  R& operator<<=(const R& o); R& operator>>=(const R& o);
};

inline int nsites(const R& a, const R& b) { return a.ns > b.ns ? a.ns : b.ns; }

struct Tri { int a, b, o; };
// level-wise bilinear maps
Lev lmul(Lev a, Lev b, std::vector<Tri>& t);
Lev louter(Lev a, Lev b, std::vector<Tri>& t);     // vec x vec -> mat (o=i*n+j)
Lev linner(Lev a, Lev b, std::vector<Tri>& t);     // full contraction adj(a) b
Lev ladjmul(Lev a, Lev b, std::vector<Tri>& t);    // adj(a)*b for matrices (row index contracted)
typedef Lev (*LevOp)(Lev, Lev, std::vector<Tri>&);
R bilin(const R& a, const R& b, LevOp sop, LevOp cop, bool conja = false, bool conjb = false);
R addsub(const R& a, const R& b, double sg);
R mapc(const R& a, const std::function<cd(cd)>& f, bool exact = true, double amp = 1);     // per component, |f(x)|<=amp*|x|
R mapr(const R& a, const std::function<double(double)>& f, bool exact);                    // real functions
R map2(const R& a, const R& b, const std::function<double(double, double)>& f, bool exact);

inline R operator*(const R& a, const R& b) { return bilin(a, b, lmul, lmul); }
inline R operator+(const R& a, const R& b) { return addsub(a, b, 1); }
inline R operator-(const R& a, const R& b) { return addsub(a, b, -1); }
inline R operator-(const R& a) { return mapc(a, [](cd x) { return -x; }); }
inline R operator+(const R& a) { return a; }
inline R operator*(double x, const R& b) { return R(x) * b; }
inline R operator*(const R& b, double x) { return b * R(x); }
R operator/(const R& a, const R& b);  // divisor: scalar in spin and colour
inline R& R::operator+=(const R& o) { return *this = *this + o; }
inline R& R::operator-=(const R& o) { return *this = *this - o; }
inline R& R::operator*=(const R& o) { return *this = *this * o; }
inline R& R::operator/=(const R& o) { return *this = *this / o; }

R operator%(const R& a, const R& b); R operator|(const R& a, const R& b); R operator&(const R& a, const R& b);
R operator^(const R& a, const R& b); R operator<<(const R& a, const R& b); R operator>>(const R& a, const R& b);
R operator~(const R& a); R operator!(const R& a); R operator&&(const R& a, const R& b); R operator||(const R& a, const R& b);
R operator<(const R& a, const R& b); R operator<=(const R& a, const R& b); R operator>(const R& a, const R& b);
R operator>=(const R& a, const R& b); R operator==(const R& a, const R& b); R operator!=(const R& a, const R& b);
inline R& R::operator%=(const R& o) { return *this = *this % o; }
inline R& R::operator|=(const R& o) { return *this = *this | o; }
inline R& R::operator&=(const R& o) { return *this = *this & o; }
inline R& R::operator^=(const R& o) { return *this = *this ^ o; }
inline R& R::operator<<=(const R& o) { return *this = *this << o; }
inline R& R::operator>>=(const R& o) { return *this = *this >> o; }

R transposeL(const R& a, bool sp, bool co, bool cj);
inline R adj(const R& a) { return transposeL(a, true, true, true); }
inline R transpose(const R& a) { return transposeL(a, true, true, false); }
inline R transposeSpin(const R& a) { return transposeL(a, true, false, false); }
inline R transposeColor(const R& a) { return transposeL(a, false, true, false); }
inline R conj(const R& a) { return mapc(a, [](cd x) { return std::conj(x); }); }
inline R timesI(const R& a) { return mapc(a, [](cd x) { return cd(-x.imag(), x.real()); }); }
inline R timesMinusI(const R& a) { return mapc(a, [](cd x) { return cd(x.imag(), -x.real()); }); }
inline R real(const R& a) { return mapc(a, [](cd x) { return cd(x.real()); }); }
inline R imag(const R& a) { return mapc(a, [](cd x) { return cd(x.imag()); }); }
R traceL(const R& a, bool sp, bool co);
inline R trace(const R& a) { return traceL(a, true, true); }
inline R traceSpin(const R& a) { return traceL(a, true, false); }
inline R traceColor(const R& a) { return traceL(a, false, true); }
inline R realTrace(const R& a) { return real(trace(a)); }
inline R imagTrace(const R& a) { return imag(trace(a)); }
inline R cmplx(const R& a, const R& b) { return real(a) + timesI(real(b)); }
inline R localInnerProduct(const R& a, const R& b) { return bilin(a, b, linner, linner, true); }
inline R localInnerProductReal(const R& a, const R& b) { return real(localInnerProduct(a, b)); }
inline R localNorm2(const R& a) { return real(localInnerProduct(a, a)); }
inline R localColorInnerProduct(const R& a, const R& b) { return bilin(a, b, ladjmul, linner, true); }
inline R outerProduct(const R& a, const R& b) { return bilin(a, b, louter, louter, false, true); }
R where(const R& mask, const R& a, const R& b);
R peekSpin(const R& a, int i); R peekSpin(const R& a, int i, int j);
R peekColor(const R& a, int i); R peekColor(const R& a, int i, int j);
void pokeL(R& dst, const R& v, int level, int comp);
R pokeSpin(R& l, const R& v, int i); R pokeSpin(R& l, const R& v, int i, int j);
R pokeColor(R& l, const R& v, int i); R pokeColor(R& l, const R& v, int i, int j);
R spinmatL(const std::vector<cd>& g, int n, const R& a);  // g*a in spin space (n x n)
R spinmatR(const R& a, const std::vector<cd>& g, int n);
R spinrect(const std::vector<cd>& p, int rows, int cols, const R& a); // rectangular on the spin index (row index)
R quarkContract(const R& a, const R& b, int w1, int w2); // 13,14,23,24,12,34
inline R quarkContract13(const R& a, const R& b) { return quarkContract(a, b, 1, 3); }
inline R quarkContract14(const R& a, const R& b) { return quarkContract(a, b, 1, 4); }
inline R quarkContract23(const R& a, const R& b) { return quarkContract(a, b, 2, 3); }
inline R quarkContract24(const R& a, const R& b) { return quarkContract(a, b, 2, 4); }
inline R quarkContract12(const R& a, const R& b) { return quarkContract(a, b, 1, 2); }
inline R quarkContract34(const R& a, const R& b) { return quarkContract(a, b, 3, 4); }
R colorContract(const R& a, const R& b, const R& c);
R colorVectorContract(const R& a, const R& b);
R colorCrossProduct(const R& a, const R& b);
R shiftR(const R& a, const std::function<int(int)>& src); // out(x) = a(src(x))
R shf(const R& a, int sgn, int mu);
R sumR(const R& a, const Sub* u = nullptr);
enum { BWD = -1, FWD = 1 };

Sub allsub();
Sub evenodd(int par);
} // namespace qx
#endif
