// Glue between QDP++ objects and the reference model.
#ifndef QX_H
#define QX_H
#include "qdp.h"
#include "ref.h"
#include <sstream>

namespace qx {
using namespace QDP;

// ---- element access, down to the words -------------------------------------------------
struct Shape { Lev lev[4]; int nlev = 0; bool cplx = false, isint = false, isbool = false; double eps = 0; int words = 0; };

template <class T> inline std::enable_if_t<std::is_arithmetic<T>::value> flat(const T& x, int, std::vector<double>& v) { v.push_back((double)x); }
template <class T> inline void flat(const IScalar<T>& x, int in, std::vector<double>& v) { flat(x.elem(), in, v); }
template <class T, int N> inline void flat(const ILattice<T, N>& x, int in, std::vector<double>& v) { flat(x.elem(in), in, v); }
template <class T> inline void flat(const RScalar<T>& x, int in, std::vector<double>& v) { flat(x.elem(), in, v); }
template <class T> inline void flat(const RComplex<T>& x, int in, std::vector<double>& v) { flat(x.real(), in, v); flat(x.imag(), in, v); }
template <class T> inline void flat(const PScalar<T>& x, int in, std::vector<double>& v);
template <class T> inline void flat(const PSeed<T>& x, int in, std::vector<double>& v);
template <class T, int N> inline void flat(const PColorVector<T, N>& x, int in, std::vector<double>& v);
template <class T, int N> inline void flat(const PSpinVector<T, N>& x, int in, std::vector<double>& v);
template <class T, int N> inline void flat(const PColorMatrix<T, N>& x, int in, std::vector<double>& v);
template <class T, int N> inline void flat(const PSpinMatrix<T, N>& x, int in, std::vector<double>& v);
template <class T> inline void flat(const PScalar<T>& x, int in, std::vector<double>& v) { flat(x.elem(), in, v); }
template <class T> inline void flat(const PSeed<T>& x, int in, std::vector<double>& v) { for (int i = 0; i < 4; ++i) flat(x.elem(i), in, v); }
template <class T, int N> inline void flat(const PColorVector<T, N>& x, int in, std::vector<double>& v) { for (int i = 0; i < N; ++i) flat(x.elem(i), in, v); }
template <class T, int N> inline void flat(const PSpinVector<T, N>& x, int in, std::vector<double>& v) { for (int i = 0; i < N; ++i) flat(x.elem(i), in, v); }
template <class T, int N> inline void flat(const PColorMatrix<T, N>& x, int in, std::vector<double>& v) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) flat(x.elem(i, j), in, v); }
template <class T, int N> inline void flat(const PSpinMatrix<T, N>& x, int in, std::vector<double>& v) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) flat(x.elem(i, j), in, v); }

template <class T> inline std::enable_if_t<std::is_arithmetic<T>::value> unflat(T& x, int, const double*& p) { x = (T)*p++; }
template <class T> inline void unflat(IScalar<T>& x, int in, const double*& p) { unflat(x.elem(), in, p); }
template <class T, int N> inline void unflat(ILattice<T, N>& x, int in, const double*& p) { unflat(x.elem(in), in, p); }
template <class T> inline void unflat(RScalar<T>& x, int in, const double*& p) { unflat(x.elem(), in, p); }
template <class T> inline void unflat(RComplex<T>& x, int in, const double*& p) { unflat(x.real(), in, p); unflat(x.imag(), in, p); }
template <class T> inline void unflat(PScalar<T>& x, int in, const double*& p);
template <class T> inline void unflat(PSeed<T>& x, int in, const double*& p);
template <class T, int N> inline void unflat(PColorVector<T, N>& x, int in, const double*& p);
template <class T, int N> inline void unflat(PSpinVector<T, N>& x, int in, const double*& p);
template <class T, int N> inline void unflat(PColorMatrix<T, N>& x, int in, const double*& p);
template <class T, int N> inline void unflat(PSpinMatrix<T, N>& x, int in, const double*& p);
template <class T> inline void unflat(PScalar<T>& x, int in, const double*& p) { unflat(x.elem(), in, p); }
template <class T> inline void unflat(PSeed<T>& x, int in, const double*& p) { for (int i = 0; i < 4; ++i) unflat(x.elem(i), in, p); }
template <class T, int N> inline void unflat(PColorVector<T, N>& x, int in, const double*& p) { for (int i = 0; i < N; ++i) unflat(x.elem(i), in, p); }
template <class T, int N> inline void unflat(PSpinVector<T, N>& x, int in, const double*& p) { for (int i = 0; i < N; ++i) unflat(x.elem(i), in, p); }
template <class T, int N> inline void unflat(PColorMatrix<T, N>& x, int in, const double*& p) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) unflat(x.elem(i, j), in, p); }
template <class T, int N> inline void unflat(PSpinMatrix<T, N>& x, int in, const double*& p) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) unflat(x.elem(i, j), in, p); }

template <class T> struct ShapeOf;
template <class W> struct LeafOf { static void go(Shape& s) { s.isbool = std::is_same<W, bool>::value; s.isint = std::is_integral<W>::value && !s.isbool; s.eps = std::is_same<W, float>::value ? 5.97e-8 : 1.12e-16; } };
template <class W> struct LeafOf<IScalar<W>> : LeafOf<W> {};
template <class W, int N> struct LeafOf<ILattice<W, N>> : LeafOf<W> {};
template <class T> struct ShapeOf<RScalar<T>> { static void go(Shape& s) { LeafOf<T>::go(s); } };
template <class T> struct ShapeOf<RComplex<T>> { static void go(Shape& s) { LeafOf<T>::go(s); s.cplx = true; } };
template <class T> struct ShapeOf<PScalar<T>> { static void go(Shape& s) { s.lev[s.nlev++] = Lev{0, 1}; ShapeOf<T>::go(s); } };
template <class T> struct ShapeOf<PSeed<T>> { static void go(Shape& s) { s.lev[s.nlev++] = Lev{1, 4}; ShapeOf<T>::go(s); } };
template <class T, int N> struct ShapeOf<PColorVector<T, N>> { static void go(Shape& s) { s.lev[s.nlev++] = Lev{1, N}; ShapeOf<T>::go(s); } };
template <class T, int N> struct ShapeOf<PSpinVector<T, N>> { static void go(Shape& s) { s.lev[s.nlev++] = Lev{1, N}; ShapeOf<T>::go(s); } };
template <class T, int N> struct ShapeOf<PColorMatrix<T, N>> { static void go(Shape& s) { s.lev[s.nlev++] = Lev{2, N}; ShapeOf<T>::go(s); } };
template <class T, int N> struct ShapeOf<PSpinMatrix<T, N>> { static void go(Shape& s) { s.lev[s.nlev++] = Lev{2, N}; ShapeOf<T>::go(s); } };
template <class T> Shape shape() { Shape s; ShapeOf<T>::go(s); s.words = s.cplx ? 2 : 1; for (int i = 0; i < s.nlev; ++i) s.words *= s.lev[i].dim(); return s; }

#if defined(ARCH_SCALARVEC)
inline int outerIx(int lin) { return lin >> INNER_LOG; }
inline int innerIx(int lin) { return lin & (INNER_LEN - 1); }
#else
inline int outerIx(int lin) { return lin; }
inline int innerIx(int) { return 0; }
#endif
template <class T> std::vector<double> getv(const OLattice<T>& l, int lin) { std::vector<double> v; flat(l.elem(outerIx(lin)), innerIx(lin), v); return v; }
template <class T> void setv(OLattice<T>& l, int lin, const double* p) { unflat(l.elem(outerIx(lin)), innerIx(lin), p); }
template <class T> std::vector<double> getv(const OScalar<T>& l) { std::vector<double> v; flat(l.elem(), 0, v); return v; }
template <class T> void setv(OScalar<T>& l, const double* p) { unflat(l.elem(), 0, p); }

// ---- geometry --------------------------------------------------------------------------
inline std::vector<int> sv(const multi1d<int>& m) { std::vector<int> v(m.size()); for (int i = 0; i < m.size(); ++i) v[i] = m[i]; return v; }
inline multi1d<int> mv(const std::vector<int>& v) { multi1d<int> m((int)v.size()); for (size_t i = 0; i < v.size(); ++i) m[i] = v[i]; return m; }
// lexicographic index of each local linear site, as the layout reports it
extern std::vector<int> lin2lex;
extern std::vector<int> lex2lin; // -1: other node
void start(const char* dflt);     // initialise QDP with opt.latt (or dflt) 
void startGeometry();             // (re)build the tables from the current layout
void stop();

// ---- filling ---------------------------------------------------------------------------
enum Mode { INTS, UNI, WILD };
double rnd(vh::Rng& g, Mode m);
inline void shapeR(R& r, const Shape& s, int ns) { r.s = s.lev[0]; r.c = s.nlev > 1 ? s.lev[1] : Lev(); if (s.nlev > 2) abort(); r.ns = ns; r.d.assign((size_t)ns * r.nc(), cd(0)); r.m.assign(r.d.size(), 0.0); r.exact = true; }
template <class T> void store(T& x, R& r, const Shape& s, vh::Rng& g, Mode m, double lo, double hi, std::vector<double>& w, int i);

inline void genSite(R& r, const Shape& s, int i, vh::Rng& g, Mode m, std::vector<double>& w) {
  w.clear();
  for (int k = 0; k < r.nc(); ++k) {
    double re, im = 0;
    if (s.isbool) re = (double)g.coin();
    else if (s.isint) re = g.range(-50, 50);
    else { re = rnd(g, m); if (s.cplx) im = rnd(g, m); }
    if (s.eps > 1e-10) { re = (float)re; im = (float)im; }
    if (m != INTS && !s.isint && !s.isbool) r.exact = false;
    size_t q = (size_t)i * r.nc() + k;
    r.d[q] = cd(re, im); r.m[q] = std::fabs(re) + std::fabs(im);
    w.push_back(re); if (s.cplx) w.push_back(im);
  }
}
template <class T> void fill(OLattice<T>& x, R& r, vh::Rng& g, Mode m) {
  Shape s = shape<T>(); shapeR(r, s, geom.vol);
  std::vector<double> w;
  for (int i = 0; i < geom.vol; ++i) { genSite(r, s, i, g, m, w); if (lex2lin[i] >= 0) setv(x, lex2lin[i], w.data()); }
}
template <class T> void fill(OScalar<T>& x, R& r, vh::Rng& g, Mode m) {
  Shape s = shape<T>(); shapeR(r, s, 1);
  std::vector<double> w; genSite(r, s, 0, g, m, w); setv(x, w.data());
}
// put a reference value into a field
template <class T> void put(OLattice<T>& x, const R& r) {
  Shape s = shape<T>(); std::vector<double> w;
  for (int i = 0; i < geom.vol; ++i) if (lex2lin[i] >= 0) { w.clear(); for (int k = 0; k < r.nc(); ++k) { cd z = r.d[(size_t)(r.ns == 1 ? 0 : i) * r.nc() + k]; w.push_back(z.real()); if (s.cplx) w.push_back(z.imag()); } setv(x, lex2lin[i], w.data()); }
}
// values of a field as a reference object (local sites only; others 0)
template <class T> R take(const OLattice<T>& x) {
  Shape s = shape<T>(); R r; shapeR(r, s, geom.vol); r.exact = false;
  for (int i = 0; i < geom.vol; ++i) if (lex2lin[i] >= 0) { std::vector<double> w = getv(x, lex2lin[i]); for (int k = 0; k < r.nc(); ++k) { cd z = s.cplx ? cd(w[2 * k], w[2 * k + 1]) : cd(w[k]); r.d[(size_t)i * r.nc() + k] = z; r.m[(size_t)i * r.nc() + k] = std::fabs(z.real()) + std::fabs(z.imag()); } }
  return r;
}
template <class T> R take(const OScalar<T>& x) {
  Shape s = shape<T>(); R r; shapeR(r, s, 1); r.exact = false;
  std::vector<double> w = getv(x); for (int k = 0; k < r.nc(); ++k) { cd z = s.cplx ? cd(w[2 * k], w[2 * k + 1]) : cd(w[k]); r.d[k] = z; r.m[k] = std::fabs(z.real()) + std::fabs(z.imag()); }
  return r;
}

// ---- comparing -------------------------------------------------------------------------
// K: multiple of eps*magnitude allowed when the computation is not exact
bool cmpWords(const char* key, const Shape& s, const std::vector<double>& w, const R& r, int site, double K, const char* what, double epsov = 0);
template <class T> bool eq(const char* key, const OLattice<T>& x, const R& r0, const char* what = "", double K = 64, double eps = 0) {
  Shape s = shape<T>(); R r; shapeR(r, s, geom.vol); r = r0; 
  vh::count("site_values_compared", (uint64_t)Layout::sitesOnNode() * s.words);
  vh::count("fields_compared");
  for (int lin = 0; lin < Layout::sitesOnNode(); ++lin) if (!cmpWords(key, s, getv(x, lin), r, lin2lex[lin], K, what, eps)) return false;
  return true;
}
template <class T> bool eq(const char* key, const OScalar<T>& x, const R& r0, const char* what = "", double K = 64, double eps = 0) {
  Shape s = shape<T>(); R r; shapeR(r, s, 1); r = r0;
  vh::count("scalar_values_compared", s.words);
  return cmpWords(key, s, getv(x), r, 0, K, what, eps);
}
// the same text shifts a QDP field or expression and a reference lattice
template <class X> auto shf(const X& x, int sg, int mu) { return QDP::shift(x, sg, mu); }
// Reference-side subset of a QDP subset, via its site table
Sub subOf(const Subset& s);
} // namespace qx
#endif
