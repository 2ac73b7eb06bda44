// Evaluates one expression, written once as a generic lambda, through QDP++ and
// through the reference model, in the various statement forms, and compares.
#ifndef EX_H
#define EX_H
#include "qx.h"
#include <memory>
namespace qx {
template <class T> struct ScalarOf;
template <class T> struct ScalarOf<OLattice<T>> { typedef OScalar<T> type; };
template <class T> struct ScalarOf<OScalar<T>> { typedef OScalar<T> type; };
template <class T> using SOf = typename ScalarOf<T>::type;
template <class T> struct ElemOf;
template <class T> struct ElemOf<OLattice<T>> { typedef T type; };
template <class T> struct ElemOf<OScalar<T>> { typedef T type; };

// a pool of subsets of all kinds, with their reference-side masks (from the colouring itself)
struct Pool {
  std::vector<std::unique_ptr<Set>> sets;
  std::vector<const Subset*> q;
  std::vector<Sub> r;
  void make(vh::Rng& g, int nrandom);
};
struct Ctx {
  vh::Rng g{1};
  Mode m = UNI;
  const char* key = "ex";
  std::string only;          // run only this expression
  Pool* pool = nullptr;
  bool scalars = true, subsets = true, plain = true, alias = true;
  double K = 64;
  int n = 0;                 // expressions run
};
extern Ctx cx;
bool startEx(const std::string& name, Mode m);  // announce; false: filtered out
template <class T> double epsOf() { Shape s = shape<typename ElemOf<T>::type>(); return s.isint || s.isbool ? 0 : s.eps; }
inline double emax(std::initializer_list<double> l) { double e = 0; for (double x : l) if (x > e) e = x; return e; }
struct Any {};  // no domain restriction
template <class T, class Dom> void fillDom(T& x, R& r, Mode m, Dom dom);
template <class T> inline void fillDom(T& x, R& r, Mode m, Any) { fill(x, r, cx.g, m); }
template <class T, class Dom> inline void fillDom(T& x, R& r, Mode m, Dom dom) {
  fill(x, r, cx.g, m);
  for (size_t k = 0; k < r.d.size(); ++k) { cd v = dom(r.d[k]); if (epsOf<T>() > 1e-10) v = cd((float)v.real(), (float)v.imag()); r.d[k] = v; r.m[k] = std::fabs(v.real()) + std::fabs(v.imag()); if (v.real() != std::floor(v.real()) || v.imag() != std::floor(v.imag())) r.exact = false; }
  putAny(x, r);
}
template <class T> void putAny(OLattice<T>& x, const R& r) { put(x, r); }
template <class T> void putAny(OScalar<T>& x, const R& r) {
  Shape s = shape<T>(); std::vector<double> w;
  for (int k = 0; k < r.nc(); ++k) { w.push_back(r.d[k].real()); if (s.cplx) w.push_back(r.d[k].imag()); }
  setv(x, w.data());
}
// the statement forms, given a way to call f on the QDP side and on the reference side
template <class D, class FQ, class FR> void forms(const std::string& name, double eps, FQ fq, FR fr) {
  D d; R rd;
  R v = fr();
  std::string what;
  if (cx.plain) {
    fill(d, rd, cx.g, WILD);
    d = fq(); rd = v; what = name + ": d = e";
    eq(cx.key, d, rd, what.c_str(), cx.K, eps);
    vh::count("statements");
  }
  if (cx.subsets && cx.pool) {
    int k = cx.g.range(0, (int)cx.pool->q.size() - 1);
    const Subset& s = *cx.pool->q[k]; const Sub& u = cx.pool->r[k];
    fill(d, rd, cx.g, WILD); rd.exact = v.exact;
    d[s] = fq(); R t = rd; t = v; for (int i = 0; i < rd.ns; ++i) if (u.in[i]) for (int c = 0; c < rd.nc(); ++c) { size_t x = (size_t)i * rd.nc() + c; rd.d[x] = t.d[x]; rd.m[x] = t.m[x]; }
    rd.exact = v.exact;
    // sites outside keep their value exactly: magnitude 0 makes the comparison exact
    for (int i = 0; i < rd.ns; ++i) if (!u.in[i]) for (int c = 0; c < rd.nc(); ++c) rd.m[(size_t)i * rd.nc() + c] = 0;
    what = name + ": d[" + u.name + "] = e";
    eq(cx.key, d, rd, what.c_str(), cx.K, eps);
    vh::count("subset_statements");
  }
}
template <class D, class FQ, class FR> void formsScalar(const std::string& name, double eps, FQ fq, FR fr) {
  D d; R rd; fill(d, rd, cx.g, WILD);
  d = fq(); rd = fr(); std::string what = name + ": scalars";
  eq(cx.key, d, rd, what.c_str(), cx.K, eps);
  vh::count("scalar_statements");
}
template <class D, class A, class F, class DA = Any> void ex1(const char* name, F f, DA da = DA(), double eps = 0) {
  if (!startEx(name, cx.m)) return;
  if (eps == 0) eps = emax({epsOf<D>(), epsOf<A>()});
  A a; R ra; fillDom(a, ra, cx.m, da);
  forms<D>(name, eps, [&]() { return f(a); }, [&]() { return f(ra); });
  if (cx.scalars) { SOf<A> sa; R rsa; fillDom(sa, rsa, cx.m, da); formsScalar<SOf<D>>(name, eps, [&]() { return f(sa); }, [&]() { return f(rsa); }); }
}
template <class D, class A, class B, class F, class DA = Any, class DB = Any> void ex2(const char* name, F f, DA da = DA(), DB db = DB(), double eps = 0) {
  if (!startEx(name, cx.m)) return;
  if (eps == 0) eps = emax({epsOf<D>(), epsOf<A>(), epsOf<B>()});
  A a; B b; R ra, rb; fillDom(a, ra, cx.m, da); fillDom(b, rb, cx.m, db);
  forms<D>(name, eps, [&]() { return f(a, b); }, [&]() { return f(ra, rb); });
  if (cx.scalars) { SOf<A> sa; SOf<B> sb; R rsa, rsb; fillDom(sa, rsa, cx.m, da); fillDom(sb, rsb, cx.m, db);
    formsScalar<SOf<D>>(name, eps, [&]() { return f(sa, sb); }, [&]() { return f(rsa, rsb); });
    // one lattice and one constant operand
    std::string n1 = std::string(name) + " (constant, field)", n2 = std::string(name) + " (field, constant)";
    if (cx.g.coin()) { D d; R rd; d = f(sa, b); shapeR(rd, shape<typename ElemOf<D>::type>(), geom.vol); rd = f(rsa, rb); eq(cx.key, d, rd, n1.c_str(), cx.K, eps); }
    else { D d; R rd; d = f(a, sb); shapeR(rd, shape<typename ElemOf<D>::type>(), geom.vol); rd = f(ra, rsb); eq(cx.key, d, rd, n2.c_str(), cx.K, eps); }
  }
}
template <class D, class A, class B, class C, class F> void ex3(const char* name, F f, double eps = 0) {
  if (!startEx(name, cx.m)) return;
  if (eps == 0) eps = emax({epsOf<D>(), epsOf<A>(), epsOf<B>(), epsOf<C>()});
  A a; B b; C c; R ra, rb, rc; fill(a, ra, cx.g, cx.m); fill(b, rb, cx.g, cx.m); fill(c, rc, cx.g, cx.m);
  forms<D>(name, eps, [&]() { return f(a, b, c); }, [&]() { return f(ra, rb, rc); });
  if (cx.scalars) { SOf<A> sa; SOf<B> sb; SOf<C> sc; R rsa, rsb, rsc; fill(sa, rsa, cx.g, cx.m); fill(sb, rsb, cx.g, cx.m); fill(sc, rsc, cx.g, cx.m);
    formsScalar<SOf<D>>(name, eps, [&]() { return f(sa, sb, sc); }, [&]() { return f(rsa, rsb, rsc); }); }
}
// usage: E2(D, A, B, a * adj(b))
#define E1(D, A, e) ex1<D, A>(#D " = " #e " [a:" #A "]", [](const auto& a) { return e; })
#define E2(D, A, B, e) ex2<D, A, B>(#D " = " #e " [a:" #A " b:" #B "]", [](const auto& a, const auto& b) { return e; })
#define E3(D, A, B, C, e) ex3<D, A, B, C>(#D " = " #e " [a:" #A " b:" #B " c:" #C "]", [](const auto& a, const auto& b, const auto& c) { return e; })
// a part of the catalogue lives in each translation unit
struct Part { void (*f)(); const char* name; Part* next; static Part* head; Part(const char* n, void (*g)()) : f(g), name(n), next(head) { head = this; } };
void runParts();
} // namespace qx
#endif
