// C08: reductions against the reference, over whole fields, subsets, sets and arrays.
#ifndef RED_H
#define RED_H
#include "ex.h"
namespace qx {
template <class Q> void cmpS(const char* form, const Q& got, const R& want, const std::string& what, double eps) {
  vh::count("reductions");
  eq((std::string("reduce:") + form).c_str(), got, want, what.c_str(), 64, eps);
}
// a reference set to partition with: index of each site, number of subsets
struct RSet { const Set* s; std::vector<Sub> r; };
extern std::vector<RSet> rsets;
const Subset& pickSub(const Sub*& u);
// site-local expression q, reference value v: the sum over everything, a subset, a set
template <class D, class Q> void sums(const char* name, const Q& q, const R& v, double eps) {
  D d = sum(q); cmpS("sum", d, sumR(v), std::string(name) + ": whole", eps);
  for (int i = 0; i < 3; ++i) { const Sub* u; const Subset& s = pickSub(u); D e = sum(q, s); cmpS("sum subset", e, sumR(v, u), std::string(name) + ": on " + u->name, eps); vh::count("subset_sums"); }
  const RSet& t = rsets[cx.g.range(0, (int)rsets.size() - 1)];
  multi1d<D> m = sumMulti(q, *t.s);
  if (m.size() != (int)t.r.size()) vh::fail("reduce:sumMulti", "%s: %d results for %d subsets", name, m.size(), (int)t.r.size());
  else for (int k = 0; k < m.size(); ++k) { cmpS("sumMulti", m[k], sumR(v, &t.r[k]), std::string(name) + ": set, " + t.r[k].name, eps); vh::count("set_sums"); }
}
template <class A, class D> void sumField(const char* name) {
  if (!startEx(std::string("sum ") + name, cx.m)) return;
  A a; R ra; fill(a, ra, cx.g, cx.m);
  double eps = epsOf<D>() == 0 ? 0 : 1.2e-16; // accumulators are double
  sums<D>(name, a, ra, eps);
  SOf<A> c; R rc; fill(c, rc, cx.g, cx.m);
  D d = sum(c); cmpS("sum scalar", d, rc, std::string(name) + ": constant", eps);
  const Sub* u; const Subset& s = pickSub(u);
  D e = sum(c, s); cmpS("sum scalar", e, rc, std::string(name) + ": constant on a subset", eps);
  // arrays of fields over a set
  int n = cx.g.range(1, 3);
  const RSet& t = rsets[cx.g.range(0, (int)rsets.size() - 1)];
  multi1d<A> b(n); std::vector<R> rb(n); for (int i = 0; i < n; ++i) fill(b[i], rb[i], cx.g, cx.m);
  multi2d<D> m = sumMulti(b, *t.s);
  if (m.size2() != n || m.size1() != (int)t.r.size()) vh::fail("reduce:sumMulti array", "%s: result %d x %d for %d fields, %d subsets", name, m.size2(), m.size1(), n, (int)t.r.size());
  else for (int i = 0; i < n; ++i) for (int k = 0; k < (int)t.r.size(); ++k) { cmpS("sumMulti array", m(i, k), sumR(rb[i], &t.r[k]), std::string(name) + ": array, " + t.r[k].name, eps); vh::count("set_sums"); }
  multi1d<SOf<A>> cs(n); std::vector<R> rcs(n); for (int i = 0; i < n; ++i) fill(cs[i], rcs[i], cx.g, cx.m);
  multi2d<D> mc = sumMulti(cs, *t.s);
  if (mc.size2() != n || mc.size1() != (int)t.r.size()) vh::fail("reduce:sumMulti array", "%s: result %d x %d for %d constants, %d subsets", name, mc.size2(), mc.size1(), n, (int)t.r.size());
  else for (int i = 0; i < n; ++i) for (int k = 0; k < (int)t.r.size(); ++k) cmpS("sumMulti array scalar", mc(i, k), rcs[i], std::string(name) + ": array of constants", eps);
}
template <class A> struct Norms {
  typedef typename UnaryReturn<A, FnNorm2>::Type_t N;
  typedef typename BinaryReturn<A, A, FnInnerProduct>::Type_t I;
  typedef typename BinaryReturn<A, A, FnInnerProductReal>::Type_t IR;
  static void go(const char* name) {
    if (!startEx(std::string("norms ") + name, cx.m)) return;
    double eps = epsOf<A>();
    A a, b; R ra, rb; fill(a, ra, cx.g, cx.m); fill(b, rb, cx.g, cx.m);
    R n = localNorm2(ra), ip = localInnerProduct(ra, rb), ir = real(ip), ips = localInnerProduct(ra, ra);
    { N x = norm2(a); cmpS("norm2", x, sumR(n), std::string(name) + ": norm2", eps); }
    { I x = innerProduct(a, b); cmpS("innerProduct", x, sumR(ip), std::string(name) + ": innerProduct", eps); }
    { I x = innerProduct(a, a); cmpS("innerProduct", x, sumR(ips), std::string(name) + ": innerProduct with itself", eps); }
    { IR x = innerProductReal(a, b); cmpS("innerProductReal", x, sumR(ir), std::string(name) + ": innerProductReal", eps); }
    for (int k = 0; k < 6; ++k) {
      const Sub* u; const Subset& s = pickSub(u); std::string w = std::string(name) + " on " + u->name;
      { N x = norm2(a, s); cmpS("norm2 subset", x, sumR(n, u), w + ": norm2", eps); }
      { I x = innerProduct(a, b, s); cmpS("innerProduct subset", x, sumR(ip, u), w + ": innerProduct", eps); }
      { I x = innerProduct(a, a, s); cmpS("innerProduct subset", x, sumR(ips, u), w + ": innerProduct with itself", eps); }
      { IR x = innerProductReal(a, b, s); cmpS("innerProductReal subset", x, sumR(ir, u), w + ": innerProductReal", eps); }
      vh::count("subset_norms", 4);
      if (s.numSiteTable() == 0) vh::count("empty_subset_norms", 4);
    }
    { // expressions
      R ne = localNorm2(ra - rb), ie = localInnerProduct(ra + rb, rb), ire = localInnerProductReal(rb, ra - rb);
      const Sub* u; const Subset& s = pickSub(u);
      { N x = norm2(a - b); cmpS("norm2", x, sumR(ne), std::string(name) + ": norm2(a-b)", eps); }
      { N x = norm2(a - b, s); cmpS("norm2 subset", x, sumR(ne, u), std::string(name) + ": norm2(a-b,s)", eps); }
      { I x = innerProduct(a + b, b); cmpS("innerProduct", x, sumR(ie), std::string(name) + ": innerProduct(a+b,b)", eps); }
      { I x = innerProduct(a + b, b, s); cmpS("innerProduct subset", x, sumR(ie, u), std::string(name) + ": innerProduct(a+b,b,s)", eps); }
      { I x = innerProduct(b, a + b); R q = localInnerProduct(rb, ra + rb); cmpS("innerProduct", x, sumR(q), std::string(name) + ": innerProduct(b,a+b)", eps); I y = innerProduct(b, a + b, s); cmpS("innerProduct subset", y, sumR(q, u), std::string(name) + ": innerProduct(b,a+b,s)", eps); }
      { I x = innerProduct(b - a, a + b); R q = localInnerProduct(rb - ra, ra + rb); cmpS("innerProduct", x, sumR(q), std::string(name) + ": innerProduct(b-a,a+b)", eps); I y = innerProduct(b - a, a + b, s); cmpS("innerProduct subset", y, sumR(q, u), std::string(name) + ": innerProduct(b-a,a+b,s)", eps); }
      { IR x = innerProductReal(b, a - b); cmpS("innerProductReal", x, sumR(ire), std::string(name) + ": innerProductReal(b,a-b)", eps); }
      { IR x = innerProductReal(b, a - b, s); cmpS("innerProductReal subset", x, sumR(ire, u), std::string(name) + ": innerProductReal(b,a-b,s)", eps); }
      { IR x = innerProductReal(a - b, b); R q = localInnerProductReal(ra - rb, rb); cmpS("innerProductReal", x, sumR(q), std::string(name) + ": innerProductReal(a-b,b)", eps); IR y = innerProductReal(a - b, b, s); cmpS("innerProductReal subset", y, sumR(q, u), std::string(name) + ": innerProductReal(a-b,b,s)", eps); }
      { IR x = innerProductReal(a - b, b + a); R q = localInnerProductReal(ra - rb, rb + ra); cmpS("innerProductReal", x, sumR(q), std::string(name) + ": innerProductReal(a-b,b+a)", eps); IR y = innerProductReal(a - b, b + a, s); cmpS("innerProductReal subset", y, sumR(q, u), std::string(name) + ": innerProductReal(a-b,b+a,s)", eps); }
    }
    { // arrays
      int L = cx.g.range(1, 3);
      multi1d<A> x(L), y(L); R n, ip; bool f = true;
      for (int i = 0; i < L; ++i) { R rx, ry; fill(x[i], rx, cx.g, cx.m); fill(y[i], ry, cx.g, cx.m); R p = localNorm2(rx), q = localInnerProduct(rx, ry); if (f) { n = p; ip = q; f = false; } else { n = n + p; ip = ip + q; } }
      std::string w = std::string(name) + ": array of " + std::to_string(L);
      { N r = norm2(x); cmpS("norm2 array", r, sumR(n), w + " norm2", eps); }
      { I r = innerProduct(x, y); cmpS("innerProduct array", r, sumR(ip), w + " innerProduct", eps); }
      { IR r = innerProductReal(x, y); cmpS("innerProductReal array", r, sumR(real(ip)), w + " innerProductReal", eps); }
      for (int k = 0; k < 3; ++k) {
        const Sub* u; const Subset& s = pickSub(u); std::string ws = w + " on " + u->name;
        { N r = norm2(x, s); cmpS("norm2 array subset", r, sumR(n, u), ws + " norm2", eps); }
        { I r = innerProduct(x, y, s); cmpS("innerProduct array subset", r, sumR(ip, u), ws + " innerProduct", eps); }
        { IR r = innerProductReal(x, y, s); cmpS("innerProductReal array subset", r, sumR(real(ip), u), ws + " innerProductReal", eps); }
        vh::count("array_norms", 3);
      }
    }
    { // constants
      SOf<A> p, q; R rp, rq; fill(p, rp, cx.g, cx.m); fill(q, rq, cx.g, cx.m);
      { N r = norm2(p); cmpS("norm2 scalar", r, localNorm2(rp), std::string(name) + ": constant norm2", eps); }
      { I r = innerProduct(p, q); cmpS("innerProduct scalar", r, localInnerProduct(rp, rq), std::string(name) + ": constant innerProduct", eps); }
      { IR r = innerProductReal(p, q); cmpS("innerProductReal scalar", r, localInnerProductReal(rp, rq), std::string(name) + ": constant innerProductReal", eps); }
      multi1d<SOf<A>> x(2), y(2); x[0] = p; x[1] = q; y[0] = q; y[1] = p; R i2 = localInnerProduct(rp, rq) + localInnerProduct(rq, rp);
      const Sub* u; const Subset& s = pickSub(u);
      { N r = norm2(x); cmpS("norm2 array scalar", r, localNorm2(rp) + localNorm2(rq), std::string(name) + ": array of constants norm2", eps); N t = norm2(x, s); cmpS("norm2 array scalar", t, localNorm2(rp) + localNorm2(rq), std::string(name) + ": array of constants norm2 subset", eps); }
      { I r = innerProduct(x, y); cmpS("innerProduct array scalar", r, i2, std::string(name) + ": array of constants innerProduct", eps); I t = innerProduct(x, y, s); cmpS("innerProduct array scalar", t, i2, std::string(name) + ": array of constants innerProduct subset", eps); }
      { IR r = innerProductReal(x, y); cmpS("innerProductReal array scalar", r, real(i2), std::string(name) + ": array of constants innerProductReal", eps); IR t = innerProductReal(x, y, s); cmpS("innerProductReal array scalar", t, real(i2), std::string(name) + ": array of constants innerProductReal subset", eps); }
    }
  }
};
template <class A, class B> void inner2(const char* name) { // two different types of site values
  if (!startEx(std::string("inner ") + name, cx.m)) return;
  typedef typename BinaryReturn<A, B, FnInnerProduct>::Type_t I;
  A a; B b; R ra, rb; fill(a, ra, cx.g, cx.m); fill(b, rb, cx.g, cx.m); R ip = localInnerProduct(ra, rb);
  double eps = emax({epsOf<A>(), epsOf<B>()});
  const Sub* u; const Subset& s = pickSub(u);
  { I x = innerProduct(a, b); cmpS("innerProduct", x, sumR(ip), std::string(name) + ": innerProduct", eps); }
  { I x = innerProduct(a, b, s); cmpS("innerProduct subset", x, sumR(ip, u), std::string(name) + ": innerProduct on " + u->name, eps); }
}
#define NORMS(A) Norms<A>::go(#A)
#define SUMF(A) sumField<A, typename UnaryReturn<A, FnSum>::Type_t>(#A)
#define INNER2(A, B) inner2<A, B>(#A "," #B)
} // namespace qx
#endif
