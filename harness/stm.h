// statement forms with compound assignment, for d_expr
#ifndef STM_H
#define STM_H
#include "ex.h"
namespace qx {
inline void keepOutside(R& rd, const Sub& u) { for (int i = 0; i < rd.ns; ++i) if (!u.in[i]) for (int c = 0; c < rd.nc(); ++c) rd.m[(size_t)i * rd.nc() + c] = 0; }
// after rd was updated on u only: everything outside must be as rd0, exactly
struct Stm {
  std::string name; double eps;
  // run do(q-field, subset) and the same on the reference, over whole field and every subset of the pool (or one at random)
  template <class D, class FA, class FS, class GA, class DD> void run(FA whole, FS part, GA ref, DD dom) {
    { D d; R rd; fillDom(d, rd, cx.m, dom); whole(d); R v = ref(rd); R t = rd; t = v; eq(cx.key, d, t, (name + ": whole").c_str(), cx.K, eps); vh::count("statements"); }
    int n = (int)cx.pool->q.size(), k0 = cx.g.range(0, n - 1), cnt = vh::opt.thorough ? n : 3;
    for (int j = 0; j < cnt; ++j) {
      int k = (k0 + j * 5 + j) % n; const Sub& u = cx.pool->r[k];
      D d; R rd; fillDom(d, rd, cx.m, dom);
      part(d, *cx.pool->q[k]);
      R t = rd; t = ref(rd); bool ex = t.exact;
      for (int i = 0; i < rd.ns; ++i) for (int c = 0; c < rd.nc(); ++c) { size_t x = (size_t)i * rd.nc() + c; if (u.in[i]) { rd.d[x] = t.d[x]; rd.m[x] = t.m[x]; } else rd.m[x] = 0; }
      rd.exact = ex;
      eq(cx.key, d, rd, (name + ": on " + u.name).c_str(), cx.K, eps);
      vh::count("subset_statements");
    }
    if (cx.scalars) { SOf<D> d; R rd; fillDom(d, rd, cx.m, dom); (void)d; }
  }
};
#define OPFORM(OPN, OPX) \
template <class D, class A, class F, class DA = Any, class DD = Any> void st_##OPN(const char* nm, F f, DA da = DA(), DD dd = DD()) { \
  if (!startEx(nm, cx.m)) return; \
  A a; R ra; fillDom(a, ra, cx.m, da); SOf<A> sa; R rsa; fillDom(sa, rsa, cx.m, da); \
  double e = emax({epsOf<D>(), epsOf<A>()}); \
  Stm s{std::string(nm) + " [expr]", e}; \
  s.run<D>([&](D& d) { d OPX f(a); }, [&](D& d, const Subset& u) { d[u] OPX f(a); }, [&](const R& r) { R t = r; t OPX f(ra); return t; }, dd); \
  Stm s2{std::string(nm) + " [field]", e}; \
  s2.run<D>([&](D& d) { d OPX a; }, [&](D& d, const Subset& u) { d[u] OPX a; }, [&](const R& r) { R t = r; t OPX ra; return t; }, dd); \
  Stm s3{std::string(nm) + " [constant]", e}; \
  s3.run<D>([&](D& d) { d OPX sa; }, [&](D& d, const Subset& u) { d[u] OPX sa; }, [&](const R& r) { R t = r; t OPX rsa; return t; }, dd); \
  Stm s4{std::string(nm) + " [constant expr]", e}; \
  s4.run<D>([&](D& d) { d OPX f(sa); }, [&](D& d, const Subset& u) { d[u] OPX f(sa); }, [&](const R& r) { R t = r; t OPX f(rsa); return t; }, dd); \
}
OPFORM(set, =) OPFORM(add, +=) OPFORM(sub, -=) OPFORM(mul, *=) OPFORM(div, /=) OPFORM(mod, %=) OPFORM(or, |=) OPFORM(and, &=) OPFORM(xor, ^=) OPFORM(shl, <<=) OPFORM(shr, >>=)
#define S_(OPN, D, A, e) st_##OPN<D, A>(#D " " #OPN "= " #e " [a:" #A "]", [](const auto& a) { return e; })
// destination also an operand
template <class D, class A, class F> void alias(const char* nm, F f) {
  if (!startEx(nm, cx.m)) return;
  A a; R ra; fill(a, ra, cx.g, cx.m);
  Stm s{std::string(nm) + " [destination is an operand]", emax({epsOf<D>(), epsOf<A>()})};
  s.run<D>([&](D& d) { d = f(d, a); }, [&](D& d, const Subset& u) { d[u] = f(d, a); }, [&](const R& r) { R t = r; t = f(r, ra); return t; }, Any());
  s.name = std::string(nm) + " [+= destination is an operand]";
  s.run<D>([&](D& d) { d += f(d, a); }, [&](D& d, const Subset& u) { d[u] += f(d, a); }, [&](const R& r) { R t = r; t = r + f(r, ra); return t; }, Any());
  s.name = std::string(nm) + " [-= destination is an operand]";
  s.run<D>([&](D& d) { d -= f(d, a); }, [&](D& d, const Subset& u) { d[u] -= f(d, a); }, [&](const R& r) { R t = r; t = r - f(r, ra); return t; }, Any());
  vh::count("aliased_statements");
}
#define AL(D, A, e) alias<D, A>(#D " d = " #e " [a:" #A "]", [](const auto& d, const auto& a) { return e; })
} // namespace qx
#endif
