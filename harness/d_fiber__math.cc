#include "ex.h"
using namespace qx;
#define RR LatticeReal
#define RD LatticeRealD
#define CCC LatticeComplex
namespace qx {
#define MF(fn) inline R fn(const R& a) { R o = mapr(a, [](double x) { return std::fn(x); }, false); for (size_t k = 0; k < o.m.size(); ++k) o.m[k] = std::fabs(o.d[k].real()) + 1e-3 * a.m[k]; return o; }
MF(sin) MF(cos) MF(tan) MF(asin) MF(acos) MF(atan) MF(sinh) MF(cosh) MF(tanh) MF(exp) MF(log) MF(log10) MF(sqrt)
#define MX(fn) inline R fn(const R& a) { return mapr(a, [](double x) { return std::fn(x); }, true); }
MX(fabs) MX(ceil) MX(floor)
inline R pow(const R& a, const R& b) { return map2(a, b, [](double x, double y) { return std::pow(x, y); }, false); }
inline R atan2(const R& a, const R& b) { return map2(a, b, [](double x, double y) { return std::atan2(x, y); }, false); }
}
static cd unit(cd x) { double r = x.real(); return cd(r - 2 * std::floor((r + 1) / 2)); }            // [-1,1]
static cd pos(cd x) { return cd(std::fabs(x.real()) + 0.01); }
static cd mod(cd x) { double r = x.real(); return cd(std::fabs(r) > 8 ? std::fmod(r, 8) : r); }
static cd tn(cd x) { double r = std::fmod(x.real(), 1.4); return cd(r); }
template <class S> static void fam() {
#define M1(fn, dom) { ex1<S, S>(#fn, [](const auto& a) { return fn(a); }, dom); }
  M1(sin, mod) M1(cos, mod) M1(tan, tn) M1(asin, unit) M1(acos, unit) M1(atan, mod) M1(sinh, mod) M1(cosh, mod) M1(tanh, mod) M1(exp, mod) M1(log, pos) M1(log10, pos) M1(sqrt, pos)
  M1(fabs, Any()) M1(ceil, mod) M1(floor, mod)
  ex2<S, S, S>("pow", [](const auto& a, const auto& b) { return pow(a, b); }, pos, unit);
  ex2<S, S, S>("atan2", [](const auto& a, const auto& b) { return atan2(a, b); }, mod, pos);
  ex2<S, S, S>("composite", [](const auto& a, const auto& b) { return sin(a) * exp(b) - sqrt(a * a); }, mod, unit);
}
static void go() { fam<RR>(); fam<RD>(); }
static Part part("math", go);
