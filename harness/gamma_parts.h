// products with all sixteen matrices in one basis, constants and run-time indices
#include "gam.h"
#include <utility>
namespace qx {
template <int B, int N> struct GK; 
template <int N> struct GK<0, N> { typedef GammaConst<4, N> T; };
template <int N> struct GK<1, N> { typedef GammaConstDP<4, N> T; };
template <int B> struct GT_; template <> struct GT_<0> { typedef GammaType<4> T; }; template <> struct GT_<1> { typedef GammaTypeDP<4> T; };
inline std::string nmOf(const char* how, int B, int n) { return std::string(how) + (B ? "DP " : " ") + std::to_string(n); }
template <class D, class G> void leftOf(const char* t, const char* how, int B, int n, const G& q) {
  ex1<D, D>((nmOf(how, B, n) + " * " + t).c_str(), [&](const auto& a) { return gsel(a, B, n, q) * a; });
  vh::count("gamma_products");
}
template <class D, class G> void rightOf(const char* t, const char* how, int B, int n, const G& q) {
  ex1<D, D>((t + (" * " + nmOf(how, B, n))).c_str(), [&](const auto& a) { return a * gsel(a, B, n, q); });
  vh::count("gamma_products");
}
template <class D, class G> void leftX(const char* t, const char* how, int B, int n, const G& q) {
  ex1<D, D>((nmOf(how, B, n) + " * (x+y) " + t).c_str(), [&](const auto& a) { return gsel(a, B, n, q) * (a + a); });
  vh::count("gamma_products");
}
template <class D, class G> void bothX(const char* t, const char* how, int B, int n, const G& q) {
  ex1<D, D>((nmOf(how, B, n) + " * adj(x) * gamma " + t).c_str(), [&](const auto& a) { return gsel(a, B, n, q) * adj(a) * gsel(a, B, n, q); });
  ex1<D, D>(("(x+x) * " + nmOf(how, B, n) + " " + t).c_str(), [&](const auto& a) { return (a + a) * gsel(a, B, n, q); });
  vh::count("gamma_products", 3);
}
template <int B, int N> void constAt() {
  typename GK<B, N>::T q;
  leftOf<LatticeFermion>("F", "GammaConst", B, N, q); leftOf<LatticeSpinMatrix>("SM", "GammaConst", B, N, q); leftOf<LatticePropagator>("P", "GammaConst", B, N, q); leftOf<LatticeSpinVector>("SV", "GammaConst", B, N, q);
  rightOf<LatticeSpinMatrix>("SM", "GammaConst", B, N, q); rightOf<LatticePropagator>("P", "GammaConst", B, N, q); bothX<LatticeSpinMatrix>("SM", "GammaConst", B, N, q);
}
template <int B, int N0, int... I> void constAll(std::integer_sequence<int, I...>) { (constAt<B, N0 + I>(), ...); }
} // namespace qx
