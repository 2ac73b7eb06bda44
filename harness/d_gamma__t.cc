#include "gamma_parts.h"
using namespace qx;
template <int B> static void rt() {
  typedef typename GT_<B>::T G;
  for (int n = 0; n < 16; ++n) {
    G q(n);
    leftOf<LatticeFermion>("F", "Gamma", B, n, q); leftOf<LatticeSpinMatrix>("SM", "Gamma", B, n, q); leftOf<LatticePropagator>("P", "Gamma", B, n, q); leftOf<LatticeSpinVector>("SV", "Gamma", B, n, q);
    rightOf<LatticeSpinMatrix>("SM", "Gamma", B, n, q); rightOf<LatticePropagator>("P", "Gamma", B, n, q);
    leftX<LatticeFermion>("F", "Gamma", B, n, q); leftX<LatticePropagator>("P", "Gamma", B, n, q); bothX<LatticeSpinMatrix>("SM", "Gamma", B, n, q); bothX<LatticePropagator>("P", "Gamma", B, n, q);
    int k = cx.g.range(0, 15); G q2(k); std::string nm = nmOf("Gamma", B, n);
    ex2<LatticeComplex, LatticePropagator, LatticePropagator>(("trace(x g y g') " + nm).c_str(), [&](const auto& a, const auto& b) { return trace(a * gsel(a, B, n, q) * b * gsel(a, B, k, q2)); });
    ex2<LatticeComplex, LatticePropagator, LatticePropagator>(("trace(adj(g x g') y) " + nm).c_str(), [&](const auto& a, const auto& b) { return trace(adj(gsel(a, B, n, q) * a * gsel(a, B, k, q2)) * b); });
    ex2<LatticeComplex, LatticeFermion, LatticeFermion>(("<x, g y> " + nm).c_str(), [&](const auto& a, const auto& b) { return localInnerProduct(a, gsel(a, B, n, q) * b); });
    ex2<LatticeFermion, LatticeColorMatrix, LatticeFermion>(("u * (g * y) " + nm).c_str(), [&](const auto& a, const auto& b) { return a * (gsel(a, B, n, q) * b); });
    ex1<LatticeDiracFermionD, LatticeDiracFermionD>(("double g * F " + nm).c_str(), [&](const auto& a) { return gsel(a, B, n, q) * a; });
    vh::count("gamma_products", 6);
  }
}
static void go() { rt<0>(); rt<1>(); }
static Part part("runtime", go);
