// Reference gamma matrices, from the manual's table (DeGrand-Rossi) and the
// Dirac-Pauli definition; projection and reconstruction from 1 +- gamma.
#ifndef GAM_H
#define GAM_H
#include "ex.h"
namespace qx {
typedef std::vector<cd> M4; // row-major 4x4
inline M4 mm(const M4& a, const M4& b) { M4 r(16); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) r[4 * i + j] += a[4 * i + k] * b[4 * k + j]; return r; }
inline M4 unit4() { M4 r(16); for (int i = 0; i < 4; ++i) r[5 * i] = 1; return r; }
inline M4 gamma1of4(int basis, int mu) { // basis 0: DeGrand-Rossi, 1: Dirac-Pauli
  const cd I(0, 1); M4 g(16); cd s[3][4] = {{0, 1, 1, 0}, {0, -I, I, 0}, {1, 0, 0, -1}};
  auto blk = [&](int r, int c, cd f, const cd* m) { for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) g[4 * (2 * r + i) + 2 * c + j] = f * m[2 * i + j]; };
  cd one[4] = {1, 0, 0, 1};
  if (basis == 0) {
    if (mu == 0) { blk(0, 1, I, s[0]); blk(1, 0, -I, s[0]); }
    if (mu == 1) { blk(0, 1, -I, s[1]); blk(1, 0, I, s[1]); }
    if (mu == 2) { blk(0, 1, I, s[2]); blk(1, 0, -I, s[2]); }
    if (mu == 3) { blk(0, 1, 1, one); blk(1, 0, 1, one); }
  } else {
    if (mu < 3) { blk(0, 1, -I, s[mu]); blk(1, 0, I, s[mu]); }
    else { blk(0, 0, 1, one); blk(1, 1, -1, one); }
  }
  return g;
}
inline M4 gammaM(int basis, int n) { M4 r = unit4(); for (int mu = 0; mu < 4; ++mu) if (n >> mu & 1) r = mm(r, gamma1of4(basis, mu)); return r; }
struct Gm { int basis, n; };
inline R operator*(const Gm& g, const R& a) { return spinmatL(gammaM(g.basis, g.n), 4, a); }
inline R operator*(const R& a, const Gm& g) { return spinmatR(a, gammaM(g.basis, g.n), 4); }
inline R projR(const R& a, int mu, int sg) { M4 g = gamma1of4(0, mu); std::vector<cd> p(8); for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) p[4 * i + j] = (i == j ? 1.0 : 0.0) + (double)sg * g[4 * i + j]; return spinrect(p, 2, 4, a); }
inline R reconR(const R& a, int mu, int sg) { M4 g = gamma1of4(0, mu); std::vector<cd> p(8); for (int i = 0; i < 4; ++i) for (int j = 0; j < 2; ++j) p[2 * i + j] = i < 2 ? cd(i == j) : (double)sg * g[4 * i + j]; return spinrect(p, 4, 2, a); }
inline R chiralR(const R& a, int sg) { M4 g = gammaM(0, 15), u = unit4(); for (int i = 0; i < 16; ++i) u[i] = 0.5 * (u[i] + (double)sg * g[i]); return spinmatL(u, 4, a); }
#define PR_(d) inline R spinProjectDir##d##Plus(const R& a) { return projR(a, d, 1); } inline R spinProjectDir##d##Minus(const R& a) { return projR(a, d, -1); } \
  inline R spinReconstructDir##d##Plus(const R& a) { return reconR(a, d, 1); } inline R spinReconstructDir##d##Minus(const R& a) { return reconR(a, d, -1); }
PR_(0) PR_(1) PR_(2) PR_(3)
#undef PR_
inline R chiralProjectPlus(const R& a) { return chiralR(a, 1); }
inline R chiralProjectMinus(const R& a) { return chiralR(a, -1); }
inline R spinProject(const R& a, int mu, int sg) { return projR(a, mu, sg); }
inline R spinReconstruct(const R& a, int mu, int sg) { return reconR(a, mu, sg); }
// gammas for the QDP side or the reference side, by the operand's type
template <class T, class G> auto gsel(const T&, int basis, int n, const G& q) { if constexpr (std::is_same<T, R>::value) return Gm{basis, n}; else return q; }
} // namespace qx
#endif
