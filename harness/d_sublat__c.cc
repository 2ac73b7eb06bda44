#include "sublat.h"
using namespace qx;
#define RC h.g.range(0, Nc - 1)
#define RS h.g.range(0, Ns - 1)
static void smat() { typedef Sl<LatticeSpinMatrix::Subtype_t, 0> H; H h(cx.g); h.run(40, [](H& h) { int a = RS, b = RS; if (h.g.coin()) pokes<H, LatticeSpinMatrix, LatticeComplex>(h, "pokeSpin", [=](auto& t, const auto& r) { pokeSpin(t, r, a, b); }); else pokes<H, LatticeSpinMatrix, LatticeComplex>(h, "pokeSpin of an expression", [=](auto& t, const auto& r) { pokeSpin(t, r + r, a, b); }); }); }
static void ferm() { typedef Sl<LatticeFermion::Subtype_t, 3> H; H h(cx.g); h.run(40, [](H& h) { int a = RS, c = RC; int k = h.g.range(0, 3); if (k == 0) pokes<H, LatticeFermion, LatticeColorVector>(h, "pokeSpin", [=](auto& t, const auto& r) { pokeSpin(t, r, a); }); else if (k == 1) pokes<H, LatticeFermion, LatticeColorVector>(h, "pokeSpin of an expression", [=](auto& t, const auto& r) { pokeSpin(t, r + r, a); }); else if (k == 2) pokes<H, LatticeFermion, LatticeSpinVector>(h, "pokeColor", [=](auto& t, const auto& r) { pokeColor(t, r, c); }); else pokes<H, LatticeFermion, LatticeSpinVector>(h, "pokeColor of an expression", [=](auto& t, const auto& r) { pokeColor(t, r + r, c); }); }); }
static Part p1("SpinMatrix", smat), p2("Fermion", ferm);
