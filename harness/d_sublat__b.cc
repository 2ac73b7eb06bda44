#include "sublat.h"
using namespace qx;
#define RC h.g.range(0, Nc - 1)
#define RS h.g.range(0, Ns - 1)
static void cmat() { typedef Sl<LatticeColorMatrix::Subtype_t, 0> H; H h(cx.g); h.run(50, [](H& h) { int a = RC, b = RC; if (h.g.coin()) pokes<H, LatticeColorMatrix, LatticeComplex>(h, "pokeColor", [=](auto& t, const auto& r) { pokeColor(t, r, a, b); }); else pokes<H, LatticeColorMatrix, LatticeComplex>(h, "pokeColor of an expression", [=](auto& t, const auto& r) { pokeColor(t, r + r, a, b); }); }); }
static void cvec() { typedef Sl<LatticeColorVector::Subtype_t, 3> H; H h(cx.g); h.run(50, [](H& h) { int a = RC; if (h.g.coin()) pokes<H, LatticeColorVector, LatticeComplex>(h, "pokeColor", [=](auto& t, const auto& r) { pokeColor(t, r, a); }); else pokes<H, LatticeColorVector, LatticeComplex>(h, "pokeColor of an expression", [=](auto& t, const auto& r) { pokeColor(t, r + r, a); }); }); }
static Part p1("ColorMatrix", cmat), p2("ColorVector", cvec);
