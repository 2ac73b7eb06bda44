#include "sublat.h"
using namespace qx;
#define RC h.g.range(0, Nc - 1)
#define RS h.g.range(0, Ns - 1)
static void prop() { typedef Sl<LatticePropagator::Subtype_t, 0> H; H h(cx.g); h.run(30, [](H& h) { int a = RS, b = RS, c = RC, d = RC; int k = h.g.range(0, 3); if (k == 0) pokes<H, LatticePropagator, LatticeColorMatrix>(h, "pokeSpin", [=](auto& t, const auto& r) { pokeSpin(t, r, a, b); }); else if (k == 1) pokes<H, LatticePropagator, LatticeColorMatrix>(h, "pokeSpin of an expression", [=](auto& t, const auto& r) { pokeSpin(t, r + r, a, b); }); else if (k == 2) pokes<H, LatticePropagator, LatticeSpinMatrix>(h, "pokeColor", [=](auto& t, const auto& r) { pokeColor(t, r, c, d); }); else pokes<H, LatticePropagator, LatticeSpinMatrix>(h, "pokeColor of an expression", [=](auto& t, const auto& r) { pokeColor(t, r + r, c, d); }); }); }
static Part p1("Propagator", prop);
