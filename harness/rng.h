// C09: model of the lattice generator: x' = a x mod 2^47; a field of w words per site
// takes, at the site of lexicographic index n, x a^(n+1), then times a^(V+1) per word.
#ifndef RNGM_H
#define RNGM_H
#include "ex.h"
namespace qx {
typedef unsigned long long u64;
static const u64 RA = (1222ULL << 36) | (1498ULL << 24) | (712ULL << 12) | 1645ULL, M47 = (1ULL << 47) - 1;
inline u64 mul47(u64 a, u64 b) { return (u64)((unsigned __int128)a * b) & M47; }
inline u64 pow47(u64 a, u64 n) { u64 r = 1; while (n) { if (n & 1) r = mul47(r, a); a = mul47(a, a); n >>= 1; } return r; }
inline u64 seedVal(const Seed& s) { std::vector<double> w = getv(s); u64 x = 0; for (int i = 3; i >= 0; --i) x = (x << 12) | (u64)w[i]; return x; }
inline Seed mkSeed(u64 x) { Seed s; double w[4]; for (int i = 0; i < 4; ++i) w[i] = (double)((x >> (12 * i)) & 4095); setv(s, w); return s; }
struct Rngm {
  u64 x = 11; std::vector<u64> skew; u64 an;
  void init() { skew.resize(geom.vol); u64 p = 1; for (int i = 0; i < geom.vol; ++i) { p = mul47(p, RA); skew[i] = p; } an = mul47(p, RA); }
  double u(u64 y) const { return (double)y / 140737488355328.0; }
};
extern Rngm model;
extern std::string hist;
inline bool nearU(double got, double want) { return std::fabs(got - want) <= 2.5e-7 * want + 1e-15 && got >= 0 && got <= 1; }
inline void checkSeed(const char* how) {
  Seed s; RNG::savern(s); vh::count("seed_checks");
  if (seedVal(s) != model.x) vh::fail("rng:seed", "%s: seed is %llx, the sequence is at %llx", (hist + how).c_str(), seedVal(s), model.x);
}
// what the model draws for a field type; advances
template <class T> void modelField(std::vector<std::vector<double>>& v, int words) {
  v.assign(geom.vol, std::vector<double>(words));
  for (int n = 0; n < geom.vol; ++n) { u64 y = mul47(model.x, model.skew[n]); for (int k = 0; k < words; ++k) { v[n][k] = model.u(y); y = mul47(y, model.an); } }
  for (int k = 0; k < words; ++k) model.x = mul47(model.x, model.an);
}
template <class T> void drawField(vh::Rng& g, const char* name) {
  Shape s = shape<typename ElemOf<T>::type>();
  T d; R old; fill(d, old, g, UNI);
  int form = g.range(0, 2); std::string what;
  Sub u = allsub(); const Subset* q = nullptr;
  if (form) { int k = g.range(0, (int)cx.pool->q.size() - 1); q = cx.pool->q[k]; u = cx.pool->r[k]; }
  hist += std::string(form ? "random(d,s) " : "random(d) ") + name + (form ? " " + u.name : std::string("")) + "; ";
  if (hist.size() > 400) hist = "... " + hist.substr(hist.size() - 300);
  if (form == 0) random(d); else random(d, *q);
  std::vector<std::vector<double>> v; modelField<T>(v, s.words);
  int in = 0;
  for (int lin = 0; lin < Layout::sitesOnNode(); ++lin) {
    int n = lin2lex[lin]; std::vector<double> w = getv(d, lin);
    if (u.in[n]) { ++in; for (int k = 0; k < s.words; ++k) if (!nearU(w[k], v[n][k])) { vh::fail("rng:field", "%s: site (%s) word %d: got %.9g want %.9g", hist.c_str(), vh::join(geom.coord(n)).c_str(), k, w[k], v[n][k]); return; } }
    else for (int c = 0, k = 0; c < old.nc(); ++c) { cd z = old.d[(size_t)n * old.nc() + c]; if (w[k++] != z.real() || (s.cplx && w[k++] != z.imag())) { vh::fail("rng:outside", "%s: site (%s) outside the subset changed", hist.c_str(), vh::join(geom.coord(n)).c_str()); return; } }
  }
  vh::count("field_draws"); vh::count("site_words_drawn", (u64)in * s.words); if (form) vh::count("subset_draws"); if (!in) vh::count("empty_draws");
  checkSeed("");
}
template <class T> void drawScalar(vh::Rng&, const char* name) {
  typedef SOf<T> S; Shape s = shape<typename ElemOf<T>::type>();
  S d; random(d); hist += std::string("random(scalar ") + name + "); ";
  std::vector<double> w = getv(d); u64 y = mul47(model.x, RA);
  for (int k = 0; k < s.words; ++k) { if (!nearU(w[k], model.u(y))) vh::fail("rng:scalar", "%s: word %d: got %.9g want %.9g", hist.c_str(), k, w[k], model.u(y)); y = mul47(y, RA); model.x = mul47(model.x, RA); }
  vh::count("scalar_draws"); checkSeed("");
}
template <class T> void drawGauss(vh::Rng& g, const char* name) {
  if (model.x == 0) return;
  Shape s = shape<typename ElemOf<T>::type>();
  T d; R old; fill(d, old, g, UNI);
  int form = g.range(0, 1); Sub u = allsub(); const Subset* q = nullptr;
  if (form) { int k = g.range(0, (int)cx.pool->q.size() - 1); q = cx.pool->q[k]; u = cx.pool->r[k]; }
  hist += std::string("gaussian ") + name + (form ? " " + u.name : std::string("")) + "; ";
  Seed keep; RNG::savern(keep);
  T r1, r2; random(r1); random(r2); // the uniform numbers, checked elsewhere, from the same seed
  RNG::setrn(keep);
  if (form == 0) gaussian(d); else gaussian(d, *q);
  std::vector<std::vector<double>> v; modelField<T>(v, s.words); modelField<T>(v, s.words);
  for (int lin = 0; lin < Layout::sitesOnNode(); ++lin) {
    int n = lin2lex[lin]; std::vector<double> w = getv(d, lin), a = getv(r1, lin), b = getv(r2, lin);
    for (int k = 0; k < s.words; ++k) {
      double want, tol;
      if (!u.in[n]) { cd z = old.d[(size_t)n * old.nc() + (s.cplx ? k / 2 : k)]; want = s.cplx && (k & 1) ? z.imag() : z.real(); tol = 0; }
      else { int e = s.cplx ? k & ~1 : k; double m = std::sqrt(-2 * std::log(a[e])); want = m * ((s.cplx && (k & 1)) ? std::sin(6.283185307179586 * b[e]) : std::cos(6.283185307179586 * b[e])); tol = 4e-6 * m; if (a[e] == 0) continue; }
      if (!(std::fabs(w[k] - want) <= tol)) { vh::fail(u.in[n] ? "rng:gaussian" : "rng:outside", "%s: site (%s) word %d: got %.9g want %.9g", hist.c_str(), vh::join(geom.coord(n)).c_str(), k, w[k], want); return; }
    }
  }
  vh::count("gaussian_draws"); checkSeed("");
}
typedef void (*DrawF)(vh::Rng&, const char*);
struct Drawer { DrawF f, s, g; const char* n; };
extern std::vector<Drawer> drawers;
#define DRAWER(T) drawers.push_back({&drawField<T>, &drawScalar<T>, &drawGauss<T>, #T})
} // namespace qx
#endif
