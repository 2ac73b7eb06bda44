#include "qx.h"
namespace qx {
std::vector<int> lin2lex, lex2lin;

double rnd(vh::Rng& g, Mode m) {
  switch (m) {
  case INTS: return g.range(-3, 3);
  case UNI: return g.sym();
  default: { int e = g.range(-8, 8); if (g.range(0, 15) == 0) return 0; return std::ldexp(g.sym(), e); }
  }
}
void startGeometry() {
  std::vector<int> L = sv(Layout::lattSize());
  geom.set(L);
  lin2lex.assign(Layout::sitesOnNode(), -1);
  lex2lin.assign(geom.vol, -1);
  for (int i = 0; i < Layout::sitesOnNode(); ++i) {
    int x = geom.lex(sv(Layout::siteCoords(Layout::nodeNumber(), i)));
    lin2lex[i] = x; lex2lin[x] = i;
  }
}
void start(const char* dflt) {
  if (vh::opt.latt.empty()) { const char* p = dflt; while (*p) { vh::opt.latt.push_back(strtol(p, (char**)&p, 10)); if (*p) ++p; } }
  static std::vector<std::string> a; static std::vector<char*> av;
  a.push_back("x");
  std::string gm = vh::opt.gets("geom", "");
  if (!gm.empty()) { a.push_back("-geom"); std::stringstream ss(gm); std::string t; while (std::getline(ss, t, ',')) a.push_back(t); }
  std::string ex = vh::opt.gets("qdpargs", "");
  if (!ex.empty()) { std::stringstream ss(ex); std::string t; while (std::getline(ss, t, ',')) a.push_back(t); }
  for (auto& s : a) av.push_back((char*)s.c_str());
  av.push_back(nullptr);
  int ac = (int)av.size() - 1; char** p = av.data();
  QDP_initialize(&ac, &p);
  if (Layout::numNodes() > 1) vh::reopen(".node" + std::to_string(Layout::nodeNumber()));
  Layout::setLattSize(mv(vh::opt.latt));
  Layout::create();
  startGeometry();
#if defined(QDP_USE_PROFILING)
  QDP_PUSH_PROFILE(vh::opt.geti("prof", 1));
#endif
}
void stop() { QDP_finalize(); }

bool cmpWords(const char* key, const Shape& s, const std::vector<double>& w, const R& r, int site, double K, const char* what, double eps) {
  if (eps == 0) eps = s.eps;
  double lim = eps > 1e-10 ? 16777216.0 : 9e15;
  size_t p = 0;
  for (int k = 0; k < r.nc(); ++k) {
    size_t q = (size_t)(r.ns == 1 ? 0 : site) * r.nc() + k;
    for (int h = 0; h < (s.cplx ? 2 : 1); ++h) {
      double got = w[p++], want = h ? r.d[q].imag() : r.d[q].real(), mag = r.m[q];
      bool ok;
      if (s.isint || s.isbool) ok = got == want;
      else if (std::isnan(want) || std::isinf(want)) ok = std::isnan(want) ? std::isnan(got) : got == want;
      else if (r.exact && mag < lim) ok = got == want;
      else ok = std::fabs(got - want) <= K * eps * mag + (eps > 1e-10 ? 1e-37 : 1e-300);
      if (!ok) {
        std::vector<int> c; if (r.ns > 1) c = geom.coord(site);
        vh::fail(key, "%s: site (%s) component %d%s: got %.17g want %.17g (|.|<=%.3g, %s)", what, vh::join(c).c_str(), k, h ? "i" : "", got, want, mag, r.exact && mag < lim ? "exact" : "rounded");
        return false;
      }
    }
  }
  return true;
}
Sub subOf(const Subset& s) {
  Sub u; u.in.assign(geom.vol, 0); u.name = "subset";
  const int* t = s.siteTable().slice();
  for (int i = 0; i < s.numSiteTable(); ++i) u.in[lin2lex[t[i]]] = 1;
  return u;
}
} // namespace qx
