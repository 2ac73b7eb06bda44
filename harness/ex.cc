#include "ex.h"
namespace qx {
Ctx cx;
Part* Part::head = nullptr;
bool startEx(const std::string& name, Mode m) {
  int k = cx.n++;
  if (vh::opt.only >= 0 && vh::opt.only != k) return false;
  static const char* MN[] = {"small integers", "uniform", "wide range"};
  vh::begin(k, "%s, %s, lattice %s", name.c_str(), MN[m], vh::join(geom.L).c_str());
  vh::distinct(name + MN[m]);
  if (k % 37 == 0) vh::sample("%s", vh::current().c_str());
  vh::count("expressions");
  return true;
}
struct HashFunc : public SetFunc {
  uint64_t seed; int n, mode;
  HashFunc(uint64_t s, int n_, int m) : seed(s), n(n_), mode(m) {}
  int col(int lex) const {
    std::vector<int> c = geom.coord(lex);
    switch (mode) {
    case 0: return (int)(vh::mix(seed, lex) % n);                 // scattered
    case 1: return lex == (int)(seed % geom.vol) ? 0 : 1;          // one site / all but one (colour 2 empty)
    case 2: return c[seed % Nd] % n;                              // planes
    default: return (int)((long)lex * n / geom.vol);              // lexicographic blocks
    }
  }
  int operator()(const multi1d<int>& c) const { return col(geom.lex(sv(c))); }
  int numSubsets() const { return n; }
};
void Pool::make(vh::Rng& g, int nrandom) {
  q.push_back(&all); r.push_back(allsub());
#if !defined(QDP_NO_CB)
  q.push_back(&rb[0]); r.push_back(evenodd(0));
  q.push_back(&rb[1]); r.push_back(evenodd(1));
#endif
  static const char* KN[] = {"scattered", "single", "planes", "blocks"};
  for (int i = 0; i < nrandom; ++i) {
    int mode = i % 4;
    HashFunc f(g.next(), mode == 1 ? 3 : g.range(2, 5), mode);
    sets.push_back(std::unique_ptr<Set>(new Set(f)));
    for (int c = 0; c < f.n; ++c) {
      Sub u; u.in.assign(geom.vol, 0); u.name = KN[mode] + std::string(":") + std::to_string(c);
      for (int x = 0; x < geom.vol; ++x) u.in[x] = f.col(x) == c;
      q.push_back(&(*sets.back())[c]); r.push_back(u);
    }
  }
}
void runParts() {
  std::string p = vh::opt.gets("part", "");
  std::vector<Part*> v;
  for (Part* x = Part::head; x; x = x->next) v.push_back(x);
  std::sort(v.begin(), v.end(), [](Part* a, Part* b) { return std::string(a->name) < b->name; });
  for (Part* x : v) { if (!p.empty() && p != x->name) continue; x->f(); }
}
} // namespace qx
