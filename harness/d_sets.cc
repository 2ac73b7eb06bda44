// USES qx ref
// C02: a Set partitions the sites according to its colouring function, and the
// subsets' tables say exactly which sites; copies are as good as the original.
#include "qx.h"
#include <memory>
using namespace qx;

struct Col : public SetFunc {
  int n, kind; uint64_t seed; std::vector<int> p;
  Col(int n_, int k_, uint64_t s_) : n(n_), kind(k_), seed(s_) { vh::Rng g(s_); for (int i = 0; i < 8; ++i) p.push_back(g.range(0, 7)); }
  int f(const std::vector<int>& c) const {
    int lex = geom.lex(c), s = 0;
    switch (kind) {
    case 0: return (int)(vh::mix(seed, lex) % n);                       // scattered
    case 1: return c[p[0] % Nd] % n;                                    // hyperplanes
    case 2: for (int i = 0; i < Nd; ++i) s += c[i] * p[i]; return s % n; // linear
    case 3: return (int)((long)lex * n / geom.vol);                     // slabs
    case 4: return (vh::mix(seed, lex) % n) & ~1;                       // odd colours unused
    case 5: return n - 1;                                               // all in the last
    case 6: { int lin = lex2lin[lex]; return lin < 0 ? 0 : (int)((long)lin * n / Layout::sitesOnNode()); } // contiguous in the layout
    default: { int lin = lex2lin[lex]; return lin < 0 ? 0 : (lin == p[1] || lin == p[2] ? 0 : n - 1); }      // a few single sites
    }
  }
  int operator()(const multi1d<int>& c) const { return f(sv(c)); }
  int numSubsets() const { return n; }
};

static const char* KN[] = {"scattered", "hyperplanes", "linear", "slabs", "unused colours", "one colour", "contiguous", "single sites"};

// what a Set claims, against the colouring
template <class F> static void checkSet(const char* tag, const Set& s, int n, F col) {
  std::string k = std::string("set-") + tag;
  const char* key = k.c_str();
  if (s.numSubsets() != n) { vh::fail(key, "numSubsets %d, expected %d", s.numSubsets(), n); return; }
  const multi1d<int>& lc = s.latticeColoring();
  if (lc.size() != Layout::sitesOnNode()) { vh::fail(key, "latticeColoring has %d entries", lc.size()); return; }
  std::vector<int> cnt(Layout::sitesOnNode(), 0);
  for (int lin = 0; lin < Layout::sitesOnNode(); ++lin) {
    int want = col(geom.coord(lin2lex[lin]));
    if (lc[lin] != want) { vh::fail(key, "colouring of site %s is %d, the function says %d", vh::join(geom.coord(lin2lex[lin])).c_str(), lc[lin], want); return; }
  }
  for (int c = 0; c < n; ++c) {
    const Subset& u = s[c];
    if (u.color() != c) vh::fail(key, "subset %d has colour %d", c, u.color());
    if (&u.getSet() != &s) vh::fail((k + "-owner").c_str(), "subset %d belongs to another set", c);
    int m = u.numSiteTable();
    if (u.siteTable().size() != m) vh::fail(key, "numSiteTable");
    bool contig = m > 0;
    for (int i = 0; i < m; ++i) {
      int lin = u.siteTable()[i];
      if (lin < 0 || lin >= Layout::sitesOnNode()) { vh::fail(key, "site table of %d holds %d", c, lin); return; }
      ++cnt[lin];
      if (lc[lin] != c) { vh::fail(key, "site %d is listed in subset %d, its colour is %d", lin, c, lc[lin]); return; }
      if (i && lin != u.siteTable()[i - 1] + 1) contig = false;
      vh::count("table_entries");
    }
    if (u.hasOrderedRep()) {
      vh::count("ordered_subsets");
      // an ordered subset is walked as start..end
      if (m == 0 || !contig || u.start() != u.siteTable()[0] || u.end() != u.siteTable()[m - 1])
        vh::fail(key, "subset %d of %d sites claims the range %d..%d", c, m, u.start(), u.end());
    } else vh::count("unordered_subsets");
  }
  for (int lin = 0; lin < Layout::sitesOnNode(); ++lin) if (cnt[lin] != 1) { vh::fail(key, "site %d is in %d subsets", lin, cnt[lin]); break; }
  vh::count("sets");
}
// an operation over each subset touches exactly its sites
template <class F> static void useSet(const char* tag, const Set& s, int n, F col, vh::Rng& g) {
  std::string k = std::string("use-") + tag;
  LatticeReal a; a = Real(0);
  LatticeInteger b; b = Integer(-1);
  for (int c = 0; c < n; ++c) { a[s[c]] += Real(1 + c); b[s[c]] = Integer(c); }
  for (int lin = 0; lin < Layout::sitesOnNode(); ++lin) {
    int want = col(geom.coord(lin2lex[lin]));
    if (getv(a, lin)[0] != 1 + want || getv(b, lin)[0] != want) { vh::fail(k.c_str(), "site %s of colour %d was written %g/%g", vh::join(geom.coord(lin2lex[lin])).c_str(), want, getv(a, lin)[0], getv(b, lin)[0]); break; }
  }
  std::vector<double> tot(n, 0.0);
  R ra; LatticeReal d; fill(d, ra, g, INTS);
  for (int x = 0; x < geom.vol; ++x) tot[col(geom.coord(x))] += ra.d[x].real();
  multi1d<Double> sm = sumMulti(d, s);
  if (sm.size() != n) vh::fail(k.c_str(), "sumMulti returns %d sums", sm.size());
  for (int c = 0; c < n; ++c) {
    if (getv(sm[c])[0] != tot[c]) vh::fail(k.c_str(), "sumMulti[%d]=%g, expected %g", c, getv(sm[c])[0], tot[c]);
    Double one = sum(d, s[c]);
    if (getv(one)[0] != tot[c]) vh::fail(k.c_str(), "sum over subset %d = %g, expected %g", c, getv(one)[0], tot[c]);
  }
  vh::count("subset_ops", n);
}

struct Nothing {};

int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("4,4,2,4");
  vh::Rng g(vh::opt.seed);
  auto rbf = [](const std::vector<int>& c) { return (c[0] + c[1] + c[2] + c[3]) & 1; };
  auto rb3f = [](const std::vector<int>& c) { return (c[0] + c[1] + c[2]) & 1; };
  auto mcbf = [](const std::vector<int>& c) { int q = 0, h = 0; for (int m = 0; m < 4; ++m) { q += (c[m] & 1) << m; h += c[m] / 2; } return q + ((h & 1) << 4); };
  vh::begin(0, "predefined sets on %s", vh::join(geom.L).c_str());
  checkSet("rb", rb, 2, rbf); checkSet("rb3", rb3, 2, rb3f); checkSet("mcb", mcb, 32, mcbf);
  useSet("rb", rb, 2, rbf, g); useSet("rb3", rb3, 2, rb3f, g); useSet("mcb", mcb, 32, mcbf, g);
  { // all, even, odd
    if (all.numSiteTable() != Layout::sitesOnNode()) vh::fail("all", "all has %d sites", all.numSiteTable());
    LatticeInteger a; a = Integer(0); a[all] += Integer(1); a[even] += Integer(10); a[odd] += Integer(100);
    for (int lin = 0; lin < Layout::sitesOnNode(); ++lin) { int p = rbf(geom.coord(lin2lex[lin])); if (getv(a, lin)[0] != (p ? 101 : 11)) { vh::fail("evenodd", "site %s got %g", vh::join(geom.coord(lin2lex[lin])).c_str(), getv(a, lin)[0]); break; } }
    if (even.color() != 0 || odd.color() != 1) vh::fail("evenodd", "colours %d %d", even.color(), odd.color());
    checkSet("all", all.getSet(), 1, [](const std::vector<int>&) { return 0; });
  }
  vh::distinct("predefined");
  for (int k = 1; k <= vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    vh::Rng h(vh::mix(vh::opt.seed, k));
    int n = h.range(1, h.coin() ? 4 : 17), kind = h.range(0, 7);
    Col f(n, kind, h.next());
    if (kind == 4 && n > 1) {}
    vh::begin(k, "set of %d colours, %s, lattice %s", n, KN[kind], vh::join(geom.L).c_str());
    vh::distinct(vh::current() + std::to_string(f.seed));
    auto cf = [&](const std::vector<int>& c) { return f.f(c); };
    std::unique_ptr<Set> s(h.coin() ? new Set(f) : new Set);
    if (s->numSubsets() == 0) s->make(f);
    checkSet("made", *s, n, cf); useSet("made", *s, n, cf, h);
    if (h.range(0, 3) == 0) { // remade with another colouring
      Col f2(h.range(1, 6), h.range(0, 7), h.next());
      auto c2 = [&](const std::vector<int>& c) { return f2.f(c); };
      s->make(f2); checkSet("remade", *s, f2.n, c2); useSet("remade", *s, f2.n, c2, h);
      s->make(f); checkSet("remade", *s, n, cf);
    }
    // subsets are handles: copies of a subset name the same sites
    { int c = h.range(0, n - 1); Subset a((*s)[c]), b; b = (*s)[c]; Subset d; d.make((*s)[c]);
      for (const Subset* q : {&a, &b, &d}) if (q->numSiteTable() != (*s)[c].numSiteTable() || q->color() != c || q->hasOrderedRep() != (*s)[c].hasOrderedRep() || q->start() != (*s)[c].start() || q->end() != (*s)[c].end() || &q->getSet() != s.get()) vh::fail("subset-copy", "copy of subset %d differs", c);
    }
    // copies of a set live on their own
    if (vh::opt.geti("copies", 1)) {
      std::unique_ptr<Set> t;
      if (h.coin()) t.reset(new Set(*s));
      else { t.reset(new Set); if (h.coin()) { Col f3(h.range(1, 6), 0, 7); t->make(f3); } *t = *s; }
      int order = h.range(0, 2);
      if (order == 0) s.reset();                                   // the original goes away
      if (order == 1) { Col f4(h.range(1, 9), h.range(0, 7), h.next()); s->make(f4); } // the original is remade
      checkSet("copy", *t, n, cf); useSet("copy", *t, n, cf, h);
      if (h.coin()) { *t = *static_cast<const Set*>(t.get()); checkSet("self", *t, n, cf); }
      vh::count("set_copies");
    }
    vh::sample("%s", vh::current().c_str());
  }
  qx::stop();
  return vh::finish();
}
