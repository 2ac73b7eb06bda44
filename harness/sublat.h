#ifndef SUBLAT_H
#define SUBLAT_H
#include "ex.h"
#include <sys/wait.h>
#include <unistd.h>
#include <functional>
namespace qx {
extern Pool* subs;
extern std::string hist;
void lg(const char* f, ...) __attribute__((format(printf, 1, 2)));
int offer(std::function<void()> f, std::string* out);
void refuse(const char* what, std::function<void()> f);
template <class T> void words(T& x, vh::Rng& g, int lo, int hi) { typedef typename WordType<T>::Type_t W; W* p = (W*)&x; for (size_t k = 0; k < sizeof(T) / sizeof(W); ++k) p[k] = (W)g.range(lo, hi); }
template <class T> void whole(OLattice<T>& a, vh::Rng& g, int lo, int hi) { for (int i = 0; i < Layout::sitesOnNode(); ++i) words(a.elem(i), g, lo, hi); }
template <class T> void whole(OScalar<T>& a, vh::Rng& g, int lo, int hi) { words(a.elem(), g, lo, hi); }
// equal as numbers, word by word
template <class T> bool eqel(const T& a, const T& b) { typedef typename WordType<T>::Type_t W; const W *p = (const W*)&a, *q = (const W*)&b; for (size_t k = 0; k < sizeof(T) / sizeof(W); ++k) if (!(p[k] == q[k])) return false; return true; }
// KIND: 0 floating, 1 integer, 2 boolean, 3 floating vectors (no numbers among them)
template <class T, int KIND> struct Sl {
  typedef OLattice<T> L; typedef OScalar<T> C; typedef OSubLattice<T> S; typedef typename WordType<T>::Type_t W;
  struct E { std::unique_ptr<S> s; int u = 0; L m; };
  vh::Rng& g; std::vector<std::unique_ptr<E>> v; uint64_t f0; static constexpr bool FL = KIND == 0 || KIND == 3; int lo = FL ? -2 : 0, hi = FL ? 2 : KIND == 1 ? 9 : 1;
  explicit Sl(vh::Rng& r) : g(r), f0(vh::failures()) {}
  const Subset& sub(int u) { return *subs->q[u]; }
  bool in(int u, int lin) { return subs->r[u].in[lin2lex[lin]]; }
  int anyu() { return g.range(0, (int)subs->q.size() - 1); }
  bool ok() { return vh::failures() == f0; }
  // where the coordinates say the subset is, the sites take src; elsewhere they keep dst
  void masked(int u, L& dst, const L& src) { for (int i = 0; i < Layout::sitesOnNode(); ++i) if (in(u, i)) dst.elem(i) = src.elem(i); }
  bool same(const L& a, const L& b) { for (int i = 0; i < Layout::sitesOnNode(); ++i) if (!eqel(a.elem(i), b.elem(i))) return false; return true; }
  void keepsmall(E& e) { // values stay exactly representable
    typedef typename WordType<T>::Type_t W; if constexpr (KIND == 2) return; bool big = false; for (int j = 0; j < sub(e.u).numSiteTable() && !big; ++j) { const W* p = (const W*)&e.s->getF()[j]; for (size_t k = 0; k < sizeof(T) / sizeof(W); ++k) if (p[k] > W(1000000) || p[k] < W(-1000000)) { big = true; break; } }
    if (big) { lg("reset "); L a; whole(a, g, lo, hi); *e.s = a; e.m = a; }
  }
  void check(E& e, const char* w) {
    if (!ok()) return;
    const Subset& s = sub(e.u); vh::count("fields_compared"); vh::count("sites_compared", s.numSiteTable());
    if (!e.s->getOwnsMemory() || &e.s->subset() != &s) { vh::fail("sublat:subset", "%s: not the owner, or on another subset, after %s", w, hist.c_str()); return; }
    for (int j = 0; j < s.numSiteTable(); ++j) if (!eqel(e.s->getF()[j], e.m.elem(s.siteTable()[j]))) { vh::fail("sublat:value", "%s: entry %d of %d differs from the full field there (subset %s) after %s", w, j, s.numSiteTable(), subs->r[e.u].name.c_str(), hist.c_str()); return; }
  }
  void full(const L& a, const L& b, const char* w, int u) { if (ok() && !same(a, b)) vh::fail("sublat:full", "%s: the full field is wrong (subset %s) after %s", w, subs->r[u].name.c_str(), hist.c_str()); vh::count("full_fields_compared"); }
  E& any() { return *v[g.range(0, (int)v.size() - 1)]; }
  void make(int how) {
    std::unique_ptr<E> e(new E); int u = anyu(); L a; whole(a, g, lo, hi);
    if (how == 0 && !v.empty()) { E& o = any(); lg("copy "); e->u = o.u; e->m = o.m; e->s.reset(new S(*o.s)); }
    else if (how == 1) { lg("new(%s,field) ", subs->r[u].name.c_str()); e->u = u; e->m = a; e->s.reset(new S(sub(u), a)); }
    else { lg("new;set(%s) ", subs->r[u].name.c_str()); e->u = u; e->m = a; e->s.reset(new S()); e->s->setSubset(sub(u)); *e->s = a; }
    vh::count("fields_made"); check(*e, "a new field"); v.push_back(std::move(e));
  }
  // x = or op= something, for a field on a subset, a view of a full one, and the full reference alike
  template <class X> void stmt(X& x, int k, const L& a, const L& b, const C& c, int mu, int dir) {
    if constexpr (FL) switch (k) {
      case 0: x = a; break; case 1: x = a + b; break; case 2: x = a - shift(b, dir, mu); break; case 3: x = c; break; case 4: if constexpr (KIND == 0) x = W(3); else x = b; break; case 5: x = zero; break;
      case 6: x += a; break; case 7: x -= a - b; break; case 8: x += c; break; case 9: x *= Real(2); break; case 10: x /= Real(2); x *= Real(2); break; case 11: x = Real(3) * a; break; case 12: x += Real(2) * shift(a, dir, mu); break;
      case 13: x -= c; break; case 14: x *= W(2); break; case 15: x = c + c; break; case 16: x -= c - c + c; break; case 17: if constexpr (KIND == 0) x += W(1); break; case 18: if constexpr (KIND == 0) x -= W(2); break; case 19: x = -a; break; default: x = a; }
    else if constexpr (KIND == 1) switch (k) {
      case 0: x = a; break; case 1: x = a + b; break; case 2: x = a - shift(b, dir, mu); break; case 3: x = c; break; case 4: x = W(3); break; case 5: x = zero; break;
      case 6: x += a; break; case 7: x -= a - b; break; case 8: x += c; break; case 9: x *= C(W(2)); break; case 10: x /= C(W(2)); break; case 11: x = a * b; break; case 12: x %= C(W(7)); break;
      case 13: x |= a; break; case 14: x &= a + b; break; case 15: x ^= a; break; case 16: x |= a + b; break; case 17: x |= c; break; case 18: x &= c; break; case 19: x ^= a + b; break;
      case 20: x = C(W(3)); x <<= a; break; case 21: x = a; x >>= c; break; case 22: x += W(2); break; case 23: x %= W(5); break; case 24: x |= W(4); break; case 25: x ^= c; break; case 26: x &= W(6); break; default: x = a; }
    else switch (k) {
      case 0: x = a; break; case 1: x = a || b; break; case 2: x = a && !shift(b, dir, mu); break; case 3: x = c; break; case 4: x = W(true); break; case 5: x = W(false); break; case 6: x |= a; break; case 7: x &= b; break; case 8: x ^= a || b; break; case 9: x |= c; break; case 10: x &= a && b; break; case 11: x |= a && b; break; default: x = a; }
  }
  int kinds() { return FL ? 20 : KIND == 1 ? 27 : 12; }
  void statement() {
    E& e = any(); L a, b; C c; whole(a, g, lo, hi); whole(b, g, lo, hi); whole(c, g, KIND == 1 ? 1 : lo, KIND == 1 ? 6 : hi); int k = g.range(0, kinds() - 1), mu = g.range(0, Nd - 1), dir = g.coin() ? FORWARD : BACKWARD;
    lg("s%d ", k); vh::count("statements"); L t = e.m; stmt(t, k, a, b, c, mu, dir); masked(e.u, e.m, t); stmt(*e.s, k, a, b, c, mu, dir); check(e, "statement"); keepsmall(e);
  }
  void view() {
    int u = anyu(); L a, b, d; C c; whole(d, g, KIND == 1 ? 0 : lo, hi); whole(a, g, lo, hi); whole(b, g, lo, hi); whole(c, g, KIND == 1 ? 1 : lo, KIND == 1 ? 6 : hi); int k = g.range(0, kinds() - 1), mu = g.range(0, Nd - 1), dir = g.coin() ? FORWARD : BACKWARD;
    lg("view%d ", k); vh::count("view_statements"); L t = d, w = d; stmt(t, k, a, b, c, mu, dir); masked(u, w, t); S x = d[sub(u)]; S y(x); stmt(y, k, a, b, c, mu, dir); full(d, w, "a statement through a view", u);
    if (ok() && (x.getOwnsMemory() || y.getOwnsMemory() || &y.subset() != &sub(u))) vh::fail("sublat:subset", "a view owns its sites or is on another subset");
  }
  void back() { E& e = any(); L d, w; whole(d, g, lo, hi); w = d; lg("full=own "); vh::count("back_assignments"); masked(e.u, w, e.m); d = *e.s; full(d, w, "full = field on a subset", e.u); check(e, "full = own"); }
  void across() {
    E &x = any(), &y = any(); const Subset &p = sub(x.u), &q = sub(y.u);
    if (p.numSiteTable() != q.numSiteTable()) { lg("bad= "); S *a = x.s.get(), *b = y.s.get(); refuse("assigning a field to one on a subset of another size", [=] { *a = *b; }); check(x, "refused assignment"); return; }
    lg("own=own "); vh::count("own_assignments"); L t = x.m; for (int j = 0; j < p.numSiteTable(); ++j) t.elem(p.siteTable()[j]) = y.m.elem(q.siteTable()[j]); *x.s = *y.s; x.m = t; check(x, "own = own"); check(y, "own = own, the source");
    // they stay independent
    if (&x != &y && p.numSiteTable() > 0) { L a; whole(a, g, lo, hi); L t2 = x.m; masked(x.u, t2, a); *x.s = a; x.m = t2; check(y, "the source of an assignment, after the target changed"); check(x, "a target changed"); }
  }
  void again() { E& e = any(); int u = anyu(); lg("set(%s) ", subs->r[u].name.c_str()); L a; whole(a, g, lo, hi); e.s->setSubset(sub(u)); *e.s = a; e.u = u; e.m = a; vh::count("resets"); check(e, "setSubset"); }
  void reductions() {
    if constexpr (FL) {
      E& e = any(); lg("sum "); auto r = sum(*e.s); typename UnaryReturn<L, FnSum>::Type_t w; zero_rep(w.elem()); for (int i = 0; i < Layout::sitesOnNode(); ++i) if (in(e.u, i)) w.elem() += e.m.elem(i); vh::count("sums"); if (ok() && !eqel(r.elem(), w.elem())) vh::fail("sublat:sum", "the sum of a field on %d sites (%s) is wrong after %s", sub(e.u).numSiteTable(), subs->r[e.u].name.c_str(), hist.c_str());
      L d; whole(d, g, lo, hi); int u = anyu(); S x = d[sub(u)]; auto r2 = sum(x); zero_rep(w.elem()); for (int i = 0; i < Layout::sitesOnNode(); ++i) if (in(u, i)) w.elem() += d.elem(i); vh::count("view_sums"); if (ok() && !eqel(r2.elem(), w.elem())) vh::fail("sublat:view-sum", "the sum over a view of %s is wrong", subs->r[u].name.c_str());
    }
  }
  void inner() {
    if constexpr (FL) {
      E& e = any(); L d; whole(d, g, lo, hi); keepsmall(e); lg("inner "); vh::count("inner_products");
      auto l1 = localInnerProduct(*e.s, d); auto l2 = localInnerProduct(d, *e.s); typename BinaryReturn<L, L, FnLocalInnerProduct>::Type_t w1, w2; w1 = localInnerProduct(e.m, d); w2 = localInnerProduct(d, e.m); const Subset& s = sub(e.u);
      if (&l1.subset() != &s || &l2.subset() != &s || !l1.getOwnsMemory()) vh::fail("sublat:subset", "a local inner product lives on another subset");
      else for (int j = 0; j < s.numSiteTable(); ++j) if (!eqel(l1.getF()[j], w1.elem(s.siteTable()[j])) || !eqel(l2.getF()[j], w2.elem(s.siteTable()[j]))) { vh::fail("sublat:inner", "a local inner product with a full field is wrong at entry %d of %d", j, s.numSiteTable()); break; }
      auto i1 = innerProduct(*e.s, d); auto i2 = innerProduct(d, *e.s); decltype(i1) x1; decltype(i2) x2; zero_rep(x1.elem()); zero_rep(x2.elem()); for (int i = 0; i < Layout::sitesOnNode(); ++i) if (in(e.u, i)) { x1.elem() += w1.elem(i); x2.elem() += w2.elem(i); }
      if (ok() && (!eqel(i1.elem(), x1.elem()) || !eqel(i2.elem(), x2.elem()))) vh::fail("sublat:inner", "an inner product with a full field over %s is wrong", subs->r[e.u].name.c_str());
    }
  }
  void arrays() {
    int u = anyu(); const Subset& s = sub(u); int n = Layout::sitesOnNode(); L d, w; whole(d, g, lo, hi); multi1d<C> a(n), b(n); for (int i = 0; i < n; ++i) { whole(a[i], g, lo, hi); b[i] = a[i]; } lg("extract "); vh::count("extractions");
    QDP_extract(a, d, s); for (int i = 0; i < n && ok(); ++i) if (!eqel(a[i].elem(), in(u, i) ? d.elem(i) : b[i].elem())) vh::fail("sublat:extract", "QDP_extract over %s is wrong at site %d", subs->r[u].name.c_str(), i);
    for (int i = 0; i < n; ++i) whole(b[i], g, lo, hi); w = d; for (int i = 0; i < n; ++i) if (in(u, i)) w.elem(i) = b[i].elem(); QDP_insert(d, b, s); full(d, w, "QDP_insert", u);
  }
  void bad() {
    E& e = any(); S* o = e.s.get(); L d, f; whole(d, g, lo, hi); f = d; const Subset& s = sub(anyu()); int k = g.range(0, 4);
    switch (k) { case 0: refuse("assigning a view to a view", [&] { d[s] = f[s]; }); break; case 1: refuse("assigning a view to a field on a subset", [&] { *o = d[e.s->subset()]; }); break; case 2: refuse("assigning a view to a full field", [&] { f = d[s]; }); break; case 3: refuse("setting the subset of a view", [&] { S x = d[s]; x.setSubset(s); }); break; default: if constexpr (FL) refuse("a local inner product with a view", [&] { S x = d[s]; auto y = localInnerProduct(x, f); (void)y; }); }
    check(e, "refused operations");
  }
  void run(int len, std::function<void(Sl&)> extra = nullptr) {
    make(1); make(2);
    for (int q = 0; q < len && ok(); ++q) {
      int op = g.range(0, 17); if (v.size() > 4) { lg("gone "); v.erase(v.begin() + g.range(0, (int)v.size() - 1)); for (auto& e : v) check(*e, "after another was destroyed"); }
      switch (op) { case 0: case 1: make(g.range(0, 2)); break; case 2: case 3: case 4: case 5: case 6: statement(); break; case 7: view(); break; case 8: back(); break; case 9: case 10: across(); break; case 11: again(); break; case 12: reductions(); break; case 13: inner(); break; case 14: arrays(); break; case 15: if (g.range(0, 3) == 0) bad(); break; default: if (extra) extra(*this); else statement(); }
    }
    for (auto& e : v) check(*e, "at the end");
  }
};
// poke through a field on a subset or a view; P(target, source) and the same on a full field
template <class SL, class F, class Src, class P> void pokes(SL& h, const char* w, P p) {
  typedef typename SL::L L; auto& e = h.any(); Src r; whole(r, h.g, -2, 2); lg("%s ", w); vh::count("pokes");
  L t = e.m; p(t, r); h.masked(e.u, e.m, t); p(*e.s, r); h.check(e, w);
  int u = h.anyu(); L d, x; whole(d, h.g, -2, 2); x = d; t = d; p(t, r); h.masked(u, x, t); auto y = d[h.sub(u)]; p(y, r); h.full(d, x, w, u);
}
} // namespace qx
#endif
