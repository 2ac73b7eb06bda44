#include "stm.h"
using namespace qx;
template <class D> static void family(const char* tn) {
  typedef typename ElemOf<D>::type T; typedef OScalar<T> S;
  auto nm = [&](const char* s) { return std::string(s) + " " + tn; };
  Shape sh = shape<T>();
  int n = (int)cx.pool->q.size();
  if (startEx(nm("zero"), cx.m)) { // zero, zero_rep
    D d; R rd; fill(d, rd, cx.g, WILD); R z = rd; std::fill(z.d.begin(), z.d.end(), cd(0)); std::fill(z.m.begin(), z.m.end(), 0.0); z.exact = true;
    D e; e = zero; eq(cx.key, e, z, "= zero"); zero_rep(d); eq(cx.key, d, z, "zero_rep");
    for (int k = 0; k < n; ++k) { const Sub& u = cx.pool->r[k]; for (int v = 0; v < 2; ++v) { fill(d, rd, cx.g, WILD); if (v) d[*cx.pool->q[k]] = zero; else zero_rep(d, *cx.pool->q[k]);
      for (int i = 0; i < rd.ns; ++i) for (int c = 0; c < rd.nc(); ++c) { size_t x = (size_t)i * rd.nc() + c; if (u.in[i]) rd.d[x] = 0; rd.m[x] = 0; } eq(cx.key, d, rd, ("zero on " + u.name).c_str()); } }
    vh::count("zeroed", 2 * n + 2);
    S s; R rs; fill(s, rs, cx.g, WILD); s = zero; eq(cx.key, s, mapc(rs, [](cd) { return cd(0); }), "scalar = zero");
  }
  if (startEx(nm("copies"), cx.m)) { // construction, assignment, self-assignment
    D a; R ra; fill(a, ra, cx.g, WILD); for (auto& x : ra.m) x = 0;
    D b(a); eq(cx.key, b, ra, "copy construction"); D c; c = a; eq(cx.key, c, ra, "assignment"); D* pa = &a; a = *pa; eq(cx.key, a, ra, "self-assignment");
    D e(+a); eq(cx.key, e, ra, "construction from an expression"); 
    S s; R rs; fill(s, rs, cx.g, WILD); for (auto& x : rs.m) x = 0; D f; f = s; R rf = ra; rf = rs; eq(cx.key, f, rf, "constant field"); S s2(s); eq(cx.key, s2, rs, "scalar copy"); S s3; s3 = s2; eq(cx.key, s3, rs, "scalar assignment");
    b = zero; eq(cx.key, a, ra, "the copied field is independent of its copy");
    { multi1d<D> m(3); m[1] = a; multi1d<D> m2; m2 = m; m = zero; eq(cx.key, m2[1], ra, "in an array"); m2.resize(1); }
    // from one subset to the same one
    for (int k = 0; k < n; ++k) { D d; R rd; fill(d, rd, cx.g, WILD); d[*cx.pool->q[k]] = a; const Sub& u = cx.pool->r[k]; for (int i = 0; i < rd.ns; ++i) for (int q = 0; q < rd.nc(); ++q) { size_t x = (size_t)i * rd.nc() + q; if (u.in[i]) rd.d[x] = ra.d[x]; rd.m[x] = 0; } eq(cx.key, d, rd, ("copied on " + u.name).c_str());
      fill(d, rd, cx.g, WILD); d[*cx.pool->q[k]] = s; for (int i = 0; i < rd.ns; ++i) for (int q = 0; q < rd.nc(); ++q) { size_t x = (size_t)i * rd.nc() + q; if (u.in[i]) rd.d[x] = rf.d[x]; rd.m[x] = 0; } eq(cx.key, d, rd, ("constant on " + u.name).c_str()); vh::count("subset_statements", 2); }
  }
  if (startEx(nm("copymask"), cx.m)) {
    for (int rep = 0; rep < 2; ++rep) { D d, a; R rd, ra; LatticeBoolean m; R rm; fill(d, rd, cx.g, WILD); fill(a, ra, cx.g, WILD); fill(m, rm, cx.g, cx.m);
      if (rep) { int k = cx.g.range(0, n - 1); const Sub& u = cx.pool->r[k]; LatticeBoolean mm = m; mm = false; mm[*cx.pool->q[k]] = m; copymask(d, mm, a); for (int i = 0; i < rd.ns; ++i) for (int q = 0; q < rd.nc(); ++q) { size_t x = (size_t)i * rd.nc() + q; if (u.in[i] && rm.d[i] != 0.0) rd.d[x] = ra.d[x]; rd.m[x] = 0; } eq(cx.key, d, rd, ("copymask on " + u.name).c_str()); }
      else { copymask(d, m, a); for (int i = 0; i < rd.ns; ++i) for (int q = 0; q < rd.nc(); ++q) { size_t x = (size_t)i * rd.nc() + q; if (rm.d[i] != 0.0) rd.d[x] = ra.d[x]; rd.m[x] = 0; } eq(cx.key, d, rd, "copymask"); }
      vh::count("masked_copies"); }
  }
  if (startEx(nm("sites"), cx.m)) { // one site at a time
    D d; R rd; fill(d, rd, cx.g, WILD); for (auto& x : rd.m) x = 0;
    for (int t = 0; t < 12; ++t) {
      int x = cx.g.range(0, geom.vol - 1); multi1d<int> c = mv(geom.coord(x));
      S s; s = peekSite(d, c); R rs; shapeR(rs, sh, 1); for (int k = 0; k < rs.nc(); ++k) rs.d[k] = rd.d[(size_t)x * rd.nc() + k]; eq(cx.key, s, rs, "peekSite");
      s = peekSite(-d, c); for (auto& v : rs.d) v = -v; if (!sh.isbool) eq(cx.key, s, rs, "peekSite of an expression");
      S w; R rw; fill(w, rw, cx.g, WILD); pokeSite(d, w, c); for (int k = 0; k < rs.nc(); ++k) rd.d[(size_t)x * rd.nc() + k] = rw.d[k]; eq(cx.key, d, rd, "pokeSite");
      vh::count("site_accesses", 3);
    }
  }
}
template <class D> static void fam2(const char* tn) { // not for bool
  family<D>(tn);
}
static void doPoke(LatticeColorMatrix& d, LatticeComplex& v, int i, int j, const Subset* s, R&) { if (s) pokeColor(d[*s], v, i, j); else pokeColor(d, v, i, j); }
static void doPoke(LatticeColorVector& d, LatticeComplex& v, int i, int, const Subset* s, R&) { if (s) pokeColor(d[*s], v, i); else pokeColor(d, v, i); }
static void doPoke(LatticeSpinMatrix& d, LatticeComplex& v, int i, int j, const Subset* s, R&) { if (s) pokeSpin(d[*s], v, i, j); else pokeSpin(d, v, i, j); }
static void doPoke(LatticeFermion& d, LatticeColorVector& v, int i, int, const Subset* s, R&) { if (s) pokeSpin(d[*s], v, i); else pokeSpin(d, v, i); }
static void doPoke(LatticeFermion& d, LatticeSpinVector& v, int i, int, const Subset* s, R&) { if (s) pokeColor(d[*s], v, i); else pokeColor(d, v, i); }
static void doPoke(LatticePropagator& d, LatticeColorMatrix& v, int i, int j, const Subset* s, R&) { if (s) pokeSpin(d[*s], v, i, j); else pokeSpin(d, v, i, j); }
static void doPoke(LatticePropagator& d, LatticeSpinMatrix& v, int i, int j, const Subset* s, R&) { if (s) pokeColor(d[*s], v, i, j); else pokeColor(d, v, i, j); }
template <class D, class V> static void pokes(const char* tn, bool spin, bool mat, int N) {
  if (!startEx(std::string("poke ") + tn, cx.m)) return;
  int n = (int)cx.pool->q.size();
  for (int i = 0; i < N; ++i) for (int j = 0; j < (mat ? N : 1); ++j) {
    D d; R rd; V v; R rv; fill(d, rd, cx.g, WILD); fill(v, rv, cx.g, WILD); for (auto& x : rd.m) x = 0; for (auto& x : rv.m) x = 0;
    int k = cx.g.range(-1, n - 1);
    R full = rd; pokeL(full, rv, spin ? 0 : 1, mat ? i * N + j : i);
    doPoke(d, v, i, j, k < 0 ? nullptr : cx.pool->q[k], full);
    if (k >= 0) { const Sub& u = cx.pool->r[k]; for (int x = 0; x < rd.ns; ++x) if (!u.in[x]) for (int q = 0; q < rd.nc(); ++q) full.d[(size_t)x * rd.nc() + q] = rd.d[(size_t)x * rd.nc() + q]; }
    eq(cx.key, d, full, (std::string("poke ") + tn + (k < 0 ? "" : " on " + cx.pool->r[k].name)).c_str());
    vh::count("component_pokes");
  }
}
static void words() { // constants of the word type
  if (!startEx("words", cx.m)) return;
  int n = (int)cx.pool->q.size();
  for (int rep = 0; rep < 4; ++rep) {
    int k = cx.g.range(0, n - 1); const Sub& u = cx.pool->r[k]; const Subset& s = *cx.pool->q[k];
    float c = (float)cx.g.range(-5, 5); if (c == 0) c = 1;
    LatticeReal r; R rr; fill(r, rr, cx.g, INTS); R o = rr; r = c; eq(cx.key, r, R(c), "real = word"); 
    put(r, rr); r += c; rr += R(c); eq(cx.key, r, rr, "real += word"); r -= 2 * c; rr -= R(2 * c); eq(cx.key, r, rr, "real -= word"); r *= c; rr *= R(c); eq(cx.key, r, rr, "real *= word"); r /= c; eq(cx.key, r, o + R(c) - R(2 * c), "real /= word");
    put(r, o); r[s] = c; R t = o; t[u] = R(c); eq(cx.key, r, t, "real[] = word"); r[s] += c; t[u] += R(c); eq(cx.key, r, t, "real[] += word"); r[s] *= c; t[u] *= R(c); eq(cx.key, r, t, "real[] *= word"); r[s] -= c; t[u] -= R(c); eq(cx.key, r, t, "real[] -= word");
    LatticeInteger q; R rq; fill(q, rq, cx.g, INTS); q[s] = 7; rq[u] = R(7); eq(cx.key, q, rq, "int[] = word"); q += 3; rq += R(3); eq(cx.key, q, rq, "int += word"); q %= 5; rq %= R(5); eq(cx.key, q, rq, "int %= word"); q[s] |= 8; rq[u] |= R(8); eq(cx.key, q, rq, "int[] |= word"); q[s] &= 12; rq[u] &= R(12); eq(cx.key, q, rq, "int[] &= word"); q ^= 5; rq ^= R(5); eq(cx.key, q, rq, "int ^= word"); q[s] -= 4; rq[u] -= R(4); eq(cx.key, q, rq, "int[] -= word");
    LatticeBoolean b; R rb_; fill(b, rb_, cx.g, INTS); b[s] = true; rb_[u] = R(1); eq(cx.key, b, rb_, "bool[] = word");
    vh::count("statements", 18);
  }
}
static void go() {
  family<LatticeColorMatrix>("CM"); family<LatticeFermion>("F"); family<LatticeComplex>("C"); family<LatticeReal>("R"); family<LatticeRealD>("RD"); family<LatticeInteger>("I"); family<LatticePropagator>("P"); family<LatticeColorVector>("CV"); family<LatticeHalfFermion>("HF");
  pokes<LatticeColorMatrix, LatticeComplex>("CM", false, true, 3); pokes<LatticeColorVector, LatticeComplex>("CV", false, false, 3); pokes<LatticeSpinMatrix, LatticeComplex>("SM", true, true, 4); pokes<LatticeFermion, LatticeColorVector>("F spin", true, false, 4); pokes<LatticeFermion, LatticeSpinVector>("F colour", false, false, 3); pokes<LatticePropagator, LatticeColorMatrix>("P spin", true, true, 4); pokes<LatticePropagator, LatticeSpinMatrix>("P colour", false, true, 3);
  words();
}
static Part part("misc", go);
