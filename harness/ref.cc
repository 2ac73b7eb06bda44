#include "ref.h"
namespace qx {
Geom geom;
static const double BIG = 1e300;

R& R::assignv(const R& o) {
  auto conv = [](const Lev& to, const Lev& from, int idx) -> int { // source component or -1 (zero)
    if (to == from) return idx;
    if (from.k == 0 && to.k == 2) return idx / to.n == idx % to.n ? 0 : -1;
    if (from.k == 0 && to.k == 1) return 0; // as QDP: not used
    abort();
  };
  R out(s, c, ns); out.exact = o.exact;
  for (int i = 0; i < ns; ++i) for (int a = 0; a < s.dim(); ++a) for (int b = 0; b < c.dim(); ++b) {
    int x = conv(s, o.s, a), y = conv(c, o.c, b);
    size_t k = out.ix(i, a, b);
    if (x < 0 || y < 0) { out.d[k] = 0; out.m[k] = 0; }
    else { out.d[k] = o.d[o.ix(i, x, y)]; out.m[k] = o.m[o.ix(i, x, y)]; }
  }
  d.swap(out.d); m.swap(out.m); exact = o.exact;
  return *this;
}
#define PROXY(OP, EX) void R::Proxy::operator OP(const R& o) { go(o, [](const R& a, const R& b) { (void)a; return EX; }); }
PROXY(=, b) PROXY(+=, a + b) PROXY(-=, a - b) PROXY(*=, a * b) PROXY(/=, a / b) PROXY(%=, a % b)
PROXY(|=, a | b) PROXY(&=, a & b) PROXY(^=, a ^ b) PROXY(<<=, a << b) PROXY(>>=, a >> b)

Lev lmul(Lev a, Lev b, std::vector<Tri>& t) {
  if (a.k == 0) { for (int i = 0; i < b.dim(); ++i) t.push_back({0, i, i}); return b; }
  if (b.k == 0) { for (int i = 0; i < a.dim(); ++i) t.push_back({i, 0, i}); return a; }
  int n = a.n; if (n != b.n) abort();
  if (a.k == 2 && b.k == 2) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) t.push_back({i * n + k, k * n + j, i * n + j}); return a; }
  if (a.k == 2 && b.k == 1) { for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) t.push_back({i * n + k, k, i}); return b; }
  abort();
}
Lev louter(Lev a, Lev b, std::vector<Tri>& t) {
  if (a.k == 0 && b.k == 0) { t.push_back({0, 0, 0}); return a; }
  if (a.k != 1 || b.k != 1) abort();
  Lev o; o.k = 2; o.n = a.n;
  for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) t.push_back({i, j, i * a.n + j});
  return o;
}
Lev linner(Lev a, Lev b, std::vector<Tri>& t) {
  Lev o;
  if (a.k == b.k) { for (int i = 0; i < a.dim(); ++i) t.push_back({i, i, 0}); return o; }
  if (a.k == 2 && b.k == 0) { for (int i = 0; i < a.n; ++i) t.push_back({i * a.n + i, 0, 0}); return o; }
  if (a.k == 0 && b.k == 2) { for (int i = 0; i < b.n; ++i) t.push_back({0, i * b.n + i, 0}); return o; }
  abort();
}
Lev ladjmul(Lev a, Lev b, std::vector<Tri>& t) {
  if (a.k == 0 && b.k == 0) { t.push_back({0, 0, 0}); return a; }
  if (a.k != 2 || b.k != 2) abort();
  int n = a.n;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) t.push_back({k * n + i, k * n + j, i * n + j});
  return a;
}
R bilin(const R& a, const R& b, LevOp sop, LevOp cop, bool ca, bool cb) {
  std::vector<Tri> st, ct;
  Lev so = sop(a.s, b.s, st), co = cop(a.c, b.c, ct);
  R o(so, co, nsites(a, b)); o.exact = a.exact && b.exact;
  for (int i = 0; i < o.ns; ++i)
    for (auto& x : st) for (auto& y : ct) {
      size_t ka = a.ix(i, x.a, y.a), kb = b.ix(i, x.b, y.b), k = o.ix(i, x.o, y.o);
      cd u = a.d[ka], v = b.d[kb];
      if (ca) u = std::conj(u);
      if (cb) v = std::conj(v);
      o.d[k] += cd(u.real() * v.real() - u.imag() * v.imag(), u.real() * v.imag() + u.imag() * v.real());
      o.m[k] += a.m[ka] * b.m[kb];
    }
  return o;
}
R addsub(const R& a, const R& b, double sg) {
  // QDP: scalar +- matrix acts on the diagonal
  auto big = [](const Lev& x, const Lev& y) { return x.k >= y.k ? x : y; };
  R x(big(a.s, b.s), big(a.c, b.c), nsites(a, b)), y = x;
  x = a; y = b;
  x.exact = a.exact && b.exact;
  for (size_t k = 0; k < x.d.size(); ++k) { x.d[k] += sg * y.d[k]; x.m[k] += y.m[k]; }
  return x;
}
R mapc(const R& a, const std::function<cd(cd)>& f, bool exact, double amp) {
  R o = a; o.exact = a.exact && exact;
  for (size_t k = 0; k < o.d.size(); ++k) { o.d[k] = f(a.d[k]); o.m[k] = a.m[k] * amp; }
  return o;
}
R mapr(const R& a, const std::function<double(double)>& f, bool exact) {
  R o = a; o.exact = a.exact && exact;
  for (size_t k = 0; k < o.d.size(); ++k) { o.d[k] = f(a.d[k].real()); o.m[k] = std::fabs(o.d[k].real()); }
  return o;
}
R map2(const R& a, const R& b, const std::function<double(double, double)>& f, bool exact) {
  R o(a.s.k >= b.s.k ? a.s : b.s, a.c.k >= b.c.k ? a.c : b.c, nsites(a, b)); o.exact = a.exact && b.exact && exact;
  if (o.nc() != 1) abort();
  for (int i = 0; i < o.ns; ++i) { double r = f(a.d[a.ix(i, 0, 0)].real(), b.d[b.ix(i, 0, 0)].real()); o.d[i] = r; o.m[i] = std::fabs(r); }
  return o;
}
R operator/(const R& a, const R& b) {
  if (b.nc() != 1) abort();
  R o(a.s, a.c, nsites(a, b)); o.exact = false;
  for (int i = 0; i < o.ns; ++i) {
    cd v = b.d[b.ix(i, 0, 0)]; double mv = b.m[b.ix(i, 0, 0)];
    double av = std::abs(v);
    for (int x = 0; x < a.s.dim(); ++x) for (int y = 0; y < a.c.dim(); ++y) {
      size_t ka = a.ix(i, x, y), k = o.ix(i, x, y);
      o.d[k] = v.imag() == 0 ? a.d[ka] / v.real() : a.d[ka] / v;
      o.m[k] = av == 0 ? BIG : a.m[ka] / av * (mv / av + 1);
    }
  }
  return o;
}
static long L(double x) { return (long)x; }
#define BIN(op, EX) R operator op(const R& a, const R& b) { return map2(a, b, [](double x, double y) -> double { return EX; }, true); }
BIN(%, (double)((int)x % (int)y)) BIN(|, (double)((int)x | (int)y)) BIN(&, (double)((int)x & (int)y)) BIN(^, (double)((int)x ^ (int)y))
BIN(<<, (double)(int)((unsigned)(int)x << (int)y)) BIN(>>, (double)((int)x >> (int)y))
BIN(&&, (x != 0 && y != 0)) BIN(||, (x != 0 || y != 0))
BIN(<, x < y) BIN(<=, x <= y) BIN(>, x > y) BIN(>=, x >= y) 
R operator==(const R& a, const R& b) { R o(Lev(), Lev(), nsites(a, b)); for (int i = 0; i < o.ns; ++i) { o.d[i] = a.d[a.ix(i, 0, 0)] == b.d[b.ix(i, 0, 0)]; o.m[i] = 1; } return o; }
R operator!=(const R& a, const R& b) { R o(Lev(), Lev(), nsites(a, b)); for (int i = 0; i < o.ns; ++i) { o.d[i] = a.d[a.ix(i, 0, 0)] != b.d[b.ix(i, 0, 0)]; o.m[i] = 1; } return o; }
R operator~(const R& a) { return mapr(a, [](double x) { return (double)(~(int)x); }, true); }
R operator!(const R& a) { return mapr(a, [](double x) { return (double)(x == 0); }, true); }

R transposeL(const R& a, bool sp, bool co, bool cj) {
  R o = a;
  auto tr = [](const Lev& l, int i, bool on) { return on && l.k == 2 ? (i % l.n) * l.n + i / l.n : i; };
  for (int i = 0; i < a.ns; ++i) for (int x = 0; x < a.s.dim(); ++x) for (int y = 0; y < a.c.dim(); ++y) {
    size_t k = o.ix(i, x, y), q = a.ix(i, tr(a.s, x, sp), tr(a.c, y, co));
    o.d[k] = cj ? std::conj(a.d[q]) : a.d[q]; o.m[k] = a.m[q];
  }
  return o;
}
R traceL(const R& a, bool sp, bool co) {
  Lev so = a.s, cc = a.c;
  sp = sp && so.k == 2; co = co && cc.k == 2;
  if (sp) so = Lev();
  if (co) cc = Lev();
  R o(so, cc, a.ns); o.exact = a.exact;
  for (int i = 0; i < a.ns; ++i) for (int x = 0; x < so.dim(); ++x) for (int y = 0; y < cc.dim(); ++y)
    for (int p = 0; p < (sp ? a.s.n : 1); ++p) for (int q = 0; q < (co ? a.c.n : 1); ++q) {
      size_t k = a.ix(i, sp ? p * a.s.n + p : x, co ? q * a.c.n + q : y);
      o.d[o.ix(i, x, y)] += a.d[k]; o.m[o.ix(i, x, y)] += a.m[k];
    }
  return o;
}
R where(const R& mask, const R& a0, const R& b0) {
  R a(a0.s.k >= b0.s.k ? a0.s : b0.s, a0.c.k >= b0.c.k ? a0.c : b0.c, nsites(a0, b0)), b = a;
  a = a0; b = b0;
  int n = nsites(mask, a);
  R o(a.s, a.c, n); o.exact = a.exact && b.exact;
  for (int i = 0; i < n; ++i) { bool t = mask.d[mask.ix(i, 0, 0)] != 0.0; for (int x = 0; x < a.s.dim(); ++x) for (int y = 0; y < a.c.dim(); ++y) {
    const R& w = t ? a : b; o.d[o.ix(i, x, y)] = w.d[w.ix(i, x, y)]; o.m[o.ix(i, x, y)] = w.m[w.ix(i, x, y)]; } }
  return o;
}
static R peekL(const R& a, int lev, int comp) {
  R o(lev == 0 ? Lev() : a.s, lev == 1 ? Lev() : a.c, a.ns); o.exact = a.exact;
  for (int i = 0; i < a.ns; ++i) for (int x = 0; x < o.s.dim(); ++x) for (int y = 0; y < o.c.dim(); ++y) {
    size_t k = a.ix(i, lev == 0 ? comp : x, lev == 1 ? comp : y);
    o.d[o.ix(i, x, y)] = a.d[k]; o.m[o.ix(i, x, y)] = a.m[k];
  }
  return o;
}
R peekSpin(const R& a, int i) { return peekL(a, 0, i); }
R peekSpin(const R& a, int i, int j) { return peekL(a, 0, i * a.s.n + j); }
R peekColor(const R& a, int i) { return peekL(a, 1, i); }
R peekColor(const R& a, int i, int j) { return peekL(a, 1, i * a.c.n + j); }
void pokeL(R& dst, const R& v, int lev, int comp) {
  dst.exact = dst.exact && v.exact;
  for (int i = 0; i < dst.ns; ++i) for (int x = 0; x < v.s.dim(); ++x) for (int y = 0; y < v.c.dim(); ++y) {
    size_t k = dst.ix(i, lev == 0 ? comp : x, lev == 1 ? comp : y);
    dst.d[k] = v.d[v.ix(i, x, y)]; dst.m[k] = v.m[v.ix(i, x, y)];
  }
}
R pokeSpin(R& l, const R& v, int i) { pokeL(l, v, 0, i); return l; }
R pokeSpin(R& l, const R& v, int i, int j) { pokeL(l, v, 0, i * l.s.n + j); return l; }
R pokeColor(R& l, const R& v, int i) { pokeL(l, v, 1, i); return l; }
R pokeColor(R& l, const R& v, int i, int j) { pokeL(l, v, 1, i * l.c.n + j); return l; }

static void gacc(R& o, size_t k, cd g, const R& a, size_t q) {
  if (g == 0.0) return;
  cd v = a.d[q];
  o.d[k] += cd(g.real() * v.real() - g.imag() * v.imag(), g.real() * v.imag() + g.imag() * v.real());
  o.m[k] += (std::fabs(g.real()) + std::fabs(g.imag())) * a.m[q];
}
R spinmatL(const std::vector<cd>& g, int n, const R& a) {
  Lev so = a.s.k == 0 ? Lev{2, n} : a.s;
  R o(so, a.c, a.ns); o.exact = a.exact;
  int cols = so.k == 2 ? n : 1;
  for (int i = 0; i < a.ns; ++i) for (int r = 0; r < n; ++r) for (int q = 0; q < cols; ++q) for (int p = 0; p < n; ++p) for (int y = 0; y < a.c.dim(); ++y) {
    if (a.s.k == 0) { if (p == q) gacc(o, o.ix(i, r * n + q, y), g[r * n + p], a, a.ix(i, 0, y)); }
    else gacc(o, o.ix(i, so.k == 2 ? r * n + q : r, y), g[r * n + p], a, a.ix(i, so.k == 2 ? p * n + q : p, y));
  }
  return o;
}
R spinmatR(const R& a, const std::vector<cd>& g, int n) {
  Lev so = Lev{2, n};
  R o(so, a.c, a.ns); o.exact = a.exact;
  for (int i = 0; i < a.ns; ++i) for (int r = 0; r < n; ++r) for (int q = 0; q < n; ++q) for (int p = 0; p < n; ++p) for (int y = 0; y < a.c.dim(); ++y) {
    if (a.s.k == 0) { if (r == p) gacc(o, o.ix(i, r * n + q, y), g[p * n + q], a, a.ix(i, 0, y)); }
    else gacc(o, o.ix(i, r * n + q, y), g[p * n + q], a, a.ix(i, r * n + p, y));
  }
  return o;
}
R spinrect(const std::vector<cd>& P, int rows, int cols, const R& a) {
  if (a.s.n != cols) abort();
  Lev so{a.s.k, rows};
  if (a.s.k == 2) abort();
  R o(so, a.c, a.ns); o.exact = a.exact;
  for (int i = 0; i < a.ns; ++i) for (int r = 0; r < rows; ++r) for (int p = 0; p < cols; ++p) for (int y = 0; y < a.c.dim(); ++y)
    gacc(o, o.ix(i, r, y), P[r * cols + p], a, a.ix(i, p, y));
  return o;
}
static int eps3(int i, int j, int k) { return (i - j) * (j - k) * (k - i) / 2; }
// eps^{ijk} eps^{i'j'k'} A^{i i'} B^{j j'} in colour at output (k', k): see QDP manual; spin index pair contracted
R quarkContract(const R& a, const R& b, int w1, int w2) {
  int n = a.s.n;
  R o(a.s, a.c, nsites(a, b)); o.exact = a.exact && b.exact;
  for (int i = 0; i < o.ns; ++i)
    for (int al = 0; al < n; ++al) for (int be = 0; be < n; ++be) for (int ga = 0; ga < n; ++ga) {
      int sa, sb;
      int w = w1 * 10 + w2;
      if (w == 13) { sa = ga * n + al; sb = ga * n + be; }        // A_{g a} B_{g b}
      else if (w == 14) { sa = ga * n + al; sb = be * n + ga; }   // A_{g a} B_{b g}
      else if (w == 23) { sa = al * n + ga; sb = ga * n + be; }   // A_{a g} B_{g b}
      else if (w == 24) { sa = al * n + ga; sb = be * n + ga; }   // A_{a g} B_{b g}
      else if (w == 12) { sa = ga * n + ga; sb = al * n + be; }   // A_{g g} B_{a b}
      else { sa = al * n + be; sb = ga * n + ga; }                // 34: A_{a b} B_{g g}
      for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 3; ++z) { int e = eps3(x, y, z); if (!e) continue;
        for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) for (int r = 0; r < 3; ++r) { int f = eps3(p, q, r); if (!f) continue;
          size_t ka = a.ix(i, sa, x * 3 + p), kb = b.ix(i, sb, y * 3 + q), k = o.ix(i, al * n + be, r * 3 + z);
          o.d[k] += double(e * f) * a.d[ka] * b.d[kb]; o.m[k] += a.m[ka] * b.m[kb];
        } }
    }
  return o;
}
R colorContract(const R& a, const R& b, const R& c) {
  R o(a.s, Lev(), nsites(a, b)); o.exact = a.exact && b.exact && c.exact;
  if (o.nc() != 1) abort();
  for (int i = 0; i < o.ns; ++i)
    for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 3; ++z) { int e = eps3(x, y, z); if (!e) continue;
      for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) for (int r = 0; r < 3; ++r) { int f = eps3(p, q, r); if (!f) continue;
        size_t ka = a.ix(i, 0, x * 3 + p), kb = b.ix(i, 0, y * 3 + q), kc = c.ix(i, 0, z * 3 + r);
        o.d[i] += double(e * f) * a.d[ka] * b.d[kb] * c.d[kc]; o.m[i] += a.m[ka] * b.m[kb] * c.m[kc];
      } }
  return o;
}
R colorVectorContract(const R& a, const R& b) {
  R o(a.s, Lev(), nsites(a, b)); o.exact = a.exact && b.exact;
  for (int i = 0; i < o.ns; ++i) for (int y = 0; y < a.c.n; ++y) { size_t ka = a.ix(i, 0, y), kb = b.ix(i, 0, y); o.d[i] += a.d[ka] * b.d[kb]; o.m[i] += a.m[ka] * b.m[kb]; }
  return o;
}
R colorCrossProduct(const R& a, const R& b) {
  R o(a.s, a.c, nsites(a, b)); o.exact = a.exact && b.exact;
  for (int i = 0; i < o.ns; ++i) for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 3; ++z) { int e = eps3(x, y, z); if (!e) continue;
    size_t ka = a.ix(i, 0, x), kb = b.ix(i, 0, y), k = o.ix(i, 0, z); o.d[k] += double(e) * a.d[ka] * b.d[kb]; o.m[k] += a.m[ka] * b.m[kb]; }
  return o;
}
R shiftR(const R& a, const std::function<int(int)>& src) {
  if (a.ns == 1) return a;
  R o(a.s, a.c, a.ns); o.exact = a.exact;
  int n = a.nc();
  for (int i = 0; i < a.ns; ++i) { int q = src(i); for (int k = 0; k < n; ++k) { o.d[(size_t)i * n + k] = a.d[(size_t)q * n + k]; o.m[(size_t)i * n + k] = a.m[(size_t)q * n + k]; } }
  return o;
}
R shf(const R& a, int sgn, int mu) {
  return shiftR(a, [&](int x) { std::vector<int> c = geom.coord(x); c[mu] += sgn; return geom.lex(c); });
}
R sumR(const R& a, const Sub* u) {
  R o(a.s, a.c, 1); o.exact = a.exact; int n = a.nc();
  for (int i = 0; i < a.ns; ++i) if (!u || u->in[i]) for (int k = 0; k < n; ++k) { o.d[k] += a.d[(size_t)i * n + k]; o.m[k] += a.m[(size_t)i * n + k]; }
  return o;
}
Sub allsub() { Sub s; s.in.assign(geom.vol, 1); s.name = "all"; return s; }
Sub evenodd(int par) { Sub s; s.in.resize(geom.vol); for (int i = 0; i < geom.vol; ++i) { int t = 0; for (int x : geom.coord(i)) t += x; s.in[i] = (t & 1) == par; } s.name = par ? "odd" : "even"; return s; }
} // namespace qx
