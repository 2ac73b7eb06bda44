// USES ex qx ref
// C15: multi1d..multi5d, multiNd and the one-based arrays, as histories over pools of arrays beside a plain model.
#include "ex.h"
#include <sys/wait.h>
#include <functional>
using namespace qx;
typedef std::vector<int> Ix;
static int vol(const Ix& d) { int v = 1; for (int x : d) v *= x; return v; }
static int lin(const Ix& d, const Ix& i) { int o = 0; for (size_t k = 0; k < d.size(); ++k) o = o * d[k] + i[k]; return o; }
static Ix unlin(const Ix& d, int o) { Ix i(d.size()); for (int k = (int)d.size() - 1; k >= 0; --k) { i[k] = o % d[k]; o /= d[k]; } return i; }
template <class T> struct V;
template <> struct V<int> { static int mk(int k) { return k; } static int id(const int& x) { return x; } static const char* nm() { return "int"; } };
template <> struct V<double> { static double mk(int k) { return k + .5; } static int id(double x) { return x == std::floor(x) ? -1 : (int)std::floor(x); } static const char* nm() { return "double"; } };
template <> struct V<std::string> { static std::string mk(int k) { return "an element that owns memory: " + std::to_string(k); } static int id(const std::string& x) { return x.size() < 30 ? -1 : atoi(x.c_str() + 29); } static const char* nm() { return "string"; } };
template <> struct V<Complex> { static Complex mk(int k) { return cmplx(Real(k), Real(-k - 1)); } static int id(const Complex& x) { int k = (int)toDouble(real(x)); return toDouble(imag(x)) == -k - 1 ? k : -1; } static const char* nm() { return "Complex"; } };
template <> struct V<multi1d<int>> { static multi1d<int> mk(int k) { multi1d<int> m(1 + k % 3); m = k; return m; } static int id(const multi1d<int>& x) { if (x.size() < 1) return -1; int k = x[0]; if (x.size() != 1 + k % 3) return -1; for (int i = 0; i < x.size(); ++i) if (x[i] != k) return -1; return k; } static const char* nm() { return "array"; } };
template <> struct V<LatticeReal> { static LatticeReal mk(int k) { LatticeReal r; r = Real(k); return r; } static int id(const LatticeReal& x) { int k = (int)toDouble(peekSite(x, multi1d<int>(4) = 0)); for (int i = 0; i < Layout::sitesOnNode(); ++i) if (x.elem(i).elem().elem().elem() != (float)k) return -1; return k; } static const char* nm() { return "LatticeReal"; } };

// every kind of array behind one interface
template <int D, class T> struct M;
#define AT1 x[0]
#define AT2 x[0], x[1]
#define AT3 x[0], x[1], x[2]
#define AT4 x[0], x[1], x[2], x[3]
#define AT5 x[0], x[1], x[2], x[3], x[4]
#define MK(N) template <class T> struct M<N, T> { typedef multi##N##d<T> A; static const int dim = N; \
  static A make(const Ix& x) { return A(AT##N); } static void resize(A& a, const Ix& x) { a.resize(AT##N); } static T& at(A& a, const Ix& x) { return a(AT##N); } static const T& at(const A& a, const Ix& x) { return a(AT##N); } static A* view(T* p, const Ix& x) { return new A(p, AT##N); } DIMS##N };
#define DIMS1 static Ix dims(const A& a) { if (a.size() != a.size1()) vh::fail("cont:size", "size and size1"); return {a.size1()}; } static const T* row(const A& a, const Ix&) { return a.slice(); }
#define DIMS2 static Ix dims(const A& a) { if (a.nrows() != a.size2() || a.ncols() != a.size1()) vh::fail("cont:size", "nrows, ncols"); return {a.size2(), a.size1()}; } static const T* row(const A& a, const Ix& x) { return a.slice(x[0]); }
#define DIMS3 static Ix dims(const A& a) { if (a.leftSize() != a.size3() || a.middleSize() != a.size2() || a.rightSize() != a.size1()) vh::fail("cont:size", "left, middle, right"); return {a.size3(), a.size2(), a.size1()}; } static const T* row(const A& a, const Ix& x) { return a.slice(x[0], x[1]); }
#define DIMS4 static Ix dims(const A& a) { return {a.size4(), a.size3(), a.size2(), a.size1()}; } static const T* row(const A& a, const Ix& x) { return a.slice(x[0], x[1], x[2]); }
#define DIMS5 static Ix dims(const A& a) { return {a.size5(), a.size4(), a.size3(), a.size2(), a.size1()}; } static const T* row(const A& a, const Ix& x) { return a.slice(x[0], x[1], x[2], x[3]); }
MK(1) MK(2) MK(3) MK(4) MK(5)
struct Mod { Ix d; std::vector<int> v; };
static std::string str(const Ix& d) { return "[" + vh::join(d) + "]"; }
static std::string hist;
static void log(const char* f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); hist += b; if (hist.size() > 400) hist = "..." + hist.substr(hist.size() - 300); vh::count("operations"); }

template <int D, class T, class I> static bool same(const char* what, const typename I::A& a, const Mod& m) {
  vh::count("arrays_compared");
  Ix d = I::dims(a);
  if (d != m.d) { vh::fail("cont:size", "%dd of %s, %s: dimensions %s want %s after %s", D, V<T>::nm(), what, str(d).c_str(), str(m.d).c_str(), hist.c_str()); return false; }
  for (int o = 0; o < (int)m.v.size(); ++o) {
    Ix x = unlin(m.d, o); const T& e = I::at(a, x); vh::count("elements_compared");
    if (V<T>::id(e) != m.v[o]) { vh::fail("cont:element", "%dd %s of %s, %s: element %s is %d want %d after %s", D, str(d).c_str(), V<T>::nm(), what, str(x).c_str(), V<T>::id(e), m.v[o], hist.c_str()); return false; }
    const T* r = I::row(a, x); if (r + x[D - 1] != &e) { vh::fail("cont:slice", "%dd %s: slice of row of %s does not lead to it", D, str(d).c_str(), str(x).c_str()); return false; }
  }
  return true;
}
static Ix rdims(vh::Rng& g, int D, int mx, bool zero) { Ix d(D); for (int& x : d) x = g.range(1, mx); if (zero && g.range(0, 9) == 0) d[g.range(0, D - 1)] = 0; return d; }
static int cnt = 0;
// the slices of arrays of two or more dimensions
template <int D, class T> struct Sl {
  static void go(vh::Rng& g, typename M<D, T>::A& a, Mod& m) {
    if (m.d[0] == 0) return;
    int i = g.range(0, m.d[0] - 1); Mod s; s.d = Ix(m.d.begin() + 1, m.d.end()); int n = vol(s.d);
    s.v.assign(m.v.begin() + i * n, m.v.begin() + (i + 1) * n);
    { auto v = a[i]; log("slice%d ", i); same<D - 1, T, M<D - 1, T>>("slice", v, s); const auto& ca = a; const auto w = ca[i]; same<D - 1, T, M<D - 1, T>>("const slice", w, s); }
    vh::count("slices");
    switch (g.range(0, 3)) {
    case 0: if (n) { int o = g.range(0, n - 1), k = ++cnt; auto v = a[i]; M<D - 1, T>::at(v, unlin(s.d, o)) = V<T>::mk(k); m.v[i * n + o] = k; log("slice%d(%d)= ", i, o); } break;
    case 1: { typename M<D - 1, T>::A b = M<D - 1, T>::make(s.d); for (int o = 0; o < n; ++o) { int k = ++cnt; M<D - 1, T>::at(b, unlin(s.d, o)) = V<T>::mk(k); m.v[i * n + o] = k; } log("slice%d=array ", i); a[i] = b; break; }
    case 2: if (m.d[0] > 1) { int j = g.range(0, m.d[0] - 1); log("slice%d=slice%d ", i, j); a[i] = a[j]; std::vector<int> t(m.v.begin() + j * n, m.v.begin() + (j + 1) * n); std::copy(t.begin(), t.end(), m.v.begin() + i * n); } break;
    default: { typename M<D - 1, T>::A b; log("array=slice%d ", i); b = a[i]; same<D - 1, T, M<D - 1, T>>("array assigned from a slice", b, s); if (n) { M<D - 1, T>::at(b, unlin(s.d, 0)) = V<T>::mk(++cnt); } }
    }
  }
};
template <class T> struct Sl<1, T> { static void go(vh::Rng&, multi1d<T>&, Mod&) {} };
template <class I, class T, int D> static void fillall(typename I::A& a, Mod& m) { m.v.resize(vol(m.d)); for (int o = 0; o < (int)m.v.size(); ++o) { m.v[o] = ++cnt; I::at(a, unlin(m.d, o)) = V<T>::mk(m.v[o]); } }

template <int D, class T> static void history(vh::Rng& g, int len, int mx) {
  typedef M<D, T> I; typedef typename I::A A; const int P = 4; hist.clear(); cnt = 0;
  std::vector<A*> a(P, nullptr); std::vector<Mod> m(P);
  for (int i = 0; i < P; ++i) { if (i == 0) { a[i] = new A(); m[i].d = Ix(D, 0); } else { m[i].d = rdims(g, D, mx, true); a[i] = new A(I::make(m[i].d)); fillall<I, T, D>(*a[i], m[i]); } }
  uint64_t f0 = vh::failures();
  for (int q = 0; q < len && vh::failures() == f0; ++q) {
    int i = g.range(0, P - 1), j = g.range(0, P - 1); int n = (int)m[i].v.size();
    switch (g.range(0, 9)) {
    case 0: { Ix d = g.range(0, 3) ? rdims(g, D, mx, true) : m[i].d; log("resize%d%s ", i, str(d).c_str()); I::resize(*a[i], d); m[i].d = d; fillall<I, T, D>(*a[i], m[i]); break; }
    case 1: case 2: if (m[j].d != Ix(D, 0) || D > 1 || 1) { if (i == j) vh::count("self_assignments"); log("%d=%d ", i, j); A& r = (*a[i] = *a[j]); if (&r != a[i]) vh::fail("cont:ref", "assignment does not return its left side"); m[i] = m[j]; } break;
    case 3: { log("copy%d ", j); A* c = new A(*a[j]); Mod t = m[j]; if (i != j) { delete a[i]; a[i] = c; m[i] = t; } else { same<D, T, I>("copy", *c, t); delete c; } break; }
    case 4: if (n) { int o = g.range(0, n - 1), k = ++cnt; log("%d(%d)= ", i, o); I::at(*a[i], unlin(m[i].d, o)) = V<T>::mk(k); m[i].v[o] = k; } break;
    case 5: if (n) { int k = ++cnt; log("%d=value ", i); *a[i] = V<T>::mk(k); std::fill(m[i].v.begin(), m[i].v.end(), k); } break;
    case 6: case 7: if (n) Sl<D, T>::go(g, *a[i], m[i]); break;
    case 8: { // a view over foreign memory
      Mod t; t.d = rdims(g, D, mx, false); int w = vol(t.d); std::vector<T> mem(w); t.v.resize(w); for (int o = 0; o < w; ++o) { t.v[o] = ++cnt; mem[o] = V<T>::mk(t.v[o]); } log("view ");
      { A* v = I::view(mem.data(), t.d); same<D, T, I>("view", *v, t); for (int e = 0; e < 3; ++e) { int o = g.range(0, w - 1); t.v[o] = ++cnt; I::at(*v, unlin(t.d, o)) = V<T>::mk(t.v[o]); } A c(*v); log("%d=view ", i); *a[i] = *v; m[i] = t; delete v; same<D, T, I>("copy of a view", c, t); }
      for (int o = 0; o < w; ++o) if (V<T>::id(mem[o]) != t.v[o]) { vh::fail("cont:view", "%dd: writing through a view", D); break; } vh::count("views"); break; }
    default: { A c(*a[i]); Mod t = m[i]; if (n) { int o = g.range(0, n - 1); I::at(c, unlin(t.d, o)) = V<T>::mk(++cnt); t.v[o] = cnt; } same<D, T, I>("changed copy", c, t); }
    }
    same<D, T, I>("left side", *a[i], m[i]); same<D, T, I>("right side", *a[j], m[j]);
  }
  for (int i = 0; i < P; ++i) if (vh::failures() == f0) same<D, T, I>("at the end", *a[i], m[i]);
  for (auto p : a) delete p;
}
// run-time dimensional
template <class T> static void historyNd(vh::Rng& g, int len) {
  hist.clear(); cnt = 0; const int P = 3; std::vector<multiNd<T>*> a(P, nullptr); std::vector<Mod> m(P); std::vector<bool> init(P, false);
  auto mi = [](const Ix& x) { multi1d<int> r((int)x.size()); for (size_t i = 0; i < x.size(); ++i) r[i] = x[i]; return r; };
  auto rd = [&]() { return rdims(g, g.range(1, 6), 4, true); };
  auto cmp = [&](const multiNd<T>& b, const Mod& t, const char* what) {
    vh::count("arrays_compared"); const multiNd<T>& c = b;
    if (b.size().size() != (int)t.d.size() || b.numElem() != (int)t.v.size()) { vh::fail("cont:size", "multiNd %s: %d dimensions, %d elements, want %s after %s", what, b.size().size(), b.numElem(), str(t.d).c_str(), hist.c_str()); return; }
    for (size_t k = 0; k < t.d.size(); ++k) if (b.size(k) != t.d[k] || b.size()[k] != t.d[k]) { vh::fail("cont:size", "multiNd %s: size(%zu)=%d want %s", what, k, b.size(k), str(t.d).c_str()); return; }
    for (int o = 0; o < (int)t.v.size(); ++o) { Ix x = unlin(t.d, o); const T* p[3] = {&c[mi(x)], &c.getElem(o), nullptr}; switch (t.d.size()) { case 1: p[2] = &c(x[0]); break; case 2: p[2] = &c(x[0], x[1]); break; case 3: p[2] = &c(x[0], x[1], x[2]); break; case 4: p[2] = &c(x[0], x[1], x[2], x[3]); break; default: p[2] = p[0]; }
      vh::count("elements_compared"); for (int k = 0; k < 3; ++k) if (V<T>::id(*p[k]) != t.v[o]) { vh::fail("cont:Nd", "multiNd %s %s: element %s by way %d is %d want %d after %s", what, str(t.d).c_str(), str(x).c_str(), k, V<T>::id(*p[k]), t.v[o], hist.c_str()); return; } }
  };
  auto put = [&](multiNd<T>& b, const Mod& t, int o, int k) { Ix x = unlin(t.d, o); T e = V<T>::mk(k); switch (g.range(0, 2)) { case 0: b[mi(x)] = e; return; case 1: b.getElem(o) = e; return; default: switch (t.d.size()) { case 1: b(x[0]) = e; break; case 2: b(x[0], x[1]) = e; break; case 3: b(x[0], x[1], x[2]) = e; break; case 4: b(x[0], x[1], x[2], x[3]) = e; break; default: b[mi(x)] = e; } } };
  auto fa = [&](multiNd<T>& b, Mod& t) { t.v.resize(vol(t.d)); for (int o = 0; o < (int)t.v.size(); ++o) put(b, t, o, t.v[o] = ++cnt); };
  for (int i = 0; i < P; ++i) { if (i == 0) { a[i] = new multiNd<T>(); } else { m[i].d = rd(); a[i] = new multiNd<T>(mi(m[i].d)); fa(*a[i], m[i]); } }
  uint64_t f0 = vh::failures();
  for (int q = 0; q < len && vh::failures() == f0; ++q) {
    int i = g.range(0, P - 1), j = g.range(0, P - 1), n = (int)m[i].v.size();
    switch (g.range(0, 5)) {
    case 0: m[i].d = g.range(0, 3) ? rd() : m[i].d.empty() ? rd() : m[i].d; log("resize%d%s ", i, str(m[i].d).c_str()); a[i]->resize(mi(m[i].d)); fa(*a[i], m[i]); break;
    case 1: log("%d=%d ", i, j); *a[i] = *a[j]; m[i] = m[j]; if (i == j) vh::count("self_assignments"); break;
    case 2: { multiNd<T>* c = new multiNd<T>(*a[j]); Mod t = m[j]; log("copy%d ", j); delete a[i]; a[i] = c; m[i] = t; break; }
    case 3: if (n) { int o = g.range(0, n - 1); log("%d(%d)= ", i, o); put(*a[i], m[i], o, m[i].v[o] = ++cnt); } break;
    case 4: if (n) { *a[i] = V<T>::mk(++cnt); log("%d=value ", i); std::fill(m[i].v.begin(), m[i].v.end(), cnt); } break;
    default: if (n) { int k = g.range(0, 3); std::string out; log("refuse "); int st = vh::in_child([&] { multiNd<T>& b = *a[i]; multi1d<int> w((int)m[i].d.size() + (g.coin() ? 1 : -1)); w = 0; if (k == 0) b.getElem(n) = V<T>::mk(1); else if (k == 1) b.getElem(-1) = V<T>::mk(1); else if (k == 2) (void)b[w]; else if (m[i].d.size() == 2) (void)b(0, 0, 0); else (void)b(0, 0); _exit(0); }, &out, 30); vh::count("refusals"); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) vh::fail("cont:refuse", "multiNd %s accepts an index of the wrong rank or range (way %d)", str(m[i].d).c_str(), k); }
    }
    cmp(*a[i], m[i], "left side"); cmp(*a[j], m[j], "right side");
  }
  for (auto p : a) delete p;
}
// arithmetic, comparison and functions of 1d arrays
template <class T> static double num(const T& x) { return (double)x; }
template <> double num<RealF>(const RealF& x) { return toDouble(x); }
template <> double num<RealD>(const RealD& x) { return toDouble(x); }
template <class T> static multi1d<T> mk1(const std::vector<double>& v) { multi1d<T> r((int)v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = T(v[i]); return r; }
template <class T> static void eq1(const char* what, const multi1d<T>& a, const std::vector<double>& w, double rel) {
  vh::count("array_operations"); if (a.size() != (int)w.size()) { vh::fail("cont:arith", "%s: size %d want %zu", what, a.size(), w.size()); return; }
  for (int i = 0; i < a.size(); ++i) { double x = num(a[i]); if (!(x == w[i] || std::fabs(x - w[i]) <= rel * (1 + std::fabs(w[i])))) { vh::fail("cont:arith", "%s: element %d of %zu is %.9g want %.9g", what, i, w.size(), x, w[i]); return; } }
}
template <class T, bool CMP> static void arith(vh::Rng& g, double rel, bool integral) {
  int n = g.range(0, 12); auto rv = [&](int k, bool nz) { std::vector<double> v(k); for (double& x : v) { x = integral ? g.range(-20, 20) : (double)(float)(g.sym() * 4); if (nz && std::fabs(x) < .2) x = 3; } return v; };
  std::vector<double> a = rv(n, false), b = rv(n, true); double s = rv(1, true)[0]; multi1d<T> A = mk1<T>(a), B = mk1<T>(b); T S = T(s);
  auto el = [&](std::function<double(double, double)> f, bool sb = false, bool sa = false) { std::vector<double> r(n); for (int i = 0; i < n; ++i) { double v = f(sa ? s : a[i], sb ? s : b[i]); r[i] = integral ? std::trunc(v) : v; } return r; };
  auto add = [](double x, double y) { return x + y; }; auto sub = [](double x, double y) { return x - y; }; auto mul = [](double x, double y) { return x * y; }; auto dv = [](double x, double y) { return x / y; };
  { multi1d<T> c(A); c += B; eq1("+=", c, el(add), rel); } { multi1d<T> c(A); c -= B; eq1("-=", c, el(sub), rel); } { multi1d<T> c(A); c *= B; eq1("*=", c, el(mul), rel); } { multi1d<T> c(A); c /= B; eq1("/=", c, el(dv), rel); }
  { multi1d<T> c(A); c += S; eq1("+= s", c, el(add, true), rel); } { multi1d<T> c(A); c -= S; eq1("-= s", c, el(sub, true), rel); } { multi1d<T> c(A); c *= S; eq1("*= s", c, el(mul, true), rel); } { multi1d<T> c(A); c /= S; eq1("/= s", c, el(dv, true), rel); }
  eq1("a+b", A + B, el(add), rel); eq1("a-b", A - B, el(sub), rel); eq1("a*b", A * B, el(mul), rel); eq1("a/b", A / B, el(dv), rel);
  eq1("a+s", A + S, el(add, true), rel); eq1("a-s", A - S, el(sub, true), rel); eq1("a*s", A * S, el(mul, true), rel); eq1("a/s", A / S, el(dv, true), rel);
  eq1("s+b", S + B, el(add, false, true), rel); eq1("s-b", S - B, el(sub, false, true), rel); eq1("s*b", S * B, el(mul, false, true), rel); eq1("s/b", S / B, el(dv, false, true), rel);
  { multi1d<T> c(A); c += c; eq1("a+=a", c, [&] { auto v = a; for (double& x : v) x += x; return v; }(), rel); c = A; c -= c; eq1("a-=a", c, std::vector<double>(n, 0.0), 0); }
  { std::vector<double> c = a; c.insert(c.end(), b.begin(), b.end()); eq1("concat", concat(A, B), c, 0); eq1("concat empty", concat(multi1d<T>(0), B), b, 0); }
  if (n) { std::vector<T> raw; for (double x : b) raw.push_back(T(x)); multi1d<T> c(n); const T* rp = raw.data(); c = rp; eq1("= pointer", c, b, 0); }
  eq1("operands unchanged", A, a, 0); eq1("operands unchanged", B, b, 0);
  if (n) { double w = 0; for (double x : a) w += x * x; if (std::fabs(num(T(norm2(A))) - w) > rel * (1 + w) * 4) vh::fail("cont:arith", "norm2 of %d elements is %g want %g", n, num(T(norm2(A))), w); }
  // comparison, as of strings; two empty arrays are left out (they are not equal here)
  std::vector<double> x = a, y = a; if (n && g.coin()) y[g.range(0, n - 1)] += g.range(-1, 1); if (g.coin()) y.resize(g.range(0, n)); if (g.range(0, 3) == 0) y.push_back(1); if (g.coin()) std::swap(x, y);
  if constexpr (CMP) if (!x.empty() || !y.empty()) { multi1d<T> X = mk1<T>(x), Y = mk1<T>(y); vh::count("comparisons"); bool lt = x < y, gt = y < x;
    if ((X < Y) != lt || (X > Y) != gt || (X == Y) != (!lt && !gt) || (X != Y) != (lt || gt) || (X <= Y) != !gt || (X >= Y) != !lt) vh::fail("cont:compare", "arrays of %zu and %zu: < %d > %d == %d != %d <= %d >= %d, lexicographic order %d", x.size(), y.size(), X < Y, X > Y, X == Y, X != Y, X <= Y, X >= Y, (int)gt - (int)lt); }
  // refused: different sizes
  if (g.range(0, 30) == 0) { int k = g.range(0, 9); std::string out; int st = vh::in_child([&] { multi1d<T> c(A), e = mk1<T>(std::vector<double>(n + 1, 1.0)), z; switch (k) { case 0: c += e; break; case 1: c -= e; break; case 2: c *= e; break; case 3: c /= e; break; case 4: z += S; break; case 5: z = S; break; case 6: z *= S; break; case 7: { T mem[3]; multi1d<T> v(mem, 3); v.resize(2); break; } case 8: { multi2d<T> q(2, 3); q[0] = e.size() == 3 ? c : e; if (n + 1 == 3 && n == 3) exit(1); break; } default: z /= S; } _exit(0); }, &out, 30); vh::count("refusals"); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) vh::fail("cont:refuse", "operation %d on arrays of sizes %d and %d is accepted", k, n, n + 1); }
}
template <class T> static void funcs(vh::Rng& g, double rel) {
  int n = g.range(0, 9); std::vector<double> u(n); for (double& x : u) x = (double)(float)g.uni() * .98 + .01; multi1d<T> U = mk1<T>(u);
  auto f = [&](const char* nm, const multi1d<T>& r, double (*h)(double)) { std::vector<double> w; for (int i = 0; i < n; ++i) w.push_back(h(num(U[i]))); eq1(nm, r, w, rel); };
  f("sqrt", sqrt(U), std::sqrt); f("log", log(U), std::log); f("sin", sin(U), std::sin); f("cos", cos(U), std::cos); f("tan", tan(U), std::tan); f("asin", asin(U), std::asin); f("acos", acos(U), std::acos); f("atan", atan(U), std::atan);
}
// one-based arrays
template <class T> static void onebased(vh::Rng& g) {
  hist.clear(); int c = 0;
  { int n = g.range(0, 6); Array1dO<T> a(n); std::vector<int> m(n); for (int i = 1; i <= n; ++i) a[i] = V<T>::mk(m[i - 1] = ++c); for (int q = 0; q < 4; ++q) { a.push_back(V<T>::mk(++c)); m.push_back(c); } Array1dO<T> b(a), d; d = a; d = *&d; multi1d<T> z(3); for (int i = 0; i < 3; ++i) z[i] = V<T>::mk(100 + i); Array1dO<T> e(z), f(a.ref()); const Array1dO<T>& ca = a; if (a.size() != (int)m.size()) vh::fail("cont:onebased", "size"); for (int i = 1; i <= (int)m.size(); ++i) if (V<T>::id(ca[i]) != m[i - 1] || V<T>::id(b[i]) != m[i - 1] || V<T>::id(d[i]) != m[i - 1] || V<T>::id(f[i]) != m[i - 1] || V<T>::id(a.ref()[i - 1]) != m[i - 1]) { vh::fail("cont:onebased", "element %d", i); break; } for (int i = 1; i <= 3; ++i) if (V<T>::id(e[i]) != 99 + i) vh::fail("cont:onebased", "from a zero-based array"); int k = g.range(0, n); a.resize(k); for (int i = 1; i <= k; ++i) if (V<T>::id(a[i]) != m[i - 1]) vh::fail("cont:onebased", "resize"); vh::count("onebased"); }
#define OB(N, IDX, SZ) { Ix d = rdims(g, N, 4, false); Ix x = d; bool cube = g.coin(); if (cube) { for (int& q : d) q = d[0]; x = d; } Array##N##dO<T> a = cube && g.coin() ? Array##N##dO<T>(d[0]) : Array##N##dO<T>(IDX); if (g.coin()) { if (cube) a.resize(d[0]); else a.resize(IDX); } \
    for (int o = 0; o < vol(d); ++o) { x = unlin(d, o); for (int& q : x) ++q; a(IDX) = V<T>::mk(o + 7); } Array##N##dO<T> b(a), e; e = a; e = *&e; const Array##N##dO<T>& ca = a; Ix s = SZ; if (s != d || a.size() != d[N - 1]) vh::fail("cont:onebased", #N "d sizes %s want %s", str(s).c_str(), str(d).c_str()); \
    for (int o = 0; o < vol(d); ++o) { x = unlin(d, o); for (int& q : x) ++q; const T* p[4] = {&ca(IDX), &b(IDX), &e(IDX), nullptr}; for (int& q : x) --q; p[3] = &a.ref()(IDX); for (int k = 0; k < 4; ++k) if (V<T>::id(*p[k]) != o + 7) { vh::fail("cont:onebased", #N "d %s element %s by way %d is %d want %d", str(d).c_str(), str(x).c_str(), k, V<T>::id(*p[k]), o + 7); return; } } a = V<T>::mk(3); for (int o = 0; o < vol(d); ++o) { x = unlin(d, o); if (V<T>::id(a.ref()(IDX)) != 3 || V<T>::id(b.ref()(IDX)) != o + 7) { vh::fail("cont:onebased", #N "d constant"); return; } } vh::count("onebased"); }
  OB(2, AT2, (Ix{a.size2(), a.size1()})) OB(3, AT3, (Ix{a.size3(), a.size2(), a.size1()})) OB(4, AT4, (Ix{a.size4(), a.size3(), a.size2(), a.size1()})) OB(5, AT5, (Ix{a.size5(), a.size4(), a.size3(), a.size2(), a.size1()}))
}
static void onearith(vh::Rng& g) { int n = g.range(0, 7); Array1dO<double> a(n); for (int i = 1; i <= n; ++i) a[i] = g.sym(); double s = g.sym() + 2; Array1dO<double> m = -a, p = s * a, d = a / s; if (m.size() != n || p.size() != n || d.size() != n) vh::fail("cont:onebased", "sizes"); for (int i = 1; i <= n; ++i) if (m[i] != -a[i] || p[i] != s * a[i] || d[i] != a[i] / s) vh::fail("cont:onebased", "arithmetic"); vh::count("onebased"); }

template <class T> static void dims(vh::Rng& g, int len, int k) {
  switch (k % 6) { case 0: history<1, T>(g, len, 9); break; case 1: history<2, T>(g, len, 5); break; case 2: history<3, T>(g, len, 4); break; case 3: history<4, T>(g, len, 3); break; case 4: history<5, T>(g, len, 3); break; default: historyNd<T>(g, len); }
}
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,2,2");
  for (int k = 0; k < vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    vh::Rng g(vh::mix(vh::opt.seed, k)); int t = g.range(0, 5);
    vh::begin(k, "container history %d: %d dimensions, element type %d", k, k % 6 + 1, t); vh::distinct(std::to_string(vh::opt.seed) + "." + std::to_string(k)); if (k < 3) vh::sample("%s", vh::current().c_str());
    int len = vh::opt.thorough ? 120 : 60;
    switch (t) { case 0: dims<int>(g, len, k); break; case 1: dims<double>(g, len, k); break; case 2: dims<std::string>(g, len, k); break; case 3: dims<Complex>(g, len, k); break; case 4: dims<multi1d<int>>(g, len, k); break; default: if (k % 6 == 0) history<1, LatticeReal>(g, len / 2, 4); else if (k % 6 == 1) history<2, LatticeReal>(g, len / 2, 3); else dims<int>(g, len, k); }
    for (int q = 0; q < 4; ++q) { arith<int, true>(g, 0, true); arith<double, true>(g, 1e-14, false); arith<float, true>(g, 1e-6, false); arith<RealF, false>(g, 1e-6, false); funcs<RealD>(g, 1e-14); funcs<RealF>(g, 4e-6); }
    onebased<int>(g); onebased<std::string>(g); onearith(g);
    if (vh::failures() > 10) break;
  }
  qx::stop();
  return vh::finish();
}
