// USES ex qx ref
// C24: lives of the library, each in a process of its own: starting up with options, laying out, computing,
// shutting down, aborting, in every order the documentation allows and in some it does not.
#include "ex.h"
#include <sys/wait.h>
#include <unistd.h>
#include <functional>
using namespace qx;
static std::string hist;
static void lg(const char* f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); hist += b; }
#define BAD(...) do { printf("\nBAD: "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(41); } while (0)
#if defined(QDP_USE_TBBPOOL_ALLOCATOR)
static const bool pool = true;
#else
static const bool pool = false;
#endif
#if defined(QDP_USE_PROFILING)
static const bool prof = true;
#else
static const bool prof = false;
#endif
struct Args { std::vector<std::string> s; std::vector<char*> v; int c; char** p; void fix() { v.clear(); for (auto& x : s) v.push_back((char*)x.c_str()); v.push_back(nullptr); c = (int)s.size(); p = v.data(); } };
static double F(const LatticeReal& a, int i) { return a.elem(i).elem().elem().elem(); }
static uint64_t dig(const std::vector<double>& v) { uint64_t h = 7; for (double d : v) { uint64_t u; memcpy(&u, &d, 8); h = vh::mix(h, u); } return h; }
static std::map<std::string, uint64_t> seen;
// statements on a fresh layout, compared with loops over the sites
static void work(vh::Rng& g, const std::vector<int>& L) {
  startGeometry(); LatticeReal a, b, c; int n = Layout::sitesOnNode(); if (n != geom.vol) BAD("%d sites want %d", n, geom.vol);
  if (Layout::vol() != geom.vol || sv(Layout::lattSize()) != L) BAD("the lattice is not the one asked for");
  std::vector<double> x(n), y(n); for (int i = 0; i < n; ++i) { a.elem(i).elem().elem().elem() = x[i] = g.range(-5, 5); b.elem(i).elem().elem().elem() = y[i] = g.range(-5, 5); }
  c = a * b - a; double s = 0; for (int i = 0; i < n; ++i) { s += x[i] * y[i] - x[i]; if (F(c, i) != x[i] * y[i] - x[i]) BAD("an expression is wrong at site %d", i); }
  if (toDouble(sum(c)) != s) BAD("a sum is wrong");
  int mu = g.range(0, Nd - 1); c = shift(a, FORWARD, mu); for (int i = 0; i < n; ++i) { std::vector<int> p = geom.coord(lin2lex[i]); p[mu] = (p[mu] + 1) % L[mu]; if (F(c, i) != x[lex2lin[geom.lex(p)]]) BAD("a shift along %d is wrong at site %d", mu, i); }
  c = zero; c[rb[1]] = a; for (int i = 0; i < n; ++i) { std::vector<int> p = geom.coord(lin2lex[i]); int q = 0; for (int v : p) q += v; if (F(c, i) != (q & 1 ? x[i] : 0)) BAD("a checkerboard statement is wrong at site %d", i); }
  LatticeColorMatrix u, v, w; for (int i = 0; i < n; ++i) for (int j = 0; j < Nc; ++j) for (int k = 0; k < Nc; ++k) { u.elem(i).elem().elem(j, k) = RComplex<REAL>(g.range(-2, 2), g.range(-2, 2)); v.elem(i).elem().elem(j, k) = RComplex<REAL>(g.range(-2, 2), g.range(-2, 2)); }
  w = u * adj(v); for (int i = 0; i < n; ++i) for (int j = 0; j < Nc; ++j) for (int k = 0; k < Nc; ++k) { cd z = 0; for (int m = 0; m < Nc; ++m) z += cd(u.elem(i).elem().elem(j, m).real(), u.elem(i).elem().elem(j, m).imag()) * std::conj(cd(v.elem(i).elem().elem(k, m).real(), v.elem(i).elem().elem(k, m).imag())); if (w.elem(i).elem().elem(j, k).real() != z.real() || w.elem(i).elem().elem(j, k).imag() != z.imag()) BAD("a matrix product is wrong at site %d", i); }
  Seed sd; int seedno = 11; sd = seedno; RNG::setrn(sd); random(a); std::vector<double> r(geom.vol); for (int i = 0; i < n; ++i) r[lin2lex[i]] = F(a, i); uint64_t h = dig(r); std::string key = vh::join(L); auto it = seen.find(key); if (it == seen.end()) seen[key] = h; else if (it->second != h) BAD("random numbers depend on what was done before (lattice %s)", key.c_str());
}
struct Want { int exit = 0; bool anynonzero = false; std::string text; };
// plan and act: the same generator on both sides, the parent only needs the expected end
static Want life(vh::Rng g, bool act) {
  Want w; bool up = false, sized = false, made = false; int creates = 0; std::vector<int> L; Args a; std::vector<std::unique_ptr<LatticeFermion>> keep; int len = g.range(2, 14);
  static const std::vector<std::vector<int>> LS = {{2, 2, 2, 2}, {4, 2, 2, 4}, {2, 4, 6, 2}, {4, 4, 4, 4}, {6, 2, 2, 2}};
  for (int q = 0; q < len; ++q) {
    int op = g.range(0, 12); vh::Rng h(g.next());
    if (!up && op > 4 && op < 10) op = 0;
    if (act && QDP_isInitialized() != up) BAD("QDP_isInitialized says %d", (int)QDP_isInitialized());
    switch (op) {
    case 0: case 1: case 2: {
      a.s = {"prog"}; if (pool) { a.s.push_back("-poolsize"); a.s.push_back("0.05"); }
      int k = g.range(0, 5); bool miss = false, help = false; if (k == 0) { a.s.push_back("-i"); a.s.push_back("in.xml"); } if (k == 1 && !pool) { a.s.push_back("-poolsize"); a.s.push_back("0.01"); } if (prof && k == 4) { a.s.push_back("-p"); a.s.push_back("3"); }
      if (g.range(0, 24) == 0) { a.s.push_back(prof && g.coin() ? "-p" : "-poolsize"); miss = true; } if (g.range(0, 30) == 0) { a.s.insert(a.s.begin() + 1, "-h"); help = true; }
      a.fix(); lg("initialize("); for (size_t i = 1; i < a.s.size(); ++i) lg("%s ", a.s[i].c_str()); lg(") ");
      if (up) { if (g.range(0, 3)) { lg("(not) "); break; } w.anynonzero = true; w.text = "already inited"; } else if (help) { w.anynonzero = true; w.text = "Usage"; } else if (miss) { w.anynonzero = true; w.text = "missing argument"; }
      if (act) { std::vector<std::string> s0 = a.s; QDP_initialize(&a.c, &a.p); if (w.anynonzero) BAD("the start-up that should have been refused goes on"); if (a.c != (int)s0.size()) BAD("the argument count changed"); for (int i = 0; i < a.c; ++i) if (s0[i] != a.p[i]) BAD("argument %d changed", i); }
      if (w.anynonzero) return w; up = true; break; }
    case 3: { int m = g.range(0, 9); L = LS[g.range(0, 4)]; lg("size(%s) ", vh::join(L).c_str()); sized = true; if (act) Layout::setLattSize(mv(L)); (void)m; break; }
    case 4: case 5: case 6: {
      if (!up) { if (g.range(0, 5)) break; lg("create before initialize "); w.anynonzero = true; w.text = "not initialized"; if (act) { Layout::create(); BAD("a layout before the start-up is accepted"); } return w; }
      if (!sized) { if (g.range(0, 5)) break; lg("create without size "); w.anynonzero = true; w.text = "dimension of lattice size"; if (act) { Layout::create(); BAD("a layout without a size is accepted"); } return w; }
      if (pool && creates) { lg("(pool is there) "); break; }
      lg("create "); ++creates; if (act) { keep.clear(); Layout::create(); work(h, L); } made = true; break; }
    case 7: case 8: if (made && up) { lg("field "); if (act) { if (sv(Layout::lattSize()) == L && Layout::vol() == geom.vol) { keep.push_back(std::unique_ptr<LatticeFermion>(new LatticeFermion)); *keep.back() = zero; for (auto& f : keep) if (toDouble(norm2(*f)) != 0) BAD("a field changed"); } } } break;
    case 9: { lg("messages "); if (act) { for (int n : {0, 1, 100, 1000, 1023, 1024, 1025, 5000}) { std::string t((size_t)n, 'm'); t += (char)('A' + h.range(0, 25)); int r = h.coin() ? QDP_info("%s", t.c_str()) : QDP_error("<%d> %s", 7, t.c_str()); if (r != (int)t.size() && r != (int)t.size() + 4) BAD("a message of %d characters is reported as %d", n, r); } if (prof) { std::vector<int> lv{getProfileLevel()}; for (int n = h.range(1, 4); n > 0; --n) { int z = h.range(0, 3); QDP_PUSH_PROFILE(z); lv.push_back(getProfileLevel()); if (lv.back() != z) BAD("profile level %d after pushing %d", lv.back(), z); if (made && sv(Layout::lattSize()) == L) { LatticeInt p, r; p = 3; r = p * p + p; for (int i = 0; i < Layout::sitesOnNode(); ++i) if (r.elem(i).elem().elem().elem() != 12) BAD("a statement profiled at level %d is wrong", z); } if (h.coin()) { QDP_POP_PROFILE(); lv.pop_back(); if (getProfileLevel() != lv.back()) BAD("profile level %d after a pop, it was %d before the push", getProfileLevel(), lv.back()); } } while (lv.size() > 1) { QDP_POP_PROFILE(); lv.pop_back(); if (getProfileLevel() != lv.back()) BAD("profile level %d after a pop, it was %d before the push", getProfileLevel(), lv.back()); } } QDPIO::cout << "to all" << std::endl; if (QDPIO::cout.fail()) BAD("QDPIO::cout fails"); } break; }
    case 10: case 11: lg("finalize "); if (act) QDP_finalize(); up = false; if (g.coin()) { lg("fields gone "); keep.clear(); } break;
    default: { int k = g.range(0, 7); if (k == 0) { int st = g.range(0, 20); lg("abort(%d) ", st); w.exit = st; if (act) { QDP_abort(st); BAD("QDP_abort returns"); } return w; } if (k == 1) { int n = g.range(0, 1) ? 3000 : 10; lg("error_exit "); w.anynonzero = true; w.text = std::string((size_t)n, 'e') + "!"; if (act) { QDP_error_exit("%s%c", std::string((size_t)n, 'e').c_str(), '!'); BAD("QDP_error_exit returns"); } return w; } }
    }
  }
  if (act && g.coin()) { QDP_finalize(); }
  return w;
}
static void one(int c) {
  uint64_t sd = vh::mix(vh::opt.seed, c); hist.clear(); Want w = life(vh::Rng(sd), false); std::string plan = hist; std::string out; int st = vh::in_child([&] { fflush(stdout); Want z = life(vh::Rng(sd), true); (void)z; fflush(stdout); exit(0); }, &out, 120);
  vh::count("lives"); size_t p = out.find("BAD: "); std::string tail = out.size() > 500 ? out.substr(out.size() - 500) : out; vh::distinct(plan);
  if (p != std::string::npos) { vh::fail("life:wrong", "%s: after %s", out.substr(p + 5, 200).c_str(), plan.c_str()); return; }
  if (!WIFEXITED(st) || WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78) { vh::fail("life:crash", "the process ends with status %x after %s: %s", st, plan.c_str(), tail.c_str()); return; }
  int e = WEXITSTATUS(st); if (w.anynonzero) { vh::count("refusals"); if (e == 0) vh::fail("life:exit", "exit status 0 after %s", plan.c_str()); if (out.find(w.text) == std::string::npos) vh::fail("life:diagnostic", "no diagnostic '%.40s' after %s: %s", w.text.c_str(), plan.c_str(), tail.c_str()); } else if (e != w.exit) vh::fail("life:exit", "exit status %d want %d after %s: %s", e, w.exit, plan.c_str(), tail.c_str()); else vh::count(w.exit ? "aborts" : "ends");
  if (c % 29 == 0) vh::sample("%s", plan.c_str());
}
int main(int argc, char** argv) {
  vh::init(argc, argv);
  for (int c = 0; c < vh::opt.cases; ++c) { if (vh::opt.only >= 0 && vh::opt.only != c) continue; vh::begin(c, "life %d", c); one(c); }
  return vh::finish();
}
