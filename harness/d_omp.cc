// C19: the thread dispatcher: each index of the range goes to exactly one thread, for any size and team
#include "qdp.h"
#include "vh.h"
#include <algorithm>
#include <mutex>
using namespace QDP;
struct Call { long lo, hi; int id; };
struct Arg { std::vector<Call>* calls; std::mutex* m; unsigned char* cell; int* plain; int tag; };
static void ranges(int lo, int hi, int id, Arg* a) { std::lock_guard<std::mutex> l(*a->m); a->calls->push_back({lo, hi, id}); }
static void cells(int lo, int hi, int id, Arg* a) { for (int i = lo; i < hi; ++i) { ++a->cell[i]; a->plain[i] = i * 3 + a->tag; } std::lock_guard<std::mutex> l(*a->m); a->calls->push_back({lo, hi, id}); }
static void check(int n, std::vector<Call> c, const char* what) {
  std::sort(c.begin(), c.end(), [](const Call& a, const Call& b) { return a.lo != b.lo ? a.lo < b.lo : a.hi < b.hi; });
  long at = 0; std::set<int> ids;
  for (auto& k : c) { if (k.lo == k.hi && k.lo >= 0 && k.lo <= n) continue; if (k.lo != at || k.hi < k.lo || k.hi > n) { vh::fail("omp:partition", "%s of %d indices: a thread gets [%ld,%ld), expected to go on at %ld (%zu calls)", what, n, k.lo, k.hi, at, c.size()); return; } at = k.hi; }
  if (at != n) vh::fail("omp:partition", "%s of %d indices stops at %ld", what, n, at);
  for (auto& k : c) { if (!ids.insert(k.id).second) vh::fail("omp:partition", "%s of %d indices: two calls for thread %d", what, n, k.id); if (k.id < 0 || k.id >= qdpNumThreads()) vh::fail("omp:thread", "thread number %d of %d", k.id, qdpNumThreads()); }
  vh::count("dispatches"); if (n == 0) vh::count("empty_dispatches"); if (n < qdpNumThreads()) vh::count("small_dispatches");
}
int main(int argc, char** argv) {
  vh::init(argc, argv);
  for (int c = 0; c < vh::opt.cases; ++c) {
    if (vh::opt.only >= 0 && vh::opt.only != c) continue;
    vh::begin(c, "dispatch %d, %d threads", c, qdpNumThreads()); vh::Rng g(vh::mix(vh::opt.seed, c)); std::mutex m;
    for (int q = 0; q < 40; ++q) {
      int n = q < 20 ? g.range(0, 40) : g.range(0, 3000); std::vector<Call> v; std::vector<unsigned char> cell(n + 1, 0); std::vector<int> plain(n + 1, -7); Arg a{&v, &m, cell.data(), plain.data(), q}; dispatch_to_threads(n, a, cells); check(n, v, "a dispatch");
      for (int i = 0; i < n; ++i) if (cell[i] != 1 || plain[i] != i * 3 + q) { vh::fail("omp:once", "index %d of %d is processed %d times", i, n, cell[i]); break; }
      if (cell[n] != 0 || plain[n] != -7) vh::fail("omp:once", "the index past the last of %d is processed", n); vh::count("indices", n); vh::distinct("n" + std::to_string(n));
    }
    for (int q = 0; q < 20; ++q) { int n = q < 10 ? 2147483647 - g.range(0, 1000) : (int)(g.next() >> 34) + (1 << 30); if (q == 3) n = 2147483647; std::vector<Call> v; Arg a{&v, &m, nullptr, nullptr, 0}; dispatch_to_threads(n, a, ranges); check(n, v, "a large dispatch"); vh::count("large_dispatches"); vh::distinct("n" + std::to_string(n)); }
    for (int q = 0; q < 10; ++q) { int n = g.range(1 << 20, 1 << 30); std::vector<Call> v; Arg a{&v, &m, nullptr, nullptr, 0}; dispatch_to_threads(n, a, ranges); check(n, v, "a large dispatch"); vh::count("large_dispatches"); vh::distinct("n" + std::to_string(n)); }
  }
  return vh::finish();
}
