// OpenMP run-time for g++ -fopenmp code, in place of libgomp: every parallel region gets fresh
// threads of its own, so that a race detector sees exactly the orderings the program has
// (start after the region begins, end before it is left), and the monitor chooses how many
// threads a region gets and how they are delayed, or runs them one after another in a random order.
//   VH_OMP=n        threads (omp_get_max_threads)
//   VH_OMP_MODE     free (concurrent, random delays) | order (one at a time, random order)
//   VH_OMP_DYN=1    a region may get fewer threads than the maximum, as OpenMP allows
//   VH_OMP_SEED
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <set>
#include <vector>
#include "vh.h"
namespace {
struct Cfg { int n; bool order, dyn; uint64_t s; Cfg() { const char* p = getenv("VH_OMP"); n = p ? atoi(p) : 4; if (n < 1) n = 1; p = getenv("VH_OMP_MODE"); order = p && !strcmp(p, "order"); p = getenv("VH_OMP_DYN"); dyn = p && *p == '1'; p = getenv("VH_OMP_SEED"); s = p ? strtoull(p, 0, 10) : 1; } };
Cfg& cfg() { static Cfg c; return c; }
uint64_t nextr() { uint64_t& s = cfg().s; s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
__thread int my_id = 0, team = 1, level = 0;
struct Region;
struct Th { Region* r; int id; uint64_t delay; pthread_t t; };
struct Region { void (*fn)(void*); void* data; int n; pthread_barrier_t bar; };
__thread Region* cur = nullptr;
int order_[1024]; int done_;   // completion order, kept without adding an ordering between the threads
void body(Th* h) {
  int o1 = my_id, o2 = team; Region* o3 = cur; my_id = h->id; team = h->r->n; cur = h->r; ++level;
  uint64_t d = h->delay; if ((d & 3) == 1) sched_yield(); else if ((d & 31) == 2) { struct timespec t = {0, (long)(1000 + (d >> 8) % 60000)}; nanosleep(&t, 0); } else for (volatile uint64_t k = 0; k < (d >> 8) % 400; k = k + 1) {}
  h->r->fn(h->r->data);
  int at = __atomic_fetch_add(&done_, 1, __ATOMIC_RELAXED); __atomic_store_n(&order_[at & 1023], h->id, __ATOMIC_RELAXED);
  --level; my_id = o1; team = o2; cur = o3;
}
void* run(void* p) { body((Th*)p); return nullptr; }
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
std::set<uint64_t>& seen() { static std::set<uint64_t> s; return s; }
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) {
  if (level > 0) { Region* c = cur; int i = my_id, t = team; my_id = 0; team = 1; fn(data); my_id = i; team = t; cur = c; return; }
  Cfg& c = cfg(); int n = num ? (int)num : c.n; if (c.dyn && n > 1 && nextr() % 3 == 0) n = 1 + (int)(nextr() % n);
  Region r; r.fn = fn; r.data = data; r.n = n; pthread_barrier_init(&r.bar, 0, n); done_ = 0;
  std::vector<Th> th(n); for (int i = 0; i < n; ++i) { th[i].r = &r; th[i].id = i; th[i].delay = nextr(); }
  if (c.order) {
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[nextr() % (i + 1)]);
    for (int i : p) { if (i == 0) body(&th[0]); else { pthread_create(&th[i].t, 0, run, &th[i]); pthread_join(th[i].t, 0); } }
  } else {
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 1; --i) std::swap(p[i], p[1 + nextr() % i]);
    for (int i = 1; i < n; ++i) if (pthread_create(&th[p[i]].t, 0, run, &th[p[i]])) { fprintf(stderr, "omprt: no thread\n"); abort(); }
    body(&th[0]); for (int i = 1; i < n; ++i) pthread_join(th[i].t, 0);
  }
  pthread_barrier_destroy(&r.bar);
  uint64_t h = n; for (int i = 0; i < n; ++i) h = h * 1315423911u + order_[i] + 1;
  vh::count("parallel_regions"); vh::count("threads_run", n); if (n > 1 && seen().size() < 100000 && seen().insert(h).second) vh::count("finishing_orders");
}
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
void GOMP_barrier() { if (cur && !cfg().order) pthread_barrier_wait(&cur->bar); }
bool GOMP_single_start() { return my_id == 0; }
int omp_get_max_threads() { return cfg().n; }
int omp_get_num_threads() { return team; }
int omp_get_thread_num() { return my_id; }
int omp_in_parallel() { return level > 0; }
int omp_get_num_procs() { return cfg().n; }
void omp_set_num_threads(int n) { cfg().n = n; }
void omp_set_dynamic(int) {}
}
