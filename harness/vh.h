// Common part of every harness: options, PRNG, monitors' report channel.
#ifndef VH_H
#define VH_H
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); } // inclusive
  bool coin() { return next() & 1; }
  double uni() { return (double)(next() >> 11) / 9007199254740992.0; }
  double sym() { return 2 * uni() - 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

struct Opts {
  uint64_t seed = 1;
  int cases = 1;
  int only = -1;         // replay a single case
  bool thorough = false;
  std::string out;
  std::string dir;       // scratch folder (private to this process)
  std::vector<int> latt;
  std::map<std::string, std::string> kv;
  int geti(const char* k, int d) const;
  std::string gets(const char* k, const std::string& d) const;
};
extern Opts opt;

// Parse --seed --cases --only --out --dir --latt a,b,c,d --key=value
void init(int argc, char** argv);
// switch the output file (used after a fork: one file per node)
void reopen(const std::string& suffix);
// announce a case: what runs from here to the next begin()
void begin(int k, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
const std::string& current();
// one observed event of a kind
void count(const char* what, uint64_t n = 1);
// a distinct non-trivial case
void distinct(const std::string& descr);
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// A violation: key identifies the defect (stable, no numbers that vary), rest is detail
void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
uint64_t failures();
// final report; returns the exit code
int finish();
uint64_t mix(uint64_t a, uint64_t b);
std::string join(const std::vector<int>& v, const char* sep = ",");
uint64_t hash(const std::string& s);
// Run f in a forked child. Returns wait status; out gets child's stdout/stderr tail.
template <class F> int in_child(F f, std::string* text = nullptr, int timeout_s = 60);
int in_child_impl(void (*f)(void*), void* arg, std::string* text, int timeout_s);
template <class F> int in_child(F f, std::string* text, int timeout_s) {
  struct H { static void go(void* p) { (*(F*)p)(); } };
  return in_child_impl(&H::go, &f, text, timeout_s);
}
} // namespace vh
#endif
