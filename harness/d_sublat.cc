// USES ex qx ref
// C25: fields that live on a subset, as histories beside a full field holding the same values.
#include "sublat.h"
namespace qx {
Pool* subs;
std::string hist;
void lg(const char* f, ...) { char b[120]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); hist += b; if (hist.size() > 400) hist = "..." + hist.substr(hist.size() - 300); vh::count("operations"); }
int offer(std::function<void()> f, std::string* out) { return vh::in_child([&] { f(); fflush(stdout); _exit(0); }, out, 60); }
void refuse(const char* what, std::function<void()> f) { std::string o; int st = offer(f, &o); vh::count("refusals"); if (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || WEXITSTATUS(st) >= 77) vh::fail("sublat:accepted", "%s is not refused (%x): %s after %s", what, st, o.substr(0, 200).c_str(), hist.c_str()); }
} // namespace qx
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("4,4,2,4");
  int k = 0;
  for (int c = 0; c < vh::opt.cases; ++c) {
    vh::Rng g(vh::mix(vh::opt.seed, c)); qx::Pool ps; ps.make(g, 4); qx::subs = &ps;
    std::vector<qx::Part*> v; for (qx::Part* x = qx::Part::head; x; x = x->next) v.push_back(x);
    std::sort(v.begin(), v.end(), [](qx::Part* a, qx::Part* b) { return std::string(a->name) < b->name; });
    for (qx::Part* p : v) { int q = k++; if (vh::opt.only >= 0 && vh::opt.only != q) continue; if (!vh::opt.gets("part", "").empty() && vh::opt.gets("part", "") != p->name) continue; vh::begin(q, "fields on subsets, %s, history %d, lattice %s", p->name, c, vh::join(qx::geom.L).c_str()); vh::distinct(vh::current()); qx::cx.g = vh::Rng(vh::mix(vh::opt.seed * 977, q)); qx::hist.clear(); p->f(); if (q % 41 == 0) vh::sample("%s: %s", p->name, qx::hist.c_str()); }
  }
  return vh::finish();
}
