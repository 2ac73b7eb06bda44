// USES ex qx ref
// C18: the allocator as a history of allocations and frees with every live block watched, and field
// objects through construction, copies, assignment and destruction with every live field watched.
#include "ex.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <memory>
using namespace qx;
#define ALC QDP::Allocator::theQDPAllocator::Instance()
static std::string hist;
static void log(const char* f, ...) { char b[120]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); hist += b; if (hist.size() > 400) hist = "..." + hist.substr(hist.size() - 300); }
#if defined(QDP_DEBUG_MEMORY)
static const bool dbg = true;
#else
static const bool dbg = false;
#endif
#if defined(QDP_USE_TBBPOOL_ALLOCATOR)
static const bool pool = true;
#else
static const bool pool = false;
#endif
// what the allocator itself says is live
static std::vector<std::string> dumped() {
  fflush(stdout); std::cout.flush(); int save = dup(1), fd = open("dump.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); ALC.dump(); fflush(stdout); std::cout.flush(); dup2(save, 1); close(save); lseek(fd, 0, SEEK_SET); std::string t; char b[8192]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) t.append(b, n); close(fd); std::vector<std::string> r; std::stringstream ss(t); std::string l; while (std::getline(ss, l)) if (l.compare(0, 5, "mem= ") == 0) r.push_back(l); vh::count("dumps"); return r;
}
struct Blk { size_t n; unsigned char seed; std::string func; int line; };
static void fill(unsigned char* p, size_t n, unsigned char s) { for (size_t i = 0; i < n; ++i) p[i] = (unsigned char)(s + i * 7); }
static bool intact(const unsigned char* p, size_t n, unsigned char s) { for (size_t i = 0; i < n; ++i) if (p[i] != (unsigned char)(s + i * 7)) return false; return true; }
static bool refused(std::function<void()> f) { std::string out; int st = vh::in_child([&] { f(); fflush(stdout); _exit(0); }, &out, 60); vh::count("bad_frees"); if (WIFSIGNALED(st) || (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78))) { vh::fail("alloc:bad-free-crash", "freeing what was not allocated ends in a crash (%x): %s", st, out.substr(0, 300).c_str()); return true; } return WIFEXITED(st) && WEXITSTATUS(st) != 0; }
static void raw(vh::Rng& g, int len) {
  hist.clear(); size_t base = dumped().size(); std::map<uintptr_t, Blk> live; uint64_t f0 = vh::failures(); size_t held = 0; std::vector<std::pair<std::string, int>> stk; stk.push_back({"nowhere", 0}); static const char* fn[] = {"alpha", "beta", "gamma_function", ""};
  for (int q = 0; q < len && vh::failures() == f0; ++q) {
    int op = g.range(0, 9); if (live.empty()) op = 0; if (held > (16u << 20)) op = 6;
    if (op < 5) {
      static const size_t fix[] = {0, 1, 15, 16, 17, 31, 32, 33, 255, 4096, 32768, 65536, 98304}; size_t n = g.coin() ? fix[g.range(0, 12)] : g.range(0, 3) ? (size_t)g.range(0, 3000) : (size_t)g.range(0, 400000); log("a%zu ", n);
      void* v = ALC.allocate(n, g.coin() ? Allocator::DEFAULT : Allocator::FAST); uintptr_t p = (uintptr_t)v; vh::count("allocations"); held += n + 64;
      if (!v) { vh::fail("alloc:null", "allocate(%zu) gives no memory and says nothing", n); break; }
      if (p % QDP_ALIGNMENT_SIZE) vh::fail("alloc:align", "a block of %zu at %zx is not aligned to %d", n, (size_t)p, (int)QDP_ALIGNMENT_SIZE);
      auto it = live.lower_bound(p); if (it != live.end() && (it->first == p || it->first < p + n)) vh::fail("alloc:overlap", "a block of %zu overlaps a live one after %s", n, hist.c_str()); if (it != live.begin()) { --it; if (it->first + it->second.n > p) vh::fail("alloc:overlap", "a block of %zu lies in a live one after %s", n, hist.c_str()); }
      Blk b{n, (unsigned char)g.next(), stk.back().first, stk.back().second}; fill((unsigned char*)p, n, b.seed); live[p] = b;
    } else if (op < 8) { auto it = live.begin(); std::advance(it, g.range(0, (int)live.size() - 1)); log("f%zu ", it->second.n); if (!intact((unsigned char*)it->first, it->second.n, it->second.seed)) vh::fail("alloc:contents", "a live block of %zu has changed after %s", it->second.n, hist.c_str()); ALC.free((void*)it->first); held -= it->second.n + 64; live.erase(it); vh::count("frees"); }
    else if (op == 8) { for (auto& e : live) if (!intact((unsigned char*)e.first, e.second.n, e.second.seed)) { vh::fail("alloc:contents", "a live block of %zu has changed after %s", e.second.n, hist.c_str()); break; } auto d = dumped(); if (d.size() != base + live.size()) vh::fail("alloc:dump", "%zu blocks listed want %zu", d.size(), base + live.size());
      if (dbg) { std::map<std::string, int> w, s; for (auto& e : live) { char t[100]; snprintf(t, sizeof t, "line= %d  func= %s", e.second.line, e.second.func.c_str()); w[t]++; } for (auto& l : d) { size_t k = l.find("line= "); if (k != std::string::npos) s[l.substr(k)]++; } for (auto& e : w) if (s[e.first] < e.second) { vh::fail("alloc:dump-origin", "%d blocks listed with '%s' want %d", s[e.first], e.first.c_str(), e.second); break; } vh::count("origins", w.size()); } }
    else { if (g.coin() || stk.size() < 2) { const char* f = fn[g.range(0, 3)]; int l = g.range(1, 9999); ALC.pushFunc(f, l); stk.push_back({f, l}); } else { ALC.popFunc(); stk.pop_back(); } vh::count("origin_changes"); }
  }
  while (stk.size() > 1) { ALC.popFunc(); stk.pop_back(); }
  if (vh::failures() == f0) {
    struct Bad { const char* w; std::function<void()> f; }; static char stat[64]; void* gone = ALC.allocate(100, Allocator::DEFAULT); ALC.free(gone); std::unique_ptr<char[]> other(new char[256]); void* in = live.empty() ? (void*)stat : (void*)live.begin()->first; size_t inn = live.empty() ? 64 : live.begin()->second.n;
    std::vector<Bad> bad; bad.push_back({"no pointer", [&] { ALC.free(nullptr); }}); bad.push_back({"a freed block", [&] { ALC.free(gone); }}); bad.push_back({"static memory", [&] { ALC.free(stat + 16); }}); bad.push_back({"memory from elsewhere", [&] { ALC.free(other.get()); }}); if (inn >= 48) bad.push_back({"the inside of a block", [&] { ALC.free((char*)in + 16); }}); bad.push_back({"a block twice", [&] { void* v = ALC.allocate(40, Allocator::FAST); ALC.free(v); ALC.free(v); }});
    if (dbg) bad.push_back({"a function never entered (popFunc)", [&] { ALC.popFunc(); ALC.popFunc(); }});
    auto& b = bad[g.range(0, (int)bad.size() - 1)]; if (!refused(b.f)) vh::fail("alloc:bad-free", "freeing %s is accepted", b.w); if (!refused(bad[0].f)) vh::fail("alloc:bad-free", "freeing %s is accepted", bad[0].w);
  }
  for (auto& e : live) { if (!intact((unsigned char*)e.first, e.second.n, e.second.seed)) vh::fail("alloc:contents", "a live block of %zu has changed", e.second.n); ALC.free((void*)e.first); vh::count("frees"); }
  size_t d = dumped().size(); if (d != base && vh::failures() == f0) vh::fail("alloc:leak", "%zu blocks are listed after everything was freed, %zu before", d, base);
}
// field objects: the words of every object are a function of its stamp
struct Obj { virtual ~Obj() {} virtual void stamp(int) = 0; virtual bool same(int) const = 0; virtual Obj* copy() const = 0; virtual void assign(const Obj&) = 0; virtual void ranges(std::vector<std::pair<uintptr_t, uintptr_t>>&) const = 0; virtual int kind() const = 0; };
template <class L> static void put(L& a, int id) { typedef typename WordType<L>::Type_t W; for (int i = 0; i < Layout::sitesOnNode(); ++i) { W* p = (W*)&a.elem(i); for (size_t k = 0; k < sizeof(a.elem(i)) / sizeof(W); ++k) p[k] = (W)((id * 31 + i * 7 + (int)k) % 251 & 1 ? (id + i + (int)k) % 2 : (id * 13 + i + (int)k * 3) % 2); } }
template <class L> static bool is(const L& a, int id) { typedef typename WordType<L>::Type_t W; for (int i = 0; i < Layout::sitesOnNode(); ++i) { const W* p = (const W*)&a.elem(i); for (size_t k = 0; k < sizeof(a.elem(i)) / sizeof(W); ++k) if (p[k] != (W)((id * 31 + i * 7 + (int)k) % 251 & 1 ? (id + i + (int)k) % 2 : (id * 13 + i + (int)k * 3) % 2)) return false; } return true; }
template <class L> static void rng1(const L& a, std::vector<std::pair<uintptr_t, uintptr_t>>& r) { uintptr_t p = (uintptr_t)a.getF(); r.push_back({p, p + sizeof(a.elem(0)) * Layout::sitesOnNode()}); }
template <class L, int K> struct Fld : Obj { L a; Fld() {} Fld(const L& b) : a(b) {} void stamp(int id) { put(a, id); } bool same(int id) const { return is(a, id); } Obj* copy() const { return new Fld(a); } void assign(const Obj& o) { a = static_cast<const Fld&>(o).a; } void ranges(std::vector<std::pair<uintptr_t, uintptr_t>>& r) const { rng1(a, r); } int kind() const { return K; } };
template <class L, int K> struct Arr : Obj { multi1d<L> a; Arr(int n) : a(n) {} Arr(const multi1d<L>& b) : a(b) {} void stamp(int id) { for (int i = 0; i < a.size(); ++i) put(a[i], id + i); } bool same(int id) const { for (int i = 0; i < a.size(); ++i) if (!is(a[i], id + i)) return false; return true; } Obj* copy() const { return new Arr(a); } void assign(const Obj& o) { a = static_cast<const Arr&>(o).a; } void ranges(std::vector<std::pair<uintptr_t, uintptr_t>>& r) const { for (int i = 0; i < a.size(); ++i) rng1(a[i], r); } int kind() const { return K; } };
template <class L, int K> struct Vec : Obj { std::vector<L> a; Vec(int n) : a(n) {} void stamp(int id) { for (size_t i = 0; i < a.size(); ++i) put(a[i], id + (int)i); } bool same(int id) const { for (size_t i = 0; i < a.size(); ++i) if (!is(a[i], id + (int)i)) return false; return true; } Obj* copy() const { Vec* v = new Vec(0); for (auto& e : a) v->a.push_back(e); return v; } void assign(const Obj& o) { a = static_cast<const Vec&>(o).a; } void ranges(std::vector<std::pair<uintptr_t, uintptr_t>>& r) const { for (auto& e : a) rng1(e, r); } int kind() const { return K; } };
// a field on a subset that owns its storage
template <class T, int K> struct Sub_ : Obj {
  typedef OSubLattice<T> S; typedef OLattice<T> L; S a; const Subset* s; Sub_(const Subset& ss) : s(&ss) { a.setSubset(ss); } Sub_(const Sub_& o) : a(o.a), s(o.s) {}
  void stamp(int id) { L t; put(t, id); a = t; } bool same(int id) const { L t; put(t, id); for (int j = 0; j < s->numSiteTable(); ++j) if (memcmp(&a.getF()[j], &t.elem(s->siteTable()[j]), sizeof(T))) return false; return true; }
  Obj* copy() const { return new Sub_(*this); } void assign(const Obj& o) { const Sub_& b = static_cast<const Sub_&>(o); if (b.s != s) { a.setSubset(*b.s); s = b.s; } a = b.a; } void ranges(std::vector<std::pair<uintptr_t, uintptr_t>>& r) const { r.push_back({(uintptr_t)a.getF(), (uintptr_t)(a.getF() + s->numSiteTable())}); } int kind() const { return K; } };
static Pool* subs;
template <class L> struct Of; template <class T> struct Of<OLattice<T>> { typedef T type; };
static Obj* make(int k, vh::Rng& g) {
  const Subset& s = *subs->q[g.range(0, (int)subs->q.size() - 1)];
  switch (k) { case 0: return new Fld<LatticeReal, 0>(); case 1: return new Fld<LatticeComplex, 1>(); case 2: return new Fld<LatticeColorMatrix, 2>(); case 3: return new Fld<LatticeFermion, 3>(); case 4: return new Fld<LatticePropagator, 4>(); case 5: return new Fld<LatticeInteger, 5>(); case 6: return new Arr<LatticeColorMatrix, 6>(g.range(0, 4)); case 7: return new Vec<LatticeReal, 7>(g.range(0, 5)); case 8: return new Fld<LatticeDouble, 8>(); case 9: return new Sub_<Of<LatticeColorMatrix>::type, 9>(s); case 10: return new Sub_<Of<LatticeReal>::type, 10>(s); default: return new Fld<LatticeHalfFermion, 11>(); }
}
static void fields(vh::Rng& g, int len) {
  hist.clear(); size_t base = dumped().size(); uint64_t f0 = vh::failures(); struct E { std::unique_ptr<Obj> o; int id; }; std::vector<E> v; int ids = 0;
  auto all = [&](const char* w) { std::vector<std::pair<uintptr_t, uintptr_t>> r; size_t n = 0; for (auto& e : v) { if (!e.o->same(e.id)) { vh::fail("alloc:field-contents", "%s: a live field of kind %d has changed after %s", w, e.o->kind(), hist.c_str()); return; } size_t k = r.size(); e.o->ranges(r); n += r.size() - k; vh::count("fields_checked"); } for (auto& x : r) if (x.first % QDP_ALIGNMENT_SIZE) { vh::fail("alloc:align", "the storage of a field is not aligned"); break; } std::sort(r.begin(), r.end()); for (size_t i = 1; i < r.size(); ++i) if (r[i].first < r[i - 1].second && r[i - 1].second > r[i - 1].first) { vh::fail("alloc:overlap", "two live fields share storage after %s", hist.c_str()); break; } auto d = dumped(); if (d.size() != base + n) vh::fail("alloc:field-leak", "%s: %zu blocks are live, %zu fields are, after %s", w, d.size() - base, n, hist.c_str()); };
  for (int q = 0; q < len && vh::failures() == f0; ++q) {
    int op = g.range(0, 11); if (v.empty()) op = 0; if (v.size() > 14) op = 9;
    if (op < 4) { int k = g.range(0, 11); log("new%d ", k); Obj* o = make(k, g); ++ids; o->stamp(ids); v.push_back(E{std::unique_ptr<Obj>(o), ids}); vh::count("fields_made"); }
    else if (op < 6) { E& e = v[g.range(0, (int)v.size() - 1)]; log("copy%d ", e.o->kind()); int id = e.id; Obj* c = e.o->copy(); v.push_back(E{std::unique_ptr<Obj>(c), id}); vh::count("fields_copied"); if (g.coin()) { v.back().id = ++ids; v.back().o->stamp(ids); } }
    else if (op < 8) { int i = g.range(0, (int)v.size() - 1); std::vector<int> c; for (size_t j = 0; j < v.size(); ++j) if (v[j].o->kind() == v[i].o->kind()) c.push_back((int)j); int j = c[g.range(0, (int)c.size() - 1)]; log(i == j ? "self%d " : "assign%d ", v[i].o->kind()); v[i].o->assign(*v[j].o); v[i].id = v[j].id; vh::count("fields_assigned"); if (i != j && g.coin()) { v[j].id = ++ids; v[j].o->stamp(ids); } }
    else if (op < 10) { int i = g.range(0, (int)v.size() - 1); log("del%d ", v[i].o->kind()); v.erase(v.begin() + i); vh::count("fields_destroyed"); }
    else if (op == 10) { // temporaries, views and returned fields leave nothing behind
      log("temps "); LatticeReal a; put(a, 5); { LatticeReal b = a + a * a; LatticeReal c(b), d = 1.0, e = zero; auto f = [](const LatticeReal& x) { LatticeReal r = x; r += x; return r; }; LatticeReal h = f(a); b = f(f(c)); multi1d<LatticeReal> m(3); m = zero; m.resize(1); m.resize(4); m = b; LatticeReal w(m[1].getF(), 1.0f); w = zero; std::vector<LatticeReal> vv(2, a); vv.push_back(m[0]); vv.erase(vv.begin()); std::swap(vv[0], vv[1]); const Subset& s = *subs->q[g.range(0, (int)subs->q.size() - 1)]; b[s] = a; OSubLattice<Of<LatticeReal>::type> o1, o2(s, a), o3(o2); o1.setSubset(s); o1 = o3; o1.setSubset(QDP::all); o1 = a; } if (!is(a, 5)) vh::fail("alloc:field-contents", "temporaries change their operand"); vh::count("temporaries"); }
    else all("mid");
  }
  if (vh::failures() == f0) { all("at the end"); while (!v.empty()) { v.erase(v.begin() + g.range(0, (int)v.size() - 1)); vh::count("fields_destroyed"); } size_t d = dumped().size(); if (d != base) vh::fail("alloc:field-leak", "%zu blocks are live after the last field has gone", d - base); }
}
// all of the memory asked for is had again and again
static void reuse(vh::Rng& g) {
  size_t n = pool ? (size_t)(vh::opt.geti("poolmb", 64)) << 20 : 64u << 20; n = n / 100 * g.range(40, 60); for (int k = 0; k < 20; ++k) { void* p = 0; try { p = ALC.allocate(n, Allocator::DEFAULT); } catch (const std::bad_alloc&) {} if (!p) { vh::fail("alloc:reuse", "%zu bytes freed %d times cannot be had again", n, k); return; } memset(p, k, 64); ((char*)p)[n - 1] = 1; ALC.free(p); vh::count("large_blocks"); }
  // more than there is: a refusal, not a block
  size_t huge = pool ? n * 4 : (size_t)1 << 47; bool none = false; void* p = 0; std::string out; int st = vh::in_child([&] { try { p = ALC.allocate(huge, Allocator::DEFAULT); } catch (const std::bad_alloc&) { none = true; } fflush(stdout); _exit(none ? 3 : 0); }, &out, 60); vh::count("refused_sizes"); bool asan = out.find("allocation-size-too-big") != std::string::npos || out.find("out-of-memory") != std::string::npos || out.find("exceeds maximum") != std::string::npos;
  if (!asan && (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || WEXITSTATUS(st) >= 77)) vh::fail("alloc:exhausted", "allocate of %zu bytes, more than there are, is not refused (%x)", huge, st);
}
int main(int argc, char** argv) {
  vh::init(argc, argv); if (pool) vh::opt.kv["qdpargs"] = "-poolsize," + std::to_string(vh::opt.geti("poolmb", 64) / 1024.0); qx::start("2,2,2,4"); Pool ps; { vh::Rng g(vh::opt.seed); ps.make(g, 3); } subs = &ps;
  for (int k = 0; k < vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue; vh::Rng g(vh::mix(vh::opt.seed, k)); vh::begin(k, "%s history %d", k & 1 ? "field" : "allocation", k); vh::distinct(std::to_string(vh::opt.seed) + "." + std::to_string(k)); if (k < 3) vh::sample("%s", vh::current().c_str());
    int len = vh::opt.thorough ? 400 : 150; if (k & 1) fields(g, len); else raw(g, len); if (k % 10 == 3) reuse(g); if (vh::failures() > 10) break; }
  qx::stop(); return vh::finish();
}
