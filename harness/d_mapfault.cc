// USES ex qx ref
// C17: map-object files with one damaged byte, cut short, or left behind by a writer that died.
// Every damaged image is opened by the real reader in a process of its own; what it returns is judged
// against every value ever stored under the key.
#include "mapo.h"
#include "../lib/qdp_map_obj_disk.cc"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <thread>
using namespace qx;
using namespace mapo;
// the writer's own calls on the file it writes, recorded in order
static std::string watched;
struct Ev { uint64_t pos; B data; int op; bool flushing; };
static std::vector<Ev> calls;
static int opno = 0;
static bool in_flush = false;
static bool is_watched(int fd, char* path, size_t n) { if (watched.empty()) return false; char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, path, n - 1); if (k <= 0) return false; path[k] = 0; return watched == path; }
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  char path[4096]; bool w = is_watched(fd, path, sizeof path); uint64_t pos = w ? (uint64_t)syscall(SYS_lseek, fd, 0, SEEK_CUR) : 0; ssize_t r = syscall(SYS_write, fd, p, n); if (w && r > 0) calls.push_back(Ev{pos, B((const char*)p, r), opno, in_flush}); return r;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
  char path[4096]; bool w = is_watched(fd, path, sizeof path); uint64_t pos = w ? (uint64_t)syscall(SYS_lseek, fd, 0, SEEK_CUR) : 0; ssize_t r = syscall(SYS_writev, fd, v, c); if (w && r > 0) { B d; for (int i = 0; i < c; ++i) d.append((const char*)v[i].iov_base, v[i].iov_len); calls.push_back(Ev{pos, d.substr(0, r), opno, in_flush}); } return r;
}
enum { ORIGINAL = 20, FEWER = 21, FAILED = 22, WRONG = 30, STRANGE = 31, UNSTABLE = 32 };
template <class K, class V> struct Fault {
  typedef MapObjectDisk<K, V> D;
  struct Mo { std::map<B, std::pair<K, std::vector<V>>> m; B user; };
  // the reader's view, as an exit code
  static int look(const B& file, const Mo& m, uint64_t sd, bool rw, bool user) {
    vh::Rng g(sd); D d; d.setDebug(g.range(0, 5) ? 0 : 2); d.open(file, rw ? RW : RD); std::string u; d.getUserdata(u); if (user && u != m.user) return STRANGE;
    std::vector<K> ks; d.keys(ks); std::set<B> s; for (auto& k : ks) { B b = kb(k); if (!m.m.count(b) || !s.insert(b).second) return STRANGE; } if (ks.size() != d.size()) return STRANGE;
    int r = ORIGINAL; std::vector<const std::pair<const B, std::pair<K, std::vector<V>>>*> o; for (auto& e : m.m) o.push_back(&e); for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g.range(0, (int)i - 1)]);
    for (int round = 0; round < 2; ++round) for (auto e : o) { bool ex = d.exist(e->second.first); if (ex != (s.count(e->first) > 0)) return UNSTABLE; V v = V(); if (d.get(e->second.first, v) != 0) { r = std::max(r, ex ? (int)FAILED : (int)FEWER); continue; } bool ok = false; for (auto& w : e->second.second) ok |= G<V>::same(v, w); if (!ok) return WRONG; }
    return r;
  }
  // 0 original values, 1 failure reported, 2 fewer keys; a violation is reported here
  static int judge(const B& image, const Mo& m, vh::Rng& g, const char* what, bool user = true) {
    spit("x.mod", image); std::string out; uint64_t sd = g.next(); bool rw = g.coin(); int code = 0;
    int st = vh::in_child([&] { fclose(stdin); alarm(40); int c = FAILED; try { c = look("x.mod", m, sd, rw, user); } catch (const std::string&) { c = FAILED; } catch (const std::bad_alloc&) { c = FAILED; } fflush(stdout); _exit(c); }, &out, 60);
    vh::count("images_read"); std::string tail = out.substr(out.size() > 300 ? out.size() - 300 : 0);
    if (out.find("allocation-size-too-big") != B::npos || out.find("out of memory") != B::npos || out.find("out-of-memory") != B::npos) { vh::count("refused_by_size"); return 1; }
    if (st == -1 || (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) { vh::fail("mapfault:hang", "%s: the reader does not come to an end", what); return 1; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && out.find("Sanitizer") == B::npos && out.find("terminate called") == B::npos) { vh::count("refused"); return 1; }
    if (!WIFEXITED(st)) { vh::fail("mapfault:crash", "%s: the reader dies of signal %d: %s", what, WTERMSIG(st), tail.c_str()); return 1; }
    code = WEXITSTATUS(st);
    switch (code) {
    case ORIGINAL: vh::count("still_original"); return 0;
    case FEWER: vh::count("fewer_keys"); return 2;
    case FAILED: case 1: vh::count("refused"); return 1;
    case WRONG: vh::fail("mapfault:believed", "%s: a lookup succeeds with a value never stored under its key", what); return 1;
    case STRANGE: vh::fail("mapfault:strange-keys", "%s: the reader reports keys, or user data, never stored", what); return 1;
    case UNSTABLE: vh::fail("mapfault:unstable", "%s: keys, exist and size disagree", what); return 1;
    default: { vh::fail("mapfault:crash", "%s: the reader ends with code %d: %s", what, code, out.substr(0, 600).c_str()); return 1; }
    }
  }
  static int put(D& d, Mo& m, std::map<B, int>& cap, vh::Rng& g, int& upd) {
    int i = g.range(0, 29); K k = G<K>::key(i); B b = kb(k); auto it = m.m.find(b); upd = it != m.m.end(); V v = G<V>::val(g, upd ? cap[b] : 9); if (!upd) { cap[b] = G<V>::units(v); m.m.insert({b, {k, std::vector<V>(1, v)}}); } else it->second.second.push_back(v);
    if (d.insert(k, v) != 0) vh::fail("mapfault:insert", "insert fails"); return i;
  }
  // images with one byte changed, or cut short
  static void damage(vh::Rng& g, int n) {
    unlink("w.mod"); Mo m; std::map<B, int> cap; { D d; int ul = g.range(0, 12); for (int i = 0; i < ul; ++i) m.user += (char)g.next(); d.insertUserdata(m.user); d.open("w.mod", NEW); int c = g.range(1, 6), u; for (int i = 0; i < c; ++i) { put(d, m, cap, g, u); if (g.range(0, 5) == 0) d.flush(); } }
    for (auto& e : m.m) e.second.second.erase(e.second.second.begin(), e.second.second.end() - 1);
    B f = slurp("w.mod"); File p; try { p = parse(f); } catch (std::exception& e) { vh::fail("mapfault:format", "%s", e.what()); return; }
    // which bytes matter: the live records, the live index and the link to it
    std::vector<char> part(f.size(), 'd'); for (size_t i = 0; i < p.link + 16; ++i) part[i] = 'h'; for (size_t i = p.map; i < p.mapend; ++i) part[i] = 'i'; for (auto& e : m.m) { BinaryBufferWriter w; write(w, e.second.second[0]); size_t q = p.pos.at(e.first); for (size_t i = q; i < q + w.str().size() + 4; ++i) part[i] = 'r'; } for (size_t i = p.link; i < p.link + 16; ++i) part[i] = 'l';
    vh::count("files"); if (judge(f, m, g, "undamaged") != 0) vh::fail("mapfault:undamaged", "an undamaged file is not read");
    std::vector<std::pair<size_t, int>> w; // offset, damage (-1: cut)
    for (size_t i = 0; i < f.size(); ++i) { w.push_back({i, 1 + (int)(g.next() % 255)}); if (g.coin()) w.push_back({i, 1 << g.range(0, 7)}); w.push_back({i, -1}); }
    for (size_t i = 0; i < w.size() && (int)i < n; ++i) std::swap(w[i], w[i + g.next() % (w.size() - i)]); if ((int)w.size() > n) w.resize(n);
    for (auto& e : w) { B x = f; char ds[160]; if (e.second < 0) { x.resize(e.first); snprintf(ds, sizeof ds, "a file of %zu bytes (%zu keys) cut to %zu", f.size(), m.m.size(), e.first); } else { x[e.first] ^= (char)e.second; snprintf(ds, sizeof ds, "byte %zu (%c) of %zu (%zu keys) changed by %02x", e.first, part[e.first], f.size(), m.m.size(), e.second); }
      bool hdr = e.second >= 0 && part[e.first] == 'h'; int r = judge(x, m, g, ds, !hdr); vh::count(e.second < 0 ? "cuts" : part[e.first] == 'r' ? "damaged_record" : part[e.first] == 'i' ? "damaged_index" : part[e.first] == 'l' ? "damaged_link" : part[e.first] == 'h' ? "damaged_header" : "damaged_dead");
      if (e.second < 0 && r != 1) vh::fail("mapfault:cut", "%s: the file is read as if whole", ds);
      if (e.second >= 0 && (part[e.first] == 'r' || part[e.first] == 'i') && r == 2) vh::fail("mapfault:keys-lost", "%s: keys are missing without a word", ds);
      if (e.second >= 0 && (part[e.first] == 'r' || part[e.first] == 'i') && r == 0) vh::fail("mapfault:believed", "%s: the damage goes unnoticed", ds);
      if (e.second >= 0 && part[e.first] == 'd' && r != 0) vh::fail("mapfault:dead-bytes", "%s: a byte nothing refers to makes the file unreadable", ds);
      if (vh::failures() > 8) return; }
    // a damaged record does not take the others with it
    if (m.m.size() > 1) for (int k = 0; k < 3; ++k) { auto it = m.m.begin(); std::advance(it, g.range(0, (int)m.m.size() - 1)); B x = f; BinaryBufferWriter wv; write(wv, it->second.second[0]); x[p.pos.at(it->first) + wv.str().size() + g.range(0, 3)] ^= (char)(1 + g.next() % 255); Mo o = m; o.m.erase(it->first); spit("x.mod", x); std::string out; int st = vh::in_child([&] { D d; d.open("x.mod", RD); int bad = 0; for (auto& e : o.m) { V v = V(); if (d.get(e.second.first, v) != 0 || !G<V>::same(v, e.second.second[0])) bad = 1; } fflush(stdout); _exit(bad ? 3 : 0); }, &out, 60); vh::count("others_read"); if (st != 0) vh::fail("mapfault:others", "a damaged record makes another unreadable"); }
  }
  // every state the writer's calls leave on the disk, each also torn in the middle
  static void crash(vh::Rng& g, int n) {
    char cwd[3000]; if (!getcwd(cwd, sizeof cwd)) return; unlink("w.mod"); B start; Mo m; std::map<B, int> cap; int upd;
    // settled[op]: keys and values of the last flush known to be complete when op starts
    struct Op { bool flushed; std::set<B> need; std::set<B> touched; bool updated; }; std::vector<Op> ops; Op cur; cur.flushed = false; cur.updated = false; calls.clear(); watched = B(cwd) + "/w.mod"; opno = 0; in_flush = false; m.user = "crash";
    { D d; d.insertUserdata(m.user); ops.push_back(cur); d.open("w.mod", NEW); int len = g.range(4, 14);
      for (int q = 0; q < len; ++q) { ops.push_back(cur); opno = (int)ops.size() - 1; int o = g.range(0, 9); if (o < 6) { size_t had = m.m.size(); int i = put(d, m, cap, g, upd); (void)had; if (upd) { ops.back().touched.insert(kb(G<K>::key(i))); cur.touched.insert(kb(G<K>::key(i))); } } else if (o < 8) { if (!m.m.empty()) { V v = V(); d.get(m.m.begin()->second.first, v); } } else { in_flush = true; if (o == 8) d.flush(); else { d.close(); d.open("w.mod"); } in_flush = false; cur.flushed = true; cur.need.clear(); for (auto& e : m.m) cur.need.insert(e.first); cur.touched.clear(); vh::count("flushes_traced"); } }
      ops.push_back(cur); opno = (int)ops.size() - 1; in_flush = true; }
    in_flush = false; watched.clear(); std::vector<Ev> tr = calls; B whole = slurp("w.mod"), img; for (auto& e : tr) { if (img.size() < e.pos + e.data.size()) img.resize(e.pos + e.data.size(), '\0'); img.replace(e.pos, e.data.size(), e.data); } vh::count("writes_traced", tr.size()); if (img != whole) { vh::fail("harness:calls", "the recorded writes do not make up the file"); return; }
    std::vector<std::pair<size_t, size_t>> w; for (size_t i = 0; i < tr.size(); ++i) { w.push_back({i, 0}); for (int k = 0; k < 3; ++k) if (tr[i].data.size() > 1) w.push_back({i, 1 + g.next() % (tr[i].data.size() - 1)}); } for (size_t i = 0; i < w.size() && (int)i < n; ++i) std::swap(w[i], w[i + g.next() % (w.size() - i)]); if ((int)w.size() > n) w.resize(n);
    for (auto& e : w) { B x; for (size_t i = 0; i <= e.first; ++i) { size_t k = i < e.first ? tr[i].data.size() : e.second; if (!k) continue; if (x.size() < tr[i].pos + k) x.resize(tr[i].pos + k, '\0'); x.replace(tr[i].pos, k, tr[i].data, 0, k); }
      const Ev& v = tr[e.first]; const Op& op = ops[v.op]; char ds[200]; snprintf(ds, sizeof ds, "writer of %zu calls dying %zu bytes into call %zu (operation %d%s)", tr.size(), e.second, e.first, v.op, v.flushing ? ", a flush" : ""); int r = judge(x, m, g, ds, false); vh::count(v.flushing ? "deaths_flushing" : "deaths");
      // what a completed flush has put down stays readable, except records being overwritten; not judged inside a flush, where the link itself is torn
      if (op.flushed && !(v.flushing && e.second > 0)) { spit("x.mod", x); Mo keep; for (auto& k : op.need) if (!op.touched.count(k)) keep.m[k] = m.m[k]; std::string out; int st = vh::in_child([&] { D d; d.open("x.mod", RD); int bad = 0; for (auto& q : keep.m) { V val = V(); if (d.get(q.second.first, val) != 0) { bad = 1; break; } bool ok = false; for (auto& z : q.second.second) ok |= G<V>::same(val, z); if (!ok) bad = 2; } fflush(stdout); _exit(bad ? 10 + bad : 0); }, &out, 60); vh::count("flushed_content_checked"); if (st != 0) vh::fail("mapfault:flushed-lost", "%s: content of an earlier, completed flush cannot be read any more (status %x)", ds, st); }
      (void)r; if (vh::failures() > 8) return; }
  }
};
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,1,2");
  for (int k = 0; k < vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    vh::Rng g(vh::mix(vh::opt.seed, k)); int n = vh::opt.geti("images", 60), t = k % 7;
    static const char* nm[] = {"char to float", "int to string", "string to array", "struct to string", "array to int", "struct to LatticeFermion", "string to LatticeColorMatrix"};
    vh::begin(k, "damaged map files %d: %s", k, nm[t]); vh::distinct(std::to_string(vh::opt.seed) + "." + std::to_string(k)); if (k < 3) vh::sample("%s", vh::current().c_str());
#define RUN(K, V) { if (k / 7 % 3 != 2) Fault<K, V>::damage(g, n); else Fault<K, V>::crash(g, n); break; }
    typedef multi1d<double> AD; typedef multi1d<int> AI;
    switch (t) { case 0: RUN(char, float) case 1: RUN(int, Str) case 2: RUN(Str, AD) case 3: RUN(Key3, Str) case 4: RUN(AI, int) case 5: RUN(Key3, LatticeFermion) default: RUN(Str, LatticeColorMatrix) }
    if (vh::failures() > 8) break;
  }
  qx::stop();
  return vh::finish();
}
