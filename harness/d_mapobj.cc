// USES ex qx ref
// C16: map objects in memory and on disk as histories beside a plain map.
#include "mapo.h"
#include "../lib/qdp_map_obj_disk.cc"
using namespace qx;
using namespace mapo;
static std::string hist;
static void log(const char* f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); hist += b; if (hist.size() > 500) hist = "..." + hist.substr(hist.size() - 400); vh::count("operations"); }
template <class K, class V> struct Model { std::map<B, std::pair<K, V>> m; std::map<B, int> cap; B user; };
template <class K, class V> struct Hist {
  typedef Model<K, V> Mo;
  static bool check(MapObject<K, V>& d, const Mo& m, const char* what, vh::Rng& g, bool values = true) {
    uint64_t f0 = vh::failures(); vh::count("maps_compared");
    if (d.size() != m.m.size()) vh::fail("mapobj:size", "%s: size %u want %zu after %s", what, d.size(), m.m.size(), hist.c_str());
    std::vector<K> ks; d.keys(ks); std::set<B> s; for (auto& k : ks) s.insert(kb(k)); if (ks.size() != m.m.size() || s.size() != m.m.size()) vh::fail("mapobj:keys", "%s: %zu keys, %zu distinct, want %zu after %s", what, ks.size(), s.size(), m.m.size(), hist.c_str());
    for (auto& e : m.m) { if (!s.count(e.first)) { vh::fail("mapobj:keys", "%s: a key is missing after %s", what, hist.c_str()); break; } }
    std::vector<const std::pair<const B, std::pair<K, V>>*> o; for (auto& e : m.m) o.push_back(&e); for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g.range(0, (int)i - 1)]);
    if (values) for (auto e : o) { V v = V(); if (!d.exist(e->second.first)) { vh::fail("mapobj:exist", "%s: a stored key does not exist after %s", what, hist.c_str()); break; } int r = d.get(e->second.first, v); vh::count("lookups"); if (r != 0 || !G<V>::same(v, e->second.second)) { vh::fail("mapobj:value", "%s: lookup of a stored key gives %s after %s", what, r ? "nothing" : "another value", hist.c_str()); break; } }
    for (int i = 0; i < 3; ++i) { K k = G<K>::key(g.range(30, 45)); V v = V(); if (d.exist(k) || d.get(k, v) == 0) vh::fail("mapobj:missing", "%s: a key never stored is found after %s", what, hist.c_str()); vh::count("misses"); }
    return vh::failures() == f0;
  }
  static void put(MapObject<K, V>& d, Mo& m, vh::Rng& g, bool disk) {
    int i = g.range(0, 29); K k = G<K>::key(i); B b = kb(k); bool upd = m.m.count(b); int mx = 12;
    if (disk && upd) mx = m.cap[b]; // an update that needs more room than the record has is the business of grow()
    V v = G<V>::val(g, mx); log(upd ? "update%d " : "insert%d ", i); vh::count(upd ? "updates" : "inserts"); if (!upd) m.cap[b] = G<V>::units(v);
    int r = d.insert(k, v); if (r != 0) vh::fail("mapobj:insert", "insert returns %d after %s", r, hist.c_str());
    m.m.erase(b); m.m.insert({b, {k, v}});
  }
  static bool format(const B& file, const Mo& m) {
    B f = slurp(file); vh::count("files_parsed"); File p; try { p = parse(f); } catch (std::exception& e) { vh::fail("mapobj:format", "the file is not readable by its format (%s) after %s", e.what(), hist.c_str()); return false; }
    if (p.user != m.user) { vh::fail("mapobj:userdata", "user data in the file after %s", hist.c_str()); return false; }
    if (p.pos.size() != m.m.size()) { vh::fail("mapobj:format", "%zu keys in the file want %zu after %s", p.pos.size(), m.m.size(), hist.c_str()); return false; }
    for (auto& e : m.m) { auto it = p.pos.find(e.first); if (it == p.pos.end()) { vh::fail("mapobj:format", "a key is not in the file after %s", hist.c_str()); return false; } BinaryBufferWriter w; write(w, e.second.second); B v = w.str(); if (f.compare(it->second, v.size(), v) || rd32(f, it->second + v.size()) != crc(v)) { vh::fail("mapobj:format", "the record of a key in the file is not its value and checksum after %s", hist.c_str()); return false; } vh::count("records_parsed"); }
    return true;
  }
  // the same content written by the independent writer
  static B foreign(const Mo& m, vh::Rng& g, uint64_t pad) {
    B head = be32(MAGIC.size()) + MAGIC + be32(1) + be32(m.user.size()) + m.user; size_t base = head.size() + 16; B body(pad, 'p'); std::vector<std::pair<B, uint64_t>> pos; std::vector<const std::pair<const B, std::pair<K, V>>*> o; for (auto& e : m.m) o.push_back(&e); for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g.range(0, (int)i - 1)]);
    for (auto e : o) { pos.push_back({e->first, base + body.size()}); BinaryBufferWriter w; write(w, e->second.second); B v = w.str(); body += v + be32(crc(v)); }
    B ix = be32(pos.size()); for (auto& e : pos) ix += be32(e.first.size()) + e.first + be128(e.second); ix += be32(crc(ix)); return head + be128(base + body.size()) + body + ix;
  }
  static void disk(vh::Rng& g, int len) {
    hist.clear(); typedef MapObjectDisk<K, V> D; const int NF = 2; Mo m[NF], flushed[NF]; bool made[NF] = {false, false}; D* d = new D(); int cur = -1; bool ro = false; bool updated = false, dirty = false; B name[NF] = {"a.mod", "b.mod"}; for (auto& n : name) unlink(n.c_str());
    uint64_t f0 = vh::failures();
    for (int q = 0; q < len && vh::failures() == f0; ++q) {
      int op = g.range(0, 19);
      if (cur < 0) { // closed: open something
        V v = V(); K k = G<K>::key(1); std::string u; if (d->insert(k, v) == 0 || d->get(k, v) == 0 || d->exist(k) || d->size() != 0 || d->getUserdata(u) == 0) vh::fail("mapobj:closed", "a closed map answers as if open after %s", hist.c_str()); { std::vector<K> ks; d->keys(ks); if (!ks.empty()) vh::fail("mapobj:closed", "a closed map has keys after %s", hist.c_str()); } d->flush(); vh::count("closed_uses");
        if (g.range(0, 3) == 0) { delete d; d = new D(); log("new "); }
        d->setDebug(g.range(0, 3) ? 0 : g.range(1, 3));
        int f = g.range(0, NF - 1); if (d->fileExists(name[f]) != made[f]) vh::fail("mapobj:exists", "fileExists is %d", !made[f]);
        if (!made[f] || g.range(0, 9) == 0) { m[f] = Mo(); m[f].user.clear(); int n = g.range(0, 40); for (int i = 0; i < n; ++i) m[f].user += (char)g.next(); if (d->insertUserdata(m[f].user) != 0) vh::fail("mapobj:userdata", "insertUserdata before open fails"); log("create%d ", f); d->open(name[f], NEW); ro = false; made[f] = true; dirty = true; updated = true; vh::count("creates"); }
        else { if (g.range(0, 5) == 0) { std::string other = "other"; d->insertUserdata(other); } ro = g.range(0, 3) == 0; log(ro ? "open%d(r) " : "open%d ", f); if (g.coin() && !ro) d->open(name[f]); else d->open(name[f], ro ? RD : RW); vh::count("reopens"); dirty = false; updated = false; flushed[f] = m[f]; }
        cur = f; std::string uu = "?"; if (d->getUserdata(uu) != 0 || uu != m[f].user) vh::fail("mapobj:userdata", "user data of %zu characters want %zu after %s", uu.size(), m[f].user.size(), hist.c_str()); if (d->insertUserdata("late") == 0) vh::fail("mapobj:userdata", "user data accepted on an open map"); std::string v2; d->getUserdata(v2); if (v2 != m[f].user) vh::fail("mapobj:userdata", "refused user data is kept");
        std::string out; bool th = false; try { d->open(name[f], RD); } catch (const std::string&) { th = true; } if (!th) vh::fail("mapobj:open", "opening an open map is accepted"); check(*d, m[f], "after open", g); continue;
      }
      Mo& c = m[cur];
      if (op < 8 && !ro) { size_t n0 = c.m.size(); put(*d, c, g, true); dirty = true; if (c.m.size() == n0) updated = true; }
      else if (op < 13) { if (!c.m.empty()) { auto it = c.m.begin(); std::advance(it, g.range(0, (int)c.m.size() - 1)); V v = V(); log("get "); int r = d->get(it->second.first, v); vh::count("lookups"); if (r || !G<V>::same(v, it->second.second)) vh::fail("mapobj:value", "lookup gives %s after %s", r ? "nothing" : "another value", hist.c_str()); } }
      else if (op == 13) { V v = V(); log("miss "); if (d->get(G<K>::key(g.range(30, 45)), v) == 0) vh::fail("mapobj:missing", "a key never stored is found after %s", hist.c_str()); vh::count("misses"); }
      else if (op == 14) check(*d, c, "mid", g);
      else if (op == 15 || op == 16) { log("flush "); d->flush(); if (!ro) { flushed[cur] = c; dirty = updated = false; } vh::count("flushes"); }
      else { log("close "); if (g.coin()) d->close(); else { delete d; d = new D(); } format(name[cur], c); if (vh::failures() == f0 && MapObjDiskEnv::getMetaData(name[cur]) != c.user) vh::fail("mapobj:userdata", "getMetaData after %s", hist.c_str());
        if (g.range(0, 3) == 0 && vh::failures() == f0) { std::string out; Mo cc = c; uint64_t sd = g.next(); int st = vh::in_child([&] { vh::Rng h(sd); vh::reopen(".child"); D x; x.open(name[cur], RD); bool ok = check(x, cc, "in another process", h); fflush(stdout); if (ok) puts("CHILD OK"); fflush(stdout); _exit(ok ? 0 : 3); }, &out, 60); unlink((vh::opt.out + ".child").c_str()); vh::count("other_processes"); if (st != 0) vh::fail("mapobj:process", "another process does not find what was stored (%d) after %s: %s", st, hist.c_str(), out.substr(out.size() > 200 ? out.size() - 200 : 0).c_str()); }
        cur = -1; continue; }
      // what a process that opened the file now would see: the state of the last flush, as long as nothing was updated in place since
      if (cur >= 0 && !updated && flushed[cur].m.size() && g.range(0, 7) == 0 && vh::failures() == f0) { spit("snap.mod", slurp(name[cur])); D s; s.open("snap.mod", RD); std::string h0 = hist; hist += "[copy of the file] "; check(s, flushed[cur], "copy of the flushed file", g); hist = h0; vh::count(dirty ? "snapshots_dirty" : "snapshots_clean"); }
    }
    delete d;
    // foreign file, and several files
    if (vh::failures() == f0) {
      Mo fo; fo.user = "foreign \n data"; for (int i = 0; i < g.range(1, 12); ++i) { K k = G<K>::key(g.range(0, 29)); fo.m.insert({kb(k), {k, G<V>::val(g, 12)}}); } hist = "a file from elsewhere "; spit("f.mod", foreign(fo, g, g.range(0, 100))); D x; x.open("f.mod", g.coin() ? RD : RW); std::string u; x.getUserdata(u); if (u != fo.user) vh::fail("mapobj:userdata", "foreign file"); check(x, fo, "foreign file", g); x.close(); vh::count("foreign_files");
      for (auto& e : fo.m) fo.cap[e.first] = G<V>::units(e.second.second);
      D y; y.open("f.mod", RW); for (int i = 0; i < 5; ++i) put(y, fo, g, true); check(y, fo, "foreign file extended", g); y.close(); format("f.mod", fo);
      std::vector<std::string> fs; std::vector<Mo*> mo; Mo made3[3]; for (int i = 0; i < 3; ++i) { std::string n = "m" + std::to_string(i) + ".mod"; hist = "several files "; D w; made3[i].user = "file " + std::to_string(i); w.insertUserdata(made3[i].user); w.open(n, NEW); int c = g.range(i ? 0 : 1, 9); for (int j = 0; j < c; ++j) { put(w, made3[i], g, true); } w.close(); fs.push_back(n); }
      MapObjectDiskMultiple<K, V> mu; Mo un; for (int i = 2; i >= 0; --i) for (auto& e : made3[i].m) { un.m.erase(e.first); un.m.insert(e); }
      if (!mu.fileExists(fs)) vh::fail("mapobj:multiple", "fileExists of files that exist"); { std::vector<std::string> gs = fs; gs.insert(gs.begin() + g.range(0, 3), "nosuch.mod"); if (mu.fileExists(gs)) vh::fail("mapobj:multiple", "fileExists of a file that does not exist"); }
      for (int round = 0; round < 2; ++round) { mu.open(fs); if (g.coin()) mu.setDebug(g.range(0, 2)); std::vector<K> ks(g.range(0, 1), G<K>::key(3)); mu.keys(ks); std::set<B> s; for (auto& k : ks) s.insert(kb(k)); if (ks.size() != un.m.size() || s.size() != ks.size()) vh::fail("mapobj:multiple", "%zu keys want %zu", ks.size(), un.m.size());
        for (auto& e : un.m) { V v = V(); if (!s.count(e.first) || !mu.exist(e.second.first) || mu.get(e.second.first, v) != 0 || !G<V>::same(v, e.second.second)) { vh::fail("mapobj:multiple", "a key of one of the files is not found with its first value"); break; } vh::count("lookups"); }
        for (int i = 30; i < 34; ++i) { V v = V(); if (mu.exist(G<K>::key(i)) || mu.get(G<K>::key(i), v) == 0) vh::fail("mapobj:multiple", "a key of none of the files is found"); } std::string u; if (mu.getUserdata(u) != 0 || u != made3[0].user) vh::fail("mapobj:multiple", "user data"); mu.flush(); mu.close(); std::string w; { V v = V(); if (mu.exist(un.m.begin()->second.first) || mu.get(un.m.begin()->second.first, v) == 0 || mu.getUserdata(w) == 0) vh::fail("mapobj:multiple", "a closed set of files answers"); } vh::count("multiples"); }
    }
  }
  static void memory(vh::Rng& g, int len) {
    hist.clear(); typedef MapObjectMemory<K, V> D; D* d = new D(); Mo m; uint64_t f0 = vh::failures(); { std::string u = "?"; if (d->getUserdata(u) || !u.empty()) vh::fail("mapobj:userdata", "memory: of a new map"); }
    for (int q = 0; q < len && vh::failures() == f0; ++q) switch (g.range(0, 13)) {
    case 0: case 1: case 2: case 3: put(*d, m, g, false); break;
    case 4: { if (!m.m.empty()) { auto it = m.m.begin(); std::advance(it, g.range(0, (int)m.m.size() - 1)); log("erase "); d->erase(it->second.first); m.m.erase(it); vh::count("erases"); } break; }
    case 5: log("erase-missing "); d->erase(G<K>::key(g.range(30, 45))); break;
    case 6: if (g.range(0, 3) == 0) { log("clear "); d->clear(); m.m.clear(); } break;
    case 7: check(*d, m, "memory", g); break;
    case 8: { log("copy "); D* e = new D(*d); { D tmp; *e = tmp; *e = *d; } delete d; d = e; break; }
    case 9: { std::vector<K> ks(1, G<K>::key(0)); std::vector<V> vs(1); d->keysAndValues(ks, vs); bool ok = ks.size() == m.m.size() && vs.size() == m.m.size(); for (size_t i = 0; ok && i < ks.size(); ++i) { auto it = m.m.find(kb(ks[i])); ok = it != m.m.end() && G<V>::same(vs[i], it->second.second); } if (!ok) vh::fail("mapobj:keys", "memory: keysAndValues after %s", hist.c_str()); d->keys(ks); if (ks.size() != m.m.size()) vh::fail("mapobj:keys", "memory: keys into a used list"); break; }
    case 10: { size_t n = 0; std::set<B> s; for (auto it = d->begin(); it != d->end(); n % 2 ? (void)it++ : (void)++it) { auto e = m.m.find(kb(it->first)); if (e == m.m.end() || !G<V>::same((*it).second, e->second.second)) { vh::fail("mapobj:iterate", "memory: iterating after %s", hist.c_str()); break; } s.insert(e->first); ++n; } if (n != m.m.size() || s.size() != n) vh::fail("mapobj:iterate", "memory: %zu steps want %zu", n, m.m.size()); vh::count("iterations"); break; }
    case 11: { std::vector<std::pair<K, V>> l; for (int i = 0; i < g.range(0, 5); ++i) { K k = G<K>::key(g.range(0, 29)); V v = G<V>::val(g, 12); l.push_back({k, v}); m.m.erase(kb(k)); m.m.insert({kb(k), {k, v}}); } log("insert-range "); d->insert(l.begin(), l.end()); break; }
    case 12: { if (!m.m.empty()) { auto it = m.m.begin(); std::advance(it, g.range(0, (int)m.m.size() - 1)); const D& c = *d; if (!G<V>::same(c[it->second.first], it->second.second)) vh::fail("mapobj:value", "memory: [] after %s", hist.c_str()); V v = G<V>::val(g, 12); (*d)[it->second.first] = v; it->second.second = v; log("[]= "); } break; }
    default: { std::string u = "u" + std::to_string(q), w; if (d->insertUserdata(u) || d->getUserdata(w) || w != u) vh::fail("mapobj:userdata", "memory"); d->flush(); if (g.range(0, 9) == 0) { std::string out; bool cst = g.coin(); int st = vh::in_child([&] { const D& c = *d; if (cst) (void)c[G<K>::key(40)]; else (void)(*d)[G<K>::key(40)]; _exit(0); }, &out, 30); vh::count("refusals"); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) vh::fail("mapobj:missing", "memory: [] of a missing key"); } }
    }
    if (vh::failures() == f0) check(*d, m, "memory, at the end", g);
    MapObjectNull<K, V> nu; MapObject<K, V>& n = nu; V v = V(); std::vector<K> ks; n.keys(ks); if (n.insert(G<K>::key(0), v) == 0 || n.get(G<K>::key(0), v) == 0 || n.exist(G<K>::key(0)) || n.size() || ks.size()) vh::fail("mapobj:null", "the null map holds something"); n.flush();
    delete d; vh::count("memory_maps");
  }
};
template <class K, class V> static void xml(vh::Rng& g) { MapObjectMemory<K, V> a, b; int n = g.range(0, 9); for (int i = 0; i < n; ++i) a.insert(G<K>::key(g.range(0, 20)), G<V>::val(g, 5)); XMLBufferWriter w; write(w, "map", a); XMLReader r(w); read(r, "/map", b); bool ok = a.size() == b.size(); for (auto it = a.begin(); it != a.end() && ok; ++it) { V v; ok = b.get(it->first, v) == 0 && G<V>::same(v, it->second); } vh::count("xml_maps"); if (!ok) vh::fail("mapobj:xml", "a map of %u written as XML is read as one of %u", a.size(), b.size()); }
// time slices of one field as separate records
static void slices(vh::Rng& g) {
  hist = "time slices"; typedef TimeSliceIO<LatticeFermion> T; int Lt = Layout::lattSize()[Nd - 1], n = 3; std::vector<LatticeFermion> f; for (int i = 0; i < n; ++i) f.push_back(G<LatticeFermion>::val(g, 1)); MapObjectDisk<Key3, T> d; d.open("t.mod", NEW); std::vector<std::pair<int, int>> o; for (int i = 0; i < n; ++i) for (int t = 0; t < Lt; ++t) o.push_back({i, t}); for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g.range(0, (int)i - 1)]);
  for (auto& p : o) { T s(f[p.first], p.second); Key3 k{p.first, p.second, "x"}; if (d.insert(k, s)) vh::fail("mapobj:slice", "insert"); if (g.coin()) { LatticeFermion tmp = zero; T r(tmp, p.second); d.get(k, r); } }
  LatticeFermion h = G<LatticeFermion>::val(g, 1); for (int t = 0; t < Lt; ++t) { T s(h, t); d.insert(Key3{1, t, "x"}, s); } f[1] = h; d.close(); MapObjectDisk<Key3, T> e; e.open("t.mod", RD); for (int i = 0; i < n; ++i) { LatticeFermion r = zero; for (int t = Lt - 1; t >= 0; --t) { T s(r, 0); s.setTimeSlice(t); if (s.getTimeSlice() != t || e.get(Key3{i, t, "x"}, s)) vh::fail("mapobj:slice", "get"); } vh::count("slice_fields"); if (!G<LatticeFermion>::same(r, f[i])) vh::fail("mapobj:slice", "a field stored in time slices is not what is read"); }
  for (int t : {-1, Lt, Lt + 5}) { bool th = false; try { T s(h, t); } catch (const std::string&) { th = true; } if (!th) vh::fail("mapobj:slice", "time slice %d of %d is accepted", t, Lt); }
}
// an update that needs more room than the record has
static void grow() {
  MapObjectDisk<int, Str> d; d.open("g.mod", NEW); d.insert(1, Str{"short"}); d.insert(2, Str{"the neighbour"}); d.insert(1, Str{"a value much longer than the record it replaces, into the next one"}); d.close();
  std::string out; int st = vh::in_child([&] { MapObjectDisk<int, Str> e; e.open("g.mod", RD); Str a, b; int r = e.get(1, a) || a.s[0] != 'a' || e.get(2, b) || b.s != "the neighbour"; fflush(stdout); _exit(r ? 3 : 0); }, &out, 60); vh::count("longer_updates"); if (st != 0) vh::fail("mapobj:longer-update", "insert(1,short) insert(2,neighbour) insert(1,longer) close; reopened, key 2 cannot be read: %s", out.substr(out.size() > 150 ? out.size() - 150 : 0).c_str());
}
// a map opened for reading only does not take records
static void readonly() {
  MapObjectDisk<int, float> d; d.open("r.mod", NEW); d.insert(1, 1.f); d.insert(2, 2.f); d.close(); B before = slurp("r.mod"); std::string out;
  int st = vh::in_child([&] { MapObjectDisk<int, float> e; e.open("r.mod", RD); int r = e.insert(3, 3.f), u = e.insert(1, 5.f); float v = 0; int bad = 0; if (r == 0 || u == 0) bad |= 1; if (e.get(1, v) != 0 || v != 1.f) bad |= 2; e.close(); fflush(stdout); _exit(bad ? 10 + bad : 0); }, &out, 60);
  vh::count("readonly_inserts"); if (slurp("r.mod") != before) vh::fail("mapobj:readonly", "the file is changed"); if (WIFEXITED(st) && WEXITSTATUS(st) > 10) vh::fail("mapobj:readonly", "insert in a map opened for reading reports success, or lookups fail afterwards (%d)", WEXITSTATUS(st));
}
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,2,4");
  if (vh::opt.geti("grow", 1)) { vh::begin(1000000, "an update longer than its record"); grow(); vh::begin(1000001, "insert in a read-only map"); readonly(); }
  for (int k = 0; k < vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    vh::Rng g(vh::mix(vh::opt.seed, k)); int len = vh::opt.thorough ? 200 : 90, t = k % 7;
    static const char* nm[] = {"char to float", "int to string", "string to array", "struct to string", "array to int", "struct to LatticeFermion", "string to LatticeColorMatrix"};
    vh::begin(k, "map history %d: %s", k, nm[t]); vh::distinct(std::to_string(vh::opt.seed) + "." + std::to_string(k)); if (k < 3) vh::sample("%s", vh::current().c_str());
#define RUN(K, V) { Hist<K, V>::disk(g, len); Hist<K, V>::memory(g, len / 2); break; }
    typedef multi1d<double> AD; typedef multi1d<int> AI;
    try { switch (t) { case 0: RUN(char, float) case 1: RUN(int, Str) case 2: RUN(Str, AD) case 3: RUN(Key3, Str) case 4: RUN(AI, int) case 5: RUN(Key3, LatticeFermion) default: RUN(Str, LatticeColorMatrix) }
      xml<int, double>(g); xml<int, int>(g); if (k % 3 == 0) slices(g); }
    catch (const std::string& e) { vh::fail("mapobj:exception", "%s after %s", e.c_str(), hist.c_str()); }
    if (vh::failures() > 10) break;
  }
  qx::stop();
  return vh::finish();
}
