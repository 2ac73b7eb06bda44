// USES qx ref
// C11: binary readers and writers against a byte model: values, big-endian bytes, positions,
// checksums and failure past the end, through buffers and files, in random histories.
#include "qx.h"
#include <sys/mman.h>
#include <memory>
using namespace qx;
typedef std::vector<unsigned char> Bytes;
typedef unsigned long long u64;

static unsigned crcStep(unsigned c, unsigned char b) { c ^= b; for (int i = 0; i < 8; ++i) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); return c; }
static unsigned crcOf(unsigned crc, const unsigned char* p, size_t n) { crc = ~crc; while (n--) crc = crcStep(crc, *p++); return ~crc; }

// ---- documented encoding -----------------------------------------------------------------
struct Enc {
static void be(Bytes& b, u64 x, int n) { for (int i = n - 1; i >= 0; --i) b.push_back((unsigned char)(x >> (8 * i))); }
template <class T> static std::enable_if_t<std::is_integral<T>::value> enc(Bytes& b, T x) { be(b, (u64)(typename std::conditional<std::is_same<T, bool>::value, int, T>::type)x, sizeof(T)); }
static void enc(Bytes& b, float x) { unsigned u; memcpy(&u, &x, 4); be(b, u, 4); }
static void enc(Bytes& b, double x) { u64 u; memcpy(&u, &x, 8); be(b, u, 8); }
template <class T> static void enc(Bytes& b, const std::complex<T>& z) { enc(b, z.real()); enc(b, z.imag()); }
template <class A, class B> static void enc(Bytes& b, const std::pair<A, B>& p) { enc(b, p.first); enc(b, p.second); }
template <class T> static void encO(Bytes& b, const OScalar<T>& s) {
  typedef typename WordType<T>::Type_t W; W w[sizeof(T) / sizeof(W)]; memcpy(w, &s.elem(), sizeof(T));
  for (W x : w) enc(b, x);
}
template <class T> static void enc(Bytes& b, const OScalar<T>& s) { encO(b, s); }
template <class T> static void enc(Bytes& b, const multi1d<T>& d) { enc(b, (int)d.size()); for (int i = 0; i < d.size(); ++i) enc(b, d[i]); }
template <class T> static void enc(Bytes& b, const std::vector<T>& d) { enc(b, (int)d.size()); for (const T& x : d) enc(b, x); }
template <class T> static void enc(Bytes& b, const std::list<T>& d) { enc(b, (int)d.size()); for (const T& x : d) enc(b, x); }
template <class K, class V> static void enc(Bytes& b, const std::map<K, V>& d) { enc(b, (int)d.size()); for (auto& x : d) { enc(b, x.first); enc(b, x.second); } }
template <class T> static void enc(Bytes& b, const Array1dO<T>& d) { enc(b, (int)d.size()); for (int i = 1; i <= (int)d.size(); ++i) enc(b, d[i]); }
template <class T> static void enc(Bytes& b, const multi2d<T>& d) { enc(b, d.size2()); enc(b, d.size1()); for (int i = 0; i < d.size1(); ++i) for (int j = 0; j < d.size2(); ++j) enc(b, d(j, i)); }
template <class T> static void enc(Bytes& b, const multi3d<T>& d) { enc(b, d.size3()); enc(b, d.size2()); enc(b, d.size1()); for (int i = 0; i < d.size1(); ++i) for (int j = 0; j < d.size2(); ++j) for (int k = 0; k < d.size3(); ++k) enc(b, d(k, j, i)); }
template <class T> static void enc(Bytes& b, const multi4d<T>& d) { enc(b, d.size4()); enc(b, d.size3()); enc(b, d.size2()); enc(b, d.size1()); for (int i = 0; i < d.size1(); ++i) for (int j = 0; j < d.size2(); ++j) for (int k = 0; k < d.size3(); ++k) for (int l = 0; l < d.size4(); ++l) enc(b, d(l, k, j, i)); }
template <class T> static void enc(Bytes& b, const multi5d<T>& d) { enc(b, d.size5()); enc(b, d.size4()); enc(b, d.size3()); enc(b, d.size2()); enc(b, d.size1()); for (int i = 0; i < d.size1(); ++i) for (int j = 0; j < d.size2(); ++j) for (int k = 0; k < d.size3(); ++k) for (int l = 0; l < d.size4(); ++l) for (int m = 0; m < d.size5(); ++m) enc(b, d(m, l, k, j, i)); }
template <class T> static void enc(Bytes& b, const multiNd<T>& d) { enc(b, d.size()); for (int i = 0; i < d.numElem(); ++i) enc(b, d.getElem(i)); }
};
template <class T> static void enc(Bytes& b, const T& x) { Enc::enc(b, x); }
// ---- random values -----------------------------------------------------------------------
struct Rnd {
template <class T> static std::enable_if_t<std::is_integral<T>::value> rnd(vh::Rng& g, T& x, int = 0) { u64 r = g.next(); switch (g.range(0, 5)) { case 0: x = std::numeric_limits<T>::max(); break; case 1: x = std::numeric_limits<T>::min(); break; case 2: x = (T)g.range(0, 1); break; default: x = (T)r; } }
static void rnd(vh::Rng& g, bool& x, int = 0) { x = g.coin(); }
template <class T> static std::enable_if_t<std::is_floating_point<T>::value> rnd(vh::Rng& g, T& x, int = 0) { switch (g.range(0, 7)) { case 0: x = 0; break; case 1: x = -(T)0.0; break; case 2: x = std::numeric_limits<T>::infinity(); break; case 3: x = std::numeric_limits<T>::denorm_min(); break; case 4: x = std::numeric_limits<T>::max(); break; default: x = (T)(g.sym() * std::pow(10.0, g.range(-30, 30))); } }
template <class T> static void rnd(vh::Rng& g, std::complex<T>& x, int = 0) { T a, b; rnd(g, a); rnd(g, b); x = std::complex<T>(a, b); }
template <class A, class B> static void rnd(vh::Rng& g, std::pair<A, B>& x, int m = 0) { rnd(g, x.first, m); rnd(g, x.second, m); }
template <class T> static void rnd(vh::Rng& g, OScalar<T>& x, int = 0) { typedef typename WordType<T>::Type_t W; W w[sizeof(T) / sizeof(W)]; for (W& y : w) rnd(g, y); memcpy((void*)&x.elem(), w, sizeof(T)); }
static int rsize(vh::Rng& g) { return g.range(0, 7) ? g.range(1, 6) : g.coin() ? 0 : g.range(20, 70); }
template <class T> static void rnd(vh::Rng& g, multi1d<T>& d, int m = 0) { d.resize(rsize(g)); for (int i = 0; i < d.size(); ++i) rnd(g, d[i], m); }
template <class T> static void rnd(vh::Rng& g, std::vector<T>& d, int m = 0) { d.resize(rsize(g)); for (T& x : d) rnd(g, x, m); }
template <class T> static void rnd(vh::Rng& g, std::list<T>& d, int m = 0) { d.resize(rsize(g)); for (T& x : d) rnd(g, x, m); }
template <class K, class V> static void rnd(vh::Rng& g, std::map<K, V>& d, int m = 0) { d.clear(); for (int i = rsize(g); i > 0; --i) { K k; rnd(g, k, m); V v; rnd(g, v, m); d.insert(std::make_pair(k, v)); } }
template <class T> static void rnd(vh::Rng& g, Array1dO<T>& d, int m = 0) { d.resize(rsize(g)); for (int i = 1; i <= (int)d.size(); ++i) rnd(g, d[i], m); }
template <class T> static void rnd(vh::Rng& g, multi2d<T>& d, int = 0) { d.resize(g.range(1, 4), g.range(1, 4)); for (int j = 0; j < d.size2(); ++j) for (int i = 0; i < d.size1(); ++i) rnd(g, d(j, i)); }
template <class T> static void rnd(vh::Rng& g, multi3d<T>& d, int = 0) { d.resize(g.range(1, 4), g.range(1, 4), g.range(1, 4)); for (int k = 0; k < d.size3(); ++k) for (int j = 0; j < d.size2(); ++j) for (int i = 0; i < d.size1(); ++i) rnd(g, d(k, j, i)); }
template <class T> static void rnd(vh::Rng& g, multi4d<T>& d, int = 0) { d.resize(g.range(1, 3), g.range(1, 3), g.range(1, 3), g.range(1, 3)); for (int l = 0; l < d.size4(); ++l) for (int k = 0; k < d.size3(); ++k) for (int j = 0; j < d.size2(); ++j) for (int i = 0; i < d.size1(); ++i) rnd(g, d(l, k, j, i)); }
template <class T> static void rnd(vh::Rng& g, multi5d<T>& d, int = 0) { d.resize(g.range(1, 3), g.range(1, 3), g.range(1, 3), g.range(1, 3), g.range(1, 3)); for (int m = 0; m < d.size5(); ++m) for (int l = 0; l < d.size4(); ++l) for (int k = 0; k < d.size3(); ++k) for (int j = 0; j < d.size2(); ++j) for (int i = 0; i < d.size1(); ++i) rnd(g, d(m, l, k, j, i)); }
template <class T> static void rnd(vh::Rng& g, multiNd<T>& d, int = 0) { multi1d<int> n(g.range(1, 4)); for (int i = 0; i < n.size(); ++i) n[i] = g.range(1, 3); d.resize(n); for (int i = 0; i < d.numElem(); ++i) rnd(g, d.getElem(i)); }
};
template <class T> static void rnd(vh::Rng& g, T& x) { Rnd::rnd(g, x); }
// ---- items -------------------------------------------------------------------------------
struct Item {
  std::string name; Bytes b; bool str = false;
  virtual ~Item() {}
  virtual void make(vh::Rng& g) = 0;         // new content, same size if it already has one
  virtual void write(BinaryWriter& w, vh::Rng& g) = 0;
  virtual bool read(BinaryReader& r, vh::Rng& g, bool check) = 0; // true: equal
};
static void dirty(char* p, size_t n) { memset(p, 0xA5, n); }
template <class T> struct ItemT : Item {
  T v;
  void setb() { b.clear(); enc(b, v); }
  void make(vh::Rng& g) override { if (b.empty()) { rnd(g, v); setb(); return; } size_t n = b.size(); T old = v; for (int i = 0; i < 4; ++i) { T t; rnd(g, t); v = t; setb(); if (b.size() == n) return; } v = old; setb(); }
  virtual T start() { return T(); }
};
// primitive: three ways in and out
template <class T> struct Prim : ItemT<T> {
  void write(BinaryWriter& w, vh::Rng& g) override { switch (g.range(0, 2)) { case 0: ::QDP::write(w, this->v); break; case 1: w.write(this->v); break; default: w << this->v; } }
  bool read(BinaryReader& r, vh::Rng& g, bool check) override {
    T t; if (std::is_same<T, bool>::value) t = false; else dirty((char*)&t, sizeof t);
    switch (g.range(0, 2)) { case 0: ::QDP::read(r, t); break; case 1: r.read(t); break; default: r >> t; }
    if (!check) return true; Bytes b2; enc(b2, t); return b2 == this->b;
  }
};
template <class T> struct Free : ItemT<T> {
  void write(BinaryWriter& w, vh::Rng&) override { ::QDP::write(w, this->v); }
  bool read(BinaryReader& r, vh::Rng& g, bool check) override {
    T t; if (g.coin()) rnd(g, t); // into an object that already holds something else
    ::QDP::read(r, t);
    if (!check) return true; Bytes b2; enc(b2, t); return b2 == this->b;
  }
};
template <class T> struct Counted : Item { // elements without the size
  multi1d<T> v;
  void make(vh::Rng& g) override { if (b.empty()) v.resize(g.range(1, 7)); b.clear(); for (int i = 0; i < v.size(); ++i) { rnd(g, v[i]); enc(b, v[i]); } }
  void write(BinaryWriter& w, vh::Rng&) override { ::QDP::write(w, v, v.size()); }
  bool read(BinaryReader& r, vh::Rng& g, bool check) override {
    multi1d<T> t(v.size() + g.range(0, 2)); T mark; rnd(g, mark); for (int i = 0; i < t.size(); ++i) t[i] = mark;
    ::QDP::read(r, t, v.size());
    if (!check) return true; Bytes b2; for (int i = 0; i < v.size(); ++i) enc(b2, t[i]);
    Bytes m1, m2; for (int i = v.size(); i < t.size(); ++i) { enc(m1, t[i]); enc(m2, mark); }
    return b2 == b && m1 == m2;
  }
};
template <class T> struct Counted2 : Item {
  multi2d<T> v;
  void make(vh::Rng& g) override { if (b.empty()) v.resize(g.range(1, 4), g.range(1, 4)); b.clear(); for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) { rnd(g, v(j, i)); enc(b, v(j, i)); } }
  void write(BinaryWriter& w, vh::Rng&) override { for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) ::QDP::write(w, v(j, i)); }
  bool read(BinaryReader& r, vh::Rng&, bool check) override {
    multi2d<T> t(v.size2(), v.size1()); ::QDP::read(r, t, v.size2(), v.size1());
    if (!check) return true; Bytes b2; for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) enc(b2, t(j, i)); return b2 == b;
  }
};
template <class T> struct Raw : Item { // arrays of words, also from read-only memory
  std::vector<T> v; bool ro = false;
  void make(vh::Rng& g) override { if (b.empty()) v.resize(g.range(1, 40)); ro = g.range(0, 3) == 0; b.clear(); for (T& x : v) { rnd(g, x); enc(b, x); } }
  void write(BinaryWriter& w, vh::Rng& g) override {
    size_t n = v.size() * sizeof(T);
    if (ro) {
      void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(p, v.data(), n); mprotect(p, 4096, PROT_READ);
      w.writeArray((const char*)p, sizeof(T), v.size()); munmap(p, 4096); vh::count("readonly_writes"); return;
    }
    std::vector<T> c = v;
    if (g.coin()) w.writeArray((const char*)v.data(), sizeof(T), v.size()); else w.writeArrayPrimaryNode((const char*)v.data(), sizeof(T), v.size());
    if (memcmp(c.data(), v.data(), n)) vh::fail("bin:source", "the data written was changed by writing it");
  }
  bool read(BinaryReader& r, vh::Rng& g, bool check) override {
    std::vector<T> t(v.size() + 2); dirty((char*)t.data(), t.size() * sizeof(T)); T m = t[0];
    if (g.coin()) r.readArray((char*)(t.data() + 1), sizeof(T), v.size()); else r.readArrayPrimaryNode((char*)(t.data() + 1), sizeof(T), v.size());
    if (memcmp(&t[0], &m, sizeof(T)) || memcmp(&t[t.size() - 1], &m, sizeof(T))) vh::fail("bin:array bounds", "reading %zu words of %zu changed its neighbours", v.size(), sizeof(T));
    if (!check) return true; Bytes b2; for (size_t i = 0; i < v.size(); ++i) enc(b2, t[i + 1]); return b2 == b;
  }
};
struct Desc : Item {
  std::string v;
  void make(vh::Rng& g) override { if (b.empty()) v.resize(g.range(0, 3) ? g.range(0, 12) : g.range(100, 400)); for (char& c : v) c = (char)g.next(); b.clear(); enc(b, (int)v.size()); b.insert(b.end(), v.begin(), v.end()); }
  void write(BinaryWriter& w, vh::Rng& g) override { if (g.coin()) w.writeDesc(v); else ::QDP::writeDesc(w, v); }
  bool read(BinaryReader& r, vh::Rng& g, bool) override { std::string t = "previous content"; if (g.coin()) r.readDesc(t); else ::QDP::readDesc(r, t); return t == v; }
};
struct Str : Item {
  std::string v;
  Str() { str = true; }
  void make(vh::Rng& g) override { if (b.empty()) v.resize(g.range(0, 3) ? g.range(0, 12) : g.range(100, 400)); for (char& c : v) do c = (char)g.next(); while (c == 0 || c == '\n'); b.assign(v.begin(), v.end()); b.push_back('\n'); }
  void write(BinaryWriter& w, vh::Rng& g) override { switch (g.range(0, 4)) { case 0: w.write(v); break; case 1: w.write(v.c_str()); break; case 2: ::QDP::write(w, v); break; case 3: ::QDP::write(w, v.c_str()); break; default: w << v; } }
  bool read(BinaryReader& r, vh::Rng& g, bool) override { std::string t = "previous"; size_t m = v.size() + 1 + (g.coin() ? 0 : g.range(0, 50)); if (g.coin()) r.read(t, m); else ::QDP::read(r, t, m); return t == v; }
};
struct CChar : Item {
  std::string v; CChar() { str = true; }
  void make(vh::Rng& g) override { if (b.empty()) v.resize(g.range(0, 12)); for (char& c : v) do c = (char)g.next(); while (c == 0 || c == '\n'); b.assign(v.begin(), v.end()); b.push_back('\n'); }
  void write(BinaryWriter& w, vh::Rng&) override { w << v.c_str(); }
  bool read(BinaryReader& r, vh::Rng&, bool) override { std::string t; r.read(t, 64); return t == v; }
};
typedef std::function<Item*()> Make;
static std::vector<std::pair<const char*, Make>> kinds;
#define KIND(...) kinds.push_back({#__VA_ARGS__, [] { return (Item*)new __VA_ARGS__; }})
static void makeKinds() {
  KIND(Prim<char>); KIND(Prim<int>); KIND(Prim<unsigned int>); KIND(Prim<short>); KIND(Prim<unsigned short>); KIND(Prim<long>); KIND(Prim<unsigned long>);
  KIND(Prim<float>); KIND(Prim<double>); KIND(Prim<bool>);
  struct LL : ItemT<long long> { void write(BinaryWriter& w, vh::Rng&) override { w.write(v); } bool read(BinaryReader& r, vh::Rng& g, bool c) override { long long t = 0x5a5a; if (g.coin()) r.read(t); else ::QDP::read(r, t); return !c || t == v; } };
  kinds.push_back({"long long", [] { return (Item*)new LL; }});
  KIND(Free<std::complex<float>>); KIND(Free<std::complex<double>>);
  KIND(Free<multi1d<int>>); KIND(Free<multi1d<double>>); KIND(Free<multi1d<multi1d<float>>>); KIND(Free<multi1d<Complex>>);
  KIND(Free<multi2d<int>>); KIND(Free<multi2d<double>>); KIND(Free<multi3d<int>>); KIND(Free<multi4d<float>>); KIND(Free<multi5d<short>>); KIND(Free<multiNd<int>>); KIND(Free<multiNd<double>>);
  KIND(Free<std::vector<int>>); KIND(Free<std::vector<std::complex<double>>>); KIND(Free<std::vector<std::vector<short>>>); KIND(Free<std::list<double>>); KIND(Free<Array1dO<int>>); KIND(Free<Array1dO<double>>);
  KIND(Free<std::map<int, double>>); KIND(Free<std::map<int, multi1d<int>>>); KIND(Free<std::pair<int, double>>); KIND(Free<std::pair<char, multi1d<float>>>);
  KIND(Counted<int>); KIND(Counted<double>); KIND(Counted<ColorMatrix>); KIND(Counted2<int>); KIND(Counted2<double>);
  KIND(Raw<char>); KIND(Raw<short>); KIND(Raw<int>); KIND(Raw<double>);
  KIND(Desc); KIND(Str); KIND(CChar);
  KIND(Free<Real>); KIND(Free<Double>); KIND(Free<Integer>); KIND(Free<Boolean>); KIND(Free<Complex>); KIND(Free<DComplex>); KIND(Free<ColorMatrix>); KIND(Free<ColorVector>); KIND(Free<Fermion>); KIND(Free<SpinMatrix>); KIND(Free<Propagator>); KIND(Free<Seed>); KIND(Free<multi1d<ColorMatrix>>);
}

// ---- transports --------------------------------------------------------------------------
static std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); std::string s; if (!f) return s; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); fclose(f); return s; }
static void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string str(const Bytes& b) { return std::string(b.begin(), b.end()); }
static const char* FN = "bin.dat";
static const char* trName[] = {"buffer", "file", "file reader-writer", "buffer reader-writer"};
struct Model { Bytes f; size_t pos = 0; unsigned crc = 0; };
static std::string hist;
static void note(const std::string& s) { hist += s + "; "; if (hist.size() > 500) hist = "... " + hist.substr(hist.size() - 350); }
static void chkPos(long got, size_t want, const char* who) { vh::count("positions"); if (got != (long)want) vh::fail("bin:position", "%s: %s: position %ld, should be %zu", hist.c_str(), who, got, want); }
static void chkCrc(unsigned got, unsigned want, const char* who) { vh::count("checksums"); if (got != want) vh::fail("bin:checksum", "%s: %s: checksum %08x, should be %08x", hist.c_str(), who, got, want); }
static void put(Model& m, const Item& it) {
  if (m.f.size() < m.pos + it.b.size()) m.f.resize(m.pos + it.b.size());
  std::copy(it.b.begin(), it.b.end(), m.f.begin() + m.pos);
  m.crc = crcOf(m.crc, it.b.data(), it.b.size()); m.pos += it.b.size();
}
// move either side to a position, in one of the ways there are
template <class S> void moveTo(S& s, Model& m, size_t to, vh::Rng& g) {
  typedef typename S::pos_type P; typedef typename S::off_type O;
  switch (to == 0 ? g.range(0, 4) : g.range(0, 3)) {
  case 0: s.seek(P((O)to)); note("seek " + std::to_string(to)); break;
  case 1: s.seekBegin((O)to); note("seekBegin " + std::to_string(to)); break;
  case 2: s.seekRelative((O)to - (O)m.pos); note("seekRelative " + std::to_string((long)to - (long)m.pos)); break;
  case 3: s.seekEnd((O)m.f.size() - (O)to); note("seekEnd " + std::to_string(m.f.size() - to)); break;
  default: s.rewind(); note("rewind");
  }
  m.pos = to; m.crc = 0; vh::count("seeks");
}
typedef std::vector<std::unique_ptr<Item>> Items;
static void writeAll(BinaryWriter& w, Model& m, Items& items, std::vector<size_t>& at, vh::Rng& g, bool seeks) {
  at.clear();
  for (auto& it : items) {
    note("write " + it->name); at.push_back(m.pos); it->write(w, g); put(m, *it); vh::count("writes");
    if (g.range(0, 3) == 0) chkPos((long)w.currentPosition(), m.pos, "writer");
    if (g.range(0, 3) == 0) chkCrc(w.getChecksum(), m.crc, "writer");
    if (g.range(0, 9) == 0) { w.resetChecksum(); m.crc = 0; note("resetChecksum"); }
    if (w.fail()) { vh::fail("bin:write fail", "%s: writer reports failure", hist.c_str()); return; }
    if (seeks && g.range(0, 7) == 0) {
      int k = g.range(0, (int)at.size() - 1); moveTo(w, m, at[k], g);
      items[k]->make(g); note("rewrite " + items[k]->name); items[k]->write(w, g); put(m, *items[k]); vh::count("overwrites");
      chkPos((long)w.currentPosition(), m.pos, "writer"); chkCrc(w.getChecksum(), m.crc, "writer");
      moveTo(w, m, m.f.size(), g);
    }
  }
  chkPos((long)w.currentPosition(), m.pos, "writer"); chkCrc(w.getChecksum(), m.crc, "writer");
}
static void readOne(BinaryReader& r, Model& m, Item& it, vh::Rng& g) {
  note("read " + it.name);
  if (!it.read(r, g, true)) vh::fail("bin:value", "%s: not the value written", hist.c_str());
  m.crc = crcOf(m.crc, it.b.data(), it.b.size()); m.pos += it.b.size(); vh::count("reads");
  if (r.fail()) vh::fail("bin:read fail", "%s: reader reports failure", hist.c_str());
}
static void readAll(BinaryReader& r, Model& m, Items& items, const std::vector<size_t>& at, vh::Rng& g) {
  int n = items.size();
  for (int k = 0; k < n; ++k) {
    readOne(r, m, *items[k], g); if (vh::failures()) return;
    if (g.range(0, 3) == 0) chkPos((long)r.currentPosition(), m.pos, "reader");
    if (g.range(0, 3) == 0) chkCrc(r.getChecksum(), m.crc, "reader");
    if (g.range(0, 9) == 0) { r.resetChecksum(); m.crc = 0; note("resetChecksum"); }
  }
  chkPos((long)r.currentPosition(), m.pos, "reader"); chkCrc(r.getChecksum(), m.crc, "reader");
  for (int i = 0; i < n / 2 + 1; ++i) {
    int k = g.range(0, n - 1); moveTo(r, m, at[k], g); if (g.coin()) chkPos((long)r.currentPosition(), m.pos, "reader");
    for (int j = 0; j < 2 && k < n; ++j, ++k) readOne(r, m, *items[k], g);
    if (vh::failures()) return;
    chkCrc(r.getChecksum(), m.crc, "reader");
  }
}
static void truncated(const Bytes& f, Items& items, const std::vector<size_t>& at, vh::Rng& g) {
  size_t cut = g.range(0, (int)f.size()); std::string s = str(f).substr(0, cut);
  std::unique_ptr<BinaryReader> r;
  if (g.coin()) r.reset(new BinaryBufferReader(s)); else { spit(FN, s); r.reset(new BinaryFileReader(FN)); }
  note("truncated at " + std::to_string(cut));
  for (size_t k = 0; k < items.size(); ++k) {
    bool whole = at[k] + items[k]->b.size() <= cut;
    if (!whole && items[k]->str) return; // an unterminated last line is a line
    note("read " + items[k]->name);
    bool ok;
    try { ok = items[k]->read(*r, g, whole); }
    catch (std::exception& e) { vh::fail("bin:truncated", "%s: exception %s", hist.c_str(), e.what()); return; }
    if (whole) { if (!ok || r->fail()) { vh::fail("bin:truncated", "%s: an item before the end is not read", hist.c_str()); return; } }
    else { vh::count("truncated_reads"); if (!r->fail()) vh::fail("bin:truncated", "%s: reading past the end does not fail", hist.c_str());
      // and goes on failing
      for (size_t j = k + 1; j < items.size() && j < k + 3; ++j) if (!items[j]->str) { items[j]->read(*r, g, false); if (!r->fail()) vh::fail("bin:truncated", "%s: failure forgotten", hist.c_str()); }
      return; }
  }
}
static void checkBytes(const std::string& got, const Bytes& want, const char* how) {
  vh::count("images"); vh::count("image_bytes", want.size());
  if (got == str(want)) return;
  size_t i = 0; while (i < got.size() && i < want.size() && (unsigned char)got[i] == want[i]) ++i;
  vh::fail("bin:bytes", "%s: %s holds %zu bytes, should hold %zu; first difference at %zu", hist.c_str(), how, got.size(), want.size(), i);
}
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,2,2"); makeKinds();
  for (int k = 0; k < vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    vh::Rng g(vh::mix(vh::opt.seed, k)); hist.clear();
    int tr = k & 3;
    vh::begin(k, "binary history %d through a %s", k, trName[tr]);
    vh::distinct("h" + std::to_string(vh::opt.seed) + "." + std::to_string(k)); if (k < 4) vh::sample("%s", vh::current().c_str());
    Items items; std::vector<size_t> at; Model m;
    int n = g.range(1, 14);
    for (int i = 0; i < n; ++i) { auto& kd = kinds[(k / 4 < (int)kinds.size() && i == 0) ? k / 4 : g.range(0, (int)kinds.size() - 1)]; Item* it = kd.second(); it->name = kd.first; it->make(g); items.emplace_back(it); }
    if (tr == 0) {
      BinaryBufferWriter w; writeAll(w, m, items, at, g, true); checkBytes(g.coin() ? w.str() : w.strPrimaryNode(), m.f, "the buffer");
      Model rm; rm.f = m.f;
      if (g.coin()) { BinaryBufferReader r(w.str()); if (r.str() != str(m.f)) vh::fail("bin:bytes", "reader's string"); readAll(r, rm, items, at, g); }
      else { BinaryBufferReader r; r.open(w.str()); readAll(r, rm, items, at, g); }
    } else if (tr == 1) {
      if (g.coin()) spit(FN, std::string(g.range(0, 4000), 'x')); // an old, longer file
      { BinaryFileWriter w; if (g.coin()) w.open(FN); else { w.open("other.dat"); w.close(); if (w.is_open()) vh::fail("bin:open", "open after close"); w.open(FN); }
        if (!w.is_open()) vh::fail("bin:open", "file not open");
        writeAll(w, m, items, at, g, true); if (g.coin()) { w.flush(); checkBytes(slurp(FN), m.f, "the flushed file"); } if (g.coin()) w.close(); }
      checkBytes(slurp(FN), m.f, "the file");
      Model rm; rm.f = m.f; BinaryFileReader r; if (g.coin()) { r.open(FN); } else { r.open(FN); int dummy; r.read(dummy); r.close(); r.open(FN); }
      readAll(r, rm, items, at, g);
    } else if (tr == 2) {
      BinaryFileReaderWriter w(FN, std::ios_base::in | std::ios_base::out | std::ios_base::trunc);
      writeAll(w, m, items, at, g, true);
      for (int i = 0; i < 6 && !vh::failures(); ++i) { // reading and writing in place
        int q = g.range(0, n - 1); moveTo((BinaryReader&)w, m, at[q], g);
        if (g.coin()) { items[q]->make(g); note("rewrite " + items[q]->name); items[q]->write(w, g); put(m, *items[q]); vh::count("overwrites"); chkCrc(((BinaryReaderWriter&)w).getChecksum(), m.crc, "reader-writer"); chkPos((long)((BinaryReaderWriter&)w).currentPosition(), m.pos, "reader-writer"); }
        else readOne(w, m, *items[q], g);
      }
      w.flush(); checkBytes(slurp(FN), m.f, "the flushed file");
      moveTo((BinaryReader&)w, m, 0, g); readAll(w, m, items, at, g);
      w.close(); checkBytes(slurp(FN), m.f, "the file");
      BinaryFileReaderWriter r; r.open(FN); Model rm; rm.f = m.f; readAll(r, rm, items, at, g);
    } else {
      BinaryBufferReaderWriter w; // its reading and writing positions are the buffer's own
      for (auto& it : items) { at.push_back(m.pos); note("write " + it->name); it->write(w, g); put(m, *it); vh::count("writes"); }
      chkCrc(((BinaryReaderWriter&)w).getChecksum(), m.crc, "reader-writer"); checkBytes(g.coin() ? w.str() : w.strPrimaryNode(), m.f, "the buffer");
      BinaryBufferReaderWriter r(w.str()); Model rm; rm.f = m.f; readAll(r, rm, items, at, g);
      ((BinaryReaderWriter&)w).resetChecksum(); Model r2; r2.f = m.f; readAll(w, r2, items, at, g);
    }
    if (!vh::failures()) for (int i = 0; i < 3; ++i) truncated(m.f, items, at, g);
    // raw little-endian reads
    if (!vh::failures()) {
      std::vector<int> a(g.range(1, 9)); std::string s; for (int& x : a) { rnd(g, x); for (int i = 0; i < 4; ++i) s += (char)((unsigned)x >> (8 * i)); }
      BinaryBufferReader r(s); std::vector<int> b(a.size()); if (g.coin()) r.readArrayLittleEndian((char*)b.data(), 4, b.size()); else r.readArrayPrimaryNodeLittleEndian((char*)b.data(), 4, b.size());
      if (a != b) vh::fail("bin:little-endian", "little-endian words differ"); chkPos((long)r.currentPosition(), s.size(), "reader");
      // the checksum of the library itself, in pieces
      std::string t(g.range(0, 200), 0); for (char& c : t) c = (char)g.next(); size_t h = g.range(0, (int)t.size());
      unsigned c1 = QDPUtil::crc32(QDPUtil::crc32(0, t.data(), h), t.data() + h, t.size() - h);
      if (c1 != crcOf(0, (const unsigned char*)t.data(), t.size())) vh::fail("bin:checksum", "crc32 in two pieces");
    }
    if (vh::failures()) break;
  }
  qx::stop();
  return vh::finish();
}
