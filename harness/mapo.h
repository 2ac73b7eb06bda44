// key and value types of the map-object harnesses, and an independent reader and writer of the file format
#ifndef MAPO_H
#define MAPO_H
#include "ex.h"
#include "xmlstub.h"
#include "qdp_map_obj_memory.h"
#include "qdp_map_obj_null.h"
#include "qdp_map_obj_disk.h"
#include "qdp_map_obj_disk_multiple.h"
#include "qdp_disk_map_slice.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
namespace QDP {
struct Str { std::string s; };
inline void write(BinaryWriter& b, const Str& v) { writeDesc(b, v.s); }
inline void read(BinaryReader& b, Str& v) { readDesc(b, v.s); }
struct Key3 { int t, c; std::string s; };
inline void write(BinaryWriter& b, const Key3& k) { write(b, k.t); write(b, k.c); writeDesc(b, k.s); }
inline void read(BinaryReader& b, Key3& k) { read(b, k.t); read(b, k.c); readDesc(b, k.s); }
inline void write(XMLWriter& x, const std::string& n, const Str& v) { write(x, n, v.s); }
inline void read(XMLReader& x, const std::string& n, Str& v) { read(x, n, v.s); }
}
namespace mapo {
using namespace QDP;
typedef std::string B;
static const std::ios_base::openmode RW = std::ios_base::in | std::ios_base::out, RD = std::ios_base::in, NEW = RW | std::ios_base::trunc;
// G: gen(g, max) a value of at most max "units" (variable types), same(), units()
template <class T> struct G;
template <> struct G<char> { static char key(int i) { return (char)('A' + i); } static const int maxkeys = 50; };
template <> struct G<int> { static int key(int i) { return i * 7919 - 60; } static int val(vh::Rng& g, int) { return (int)g.next(); } static bool same(int a, int b) { return a == b; } static int units(int) { return 1; } };
template <> struct G<float> { static float val(vh::Rng& g, int) { return (float)g.sym(); } static bool same(float a, float b) { return a == b; } static int units(float) { return 1; } };
template <> struct G<double> { static double val(vh::Rng& g, int) { return g.sym(); } static bool same(double a, double b) { return a == b; } static int units(double) { return 1; } };
template <> struct G<Str> { static Str key(int i) { Str s; for (int k = 0; k < i % 23; ++k) s.s += (char)(i * 31 + k * 7); s.s += '\0'; s.s += std::to_string(i); return s; } static Str val(vh::Rng& g, int m) { Str s; int n = g.range(0, m); for (int i = 0; i < n; ++i) s.s += (char)g.next(); return s; } static bool same(const Str& a, const Str& b) { return a.s == b.s; } static int units(const Str& a) { return (int)a.s.size(); } };
template <> struct G<Key3> { static Key3 key(int i) { return Key3{i % 3, -i, std::string(i % 5, 'k')}; } };
template <> struct G<multi1d<int>> { static multi1d<int> key(int i) { multi1d<int> k(1 + i % 4); for (int j = 0; j < k.size(); ++j) k[j] = i + j * 1000; return k; } };
template <> struct G<multi1d<double>> { typedef multi1d<double> T; static T val(vh::Rng& g, int m) { T v(g.range(0, m)); for (int i = 0; i < v.size(); ++i) v[i] = g.sym(); return v; } static bool same(const T& a, const T& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; } static int units(const T& a) { return a.size(); } };
template <class L> struct GL { static L val(vh::Rng& g, int) { L a; typedef typename WordType<L>::Type_t W; for (int i = 0; i < Layout::sitesOnNode(); ++i) { W* p = (W*)&a.elem(i); for (size_t k = 0; k < sizeof(a.elem(i)) / sizeof(W); ++k) p[k] = (W)g.sym(); } return a; } static bool same(const L& a, const L& b) { for (int i = 0; i < Layout::sitesOnNode(); ++i) if (memcmp(&a.elem(i), &b.elem(i), sizeof(a.elem(i)))) return false; return true; } static int units(const L&) { return 1; } };
template <> struct G<LatticeFermion> : GL<LatticeFermion> {};
template <> struct G<LatticeColorMatrix> : GL<LatticeColorMatrix> {};
template <class K> B kb(const K& k) { BinaryBufferWriter b; write(b, k); return b.str(); }
inline B slurp(const B& p) { FILE* f = fopen(p.c_str(), "rb"); B s; if (!f) return s; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); fclose(f); return s; }
inline void spit(const B& p, const B& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
inline uint32_t crc(const B& s) { uint32_t c = 0xffffffffu; for (unsigned char ch : s) { c ^= ch; for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return ~c; }
inline B be32(uint32_t v) { B s; for (int k = 3; k >= 0; --k) s += (char)(v >> (8 * k)); return s; }
inline uint32_t rd32(const B& s, size_t p) { uint32_t v = 0; for (int k = 0; k < 4; ++k) v = v << 8 | (unsigned char)s.at(p + k); return v; }
inline B be128(uint64_t v) { B s(8, '\0'); for (int k = 7; k >= 0; --k) s += (char)(v >> (8 * k)); return s; }
inline uint64_t rd128(const B& s, size_t p) { uint64_t v = 0; for (int k = 8; k < 16; ++k) v = v << 8 | (unsigned char)s.at(p + k); for (int k = 0; k < 8; ++k) if (s.at(p + k)) throw std::out_of_range("position"); return v; }
struct File { B user; std::map<B, uint64_t> pos; uint64_t map = 0, mapend = 0; size_t link = 0; };
static const B MAGIC = "XXXXQDPLazyDiskMapObjFileXXXX";
// throws when the file is not as the format says
inline File parse(const B& f) {
  File r; size_t p = 0; auto desc = [&](const char* w) { uint32_t n = rd32(f, p); p += 4; if (n > f.size()) throw std::out_of_range(w); B s = f.substr(p, n); p += n; if (s.size() != n) throw std::out_of_range(w); return s; };
  if (desc("magic") != MAGIC) throw std::out_of_range("magic"); if (rd32(f, p) != 1) throw std::out_of_range("version"); p += 4; r.user = desc("user data"); r.link = p; r.map = rd128(f, p); p = r.map;
  uint32_t n = rd32(f, p); p += 4; for (uint32_t i = 0; i < n; ++i) { B k = desc("key"); uint64_t q = rd128(f, p); p += 16; if (!r.pos.insert({k, q}).second) throw std::out_of_range("key twice"); }
  if (rd32(f, p) != crc(f.substr(r.map, p - r.map))) throw std::out_of_range("checksum of the index"); r.mapend = p + 4; return r;
}
} // namespace mapo
#endif
