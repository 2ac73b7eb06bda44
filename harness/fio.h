// C12: lattice fields in binary files against the lexicographic big-endian image.
#ifndef FIO_H
#define FIO_H
#include "ex.h"
#include "qdp_disk_map_slice.h"
#include <memory>
namespace qx {
typedef std::vector<unsigned char> Bytes;
struct FTest { const char* name; void (*f)(vh::Rng&, const char*); };
extern std::vector<FTest> ftests;
inline std::string bstr(const Bytes& b) { return std::string(b.begin(), b.end()); }
inline unsigned crc0(const unsigned char* p, size_t n) { unsigned c = ~0u; while (n--) { c ^= *p++; for (int i = 0; i < 8; ++i) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); } return ~c; }
// the words of one site, big-endian
template <class T> void enc1(Bytes& b, const T& x) {
  typedef typename WordType<T>::Type_t W; const unsigned char* p = (const unsigned char*)&x;
  for (size_t k = 0; k < sizeof(T) / sizeof(W); ++k) for (int j = (int)sizeof(W) - 1; j >= 0; --j) b.push_back(p[k * sizeof(W) + j]);
}
template <class W> void word(vh::Rng& g, W& w) { if (std::is_same<W, bool>::value) w = g.coin(); else if (std::is_floating_point<W>::value) w = (W)std::ldexp(g.sym(), g.range(-60, 60)); else w = (W)(g.next() & 4095); }
template <class T> void rfill(OLattice<T>& f, vh::Rng& g) { typedef typename WordType<T>::Type_t W; for (int i = 0; i < Layout::sitesOnNode(); ++i) { W w[sizeof(T) / sizeof(W)]; for (W& x : w) word(g, x); memcpy((void*)&f.elem(i), w, sizeof(T)); } }
template <class T> Bytes image(const OLattice<T>& f, int lo = 0, int hi = -1) { Bytes b; if (hi < 0) hi = geom.vol; for (int n = lo; n < hi; ++n) enc1(b, f.elem(lex2lin[n])); return b; }
inline void same(const char* key, const std::string& got, const Bytes& want, const char* what, size_t word) {
  vh::count("images"); vh::count("image_bytes", want.size());
  if (got == bstr(want)) return;
  size_t i = 0; while (i < got.size() && i < want.size() && (unsigned char)got[i] == want[i]) ++i;
  vh::fail(key, "%s: %zu bytes, should be %zu; first difference at byte %zu (word %zu)", what, got.size(), want.size(), i, i / word);
}
template <class T> void compare(const char* key, const OLattice<T>& got, const OLattice<T>& want, const char* what) {
  vh::count("fields_compared");
  for (int n = 0; n < geom.vol; ++n) if (memcmp(&got.elem(lex2lin[n]), &want.elem(lex2lin[n]), sizeof(T))) { vh::fail(key, "%s: site (%s) differs", what, vh::join(geom.coord(n)).c_str()); return; }
}
inline std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); std::string s; if (!f) return s; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); fclose(f); return s; }
inline void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

template <class LT> void fieldTest(vh::Rng& g, const char* name) {
  typedef typename ElemOf<LT>::type T; typedef typename WordType<T>::Type_t W;
  const size_t ws = sizeof(W), ss = sizeof(T); const int V = geom.vol, nt = geom.L[Nd - 1], sl = V / nt;
  LT a, b, c; rfill(a, g); rfill(b, g); c = b;
  Bytes im = image(a); const char* fn = "field.dat";
  // whole field out, by buffer and file
  if (g.coin()) { BinaryBufferWriter w; write(w, a); same("field:write", w.str(), im, "field to a buffer", ws); if (w.getChecksum() != crc0(im.data(), im.size())) vh::fail("field:checksum", "writing a field"); if ((size_t)(std::streamoff)w.currentPosition() != im.size()) vh::fail("field:position", "after writing a field"); }
  else { BinaryFileWriter w(fn); write(w, 17); write(w, a); write(w, 1.5); w.close(); std::string s = slurp(fn); same("field:write", s.size() < 12 ? s : s.substr(4, s.size() - 12), im, "field to a file", ws); }
  // and in; what is in the file before and after is left alone
  if (g.coin()) { BinaryBufferReader r(bstr(im)); read(r, b); compare("field:read", b, a, "field from a buffer"); if (r.fail()) vh::fail("field:read", "failure"); if (r.getChecksum() != crc0(im.data(), im.size())) vh::fail("field:checksum", "reading a field"); if ((size_t)(std::streamoff)r.currentPosition() != im.size()) vh::fail("field:position", "after reading a field"); }
  else { { BinaryFileWriter w(fn); write(w, 17); w.writeArray(bstr(im).data(), 1, im.size()); write(w, 1.5); } BinaryFileReader r(fn); int k; double z; read(r, k); read(r, b); read(r, z); compare("field:read", b, a, "field from a file"); if (k != 17 || z != 1.5) vh::fail("field:position", "what follows the field is not found"); }
  // single sites, anywhere in the file
  {
    b = c; spit(fn, bstr(im)); BinaryFileReaderWriter f(fn); Bytes im2 = im; LT want; want = c;
    for (int k = 0; k < 12; ++k) {
      int n = g.range(0, V - 1); multi1d<int> x = mv(geom.coord(n));
      if (g.coin()) { ((BinaryReader&)f).seekBegin((std::streamoff)(n * ss)); read(f, b, x); want.elem(lex2lin[n]) = [&] { T t; unsigned char* p = (unsigned char*)&t; for (size_t q = 0; q < ss; ++q) p[q / ws * ws + ws - 1 - q % ws] = im2[n * ss + q]; return t; }(); vh::count("sites_read"); }
      else { ((BinaryReader&)f).seekBegin((std::streamoff)(n * ss)); write(f, b, x); Bytes s1; enc1(s1, b.elem(lex2lin[n])); std::copy(s1.begin(), s1.end(), im2.begin() + n * ss); vh::count("sites_written"); }
      if (f.BinaryReaderWriter::fail()) vh::fail("field:site", "failure");
    }
    f.flush(); same("field:site", slurp(fn), im2, "sites written one at a time", ws); compare("field:site", b, want, "sites read one at a time");
  }
  // time slices in any order
  {
    BinaryFileReaderWriter f(fn, std::ios_base::in | std::ios_base::out | std::ios_base::trunc);
    std::vector<int> ord(nt); for (int t = 0; t < nt; ++t) ord[t] = t; for (int t = nt - 1; t > 0; --t) std::swap(ord[t], ord[g.range(0, t)]);
    { BinaryWriter& w = f; std::vector<char> z(im.size(), 0x33); w.writeArray(z.data(), 1, z.size()); }
    TimeSliceIO<LT> io(a, 0); int left = g.coin() ? g.range(0, nt - 1) : 0; Bytes im2 = im;
    for (int q = 0; q < nt; ++q) { int t = ord[q]; if (q < left) { std::fill(im2.begin() + t * sl * ss, im2.begin() + (t + 1) * sl * ss, 0x33); continue; } ((BinaryReader&)f).seekBegin((std::streamoff)t * sl * ss); if (g.coin()) { TimeSliceIO<LT> one(a, t); if (one.getTimeSlice() != t) vh::fail("field:slice", "getTimeSlice"); write(f, one); } else { io.setTimeSlice(t); io.binaryWrite(f); } vh::count("slices_written"); }
    f.flush(); same("field:slice", slurp(fn), im2, "time slices", ws);
    ((BinaryReader&)f).rewind();
    { BinaryWriter& w = f; w.writeArray(bstr(im).data(), 1, im.size()); }
    b = c; LT want; want = c; TimeSliceIO<LT> in(b, nt - 1);
    for (int q = 0; q < nt; ++q) { int t = ord[q]; if (q < left) continue; ((BinaryReader&)f).seekBegin((std::streamoff)t * sl * ss); if (g.coin()) { TimeSliceIO<LT> one(b, t); read(f, one); } else { in.setTimeSlice(t); in.binaryRead(f); } for (int n = t * sl; n < (t + 1) * sl; ++n) want.elem(lex2lin[n]) = a.elem(lex2lin[n]); vh::count("slices_read");
      if ((std::streamoff)((BinaryReader&)f).currentPosition() != (std::streamoff)(t + 1) * sl * ss) vh::fail("field:slice", "position after slice %d", t); }
    compare("field:slice", b, want, "time slices");
    for (int t : {-1, nt, nt + 5}) { bool thrown = false; try { in.setTimeSlice(t); } catch (...) { thrown = true; } if (!thrown) vh::fail("field:slice", "time slice %d of %d accepted", t, nt); }
  }
  // any range of sites
  {
    int lo = g.range(0, V), hi = g.range(lo, V); BinaryBufferWriter w; LatticeTimeSliceIO::writeSlice(w, a, lo, hi); same("field:range", w.str(), image(a, lo, hi), "a range of sites", ws);
    b = c; BinaryBufferReader r(w.str()); LatticeTimeSliceIO::readSlice(r, b, lo, hi); LT want; want = c; for (int n = lo; n < hi; ++n) want.elem(lex2lin[n]) = a.elem(lex2lin[n]); compare("field:range", b, want, "a range of sites");
  }
  // arrays of fields, with and without their size
  {
    multi1d<LT> u(3); for (int i = 0; i < 3; ++i) rfill(u[i], g); BinaryBufferWriter w; bool sz = g.coin(); if (sz) write(w, u); else write(w, u, 3);
    Bytes want; if (sz) { want = {0, 0, 0, 3}; } for (int i = 0; i < 3; ++i) { Bytes x = image(u[i]); want.insert(want.end(), x.begin(), x.end()); } same("field:array", w.str(), want, "array of fields", ws);
    multi1d<LT> v(3); BinaryBufferReader r(w.str()); if (sz) read(r, v); else read(r, v, 3); if (v.size() != 3) vh::fail("field:array", "size"); else for (int i = 0; i < 3; ++i) compare("field:array", v[i], u[i], "array of fields"); vh::count("arrays");
  }
  // a file that ends early
  {
    size_t cut = g.range(0, (int)im.size() - 1); BinaryBufferReader r(bstr(im).substr(0, cut)); b = c; read(r, b); vh::count("truncated_fields"); if (!r.fail()) vh::fail("field:truncated", "reading %zu of %zu bytes does not fail", cut, im.size());
    for (int n = 0; n < (int)(cut / ss); ++n) if (memcmp(&b.elem(lex2lin[n]), &a.elem(lex2lin[n]), ss)) { vh::fail("field:truncated", "a site before the end of the file is not read"); break; }
  }
}
#define FTEST(T) ftests.push_back({#T, &fieldTest<T>})
} // namespace qx
#endif
