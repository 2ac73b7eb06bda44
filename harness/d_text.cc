// USES ex qx ref
// C14: values as text, to files, buffers and the standard streams, read back; malformed and truncated text.
#include "ex.h"
#include <sys/wait.h>
#include <climits>
using namespace qx;
enum Kind { INT, UINT, SHORT, USHORT, LONG, ULONG, LLONG, FLT, DBL, BOOL, CHR, STR, NK };
static const char* kname[] = {"int", "unsigned", "short", "unsigned short", "long", "unsigned long", "long long", "float", "double", "bool", "char", "string"};
struct Val { Kind k; long long i = 0; unsigned long long u = 0; double d = 0; std::string s; };
static double awkward(vh::Rng& g, bool f) {
  switch (g.range(0, 9)) {
  case 0: return 0; case 1: return g.range(-1000, 1000); case 2: return f ? 3.4e38 : 1.7976e308; case 3: return f ? 1.3e-38 : 2.3e-308; case 4: return g.coin() ? 1 : -1; case 5: return g.sym() * 1e-5; case 6: return g.sym() * 1e6; case 7: return 999999.5 * (g.coin() ? 1 : -1); case 8: return std::ldexp(g.sym(), g.range(-100, 100)); default: return g.sym();
  }
}
static long long edge(vh::Rng& g, long long lo, long long hi) { switch (g.range(0, 4)) { case 0: return lo; case 1: return hi; case 2: return lo < 0 ? g.range(-9, 9) : g.range(0, 9); case 3: return lo + (long long)(g.next() % (unsigned long long)(hi / 2 - lo / 2)); default: return hi - g.range(0, 3); } }
static Val rnd(vh::Rng& g) {
  Val v; v.k = (Kind)g.range(0, NK - 1);
  switch (v.k) {
  case INT: v.i = edge(g, INT_MIN, INT_MAX); break; case SHORT: v.i = edge(g, SHRT_MIN, SHRT_MAX); break; case LONG: case LLONG: v.i = edge(g, LONG_MIN, LONG_MAX); break;
  case UINT: v.u = (unsigned long long)edge(g, 0, UINT_MAX); break; case USHORT: v.u = (unsigned long long)edge(g, 0, USHRT_MAX); break; case ULONG: v.u = g.coin() ? ULONG_MAX - g.range(0, 5) : (unsigned long long)edge(g, 0, LONG_MAX); break;
  case FLT: v.d = (float)awkward(g, true); break; case DBL: v.d = awkward(g, false); break; case BOOL: v.i = g.coin(); break; case CHR: v.i = g.range(33, 126); break;
  default: { int n = g.coin() ? g.range(1, 20) : g.range(1, 2000); for (int q = 0; q < n; ++q) v.s += (char)(g.range(0, 9) ? g.range(33, 126) : g.range(128, 255)); }
  }
  return v;
}
template <class S> void put(S& s, const Val& v) {
  switch (v.k) {
  case INT: s << (int)v.i; break; case SHORT: s << (short)v.i; break; case LONG: s << (long)v.i; break; case LLONG: s << (long long)v.i; break; case UINT: s << (unsigned)v.u; break; case USHORT: s << (unsigned short)v.u; break; case ULONG: s << (unsigned long)v.u; break;
  case FLT: s << (float)v.d; break; case DBL: s << v.d; break; case BOOL: s << (bool)v.i; break; case CHR: s << (char)v.i; break; default: if (v.s.size() % 2) s << v.s; else s << v.s.c_str();
  }
}
static void putm(TextWriter& s, const Val& v) { // the member form
  switch (v.k) {
  case INT: s.write((int)v.i); break; case SHORT: s.write((short)v.i); break; case LONG: s.write((long)v.i); break; case LLONG: s.write((long long)v.i); break; case UINT: s.write((unsigned)v.u); break; case USHORT: s.write((unsigned short)v.u); break; case ULONG: s.write((unsigned long)v.u); break;
  case FLT: s.write((float)v.d); break; case DBL: s.write(v.d); break; case BOOL: s.write((bool)v.i); break; case CHR: s.write((char)v.i); break; default: s.write(v.s);
  }
}
template <class S> Val get(S& s, Kind k) {
  Val v; v.k = k;
  switch (k) {
#define G(K, T, m) case K: { typedef T TT; TT t = TT(); s >> t; v.m = t; break; }
  G(INT, int, i) G(SHORT, short, i) G(LONG, long, i) G(LLONG, long long, i) G(UINT, unsigned, u) G(USHORT, unsigned short, u) G(ULONG, unsigned long, u) G(FLT, float, d) G(DBL, double, d) G(BOOL, bool, i) G(CHR, char, i) G(STR, std::string, s)
#undef G
  default: break;
  }
  return v;
}
static bool same(const Val& a, const Val& b, double rel) { return a.i == b.i && a.u == b.u && a.s == b.s && (a.d == b.d || std::fabs(a.d - b.d) <= rel * std::fabs(b.d)); }
static std::string show(const Val& v) { char b[200]; snprintf(b, sizeof b, "%s %lld %llu %.17g '%.80s'", kname[v.k], v.i, v.u, v.d, v.s.c_str()); return b; }
static std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); std::string s; if (!f) return s; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); fclose(f); return s; }
static void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static const char* seps[] = {" ", "\n", "\t", "  \n "};
static const double SIX = 5.01e-6; // six significant digits

template <class T> void structured(const char* name, vh::Rng& g, int words = 0) {
  // an object of many words, as text and back
  T a, b; int n = words ? words : (int)(sizeof(T) / sizeof(typename WordType<T>::Type_t)); typedef typename WordType<T>::Type_t W; W* p = (W*)&a; W* q = (W*)&b;
  for (int i = 0; i < n; ++i) { p[i] = std::is_integral<W>::value ? (W)g.range(0, 4095) : (W)awkward(g, sizeof(W) == 4); q[i] = 77; }
  if (std::is_same<W, bool>::value) for (int i = 0; i < n; ++i) p[i] = (W)g.coin();
  TextBufferWriter w; w << 17 << " " << a << "\n" << 4; std::string s = w.str(); if (w.fail()) vh::fail("text:structured", "%s: writing fails", name);
  TextBufferReader r(s); int x = 0, y = 0; r >> x >> b >> y; vh::count("objects"); vh::count("object_words", n);
  if (r.fail() || x != 17 || y != 4) { vh::fail("text:structured", "%s of %d words: what was written ('%.120s') is not read back", name, n, s.c_str()); return; }
  for (int i = 0; i < n; ++i) if (!(p[i] == q[i] || std::fabs((double)p[i] - (double)q[i]) <= SIX * std::fabs((double)p[i]))) { vh::fail("text:structured", "%s: word %d is %.9g, written %.9g", name, i, (double)q[i], (double)p[i]); return; }
  for (int t = 0; t < 3; ++t) { size_t cut = g.range(0, (int)s.find_last_of('\n') - 1); while (cut > 0 && isspace(s[cut - 1])) --cut; TextBufferReader c(s.substr(0, cut)); int u = 0, v = 0; c >> u >> b >> v; vh::count("truncated"); if (!c.fail()) { vh::fail("text:truncated", "%s: text cut after %zu of %zu characters is read without failure", name, cut, s.size()); break; } }
}

int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,2,2");
  if (vh::opt.geti("closed", 0)) return 0;
  for (int k = 0; k < vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    vh::Rng g(vh::mix(vh::opt.seed, k)); int n = g.range(1, 40); std::vector<Val> v; for (int i = 0; i < n; ++i) v.push_back(rnd(g));
    vh::begin(k, "sequence %d of %d values", k, n); vh::distinct(std::to_string(vh::opt.seed) + "." + std::to_string(k)); if (k < 2) vh::sample("%s", vh::current().c_str());
    bool file = g.coin(), member = g.coin(); std::string text; std::vector<size_t> end; std::string lead; std::vector<const char*> sp; for (int i = 0; i < n; ++i) sp.push_back(seps[g.range(0, 3)]);
    if (file) {
      TextFileWriter w; if (w.is_open()) vh::fail("text:file", "open before open"); w.open("t.txt"); if (!w.is_open()) vh::fail("text:file", "not open");
      for (int i = 0; i < n; ++i) { if (member) { putm(w, v[i]); w.write(sp[i]); } else { put(w, v[i]); w << sp[i]; } }
      if (w.fail()) vh::fail("text:file", "fail after writing"); if (g.coin()) { w.flush(); text = slurp("t.txt"); } w.close(); if (w.is_open()) vh::fail("text:file", "open after close"); std::string t2 = slurp("t.txt"); if (!text.empty() && text != t2) vh::fail("text:flush", "flushed text is not what is in the file"); text = t2; vh::count("files");
    } else {
      TextBufferWriter w; for (int i = 0; i < n; ++i) { if (member) { putm(w, v[i]); w.write(std::string(sp[i])); } else { put(w, v[i]); w << std::string(sp[i]); } }
      text = w.str(); if (w.strPrimaryNode() != text) vh::fail("text:buffer", "strPrimaryNode"); if (w.fail()) vh::fail("text:buffer", "fail after writing"); vh::count("buffers");
    }
    { // tokens: what an independent reader sees
      std::istringstream is(text); std::string t; for (int i = 0; i < n; ++i) { is >> t; vh::count("tokens"); bool ok = false; char* e; if (v[i].k == STR) ok = t == v[i].s; else if (v[i].k == CHR) ok = t == std::string(1, (char)v[i].i); else if (v[i].k == FLT || v[i].k == DBL) { double d = strtod(t.c_str(), &e); ok = !*e && (d == v[i].d || std::fabs(d - v[i].d) <= SIX * std::fabs(v[i].d)); } else if (v[i].k == UINT || v[i].k == USHORT || v[i].k == ULONG) ok = t == std::to_string(v[i].u); else ok = t == std::to_string(v[i].i);
        if (!ok) { vh::fail("text:write", "%s is written '%.90s'", show(v[i]).c_str(), t.c_str()); break; } }
      if (is >> t) vh::fail("text:write", "more text than written: '%.40s'", t.c_str());
    }
    auto readAll = [&](TextReader& r, const char* what) {
      for (int i = 0; i < n; ++i) { Val x; if (g.coin()) x = get(r, v[i].k); else { x.k = v[i].k; switch (x.k) {
#define G(K, T, m) case K: { typedef T TT; TT t = TT(); r.read(t); x.m = t; break; }
  G(INT, int, i) G(SHORT, short, i) G(LONG, long, i) G(LLONG, long long, i) G(UINT, unsigned, u) G(USHORT, unsigned short, u) G(ULONG, unsigned long, u) G(FLT, float, d) G(DBL, double, d) G(BOOL, bool, i) G(CHR, char, i) G(STR, std::string, s)
#undef G
        default: break; } }
        vh::count("values_read"); if (r.fail() || !same(x, v[i], SIX)) { vh::fail("text:read", "%s: value %d, written %s, is read as %s%s", what, i, show(v[i]).c_str(), show(x).c_str(), r.fail() ? " (fail)" : ""); return; } }
      int extra = 12345; r >> extra; if (!r.fail()) vh::fail("text:missing", "%s: a value past the end is read as %d", what, extra); vh::count("missing");
    };
    { TextBufferReader r(text); if (r.str() != text || r.strPrimaryNode() != text) vh::fail("text:buffer", "str of a reader"); readAll(r, "buffer"); }
    { spit("u.txt", text); TextFileReader r; if (r.is_open()) vh::fail("text:file", "reader open before open"); r.open("u.txt"); if (!r.is_open()) vh::fail("text:file", "reader not open"); readAll(r, "file"); r.close(); if (r.is_open()) vh::fail("text:file", "reader open after close"); }
    { // the standard streams
      std::istringstream is(text); StandardInputStream in; in.init(&is); for (int i = 0; i < n; ++i) { Val x = get(in, v[i].k); vh::count("values_read"); if (in.fail() || !same(x, v[i], SIX)) { vh::fail("text:stdin", "value %d, written %s, is read as %s", i, show(v[i]).c_str(), show(x).c_str()); break; } }
      int e; in >> e; if (!in.fail()) vh::fail("text:missing", "standard input: a value past the end is read");
      std::ostringstream os; os.precision(4); StandardOutputStream out; out.init(&os); for (int i = 0; i < n; ++i) { put(out, v[i]); out << " "; } out << std::endl; out.flush(); if (out.fail()) vh::fail("text:stdout", "fail"); if (os.precision() != 4) vh::fail("text:stdout", "precision of the stream is changed to %d", (int)os.precision());
      std::istringstream i2(os.str()); for (int i = 0; i < n; ++i) { Val x = get(i2, v[i].k); double tol = v[i].k == FLT ? 5.01e-7 : 5.01e-15; vh::count("stdout_values"); if (!i2 || !same(x, v[i], tol)) { vh::fail("text:stdout", "value %d, %s, is printed as %s", i, show(v[i]).c_str(), show(x).c_str()); break; } }
      std::string sm; int cnt = g.range(0, 6); multi1d<int> m(cnt); for (int i = 0; i < cnt; ++i) sm += std::to_string(i * i - 3) + "\n"; std::istringstream i3(sm); StandardInputStream in3; in3.init(&i3); in3 >> m; for (int i = 0; i < cnt; ++i) if (m[i] != i * i - 3) vh::fail("text:stdin", "array element"); if (in3.fail()) vh::fail("text:stdin", "array");
    }
    { // truncated anywhere: everything before reads, something after fails
      size_t cut = g.range(0, (int)text.size() - 1); TextBufferReader r(text.substr(0, cut)); size_t pos = 0; int full = 0; { std::istringstream is(text); std::string t; for (int i = 0; i < n; ++i) { is >> t; pos = is.eof() ? text.size() : (size_t)is.tellg(); if (pos <= cut) ++full; else break; } }
      int i = 0; for (; i < n; ++i) { Val x = get(r, v[i].k); if (r.fail()) break; if (i < full && !same(x, v[i], SIX)) { vh::fail("text:truncated", "value %d of truncated text", i); break; } }
      vh::count("truncated"); if (i < full) vh::fail("text:truncated", "value %d of %d complete ones in truncated text is not read", i, full); if (i > full + 1) vh::fail("text:truncated", "%d values read from text that has %d", i, full);
      if (r.fail()) { int z; r >> z; if (!r.fail()) vh::fail("text:truncated", "failure is forgotten"); }
    }
    { // malformed numbers
      static const struct { Kind k; const char* t; } badl[] = {{INT, "x12"}, {INT, "2147483648"}, {INT, "-2147483649"}, {INT, ""}, {SHORT, "32768"}, {SHORT, "-40000"}, {USHORT, "70000"}, {UINT, "4294967296"}, {LONG, "9223372036854775808"}, {ULONG, "18446744073709551616"}, {LLONG, "--3"}, {DBL, "e5"}, {DBL, "abc"}, {FLT, "+-1"}, {FLT, "."}, {BOOL, "2"}, {BOOL, "true"}, {DBL, "1e999"}, {FLT, "1e99"}, {STR, ""}, {CHR, " \n "}};
      for (int q = 0; q < 6; ++q) { auto& b = badl[g.range(0, 20)]; TextBufferReader r(std::string("  ") + b.t); get(r, b.k); vh::count("malformed"); if (!r.fail()) vh::fail("text:malformed", "'%s' is read as %s without failure", b.t, kname[b.k]); std::istringstream is(b.t); StandardInputStream in; in.init(&is); get(in, b.k); if (!in.fail()) vh::fail("text:malformed", "standard input: '%s' is read as %s without failure", b.t, kname[b.k]); }
    }
    switch (k % 5) {
    case 0: structured<Complex>("Complex", g); structured<ComplexD>("ComplexD", g); structured<Real>("Real", g); structured<Integer>("Integer", g); break;
    case 1: structured<ColorVector>("ColorVector", g); structured<SpinVector>("SpinVector", g); structured<ColorMatrix>("ColorMatrix", g); break;
    case 2: structured<SpinMatrix>("SpinMatrix", g); structured<Fermion>("Fermion", g); structured<HalfFermion>("HalfFermion", g); break;
    case 3: structured<Propagator>("Propagator", g); structured<StaggeredFermion>("StaggeredFermion", g, 6); structured<StaggeredPropagator>("StaggeredPropagator", g); structured<RealD>("RealD", g); break;
    default: structured<Seed>("Seed", g); structured<Boolean>("Boolean", g); structured<ColorMatrixD>("ColorMatrixD", g); structured<DiracFermion>("DiracFermion", g); break;
    }
    if (k % 20 == 0) { // files that cannot be opened are refused
      std::string out; for (int q = 0; q < 2; ++q) { int st = vh::in_child([&] { if (q) { TextFileWriter w("nodir/x.txt"); w << 3; } else { TextFileReader r("not there.txt"); int z; r >> z; } puts("ACCEPTED"); fflush(stdout); _exit(0); }, &out, 30); vh::count("refused_files"); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) vh::fail("text:file", "%s a file that cannot be opened is accepted", q ? "writing" : "reading"); }
    }
    if (vh::failures() > 10) break;
  }
  qx::stop();
  return vh::finish();
}
