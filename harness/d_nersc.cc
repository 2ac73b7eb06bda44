// USES ex qx ref
// DEPENDS $REPO/lib/qdp_iogauge.cc
// C13: the gauge archive format against an independent reader and writer, with damaged files.
#include "ex.h"
#include "xmlstub.h"
#include "../lib/qdp_iogauge.cc"
#include <memory>
#include <sys/wait.h>
using namespace qx;
typedef std::vector<unsigned char> Bytes;
typedef std::complex<double> cdd;
struct Link { cdd m[3][3]; };
typedef std::vector<Link> Links; // [lex * 4 + mu]

static Link su3(vh::Rng& g) {
  Link l; cdd a[3], b[3];
  for (;;) {
    double n = 0; for (int i = 0; i < 3; ++i) { a[i] = cdd(g.sym(), g.sym()); n += std::norm(a[i]); } if (n < .1) continue; for (auto& x : a) x /= std::sqrt(n);
    cdd d = 0; for (int i = 0; i < 3; ++i) { b[i] = cdd(g.sym(), g.sym()); } for (int i = 0; i < 3; ++i) d += std::conj(a[i]) * b[i]; n = 0; for (int i = 0; i < 3; ++i) { b[i] -= d * a[i]; n += std::norm(b[i]); } if (n < .1) continue; for (auto& x : b) x /= std::sqrt(n);
    break;
  }
  for (int i = 0; i < 3; ++i) { l.m[0][i] = a[i]; l.m[1][i] = b[i]; }
  for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; l.m[2][i] = std::conj(a[j] * b[k] - a[k] * b[j]); }
  return l;
}
static cdd cast(cdd z, int fs) { return fs == 4 ? cdd((float)z.real(), (float)z.imag()) : z; }
static void roundTo(Links& u, int fs) { for (auto& l : u) for (auto& r : l.m) for (auto& z : r) z = cast(z, fs); }
static Links randomLinks(vh::Rng& g, int kind) {
  Links u(geom.vol * 4); Link same = su3(g);
  for (auto& l : u) { l = kind == 0 ? same : su3(g); if (kind == 1) { Link one = {}; for (int i = 0; i < 3; ++i) one.m[i][i] = 1; l = one; } }
  return u;
}
static void toFields(const Links& u, multi1d<LatticeColorMatrix>& f) {
  f.resize(Nd);
  for (int mu = 0; mu < Nd; ++mu) for (int n = 0; n < geom.vol; ++n) { double w[18]; int k = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { w[k++] = u[n * 4 + mu].m[i][j].real(); w[k++] = u[n * 4 + mu].m[i][j].imag(); } setv(f[mu], lex2lin[n], w); }
}
static Links fromFields(const multi1d<LatticeColorMatrix>& f) {
  Links u(geom.vol * 4);
  for (int mu = 0; mu < Nd; ++mu) for (int n = 0; n < geom.vol; ++n) { std::vector<double> w = getv(f[mu], lex2lin[n]); int k = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j, k += 2) u[n * 4 + mu].m[i][j] = cdd(w[k], w[k + 1]); }
  return u;
}
// independent of the library: loops of four links, and the traces
static void measure(const Links& u, double& plaq, double& link) {
  plaq = link = 0;
  auto at = [&](int n, int mu) -> const Link& { return u[n * 4 + mu]; };
  for (int n = 0; n < geom.vol; ++n) {
    std::vector<int> x = geom.coord(n);
    for (int mu = 0; mu < 4; ++mu) {
      for (int i = 0; i < 3; ++i) link += at(n, mu).m[i][i].real();
      for (int nu = 0; nu < mu; ++nu) {
        std::vector<int> y = x, z = x; y[mu] = (x[mu] + 1) % geom.L[mu]; z[nu] = (x[nu] + 1) % geom.L[nu];
        const Link &a = at(n, mu), &b = at(geom.lex(y), nu), &c = at(geom.lex(z), mu), &d = at(n, nu);
        cdd t = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) t += a.m[i][j] * b.m[j][k] * std::conj(c.m[l][k]) * std::conj(d.m[i][l]);
        plaq += t.real();
      }
    }
  }
  plaq *= 2.0 / (geom.vol * 4.0 * 3.0 * 3.0); link /= geom.vol * 4.0 * 3.0;
}
static Bytes payload(const Links& u, int mat, int fs) {
  Bytes b; for (auto& l : u) for (int i = 0; i < (mat == 12 ? 2 : 3); ++i) for (int j = 0; j < 3; ++j) for (int h = 0; h < 2; ++h) {
    double v = h ? l.m[i][j].imag() : l.m[i][j].real(); unsigned long long w; if (fs == 4) { float f = (float)v; unsigned q; memcpy(&q, &f, 4); w = q; } else memcpy(&w, &v, 8);
    for (int k = fs - 1; k >= 0; --k) b.push_back((unsigned char)(w >> (8 * k)));
  }
  return b;
}
static unsigned sum32(const Bytes& b) { unsigned s = 0; for (size_t i = 0; i + 3 < b.size(); i += 4) s += (unsigned)b[i] << 24 | b[i + 1] << 16 | b[i + 2] << 8 | b[i + 3]; return s; }
struct Head { std::vector<std::string> lines; };
static std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); std::string s; if (!f) return s; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); fclose(f); return s; }
static void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string label(vh::Rng& g) { static const char* c = "abcXYZ 0123-_.,:"; std::string s; for (int i = g.range(1, 30); i > 0; --i) s += c[g.range(0, 15)]; while (!s.empty() && s[0] == ' ') s = s.substr(1); return s.empty() ? "x" : s; }

struct Meta { std::string eid, elab, cre, hw, cdate, adate; int seq; int bnd[4]; };
static Meta meta(vh::Rng& g) { Meta m; m.eid = label(g); m.elab = label(g); m.cre = label(g); m.hw = label(g); m.cdate = label(g); m.adate = label(g); m.seq = g.range(0, 100000); for (int& b : m.bnd) b = g.coin() ? 1 : -1; return m; }
static bool same(const ArchivGauge_t& h, const Meta& m) { bool ok = h.ensemble_id == m.eid && h.ensemble_label == m.elab && h.creator == m.cre && h.creator_hardware == m.hw && h.creation_date == m.cdate && h.archive_date == m.adate && h.sequence_number == m.seq && h.boundary.size() == 4; for (int i = 0; ok && i < 4; ++i) ok = h.boundary[i] == m.bnd[i]; return ok; }
// a file as another program would write it
static std::string make(const Links& u, const Meta& m, int mat, int fs, vh::Rng& g, const char* damage = "") {
  double plaq, link; measure(u, plaq, link); Bytes p = payload(u, mat, fs); unsigned ck = sum32(p); std::string D = damage;
  if (D == "plaquette") plaq += g.coin() ? 1e-3 : -1e-3; if (D == "link") link += g.coin() ? 1e-3 : -1e-3;
  if (D == "checksum") ck ^= 1u << g.range(0, 31);
  std::vector<std::string> l = {fmt("CHECKSUM = %x", ck), fmt("LINK_TRACE = %.8f", link), fmt("PLAQUETTE = %.8f", plaq), fmt("DATATYPE = %s", mat == 12 ? "4D_SU3_GAUGE" : "4D_SU3_GAUGE_3x3"), "HDR_VERSION = 1.0", "STORAGE_FORMAT = 1.0",
    "ENSEMBLE_ID = " + m.eid, "ENSEMBLE_LABEL = " + m.elab, fmt("SEQUENCE_NUMBER = %d", m.seq), "CREATOR = " + m.cre, "CREATOR_HARDWARE = " + m.hw, "CREATION_DATE = " + m.cdate, "ARCHIVE_DATE = " + m.adate, fs == 8 ? "FLOATING_POINT = IEEE64BIG" : g.coin() ? "FLOATING_POINT = IEEE32BIG" : "FLOATING_POINT = IEEE32"};
  for (int i = 0; i < 4; ++i) { int n = geom.L[i]; if (D == "dimension" && i == 2) n += 2; if (!(D == "missing dimension" && i == 1)) l.push_back(fmt("DIMENSION_%d = %d", i + 1, n)); l.push_back(fmt("BOUNDARY_%d = %s", i + 1, m.bnd[i] == 1 ? "PERIODIC" : "ANTIPERIODIC")); }
  if (g.coin()) l.push_back("SOME_OTHER_KEY = 17 x"); if (g.coin()) l.push_back("EMPTY_KEY =");
  if (g.coin()) for (int i = (int)l.size() - 1; i > 0; --i) std::swap(l[i], l[g.range(0, i)]);
  std::string h; if (D != "no begin") h = "BEGIN_HEADER\n"; for (auto& x : l) h += x + "\n"; if (D != "no end") h += "END_HEADER\n";
  if (D == "datatype") { size_t q = h.find("SU3_GAUGE"); h.replace(q, 9, "SU5_GAUGE"); }
  if (D == "floating point") { size_t q = h.find("IEEE"); h.replace(q, 4, "VAXF"); }
  std::string b(p.begin(), p.end());
  if (D == "bit") { int k = g.range(0, (int)b.size() - 1); b[k] ^= (char)(1 << g.range(0, 7)); }
  if (D == "truncated") b.resize(g.range(0, (int)b.size() - 1));
  if (D == "truncated header") { h.resize(g.range(0, (int)h.size() - 2)); b = ""; }
  return h + b;
}
static const double REPS = sizeof(REAL) == 4 ? 6e-8 : 1.2e-16;
static void compare(const char* key, const Links& got, const Links& want, int rows, int fs, const std::string& what) {
  vh::count("links_compared", got.size());
  for (size_t n = 0; n < got.size(); ++n) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    cdd w = cast(want[n].m[i][j], fs); if (sizeof(REAL) == 4) w = cast(w, 4);
    double tol = i < rows ? 0 : 8 * std::max(REPS, fs == 4 ? 6e-8 : 1.2e-16);
    if (!(std::abs(got[n].m[i][j].real() - w.real()) <= tol && std::abs(got[n].m[i][j].imag() - w.imag()) <= tol)) { vh::fail(key, "%s: site (%s) direction %zu element %d%d: got (%.9g,%.9g) want (%.9g,%.9g)", what.c_str(), vh::join(geom.coord(n / 4)).c_str(), n % 4, i, j, got[n].m[i][j].real(), got[n].m[i][j].imag(), w.real(), w.imag()); return; }
  }
}
static std::map<std::string, std::string> parse(const std::string& s, size_t& body) {
  std::map<std::string, std::string> m; size_t p = 0; body = 0; bool first = true;
  for (;;) { size_t e = s.find('\n', p); if (e == std::string::npos) return {}; std::string l = s.substr(p, e - p); p = e + 1;
    if (first) { if (l != "BEGIN_HEADER") return {}; first = false; continue; }
    if (l == "END_HEADER") { body = p; return m; }
    size_t q = l.find(" = "); if (q == std::string::npos) return {}; if (m.count(l.substr(0, q))) m["DUPLICATE"] = l; m[l.substr(0, q)] = l.substr(q + 3); }
}
static const char* FN = "cfg.nersc";
static void checkFile(const char* key, const Links& u, int mat, const Meta* m, double& plaq, double& link) {
  std::string s = slurp(FN); size_t body; auto h = parse(s, body); measure(u, plaq, link);
  if (h.empty()) { vh::fail(key, "the header is not BEGIN_HEADER, KEY = VALUE lines, END_HEADER"); return; }
  auto want = [&](const std::string& k, const std::string& v) { vh::count("header_fields"); if (h[k] != v) vh::fail(key, "header: %s = '%s', should be '%s'", k.c_str(), h[k].c_str(), v.c_str()); };
  Bytes p = payload(u, mat, 4);
  want("DATATYPE", mat == 12 ? "4D_SU3_GAUGE" : "4D_SU3_GAUGE_3x3"); want("CHECKSUM", fmt("%x", sum32(p))); want("FLOATING_POINT", "IEEE32BIG"); want("DUPLICATE", ""); h.erase("DUPLICATE");
  for (int i = 0; i < 4; ++i) { want(fmt("DIMENSION_%d", i + 1), std::to_string(geom.L[i])); want(fmt("BOUNDARY_%d", i + 1), m && m->bnd[i] == -1 ? "ANTIPERIODIC" : "PERIODIC"); }
  if (m) { want("ENSEMBLE_ID", m->eid); want("ENSEMBLE_LABEL", m->elab); want("CREATOR", m->cre); want("CREATOR_HARDWARE", m->hw); want("CREATION_DATE", m->cdate); want("ARCHIVE_DATE", m->adate); want("SEQUENCE_NUMBER", std::to_string(m->seq)); }
  double fp = atof(h["PLAQUETTE"].c_str()), fl = atof(h["LINK_TRACE"].c_str());
  if (h["PLAQUETTE"].empty() || std::fabs(fp - plaq) > 5e-6) vh::fail(key, "header: PLAQUETTE = %s, should be %.8f", h["PLAQUETTE"].c_str(), plaq);
  if (h["LINK_TRACE"].empty() || std::fabs(fl - link) > 5e-6) vh::fail(key, "header: LINK_TRACE = %s, should be %.8f", h["LINK_TRACE"].c_str(), link);
  if (s.substr(body) != std::string(p.begin(), p.end())) { size_t i = 0; while (i < p.size() && body + i < s.size() && (unsigned char)s[body + i] == p[i]) ++i; vh::fail(key, "links: %zu bytes, should be %zu; first difference at byte %zu", s.size() - body, p.size(), i); }
  vh::count("files_written");
}
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,2,3");
  for (int k = 0; k < vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    vh::Rng g(vh::mix(vh::opt.seed, k));
    vh::begin(k, "gauge archive %d, lattice %s", k, vh::join(geom.L).c_str()); vh::distinct("a" + std::to_string(vh::opt.seed) + "." + std::to_string(k) + vh::join(geom.L)); if (k < 2) vh::sample("%s", vh::current().c_str());
    Links u = randomLinks(g, g.range(0, 5)); Meta m = meta(g); multi1d<LatticeColorMatrix> f, r(Nd); for (int i = 0; i < Nd; ++i) r[i] = zero; double plaq, link;
    Links us = u; if (sizeof(REAL) == 4) roundTo(us, 4);
    toFields(us, f);
    int mat = g.coin() ? 12 : 18;
    // checksum of the field itself
    if (computeChecksum(f, mat) != sum32(payload(us, mat, 4))) vh::fail("nersc:checksum", "computeChecksum differs from the sum of the stored words");
    // written by the library
    int form = k % 3;
    if (form == 0) { writeArchiv(f, FN); mat = 12; checkFile("nersc:write", us, 12, nullptr, plaq, link); }
    else {
      ArchivGauge_t h; h.mat_size = mat; h.ensemble_id = m.eid; h.ensemble_label = m.elab; h.creator = m.cre; h.creator_hardware = m.hw; h.creation_date = m.cdate; h.archive_date = m.adate; h.sequence_number = m.seq; for (int i = 0; i < 4; ++i) h.boundary[i] = m.bnd[i];
      if (form == 1) writeArchiv(h, f, FN);
      else { // by way of an XML header
        h.checksum = (unsigned)g.next(); h.w_plaq = .25; h.link = .125; XMLBufferWriter x; write(x, "NERSC", h); ArchivGauge_t h2; XMLReader xr(x); read(xr, "/NERSC", h2);
        if (!same(h2, m) || h2.mat_size != h.mat_size || h2.float_size != h.float_size || !toBool(h2.w_plaq == h.w_plaq) || !toBool(h2.link == h.link)) vh::fail("nersc:xml header", "a header written to XML is not the one read"); if (h2.checksum != h.checksum) vh::fail("nersc:xml checksum", "checksum %x written to XML is read as %x", h.checksum, h2.checksum);
        vh::count("xml_headers"); writeArchiv(x, f, FN);
      }
      checkFile("nersc:write", us, mat, &m, plaq, link);
    }
    { // and back
      ArchivGauge_t h; if (form == 2) { XMLReader x; readArchiv(x, r, FN); read(x, "/NERSC", h); } else readArchiv(h, r, FN);
      if (form && !same(h, m)) vh::fail("nersc:header", "header fields are not those written"); if ((int)h.mat_size != mat) vh::fail("nersc:header", "mat_size %zu, written with %d", h.mat_size, mat);
      for (int i = 0; i < 4; ++i) if (h.nrow.size() != 4 || h.nrow[i] != geom.L[i]) { vh::fail("nersc:header", "lattice size"); break; }
      if (std::fabs(toDouble(h.w_plaq) - plaq) > 1e-5 || std::fabs(toDouble(h.link) - link) > 1e-5) vh::fail("nersc:header", "plaquette or link trace");
      compare("nersc:read", fromFields(r), us, mat == 12 ? 2 : 3, 4, "read back"); vh::count("files_read");
    }
    // written by others: all four formats
    for (int mt : {12, 18}) for (int fs : {4, 8}) {
      Links v = u; roundTo(v, fs); if (g.coin()) v = u;
      spit(FN, make(v, m, mt, fs, g)); for (int i = 0; i < Nd; ++i) r[i] = zero; ArchivGauge_t h; readArchiv(h, r, FN);
      compare("nersc:read", fromFields(r), v, mt == 12 ? 2 : 3, fs, fmt("%d words of %d bytes per link", mt, fs)); if (!same(h, m)) vh::fail("nersc:header", "header fields of a foreign file"); if ((int)h.mat_size != mt || (int)h.float_size != fs) vh::fail("nersc:header", "format of a foreign file"); vh::count("files_read"); vh::count("foreign_files");
    }
    // damaged ones must be refused
    static const char* dm[] = {"bit", "truncated", "checksum", "plaquette", "link", "dimension", "missing dimension", "no begin", "no end", "datatype", "floating point", "truncated header", "bit", "bit"};
    for (int q = 0; q < 5; ++q) {
      const char* d = dm[(k * 5 + q) % 14]; int mt = g.coin() ? 12 : 18, fs = g.coin() ? 4 : 8; Links v = u; roundTo(v, fs);
      spit(FN, make(v, m, mt, fs, g, d)); std::string out; bool done = false;
      int st = vh::in_child([&] { multi1d<LatticeColorMatrix> rr(Nd); readArchiv(rr, FN); puts("ACCEPTED"); fflush(stdout); _exit(0); }, &out, 30);
      vh::count("damaged_files");
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) vh::fail("nersc:damaged", "a file with wrong %s (%d words of %d bytes per link) is accepted", d, mt, fs);
      else if (out.find("Sanitizer") != std::string::npos || out.find("runtime error") != std::string::npos) { size_t z = out.find("runtime error"); if (z == std::string::npos) z = out.find("Sanitizer"); vh::fail("nersc:damaged", "reading a file with wrong %s: %.200s", d, out.c_str() + (z > 60 ? z - 60 : 0)); }
      else if (st == -1) vh::fail("nersc:damaged", "reading a file with wrong %s does not end", d);
      (void)done;
    }
    if (vh::failures() > 10) break;
  }
  qx::stop();
  return vh::finish();
}
