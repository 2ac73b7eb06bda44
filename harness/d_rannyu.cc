// USES qx ref
// C10: RANNYU against x' = 31167285 x + 1 mod 2^48, over interleavings of draw, save, set.
#include "qx.h"
#include "qdp_rannyu.h"
#include <unistd.h>
using namespace qx;
typedef unsigned long long u64;
static const u64 A = 31167285ULL, M48 = (1ULL << 48) - 1;
static u64 step(u64 x) { return (x * A + 1) & M48; }
static multi1d<int> toSeed(u64 x) { multi1d<int> s(4); for (int i = 0; i < 4; ++i) s[i] = (int)((x >> (12 * (3 - i))) & 4095); return s; }
static bool same(const multi1d<int>& s, u64 x) { if (s.size() != 4) return false; for (int i = 0; i < 4; ++i) if (s[i] != (int)((x >> (12 * (3 - i))) & 4095)) return false; return true; }
static std::string str(const multi1d<int>& s) { return "{" + vh::join(sv(s)) + "}"; }
static u64 seedOf(vh::Rng& g) {
  switch (g.range(0, 5)) { case 0: return 0; case 1: return M48; case 2: return 1ULL << g.range(0, 47); case 3: return M48 ^ (1ULL << g.range(0, 47)); default: return g.next() & M48; }
}
static void draw(double r, u64 x, const char* how) {
  vh::count("draws");
  double want = (double)x / 281474976710656.0;
  if (!(r >= 0 && r < 1)) vh::fail("rannyu:range", "%s: %.17g is outside [0,1)", how, r);
  else if (r != want) vh::fail("rannyu:value", "%s: got %.17g want %.17g", how, r, want);
}
static const u64 DEF = (13ULL << 36) | (15ULL << 24) | (1ULL << 12) | 17;
static void history(vh::Rng& g, int len, bool fresh) {
  // in a fresh process the stream starts at the default seed
  u64 x = DEF; std::string h;
  if (!fresh) { x = seedOf(g); RANNYU::setrn(toSeed(x)); h = "set "; }
  std::vector<RANNYU::RNGState_t> st; std::vector<u64> sx;
  std::vector<multi1d<int>> saved; std::vector<u64> savedx;
  uint64_t f0 = vh::failures();
  for (int i = 0; i < len && vh::failures() == f0; ++i) {
    if (h.size() > 300) h = "..." + h.substr(h.size() - 200);
    switch (g.range(0, 9)) {
    case 0: case 1: case 2: case 3: { int n = g.range(1, 5); h += "draw" + std::to_string(n) + " "; for (int k = 0; k < n; ++k) { x = step(x); draw(RANNYU::random(), x, h.c_str()); } break; }
    case 4: { h += "save "; multi1d<int> s = RANNYU::savern(); vh::count("saves"); if (!same(s, x)) vh::fail("rannyu:save", "%s: saved %s, state %s", h.c_str(), str(s).c_str(), str(toSeed(x)).c_str()); saved.push_back(s); savedx.push_back(x); break; }
    case 5: if (!saved.empty()) { int k = g.range(0, (int)saved.size() - 1); h += "restore "; RANNYU::setrn(saved[k]); x = savedx[k]; vh::count("restores"); } break;
    case 6: { x = seedOf(g); h += "set "; RANNYU::setrn(toSeed(x)); vh::count("sets"); multi1d<int> s = RANNYU::savern(); if (!same(s, x)) vh::fail("rannyu:save", "%s then save: %s, set %s", h.c_str(), str(s).c_str(), str(toSeed(x)).c_str()); break; }
    case 7: { RANNYU::RNGState_t t; u64 y = seedOf(g); t.seed = toSeed(y); t.ran = -1; st.push_back(t); sx.push_back(y); h += "newstate "; break; }
    default: if (!st.empty()) { int k = g.range(0, (int)st.size() - 1); h += "drawstate "; RANNYU::random(st[k]); sx[k] = step(sx[k]); draw(st[k].ran, sx[k], h.c_str()); vh::count("state_draws"); if (!same(st[k].seed, sx[k])) vh::fail("rannyu:state", "%s: state %s want %s", h.c_str(), str(st[k].seed).c_str(), str(toSeed(sx[k])).c_str()); } break;
    }
  }
}
int main(int argc, char** argv) {
  vh::init(argc, argv); qx::start("2,2,2,2");
  // the histories in fresh processes come first: their processes are forked from this one
  for (int pass = 0; pass < 2; ++pass) for (int k = 0; k < vh::opt.cases; ++k) {
    if (vh::opt.only >= 0 && k != vh::opt.only) continue;
    uint64_t sd = vh::mix(vh::opt.seed, k); bool fresh = k % 4 == 0;
    if (fresh != (pass == 0)) continue;
    vh::begin(k, "rannyu history %llx%s", (unsigned long long)sd, fresh ? " in a fresh process" : "");
    vh::distinct("h" + std::to_string(sd));
    if (k < 3) vh::sample("%s", vh::current().c_str());
    if (fresh) {
      std::string txt;
      int st = vh::in_child([&]() { vh::Rng g(sd); vh::reopen(".child"); history(g, 40, true); fflush(stdout); vh::finish(); _exit(vh::failures() ? 1 : 0); }, &txt);
      vh::count("fresh_processes");
      // the child's report file is read back
      std::string f = vh::opt.out + ".child"; FILE* fp = fopen(f.c_str(), "r"); std::string all; if (fp) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) all.append(b, n); fclose(fp); remove(f.c_str()); }
      if (st != 0) { size_t p = all.find("rannyu:"); vh::fail("rannyu:fresh", "in a process that has not used the generator: %s", p == std::string::npos ? txt.c_str() : all.substr(p, 400).c_str()); }
    } else { vh::Rng g(sd); history(g, 200, false); }
  }
  // seeds of a wrong length are refused
  for (int n : {0, 1, 3, 5, 8}) for (int how = 0; how < 2; ++how) {
    vh::begin(100000 + n, "seed of length %d, %s", n, how ? "setrn" : "state");
    std::string txt;
    int st = vh::in_child([&]() { multi1d<int> s(n); for (int i = 0; i < n; ++i) s[i] = i; if (how) RANNYU::setrn(s); else { RANNYU::RNGState_t t; t.seed = s; RANNYU::random(t); } _exit(0); }, &txt);
    vh::count("refusals");
    if (st == 0) vh::fail("rannyu:length", "a seed of length %d is accepted by %s", n, how ? "setrn" : "random(state)");
    else if (txt.find("not length 4") == std::string::npos) vh::fail("rannyu:length", "a seed of length %d ends in: %.300s", n, txt.c_str());
  }
  qx::stop();
  return vh::finish();
}
