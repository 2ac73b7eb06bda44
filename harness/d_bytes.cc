// C22: byte swapping, the CRC-32 and the big-endian file helpers against their definitions.
#include "vh.h"
#include "qdp.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <cstring>
typedef std::string B;
typedef QDPUtil::n_uint32_t U;
static U ref_crc(U c, const unsigned char* p, size_t n) { c = ~c; for (size_t i = 0; i < n; ++i) { c ^= p[i]; for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return ~c; }
// the register after n zero bytes, by squaring the linear map "one zero byte"
static U ref_zeros(U crc, uint64_t n) { U m[32]; for (int i = 0; i < 32; ++i) { U c = 1u << i; for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; m[i] = c; } auto ap = [](const U* a, U v) { U r = 0; for (int i = 0; i < 32; ++i) if (v >> i & 1) r ^= a[i]; return r; }; U r = ~crc; while (n) { if (n & 1) r = ap(m, r); U s[32]; for (int i = 0; i < 32; ++i) s[i] = ap(m, m[i]); memcpy(m, s, sizeof m); n >>= 1; } return ~r; }
static B bytes(vh::Rng& g, size_t n) { B s(n, 0); int mode = g.range(0, 5); for (auto& c : s) c = mode == 0 ? 0 : mode == 1 ? (char)0xff : (char)g.next(); return s; }
static B reversed(const B& s, size_t size) { B r = s; for (size_t i = 0; i + size <= r.size(); i += size) std::reverse(r.begin() + i, r.begin() + i + size); return r; }
// a heap block of exactly n bytes (for the sanitizer), aligned to a but not to 2a where possible
struct Block { char* raw; char* p; Block(const B& s, size_t al) { if (al == 0) al = 1; raw = new char[s.size() + al]; memset(raw, 0x5a, al); p = raw + al; memcpy(p, s.data(), s.size()); lead = al; } ~Block() { delete[] raw; } size_t lead; bool lead_ok() const { for (size_t i = 0; i < lead; ++i) if (raw[i] != 0x5a) return false; return true; } };
static void swaps(vh::Rng& g) {
  static const size_t sz[] = {1, 2, 4, 8, 16};
  for (size_t size : sz) for (int rep = 0; rep < 6; ++rep) {
    size_t n = rep == 0 ? 0 : rep == 1 ? 1 : rep < 5 ? g.range(0, 300) : g.range(1000, 70000); B s = bytes(g, n * size); Block b(s, rep & 1 ? size : 64); vh::count("swaps"); vh::count("elements_swapped", n);
    QDPUtil::byte_swap(b.p, size, n); if (B(b.p, s.size()) != reversed(s, size)) vh::fail("bytes:swap", "%zu elements of %zu bytes are not reversed each", n, size);
    QDPUtil::byte_swap(b.p, size, n); if (B(b.p, s.size()) != s) vh::fail("bytes:swap-twice", "%zu elements of %zu bytes swapped twice differ", n, size); if (!b.lead_ok()) vh::fail("bytes:outside", "bytes before %zu elements of %zu bytes are changed", n, size);
    // part of a larger buffer: nothing else moves
    if (n > 3) { size_t from = g.range(0, (int)n - 1), cnt = g.range(0, (int)(n - from)); QDPUtil::byte_swap(b.p + from * size, size, cnt); B w = s.substr(0, from * size) + reversed(s.substr(from * size, cnt * size), size) + s.substr((from + cnt) * size); if (B(b.p, s.size()) != w) vh::fail("bytes:swap-part", "%zu of %zu elements of %zu bytes", cnt, n, size); vh::count("partial_swaps"); }
  }
  { static const size_t bad[] = {0, 3, 5, 6, 7, 9, 12, 15, 17, 24, 32}; size_t size = bad[g.range(0, 10)]; B s = bytes(g, 96); std::string out; int st = vh::in_child([&] { B t = s; QDPUtil::byte_swap(&t[0], size, 2); _exit(0); }, &out, 30); vh::count("refusals"); if (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || out.find("nsupported") == B::npos) vh::fail("bytes:unsupported", "elements of %zu bytes are not refused (%x %s)", size, st, out.c_str()); }
}
static void crcs(vh::Rng& g) {
  for (int rep = 0; rep < 30; ++rep) {
    size_t n = rep < 20 ? (size_t)rep : g.range(0, 5000), off = g.range(0, 9); B s = bytes(g, n + off); Block b(s, 1 + off); const unsigned char* p = (const unsigned char*)b.p + off; U start = rep % 3 ? 0 : (U)g.next(), w = ref_crc(start, p, n); vh::count("crcs"); vh::count("bytes_checked", n);
    if (QDPUtil::crc32(start, p, n) != w || QDPUtil::crc32(start, (const char*)p, n) != w) vh::fail("bytes:crc", "of %zu bytes from %08x", n, start);
    // continued in any pieces
    U c = start; size_t at = 0; int pieces = 0; while (at < n) { size_t k = std::min<size_t>(n - at, g.range(0, 1 + (int)(n / g.range(1, 9)))); c = g.coin() ? QDPUtil::crc32(c, p + at, k) : QDPUtil::crc32(c, (const char*)p + at, k); at += k; ++pieces; } vh::count("pieces", pieces); if (c != w) vh::fail("bytes:crc-pieces", "of %zu bytes in %d pieces", n, pieces);
    if (n) { B t = s; t[off + g.range(0, (int)n - 1)] ^= (char)(1 << g.range(0, 7)); if (QDPUtil::crc32(start, t.data() + off, n) == w) vh::fail("bytes:crc-blind", "a changed bit does not change the checksum of %zu bytes", n); vh::count("bit_flips"); }
  }
  if (QDPUtil::crc32(0, "123456789", 9) != 0xcbf43926u || QDPUtil::crc32(0, "", 0) != 0) vh::fail("bytes:crc", "the published check value");
  if (QDPUtil::crc32(77, (const unsigned char*)0, 0) != 0) vh::fail("bytes:crc-null", "no buffer does not give the starting value");
  size_t n = g.range(100000, 3000000); std::vector<char> z(n); U start = (U)g.next(); if (ref_zeros(start, n) != QDPUtil::crc32(start, z.data(), n)) vh::fail("bytes:crc", "of %zu zero bytes", n); vh::count("zero_runs");
}
static void files(vh::Rng& g) {
  static const size_t sz[] = {1, 2, 4, 8, 16}; size_t size = sz[g.range(0, 4)], n = g.range(0, 400); B s = bytes(g, size * n); Block b(s, 16);
  FILE* f = fopen("b.bin", "wb"); size_t r = QDPUtil::bfwrite(b.p, size, n, f); fclose(f); vh::count("files"); if (r != n) vh::fail("bytes:bfwrite", "%zu of %zu written", r, n); if (B(b.p, s.size()) != s) vh::fail("bytes:bfwrite", "writing changes the data"); if (!b.lead_ok()) vh::fail("bytes:outside", "bfwrite");
  B file; f = fopen("b.bin", "rb"); { char buf[8192]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) file.append(buf, k); } if (file != reversed(s, size)) vh::fail("bytes:bfwrite", "%zu elements of %zu bytes are not big-endian in the file", n, size);
  rewind(f); Block c(B(size * n, 'x'), 16); size_t k = 0; while (k < n) { size_t q = g.range(1, (int)(n - k)); size_t t = QDPUtil::bfread(c.p + k * size, size, q, f); if (t != q) { vh::fail("bytes:bfread", "%zu of %zu read", t, q); break; } k += q; } fclose(f); if (B(c.p, s.size()) != s) vh::fail("bytes:bfread", "%zu elements of %zu bytes read back", n, size);
  // a file that ends early: whole elements only, the rest of the buffer is not swapped
  if (n > 1) { size_t have = g.range(0, (int)n - 1), part = g.range(0, (int)size - 1); if (truncate("b.bin", have * size + part)) return; f = fopen("b.bin", "rb"); Block d(B(size * n, 'x'), 16); size_t t = QDPUtil::bfread(d.p, size, n, f); fclose(f); vh::count("short_reads"); if (t != have || B(d.p, have * size) != s.substr(0, have * size)) vh::fail("bytes:bfread-short", "%zu elements of a file of %zu", t, have); if (B(d.p + (have + (part ? 1 : 0)) * size, (n - have - (part ? 1 : 0)) * size) != B((n - have - (part ? 1 : 0)) * size, 'x')) vh::fail("bytes:bfread-short", "changes the buffer behind what it read"); }
  if (n) { f = fopen("/dev/full", "wb"); setvbuf(f, 0, _IONBF, 0); size_t t = QDPUtil::bfwrite(b.p, size, n, f); fclose(f); vh::count("failed_writes"); if (t == n) vh::fail("bytes:bfwrite-full", "writing to a full device succeeds"); if (B(b.p, s.size()) != s) vh::fail("bytes:bfwrite-full", "a failed write changes the data"); }
  U one = 1; unsigned char ch; memcpy(&ch, &one, 1); if (QDPUtil::big_endian() != (ch == 0)) vh::fail("bytes:endian", "big_endian is wrong");
}
#ifndef HAVE_STRNLEN
extern "C" size_t strnlen(const char*, size_t);
#endif
static void strn(vh::Rng& g) {
  long pg = sysconf(_SC_PAGESIZE); char* m = (char*)mmap(0, 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + pg, pg, PROT_NONE);
  for (int k = 0; k < 40; ++k) { size_t n = g.range(0, 80); char* p = m + pg - n; for (size_t i = 0; i < n; ++i) p[i] = (char)g.range(1, 255); size_t z = n; if (n && g.coin()) { z = g.range(0, (int)n - 1); p[z] = 0; } size_t mx = g.range(0, (int)n); size_t w = std::min(z, mx); volatile size_t r = strnlen(p, mx); if (r != w) vh::fail("bytes:strnlen", "%zu want %zu", (size_t)r, w); vh::count("strnlens"); }
  munmap(m, 2 * pg);
}
// more elements and bytes than 32 bits count
static void huge() {
  const size_t chunk = 1u << 30; int fd = memfd_create("alias", 0); if (fd < 0 || ftruncate(fd, chunk + 4096)) return; size_t total = 8 * chunk + 4096; char* a = (char*)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (int i = 0; i < 8; ++i) if (mmap(a + i * chunk, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return; if (mmap(a + 8 * chunk, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, chunk) == MAP_FAILED) return; close(fd);
  // 2^32+3 pairs of bytes; every page is seen eight times, so that it ends as it began, and the last three pairs once
  size_t n = (1ull << 32) + 3; for (int i = 0; i < 4096; ++i) { a[i * 200003ull % chunk] = (char)i; a[8 * chunk + i] = (char)(i * 7); } B first(a, 4096), last(a + 8 * chunk, 4096); std::string out; int st = vh::in_child([&] { alarm(100); QDPUtil::byte_swap(a, 2, n); B f(a, 4096), l(a + 8 * chunk, 4096); int bad = f != first ? 3 : l != reversed(last.substr(0, 6), 2) + last.substr(6) ? 4 : 0; _exit(bad); }, &out, 150); vh::count("huge_swaps"); if (st != 0) vh::fail("bytes:swap-huge", "2^32+3 elements of 2 bytes: %s", WIFEXITED(st) ? "not each swapped once" : "does not end"); munmap(a, total);
  size_t zn = (1ull << 32) + 12345; char* z = (char*)mmap(0, zn, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) return; if (QDPUtil::crc32(5, z, zn) != ref_zeros(5, zn)) vh::fail("bytes:crc-huge", "of 2^32+12345 bytes"); vh::count("huge_crcs"); munmap(z, zn);
}
int main(int argc, char** argv) {
  vh::init(argc, argv);
  if (vh::opt.geti("huge", 0)) { vh::begin(1000000, "more than 2^32 elements"); huge(); }
  for (int k = 0; k < vh::opt.cases; ++k) { if (vh::opt.only >= 0 && k != vh::opt.only) continue; vh::Rng g(vh::mix(vh::opt.seed, k)); vh::begin(k, "buffers %d", k); vh::distinct(std::to_string(vh::opt.seed) + "." + std::to_string(k)); if (k < 3) vh::sample("%s", vh::current().c_str()); swaps(g); crcs(g); files(g); strn(g); if (vh::failures() > 10) break; }
  return vh::finish();
}
