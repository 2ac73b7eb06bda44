#include "vh.h"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <time.h>

namespace vh {
Opts opt;
static FILE* f = nullptr;
static std::string cur = "(start)";
static int curk = -1;
static std::map<std::string, uint64_t> counts;
static std::set<uint64_t> dist;
static std::vector<std::string> samples;
static uint64_t nfail = 0;
static std::map<std::string, int> failkeys;

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
int Opts::geti(const char* k, int d) const { auto i = kv.find(k); return i == kv.end() ? d : atoi(i->second.c_str()); }
std::string Opts::gets(const char* k, const std::string& d) const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }

uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x2545F4914F6CDD1DULL ^ (b + 0x51ED270B)); r.next(); return r.next(); }
uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
std::string join(const std::vector<int>& v, const char* sep) { std::string o; for (size_t i = 0; i < v.size(); ++i) { if (i) o += sep; o += std::to_string(v[i]); } return o; }

void init(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--")) continue;
    size_t e = a.find('=');
    std::string k = a.substr(2, e == std::string::npos ? std::string::npos : e - 2), v;
    if (e != std::string::npos) v = a.substr(e + 1);
    if (k == "seed") opt.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "cases") opt.cases = atoi(v.c_str());
    else if (k == "only") opt.only = atoi(v.c_str());
    else if (k == "thorough") opt.thorough = true;
    else if (k == "out") opt.out = v;
    else if (k == "dir") opt.dir = v;
    else if (k == "latt") { opt.latt.clear(); const char* p = v.c_str(); while (*p) { opt.latt.push_back(strtol(p, (char**)&p, 10)); if (*p) ++p; } }
    else opt.kv[k] = v;
  }
  f = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
  if (!f) { perror("out"); _exit(3); }
}
void reopen(const std::string& suffix) {
  if (opt.out.empty()) return;
  opt.out += suffix;
  f = fopen(opt.out.c_str(), "w");
  if (!f) { perror("out"); _exit(3); }
}
void begin(int k, const char* fmt, ...) {
  char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  cur = b; curk = k;
  fprintf(f, "{\"begin\":%d,\"d\":\"%s\"}\n", k, esc(cur).c_str()); fflush(f);
}
const std::string& current() { return cur; }
void count(const char* w, uint64_t n) { counts[w] += n; }
void distinct(const std::string& d) { if (dist.size() < 200000) dist.insert(hash(d)); }
void sample(const char* fmt, ...) {
  if (samples.size() >= 4) return;
  char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  samples.push_back(b);
}
void fail(const char* key, const char* fmt, ...) {
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  ++nfail;
  if (failkeys[key]++ >= 3) return;
  fprintf(f, "{\"viol\":\"%s\",\"case\":%d,\"d\":\"%s\",\"in\":\"%s\"}\n", esc(key).c_str(), curk, esc(b).c_str(), esc(cur).c_str());
  fflush(f);
}
uint64_t failures() { return nfail; }
int finish() {
  fprintf(f, "{\"counts\":{");
  bool first = true;
  for (auto& c : counts) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(f, "}}\n{\"distinct\":[");
  first = true;
  for (auto d : dist) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)d); first = false; }
  fprintf(f, "]}\n");
  for (auto& s : samples) fprintf(f, "{\"sample\":\"%s\"}\n", esc(s).c_str());
  fprintf(f, "{\"end\":%llu}\n", (unsigned long long)nfail);
  fflush(f);
  return nfail ? 1 : 0;
}

int in_child_impl(void (*fn)(void*), void* arg, std::string* text, int timeout_s) {
  int p[2];
  if (pipe(p)) { perror("pipe"); _exit(3); }
  fflush(f); fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    close(p[0]);
    dup2(p[1], 1); dup2(p[1], 2);
    close(p[1]);
    fn(arg);
    fflush(stdout); fflush(stderr);
    _exit(0);
  }
  close(p[1]);
  std::string t; char buf[4096];
  time_t t0 = time(0);
  bool killed = false;
  for (;;) {
    struct pollfd pf = {p[0], POLLIN, 0};
    int r = poll(&pf, 1, 500);
    if (r > 0) {
      ssize_t n = read(p[0], buf, sizeof buf);
      if (n <= 0) break;
      if (t.size() < 200000) t.append(buf, n);
    }
    if (!killed && time(0) - t0 > timeout_s) { kill(pid, SIGKILL); killed = true; }
  }
  close(p[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (text) *text = t;
  if (killed) return -1;
  return st;
}
} // namespace vh
