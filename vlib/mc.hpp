// Driver-side support for the C++ harnesses: sharded exhaustive enumeration, counters,
// crash/hang attribution, violations.  See run.py for the protocol.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

inline std::string fmt(const char* f, ...) {
  char buf[4000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
    else o += char(c);
  }
  return o;
}

struct Violation { std::string part, where, msg; };

class MC {
public:
  std::string tier, out, scratch;
  int shard = 0, nshard = 1;
  uint64_t states = 0, transitions = 0, traces = 0, idx = 0;
  std::map<std::string, uint64_t> extra;
  std::vector<std::string> samples;
  std::vector<Violation> viol;
  std::unordered_set<uint64_t> seen;
  std::set<uint64_t> outcomes;
  std::string part;

  static MC*& self() { static MC* p = nullptr; return p; }
  static char*& cur() { static char* p = nullptr; return p; }
  static volatile uint64_t& tick() { static volatile uint64_t t = 0; return t; }
  int hang_ticks = 6;   // x 5 CPU seconds

  MC(int argc, char** argv) {
    self() = this;
    tier = "quick";
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--tier") tier = v;
      else if (a == "--shard") sscanf(v.c_str(), "%d/%d", &shard, &nshard);
      else if (a == "--out") out = v;
      else if (a == "--scratch") scratch = v;
    }
    if (out.empty()) out = "/dev/stdout";
    if (out != "/dev/stdout") {
      int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (ftruncate(fd, 8192) != 0) abort();
      cur() = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      close(fd);
    } else cur() = (char*)calloc(1, 8192);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = &MC::on_prof;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it = {{5, 0}, {5, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
  }

  static void on_prof(int) {
    static uint64_t last = ~0ull;
    static int same = 0;
    if (tick() == last) {
      if (++same >= self()->hang_ticks) {
        char* c = cur();
        size_t n = strlen(c);
        const char m[] = "  [HANG: no progress within the CPU-time horizon]";
        if (n + sizeof m < 8190) memcpy(c + n, m, sizeof m);
        _exit(98);
      }
    } else { same = 0; last = tick(); }
  }

  bool thorough() const { return tier == "thorough"; }

  /// Is the next case mine?  Call once per case of the enumeration; sharding is by case index.
  bool next() { return int(idx++ % nshard) == shard; }

  /// Starts a case (a trace): the text identifies it completely.
  void begin(const char* f, ...) {
    char* c = cur();
    int n = snprintf(c, 4000, "%s: ", part.c_str());
    va_list ap;
    va_start(ap, f);
    vsnprintf(c + n, 4000, f, ap);
    va_end(ap);
    tick() = tick() + 1;
    traces++;
    if (samples.size() < 12 && (traces & (traces - 1)) == 0) samples.push_back(c);
  }
  void begins(const std::string& s) { begin("%s", s.c_str()); }

  /// Appends to the current case's description (e.g. the operation just applied).
  void note(const char* f, ...) {
    char* c = cur();
    size_t n = strlen(c);
    if (n > 6000) return;
    va_list ap;
    va_start(ap, f);
    vsnprintf(c + n, 1900, f, ap);
    va_end(ap);
  }

  void step(uint64_t n = 1) { transitions += n; }
  void state() { states++; }
  bool state(uint64_t h) { return seen.insert(h).second; }
  void outcome(uint64_t h) { if (outcomes.size() < 2000000) outcomes.insert(h); }

  void fail(const std::string& msg) {
    for (auto& v : viol) if (v.where == cur()) return;
    viol.push_back({part, cur(), msg});
    if (viol.size() >= size_t(getenv("MC_MAXV") ? atoi(getenv("MC_MAXV")) : 5)) finish();
  }
  bool check(bool ok, const char* f, ...) {
    if (ok) return true;
    char buf[3000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    fail(buf);
    return false;
  }
  bool near(double a, double b, double tol, const char* what) {
    bool ok = (a == b) || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    if (!ok) fail(fmt("%s: implementation %.17g, model %.17g", what, a, b));
    return ok;
  }

  [[noreturn]] void finish() {
    if (out != "/dev/stdout") {
      std::ofstream s(out + ".st", std::ios::binary);
      for (uint64_t h : seen) s.write((const char*)&h, 8);
    }
    std::ofstream f(out);
    f << "{\"states\": " << states << ", \"transitions\": " << transitions << ", \"traces\": " << traces
      << ", \"outcomes\": " << outcomes.size() << ", \"cases_total\": " << idx << ", \"extra\": {";
    bool first = true;
    for (auto& e : extra) { f << (first ? "" : ", ") << '"' << esc(e.first) << "\": " << e.second; first = false; }
    f << "}, \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) f << (i ? ", " : "") << '"' << esc(samples[i]) << '"';
    f << "], \"violations\": [";
    for (size_t i = 0; i < viol.size(); i++)
      f << (i ? ", " : "") << "{\"case\": \"" << esc(viol[i].where) << "\", \"msg\": \"" << esc(viol[i].msg) << "\"}";
    f << "]}\n";
    f.close();
    fflush(nullptr);
    _exit(viol.empty() ? 0 : 1);
  }
};

inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline uint64_t hstr(const std::string& s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

/// Calls f(ops) for every sequence over {0..k-1} of length exactly n.
template <class F> void sequences(int k, int n, F f) {
  std::vector<int> s(n, 0);
  for (;;) {
    f(s);
    int p = n - 1;
    while (p >= 0 && ++s[p] == k) s[p--] = 0;
    if (p < 0) return;
  }
}

} // namespace mc
