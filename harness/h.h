// Common part of the harnesses: named sections, each run in a process of its own by lib/check.py.
//   exe --list            names of the sections
//   exe NAME SEED TIER    runs one section
// Output protocol (stdout, one record per line, tab separated):
//   V key message    a violation          C name n    a counter
//   S text           a sample case        D n         distinct non-trivial cases
//   END              the section came to its end
#ifndef VERIF_H_H
#define VERIF_H_H
#include <signal.h>
#include <unistd.h>

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace h {
using Rng = std::mt19937_64;
struct Section {
  const char *name;
  void (*f)(Rng &);
};
inline std::vector<Section> &sections() {
  static std::vector<Section> s;
  return s;
}
struct Reg {
  Reg(const char *n, void (*f)(Rng &)) { sections().push_back({n, f}); }
};
inline char current[1024] = "";
inline uint64_t seed = 1;
inline bool thorough = false;
inline std::map<std::string, long long> counters;
inline std::unordered_set<uint64_t> distinct_set;
inline std::map<std::string, int> reported;
inline int samples = 0;

/// n in the quick tier, n * factor in the thorough one
inline int tier(int n, int factor = 10) { return thorough ? n * factor : n; }

inline void at(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(current, sizeof current, fmt, ap);
  va_end(ap);
}
inline void clean(std::string &s) {
  for (char &c : s)
    if (c == '\n' || c == '\t' || c == '\r') c = ' ';
}
inline void fail(const std::string &key, const char *fmt, ...) {
  counters["violations"]++;
  if (++reported[key] > 5) return;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  std::string k = key, m = buf;
  if (current[0]) m += std::string(" [case: ") + current + "]";
  clean(k);
  clean(m);
  printf("V\t%s\t%s\n", k.c_str(), m.c_str());
  fflush(stdout);
}
inline void count(const char *name, long long n = 1) { counters[name] += n; }
inline void sample(const char *fmt, ...) {
  if (samples++ >= 3) return;
  char buf[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  std::string m = buf;
  clean(m);
  printf("S\t%s\n", m.c_str());
}
/// one evaluated case; what makes it distinct is summarised by the text
inline void evaluated(const std::string &what) {
  counters["evaluations"]++;
  distinct_set.insert(std::hash<std::string>{}(what));
}
inline void evaluated(uint64_t what) {
  counters["evaluations"]++;
  distinct_set.insert(what);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2);
  return a;
}

// helpers for generators
inline double uni(Rng &r, double a, double b) { return a + (b - a) * (double(r() >> 11) * 0x1p-53); }
inline int below(Rng &r, int n) { return int(r() % uint64_t(n)); }
inline int range(Rng &r, int a, int b) { return a + below(r, b - a + 1); }
inline bool chance(Rng &r, double p) { return uni(r, 0, 1) < p; }
template <class C>
inline auto &pick(Rng &r, C &c) {
  return c[size_t(below(r, int(c.size())))];
}
inline bool close(double a, double b, double rel, double abs = 0) {
  if (!(std::isfinite(a) && std::isfinite(b))) return a == b;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

inline void on_signal(int s) {
  char buf[1200];
  int n = snprintf(buf, sizeof buf, "\nV\tcrash\tsignal %d at: %s\n", s, current);
  if (write(1, buf, size_t(n)) < 0) {
  }
  signal(s, SIG_DFL);
  raise(s);
}

inline int run(int argc, char **argv) {
  if (argc >= 2 && std::string(argv[1]) == "--list") {
    for (auto &s : sections()) printf("%s\n", s.name);
    return 0;
  }
  if (argc < 4) return 3;
  seed = strtoull(argv[2], nullptr, 10);
  thorough = std::string(argv[3]) == "thorough";
  for (auto &s : sections()) {
    if (std::string(s.name) != argv[1]) continue;
    uint64_t x = 1469598103934665603ULL;
    for (const char *c = s.name; *c; c++) x = (x ^ uint64_t(*c)) * 1099511628211ULL;
    Rng rng(mix(x, seed));
#ifndef __SANITIZE_ADDRESS__
    signal(SIGSEGV, on_signal);
    signal(SIGFPE, on_signal);
#endif
    signal(SIGABRT, on_signal);
    try {
      s.f(rng);
    } catch (std::exception &e) {
      fail("exception", "unexpected exception: %s", e.what());
    }
    for (auto &c : counters) printf("C\t%s\t%lld\n", c.first.c_str(), c.second);
    printf("D\t%zu\n", distinct_set.size());
    printf("END\n");
    fflush(stdout);
    _exit(0);
  }
  return 3;
}
}  // namespace h

#define SECTION(name)                     \
  static void sec_##name(h::Rng &rng);    \
  static h::Reg reg_##name(#name, sec_##name); \
  static void sec_##name([[maybe_unused]] h::Rng &rng)
#define HARNESS_MAIN \
  int main(int argc, char **argv) { return h::run(argc, argv); }
#endif
