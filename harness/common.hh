// Infrastructure shared by the harness programs: seeded cases, observation
// counters, verdict recording.  Nothing here depends on the library under test.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
#include <cstdio>
#include <memory>

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  // one draw of the sequence may be replaced (generation of near misses)
  long drawn = 0, mutateAt = -1;
  uint64_t next() {
    uint64_t v = g();
    return ++drawn == mutateAt ? v * 6364136223846793005ULL + 1442695040888963407ULL : v;
  }
  double uni(double a = -1, double b = 1) {
    return a + (b - a) * (double)(next() >> 11) * (1.0 / 9007199254740992.0);
  }
  double gauss() {
    double u = uni(1e-12, 1), v = uni(0, 1);
    return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
  }
  int ri(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + ri(b - a + 1); }  // inclusive
  bool coin(double p = 0.5) { return uni(0, 1) < p; }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[ri((int)v.size())]; }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[ri((int)i)]);
  }
};

struct Violation { std::string suite; long case_; std::string key, detail; };

struct Ctx {
  std::string prop, suite;
  uint64_t seed = 1;
  bool thorough = false;
  long cur = 0;
  long evals = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, long> counters;
  std::vector<std::string> samples;
  std::vector<Violation> viols;
  std::map<std::string, long> violCount;
  std::map<std::string, long> inconclusive;
  // one observation judged by an oracle
  void ev(long n = 1) { evals += n; }
  void count(const std::string& k, long n = 1) { counters[k] += n; }
  // declare the current case non trivial, with its distinguishing signature
  void nontrivial(const std::string& sig);
  void sample(const std::string& s, size_t max = 6) { if (samples.size() < max) samples.push_back(suite + "#" + std::to_string(cur) + ": " + s); }
  void fail(const std::string& key, const std::string& detail);
  bool verbose = false;
  bool muted = false;  // verdicts belong to another property
  // what is about to be executed (printed on replay, so that crashes can be attributed)
  void note(const std::string& s) { if (verbose) fprintf(stderr, "note: %s\n", s.c_str()); }
  void skip(const std::string& why) { inconclusive[why]++; }
  // assert helper
  template <class F>
  bool check(bool ok, const std::string& key, F d) {
    ev();
    if (!ok) fail(key, std::string(d()));
    return ok;
  }
};

typedef std::function<void(Ctx&, Rng&)> CaseFn;
struct Suite { std::string prop, name; CaseFn fn; long nQuick, nThorough; };
std::vector<Suite>& suites();
struct Reg {
  Reg(const char* prop, const char* name, CaseFn fn, long nq, long nt) {
    suites().push_back(Suite{prop, name, fn, nq, nt});
  }
};
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define SUITE(prop, name, nq, nt)                                  \
  static void CAT(suite_, __LINE__)(Ctx & C, Rng & R);             \
  static Reg CAT(reg_, __LINE__)(prop, name, CAT(suite_, __LINE__), nq, nt); \
  static void CAT(suite_, __LINE__)(Ctx & C, Rng & R)

uint64_t hashStr(const std::string& s);

struct Str {
  std::ostringstream o;
  Str() { o.precision(17); }
  Str(const Str& s) { o.precision(17); o << s.o.str(); }
  template <class T>
  Str& operator<<(const T& t) { o << t; return *this; }
  operator std::string() const { return o.str(); }
};
