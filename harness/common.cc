#include <csignal>
#include "common.hh"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>

std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }

uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
void Ctx::nontrivial(const std::string& sig) { distinct.insert(hashStr(suite + "|" + sig)); }
void Ctx::fail(const std::string& key, const std::string& detail) {
  if (muted) { count("judged-by-another-property"); return; }
  long n = ++violCount[key];
  if (n <= 3) {
    viols.push_back(Violation{suite, cur, key, detail});
  }
}
static std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
extern "C" const char* __asan_default_options() {
  return "detect_odr_violation=0:malloc_fill_byte=255:max_malloc_fill_size=4194304:"
         "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:"
         "quarantine_size_mb=64:allocator_may_return_null=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=77"; }

// a crashing case must not lose what the monitors saw before it
static std::function<void()> partialDump;
static void onDeath() { if (partialDump) { auto f = partialDump; partialDump = nullptr; f(); } }
static void onAbort(int) { onDeath(); signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
// Can memory be scanned for leaks here?  Tried in a child: it dies if not.
static bool leaksObservable() {
  if (!__lsan_do_recoverable_leak_check) return false;
  pid_t p = fork();
  if (p < 0) return false;
  if (p == 0) { if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(nullptr); __lsan_do_recoverable_leak_check(); _exit(0); }
  int st = 0;
  return waitpid(p, &st, 0) == p && WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

int main(int argc, char** argv) {
  Ctx C;
  std::string after;
  std::string out, progress, only;
  int shard = 0, nsh = 1;
  double budget = 300;
  long onlyCase = -1;
  bool list = false;
  double scale = 1, borrow = 0;
  bool leaks = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") C.prop = nx();
    else if (a == "--seed") C.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--tier") C.thorough = nx() == "thorough";
    else if (a == "--shard") { std::string s = nx(); sscanf(s.c_str(), "%d/%d", &shard, &nsh); }
    else if (a == "--out") out = nx();
    else if (a == "--progress") progress = nx();
    else if (a == "--suite") only = nx();
    else if (a == "--case") { onlyCase = atol(nx().c_str()); C.verbose = true; }
    else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--list") list = true;
    else if (a == "--leaks") leaks = true;
    else if (a == "--borrow") borrow = atof(nx().c_str());
    else if (a == "--after") after = nx();  // SUITE#CASE: resume after this case
  }
  if (list) {
    for (auto& s : suites()) printf("%s %s %ld %ld\n", s.prop.c_str(), s.name.c_str(), s.nQuick, s.nThorough);
    return 0;
  }
  int pfd = progress.empty() ? -1 : open(progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  std::map<std::string, std::pair<long, long>> ran;  // suite -> done, planned
  std::map<std::string, double> times;
  // the workloads of the other properties, run for the monitors of memory errors
  // and undefined behaviour only: what their oracles say is judged elsewhere
  std::vector<Suite> todo;
  for (auto& s : suites()) if (s.prop == C.prop) todo.push_back(s);
  if (borrow > 0) for (auto& s : suites()) if (s.prop != C.prop)
    todo.push_back(Suite{C.prop, "via:" + s.prop + "/" + s.name, s.fn, std::max(1l, (long)std::ceil(s.nQuick * borrow)), std::max(1l, (long)std::ceil(s.nThorough * borrow))});
  long nsu = 0;
  for (auto& s : todo) if (only.empty() || s.name == only) nsu++;
  double perSuite = nsu ? budget / nsu : budget;
  long idx = 0;
  bool truncated = false;
  auto dump = [&]() {
  std::ostringstream o;
  o.precision(12);
  o << "{\"evals\":" << C.evals << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"wall\":" << el() << ",\"suites\":{";
  bool f = true;
  for (auto& kv : ran) { o << (f ? "" : ",") << js(kv.first) << ":[" << kv.second.first << "," << kv.second.second << "," << times[kv.first] << "]"; f = false; }
  o << "},\"counters\":{"; f = true;
  for (auto& kv : C.counters) { o << (f ? "" : ",") << js(kv.first) << ":" << kv.second; f = false; }
  o << "},\"skipped\":{"; f = true;
  for (auto& kv : C.inconclusive) { o << (f ? "" : ",") << js(kv.first) << ":" << kv.second; f = false; }
  o << "},\"violCount\":{"; f = true;
  for (auto& kv : C.violCount) { o << (f ? "" : ",") << js(kv.first) << ":" << kv.second; f = false; }
  o << "},\"samples\":["; f = true;
  for (auto& s : C.samples) { o << (f ? "" : ",") << js(s); f = false; }
  o << "],\"violations\":["; f = true;
  for (auto& v : C.viols) {
    o << (f ? "" : ",") << "{\"suite\":" << js(v.suite) << ",\"case\":" << v.case_ << ",\"key\":" << js(v.key) << ",\"detail\":" << js(v.detail) << "}"; f = false;
  }
  o << "],\"distinct\":["; f = true;
  for (auto d : C.distinct) { o << (f ? "" : ",") << "\"" << std::hex << d << std::dec << "\""; f = false; }
  o << "]}\n";
  if (out.empty()) {
    std::string s = o.str();
    size_t p = s.find("\"distinct\"");
    std::cout << s.substr(0, p) << "\"ndistinct\":" << C.distinct.size() << "}" << std::endl;
  }
  else { std::ofstream of(out); of << o.str(); }
  };
  if (!out.empty()) {
    partialDump = dump;
    signal(SIGABRT, onAbort);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
  }
  if (leaks && !leaksObservable()) { leaks = false; C.skip("memory cannot be scanned for leaks here"); }
  for (auto& s : todo) {
    if (!only.empty() && s.name != only) continue;
    C.suite = s.name;
    C.muted = s.name.compare(0, 4, "via:") == 0;
    long first = -1;
    if (!after.empty()) {
      size_t h = after.find('#');
      if (after.substr(0, h) != s.name) { ++idx; continue; }
      first = atol(after.substr(h + 1).c_str());
      after.clear();
    }
    long n = C.thorough ? s.nThorough : s.nQuick;
    if (n > 1) n = std::max(1l, (long)(n * scale));
    double limit = std::max(perSuite * (idx + 1) - 0.0, perSuite);
    ++idx;
    double ts = el();
    for (long i = 0; i < n; ++i) {
      if (onlyCase >= 0 ? i != onlyCase : (i % nsh) != shard) continue;
      if (i <= first) continue;
      ran[s.name].second++;
      if (onlyCase < 0 && el() > limit) { truncated = true; continue; }
      C.cur = i;
      if (pfd >= 0) {
        char b[256];
        int l = snprintf(b, sizeof b, "%s#%ld%*s", s.name.c_str(), i, 40, "");
        if (pwrite(pfd, b, l, 0) < 0) {}
      }
      Rng R(C.seed * 0x9E3779B97F4A7C15ull ^ hashStr(C.prop + "/" + s.name) ^ ((uint64_t)i * 0xD1B54A32D192ED03ull + 77));
      srand((unsigned)R.g());
      try {
        s.fn(C, R);
      } catch (const std::exception& e) {
        C.fail(s.name + "/unexpected-exception", std::string("uncaught ") + e.what());
      }
      ran[s.name].first++;
    }
    if (leaks && ran[s.name].first) {
      C.muted = false;
      bool l = __lsan_do_recoverable_leak_check() != 0;
      C.count("leak-scans");
      if (l) {
        C.fail("leak/" + s.name, "memory allocated during this suite, or before it, can no longer be reached: see the sanitizer's report");
        leaks = false;  // everything later would report it again
      }
    }
    times[s.name] = el() - ts;
  }
  dump();
  partialDump = nullptr;
  if (pfd >= 0) close(pfd);
  std::cout.flush();
  return 0;
}
