// C25: concurrent evaluations of shared functions on one robot with one set of
// computation data per thread.  Built with ThreadSanitizer; values and Jacobians
// are also compared with sequential ones.
#include "gen2.hh"
#include "problem.hh"
#include <atomic>
#include <thread>

static std::string key(const std::string& k) { return k.substr(0, k.find_first_of("/({:")); }

struct Job { size_t f, q; int what; };
struct Bad { std::string key, detail; };

static void parallelCase(Ctx& C, Rng& R, std::vector<int> kinds) {
  int kind = kinds[C.cur % kinds.size()];
  Robot r = robotFor(R, kind);
  int T = R.range(2, 6);
  std::vector<AnyFn> fs;
  fs.push_back(anyFn(R, r, kind));
  int nf = R.range(1, 3);
  while ((int)fs.size() < nf) {
    int k = R.pick(kinds);
    if (anyNeedsGeometry(k) && !anyNeedsGeometry(kind)) continue;
    fs.push_back(anyFn(R, r, k));
  }
  // only the functions designed for concurrent evaluation
  for (auto& f : fs) if (!f.robotInput && f.in->nq() != r.nq()) { C.count("other-input"); return; }
  std::string desc = r.desc;
  for (auto& f : fs) desc += " " + f.kind;
  C.note(desc);
  size_t nq = R.range(2, 6);
  std::vector<std::vector<vector_t>> qs(fs.size()), vals(fs.size());
  std::vector<std::vector<matrix_t>> jacs(fs.size());
  std::vector<std::vector<char>> jok(fs.size());
  for (size_t f = 0; f < fs.size(); ++f)
    for (size_t i = 0; i < nq; ++i) {
      vector_t q = fs[f].rnd(R);
      bool ok = fs[f].smooth(q);
      for (int t = 0; t < 8 && !ok; ++t) { q = fs[f].rnd(R); ok = fs[f].smooth(q); }
      qs[f].push_back(q);
      vals[f].push_back((*fs[f].f)(q).vector());
      jok[f].push_back(ok);
      jacs[f].push_back(ok ? jac(fs[f].f, q) : matrix_t());
    }
  r.d->numberDeviceData(T);
  std::vector<std::vector<Job>> plan(T);
  int per = R.range(8, 40);
  bool same = R.coin(.4);  // the same sequence in all threads, or different ones
  for (int t = 0; t < T; ++t) {
    if (same && t) { plan[t] = plan[0]; continue; }
    for (int i = 0; i < per; ++i) plan[t].push_back(Job{(size_t)R.ri((int)fs.size()), (size_t)R.ri((int)nq), R.ri(3)});
  }
  std::vector<uint64_t> seeds;
  for (int t = 0; t < T; ++t) seeds.push_back(R.next());
  std::vector<std::vector<Bad>> bad(T);
  std::vector<std::vector<std::pair<long, int>>> trace(T);
  std::atomic<int> ready(0);
  std::atomic<long> clock(0);
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
    Rng L(seeds[t]);
    ready++;
    while (ready < T) std::this_thread::yield();
    for (auto& j : plan[t]) {
      const AnyFn& a = fs[j.f];
      // relaxed: the trace must not order the threads
      trace[t].push_back({clock.fetch_add(1, std::memory_order_relaxed), t});
      try {
        if (j.what == 0 || !jok[j.f][j.q]) {
          LiegroupElement y(a.f->outputSpace());
          a.f->value(y, qs[j.f][j.q]);
          const vector_t& w = vals[j.f][j.q];
          if (w.size() && !(maxAbs(y.vector() - w) <= 1e-9 * (1 + maxAbs(w))))
            bad[t].push_back({"concurrent-value-differs/" + key(a.kind), Str() << a.kind << " q=" << vs(qs[j.f][j.q]) << " sequential=" << vs(w) << " concurrent=" << vs(y.vector())});
        } else {
          matrix_t J(a.f->outputDerivativeSize(), a.f->inputDerivativeSize());
          J.setConstant(std::numeric_limits<double>::quiet_NaN());
          a.f->jacobian(J, qs[j.f][j.q]);
          const matrix_t& W = jacs[j.f][j.q];
          if (J.size() && !(maxAbs(J - W) <= 1e-7 * (1 + maxAbs(W))))
            bad[t].push_back({"concurrent-jacobian-differs/" + key(a.kind), Str() << a.kind << " q=" << vs(qs[j.f][j.q]) << "\n sequential=" << show(W) << "\n concurrent=" << show(J)});
        }
      } catch (const std::exception& e) {
        bad[t].push_back({"concurrent-exception/" + key(a.kind), e.what()});
      }
      int d = L.ri(6);
      if (d == 0) std::this_thread::yield();
      else if (d == 1) for (volatile int k = 0; k < 400; k = k + 1) {}
    }
  });
  for (auto& x : th) x.join();
  std::vector<std::pair<long, int>> all;
  long n = 0;
  for (int t = 0; t < T; ++t) {
    n += plan[t].size();
    all.insert(all.end(), trace[t].begin(), trace[t].end());
    for (auto& b : bad[t]) C.fail(b.key, desc + " " + b.detail);
  }
  C.ev(n);
  std::sort(all.begin(), all.end());
  std::string il; long sw = 0;
  for (size_t i = 0; i < all.size(); ++i) { il += (char)('a' + all[i].second); sw += i && all[i].second != all[i - 1].second; }
  C.count("evaluations", n);
  C.count("switches-between-threads", sw);
  C.count("threads", T);
  for (auto& f : fs) C.count(key(f.kind));
  if (sw > T) C.nontrivial(desc + il);   // distinct interleavings of the evaluations
  C.sample(desc.substr(0, 120) + " interleaving " + il.substr(0, 60));
}
SUITE("C25", "transformations", 480, 12000) {
  std::vector<int> k;
  for (int i = 0; i < nKinFn(); ++i) k.push_back(i);
  parallelCase(C, R, k);
}
SUITE("C25", "contacts", 400, 9000) { parallelCase(C, R, {ANY_CONTACT, ANY_COMPLEMENT, ANY_HOLD, 5, 7, 2, 10}); }
