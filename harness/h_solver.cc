// C01 soundness of success, C02 verdicts, C03 frame conditions, C04 right-hand
// sides, C05 termination / convergence / priorities, C06 projection on kernel,
// C07 copies and merges, C10 reduced Jacobians.
#include "problem.hh"
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>

template <class S> static HierIt::Status runLS(const S& s, vector_t& q, int ls) {
  switch (ls) {
    case 0: return s.template solve<solver::lineSearch::Constant>(q);
    case 1: return s.template solve<solver::lineSearch::Backtracking>(q);
    case 2: return s.template solve<solver::lineSearch::FixedSequence>(q);
    case 3: return s.template solve<solver::lineSearch::ErrorNormBased>(q);
    default: return s.solve(q);
  }
}
static HierIt::Status runOpt(const BySub& s, vector_t& q, int ls) {
  switch (ls) {
    case 0: return s.solve<solver::lineSearch::Constant>(q, true);
    case 1: return s.solve<solver::lineSearch::Backtracking>(q, true);
    case 2: return s.solve<solver::lineSearch::FixedSequence>(q, true);
    default: return s.solve<solver::lineSearch::ErrorNormBased>(q, true);
  }
}
static const char* lsName(int i) { const char* n[] = {"Constant", "Backtracking", "FixedSequence", "ErrorNormBased", "default"}; return n[i]; }

// near: start close to a configuration defining the right hand sides
static vector_t perturb(Rng& R, const LiegroupSpacePtr_t& s, const vector_t& q, double amp) { return integrate(s, q, randomVec(R, s->nv(), amp)); }
static vector_t clampQ(const DevicePtr_t& d, vector_t q) {
  const auto& m = d->model();
  for (size_t j = 1; j < (size_t)m.njoints; ++j) {
    std::string n = m.joints[j].shortname();
    int iq = m.joints[j].idx_q(), nq = m.joints[j].nq(), t = nq;
    if (n == "JointModelFreeFlyer") t = 3; else if (n == "JointModelPlanar") t = 2; else if (n == "JointModelSpherical" || (nq == 2 && m.joints[j].nv() == 1)) t = 0;
    for (int i = iq; i < iq + t; ++i) q[i] = std::min(std::max(q[i], m.lowerPositionLimit[i]), m.upperPositionLimit[i]);
  }
  for (size_type i = 0; i < d->extraConfigSpace().dimension(); ++i)
    q[m.nq + i] = std::min(std::max(q[m.nq + i], d->extraConfigSpace().lower(i)), d->extraConfigSpace().upper(i));
  return q;
}

// set right-hand sides from q (solver and model)
template <class S> static void rhsFrom(S& s, Problem& p, const vector_t& q) {
  s.rightHandSideFromConfig(q);
  for (auto& c : p.cons) c.rhs = c.rhsFrom(q);
}

static bool optionalLevel(const HierIt& s, const Problem& p, const Con& c) {
  return p.lastOptional && !c.isExplicit && c.level + 1 == s.numberStacks();
}
static double modelError(const HierIt& s, const Problem& p, const vector_t& q, bool skipOptional, std::string* who = 0) {
  double m = 0;
  for (auto& c : p.cons) {
    if (skipOptional && optionalLevel(s, p, c)) continue;
    double e = c.error(q, p.ineqThr).norm();
    if (!(e <= m)) { m = e; if (who) *who = Str() << c.kind << " error " << e; }
  }
  return m;
}

template <class S> static void judgeSuccess(Ctx& C, const S& s, const Problem& p, const vector_t& q0, const vector_t& q, const std::string& how, const std::string& K) {
  C.check(inSpace(p.space, q, 1e-4), K + "/not-a-configuration", [&] { return Str() << how << " " << p.desc() << " q0=" << vs(q0) << " q=" << vs(q); });
  std::string who;
  double e = modelError(s, p, q, true, &who);
  C.check(e <= p.thr * (1 + 1e-6) + 1e-9, K + "/violated", [&] { return Str() << how << " success but " << who << "; " << p.desc() << " q0=" << vs(q0) << " q=" << vs(q); });
  for (auto& c : p.cons) if (c.isExplicit) {
    vector_t d = difference(c.outSpace, c.out(q), c.prescribed(q, c.rhs));
    C.check(maxAbs(d) <= 1e-6, K + "/explicit-output", [&] { return Str() << how << " " << c.kind << " off by " << maxAbs(d) << " " << p.desc() << " q0=" << vs(q0) << " q=" << vs(q); });
  }
}

template <class S> static void solveCase(Ctx& C, Rng& R, const char* nm) {
  ProblemOpts o;
  o.con.onlyEquality = R.coin(.5);
  Problem p = randomProblem(R, o);
  C.note(p.desc());
  S s(p.space);
  build(s, p);
  vector_t qs = randomConfig(R, p.r.d);
  if (R.coin(.8)) rhsFrom(s, p, qs);
  for (int t = 0; t < 3; ++t) {
    vector_t q0 = R.coin(.6) ? perturb(R, p.space, qs, std::pow(10., R.uni(-4, -.3))) : randomConfig(R, p.r.d);
    vector_t q = q0;
    int ls = R.ri(5);
    HierIt::Status st = runLS(s, q, ls);
    std::string how = Str() << nm << " " << lsName(ls);
    C.count(std::string("status-") + statusName(st));
    C.check(st == HierIt::SUCCESS || st == HierIt::INFEASIBLE || st == HierIt::MAX_ITERATION_REACHED || st == HierIt::ERROR_INCREASED, "solve/undefined-status", [&] { return Str() << how << " " << (int)st; });
    C.check(inSpace(p.space, q, 1e-4) , "solve/result-not-a-configuration", [&] { return Str() << how << " " << p.desc() << " q0=" << vs(q0) << " q=" << vs(q); });
    if (st == HierIt::SUCCESS) {
      judgeSuccess(C, s, p, q0, q, how, "solve");
      C.check(s.isSatisfied(q), "solve/success-not-satisfied", [&] { return Str() << how << " " << p.desc() << " q0=" << vs(q0) << " q=" << vs(q); });
      if (maxAbs(q - q0) > 1e-9) C.nontrivial(Str() << how << p.desc() << vs(q0));
      C.sample(how + " " + p.desc().substr(0, 160));
    }
  }
}
SUITE("C01", "by-substitution", 1600, 40000) { solveCase<BySub>(C, R, "BySubstitution"); }
SUITE("C01", "hierarchical", 600, 15000) { solveCase<HierIt>(C, R, "HierarchicalIterative"); }

// optimisation of the last level keeps the other levels satisfied
SUITE("C01", "optimise", 300, 6000) {
  ProblemOpts o;
  o.con.onlyEquality = true; o.levels = 2; o.maxImplicit = 3;
  Problem p = randomProblem(R, o);
  BySub s(p.space);
  // at least two levels
  if (p.cons.empty()) return;
  build(s, p);
  if (s.numberStacks() < 2) return;
  p.lastOptional = true; s.lastIsOptional(true);
  vector_t qs = randomConfig(R, p.r.d);
  rhsFrom(s, p, qs);
  // the last level asks for something else
  vector_t q2 = randomConfig(R, p.r.d);
  for (auto& c : p.cons) if (optionalLevel(s, p, c)) { s.rightHandSideFromConfig(c.c, q2); c.rhs = c.rhsFrom(q2); }
  vector_t q0 = R.coin(.6) ? qs : perturb(R, p.space, qs, .01), q = q0;
  q0 = explicitResolve(p, q0);
  q = q0;
  bool ok0 = modelError(s, p, q0, true) < .45 * p.thr;
  HierIt::Status st = runOpt(s, q, R.ri(4));
  C.count(std::string("opt-status-") + statusName(st));
  C.check(inSpace(p.space, q, 1e-4), "optimise/not-a-configuration", [&] { return Str() << p.desc() << vs(q0); });
  if (st == HierIt::SUCCESS) judgeSuccess(C, s, p, q0, q, "optimise", "optimise");
  if (ok0) {
    // the start satisfied the constraints: the visited configuration kept must too, with no higher cost
    std::string who;
    double e = modelError(s, p, q, true, &who);
    C.check(e <= p.thr * (1 + 1e-6) + 1e-9, "optimise/lost-constraints", [&] { return Str() << who << " " << p.desc() << " q0=" << vs(q0); });
    auto cost = [&](const vector_t& x) { double m = 0; for (auto& c : p.cons) if (optionalLevel(s, p, c)) m += c.error(x, p.ineqThr).squaredNorm(); return m; };
    C.check(cost(q) <= cost(q0) * (1 + 1e-9) + 1e-12, "optimise/cost-increased", [&] { return Str() << cost(q0) << " -> " << cost(q) << " " << p.desc() << " q0=" << vs(q0); });
    if (cost(q) < .99 * cost(q0)) C.nontrivial(p.desc() + vs(q0));
  }
}

// functions that cannot be evaluated to a number
struct NanFn : public DifferentiableFunction {
  DifferentiableFunctionPtr_t f; int i; vector_t n; double level, bad; bool jac;
  NanFn(const DifferentiableFunctionPtr_t& g, int k, const vector_t& v, double l, double b, bool j)
      : DifferentiableFunction(g->inputSize(), g->inputDerivativeSize(), g->outputSpace(), "nan"), f(g), i(k), n(v), level(l), bad(b), jac(j) {}
  bool out(vectorIn_t x) const { return n.dot(x) > level; }
  void impl_compute(LiegroupElementRef r, vectorIn_t x) const { f->value(r, x); if (out(x)) r.vector()[i] = bad; }
  void impl_jacobian(matrixOut_t J, vectorIn_t x) const { f->jacobian(J, x); if (jac && out(x)) J.row(i).setConstant(bad); }
  bool isEqual(const DifferentiableFunction& o) const { return this == &o; }
};
SUITE("C01", "not-a-number", 400, 6000) {
  size_type n = R.range(2, 5), m = R.range(1, (int)n);
  LiegroupSpacePtr_t sp = LiegroupSpace::Rn(n);
  DifferentiableFunctionPtr_t f = smoothFn(R, n, m, "f", 1, .3);
  vector_t dir = randomVec(R, n);
  double lev = R.uni(-1, .5);
  double bad = R.coin() ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
  int row = R.ri((int)m);
  DifferentiableFunctionPtr_t g(new NanFn(f, row, dir, lev, bad, R.coin()));
  ComparisonTypes_t comp(m, R.coin() ? Equality : EqualToZero);
  if (R.coin(.3)) comp[row] = R.coin() ? Superior : Inferior;
  ImplicitPtr_t c = Implicit::create(g, comp);
  bool opt = R.coin(.2);
  BySub s(sp); HierIt h(sp);
  s.errorThreshold(1e-4); s.maxIterations(20); h.errorThreshold(1e-4); h.maxIterations(20);
  if (R.coin(.4)) { ImplicitPtr_t c2 = Implicit::create(smoothFn(R, n, 1, "g"), ComparisonTypes_t(1, EqualToZero)); s.add(c2, 0); h.add(c2, 0); }
  s.add(c, opt ? 1 : 0); h.add(c, opt ? 1 : 0);
  for (int t = 0; t < 3; ++t) {
    vector_t q0 = randomVec(R, n, 2);
    int ls = R.ri(4);
    for (int w = 0; w < 2; ++w) {
      vector_t q = q0;
      HierIt::Status st = w ? runLS(h, q, ls) : runLS(s, q, ls);
      bool fin = q.allFinite();
      bool outside = fin && dir.dot(q) > lev;
      C.count(std::string("nan-status-") + statusName(st));
      std::string d = Str() << (w ? "hierarchical " : "by-substitution ") << lsName(ls) << " bad=" << bad << " q0=" << vs(q0) << " q=" << vs(q) << " status " << statusName(st);
      // +inf satisfies "greater than"
      if (st == HierIt::SUCCESS && !(comp[row] == Superior && bad > 1e300)) C.check(fin && !outside, "nan/success", [&] { return d; });
      else C.ev();
      // verdicts
      if (dir.dot(q0) > lev && !(comp[row] == Superior && bad > 1e300)) {
        bool sat = w ? h.isSatisfied(q0) : s.isSatisfied(q0);
        C.check(!sat, "nan/satisfied", [&] { return d; });
        C.nontrivial(d);
      }
    }
  }
}

// --------------------------------------------------------------------- C02 --
template <class S> static void verdictCase(Ctx& C, Rng& R, const char* nm) {
  Problem p = randomProblem(R);
  C.note(p.desc());
  S s(p.space);
  build(s, p);
  vector_t qs = randomConfig(R, p.r.d);
  int mode = R.ri(3);
  if (mode) {
    rhsFrom(s, p, qs);
    if (mode == 2) { vector_t q = qs; runLS(s, q, R.ri(4)); qs = q; }
  }
  for (int t = 0; t < 4; ++t) {
    vector_t q = R.coin(.25) ? randomConfig(R, p.r.d) : perturb(R, p.space, qs, R.coin(.3) ? 0. : p.thr * std::pow(10., R.uni(-1.5, 1)));
    if (!allSmooth(p, q)) { C.skip("cut-locus"); continue; }
    if (R.coin(.5)) q = explicitResolve(p, q);
    bool all = true, near = false;
    for (auto& c : p.cons) {
      vector_t e = c.error(q, p.ineqThr);
      double n = e.norm();
      bool sat = n < p.thr;
      near |= std::fabs(n - p.thr) < 1e-3 * p.thr + 1e-9;
      if (!optionalLevel(s, p, c)) all = all && sat;
      // verdict of the constraint
      vector_t err(c.space()->nv());
      err.setConstant(std::numeric_limits<double>::quiet_NaN());
      bool found = false;
      bool got = s.isConstraintSatisfied(c.c, q, err, found);
      auto D = [&] { return Str() << nm << " " << c.kind << " " << p.desc() << " q=" << vs(q) << " error=" << vs(err) << " expected " << vs(e) << " thr=" << p.thr << " got " << got; };
      C.check(found, "constraint/not-found", D);
      if (std::fabs(n - p.thr) < 1e-3 * p.thr + 1e-9) { C.skip("on-threshold"); continue; }
      C.check(got == sat, "constraint/verdict", D);
      C.check(close(err, e, 1e-7), "constraint/error", D);
      if (n > 1e-12 && n < 100 * p.thr) C.nontrivial(Str() << nm << c.kind << vs(q));
    }
    if (near) { C.skip("on-threshold"); continue; }
    auto D = [&] { return Str() << nm << " " << p.desc() << " q=" << vs(q) << " model says " << all; };
    C.check(s.isSatisfied(q) == all, "solver/verdict", D);
    C.count(all ? "satisfied" : "unsatisfied");
    // explicit threshold
    double thr2 = p.thr * std::pow(10., R.uni(-1, 1));
    bool all2 = true; bool near2 = false;
    for (auto& c : p.cons) { double n = c.error(q, p.ineqThr).norm(); near2 |= std::fabs(n - thr2) < 1e-3 * thr2 + 1e-9; if (!optionalLevel(s, p, c)) all2 = all2 && n < thr2; }
    if (!near2) C.check(s.isSatisfied(q, thr2) == all2, "solver/verdict-with-threshold", [&] { return Str() << D().o.str() << " thr2=" << thr2 << " expected " << all2; });
  }
}
SUITE("C02", "by-substitution", 1500, 40000) { verdictCase<BySub>(C, R, "BySubstitution"); }
SUITE("C02", "hierarchical", 500, 15000) { verdictCase<HierIt>(C, R, "HierarchicalIterative"); }
// the error vector lists the errors in order: levels, constraints, then explicit constraints
SUITE("C02", "error-vector", 500, 12000) {
  Problem p = randomProblem(R);
  BySub s(p.space);
  build(s, p);
  vector_t qs = randomConfig(R, p.r.d);
  if (R.coin(.7)) rhsFrom(s, p, qs);
  vector_t q = R.coin() ? randomConfig(R, p.r.d) : perturb(R, p.space, qs, 1e-2);
  if (!allSmooth(p, q)) { C.skip("cut-locus"); return; }
  std::vector<const Con*> seq;
  for (size_t l = 0; l < s.numberStacks(); ++l) for (size_t i : p.order) if (!p.cons[i].isExplicit && p.cons[i].level == l) seq.push_back(&p.cons[i]);
  for (size_t i : p.order) if (p.cons[i].isExplicit) seq.push_back(&p.cons[i]);
  vector_t exp(s.dimension() + s.explicitConstraintSet().errorSize());
  size_type row = 0;
  for (auto c : seq) { vector_t e = c->error(q, p.ineqThr); if (row + e.size() > exp.size()) { C.check(false, "error-size", [&] { return p.desc(); }); return; } exp.segment(row, e.size()) = e; row += e.size(); }
  C.check(row == exp.size(), "error-size", [&] { return Str() << p.desc() << " " << row << " vs " << exp.size(); });
  vector_t err(exp.size());
  err.setConstant(std::numeric_limits<double>::quiet_NaN());
  bool got = s.isSatisfied(q, err);
  C.check(close(err, exp, 1e-7), "error-vector", [&] { return Str() << p.desc() << " q=" << vs(q) << "\n err=" << vs(err) << "\n exp=" << vs(exp); });
  C.check(got == s.isSatisfied(q), "error-vector-verdict", [&] { return Str() << p.desc() << " q=" << vs(q); });
  double m = 0; for (auto c : seq) if (!c->isExplicit && !optionalLevel(s, p, *c)) m = std::max(m, c->error(q, p.ineqThr).squaredNorm());
  C.check(std::fabs(s.residualError() - m) <= 1e-6 * (1 + m), "residual-error", [&] { return Str() << p.desc() << s.residualError() << " vs " << m; });
  vector_t v(0);
  size_type nqo = 0; for (auto c : seq) if (!c->isExplicit) nqo += c->space()->nq();
  v.resize(nqo); row = 0;
  vector_t ev(nqo);
  for (auto c : seq) if (!c->isExplicit) { vector_t x = c->value(q); ev.segment(row, x.size()) = x; row += x.size(); }
  s.getValue(v);
  C.check(close(v, ev, 1e-9), "value", [&] { return Str() << p.desc() << vs(v) << vs(ev); });
  if (maxAbs(exp) > 1e-6) C.nontrivial(p.desc() + vs(q));
}

// --------------------------------------------------------------------- C03 --
template <class S> static void frameCase(Ctx& C, Rng& R, const char* nm) {
  ProblemOpts o; o.con.onlyEquality = R.coin(.6);
  Problem p = randomProblem(R, o);
  C.note(p.desc());
  S s(p.space);
  build(s, p);
  vector_t qs = randomConfig(R, p.r.d);
  if (R.coin(.85)) rhsFrom(s, p, qs);
  const auto& m = p.r.d->model();
  for (int t = 0; t < 2; ++t) {
    vector_t q0 = clampQ(p.r.d, R.coin(.7) ? perturb(R, p.space, qs, std::pow(10., R.uni(-3, -.2))) : randomConfig(R, p.r.d));
    vector_t q = q0;
    int ls = R.ri(4);
    vector_t rhs0 = s.rightHandSide();
    double thr0 = s.errorThreshold(), it0 = s.inequalityThreshold();
    size_type mi0 = s.maxIterations();
    std::vector<ImplicitPtr_t> cons0(s.constraints().begin(), s.constraints().end());
    segments_t fv0 = s.freeVariables().indices();
    HierIt::Status st = runLS(s, q, ls);
    auto D = [&] { return Str() << nm << " " << lsName(ls) << " " << p.desc() << " q0=" << vs(q0) << " q=" << vs(q) << " " << statusName(st); };
    C.check(s.rightHandSide() == rhs0 && s.errorThreshold() == thr0 && s.inequalityThreshold() == it0 && s.maxIterations() == mi0 && std::equal(cons0.begin(), cons0.end(), s.constraints().begin()) && cons0.size() == s.constraints().size() && s.freeVariables().indices() == fv0, "problem-altered", D);
    // which dofs may move
    std::vector<bool> may(p.space->nv(), false);
    for (auto& g : fv0) for (size_type i = g.first; i < g.first + g.second; ++i) may[i] = true;
    // independent expectation of the free variables
    for (size_t i = 0; i < may.size(); ++i) {
      bool ex = !p.restricted || p.freeMask[i];
      for (auto& c : p.cons) if (c.isExplicit && c.outputsVel(i)) ex = false;
      C.check(may[i] == ex, "free-variables", [&] { return Str() << D().o.str() << " dof " << i << " free=" << may[i]; });
    }
    for (auto& c : p.cons) if (c.isExplicit) for (size_t i = 0; i < may.size(); ++i) if (c.outputsVel(i)) may[i] = true;
    auto still = [&](int iq, int nq, int iv, int nv, bool vec) {
      if (vec) { for (int i = 0; i < nq; ++i) if (!may[iv + i]) C.check(std::fabs(q[iq + i] - q0[iq + i]) <= 1e-12, "moved-fixed-variable", [&] { return Str() << D().o.str() << " iq=" << iq + i; }); }
      else {
        for (int i = 0; i < nv; ++i) if (may[iv + i]) return;
        C.check(maxAbs(q.segment(iq, nq) - q0.segment(iq, nq)) <= 1e-12, "moved-fixed-variable", [&] { return Str() << D().o.str() << " iq=" << iq; });
      }
    };
    for (size_t j = 1; j < (size_t)m.njoints; ++j) {
      int iq = m.joints[j].idx_q(), nq = m.joints[j].nq(), iv = m.joints[j].idx_v(), nv = m.joints[j].nv();
      std::string sn = m.joints[j].shortname();
      still(iq, nq, iv, nv, nq == nv);
    }
    for (size_type i = 0; i < p.r.extra(); ++i) still(m.nq + i, 1, m.nv + i, 1, true);
    if (p.saturate) {
      vector_t x = q;
      for (auto& c : p.cons) if (c.isExplicit) c.setOut(x, c.out(randomConfig(R, p.r.d, 0)));
      C.check(inBounds(p.r.d, x, 1e-9), "out-of-bounds", D);
    }
    if (maxAbs(q - q0) > 1e-9) { C.nontrivial(Str() << nm << ls << p.desc() << vs(q0)); C.count(p.saturate ? "moved-with-bounds" : "moved"); }
    vector_t q1 = q0;
    HierIt::Status st1 = runLS(s, q1, ls);
    C.check(st1 == st && close(q1, q, 1e-9), "not-repeatable", [&] { return Str() << D().o.str() << " again=" << vs(q1) << statusName(st1); });
    // a satisfied configuration stays
    if (st == HierIt::SUCCESS && modelError(s, p, q, true) < .49 * p.thr) {
      vector_t q2 = q;
      HierIt::Status st2 = runLS(s, q2, R.ri(4));
      C.check(st2 == HierIt::SUCCESS, "satisfied-start-fails", [&] { return Str() << D().o.str() << " " << statusName(st2); });
      C.check(close(q2, q, 1e-6), "satisfied-start-moved", [&] { return Str() << D().o.str() << " " << vs(q2); });
      C.count("satisfied-starts");
    } else if (st != HierIt::SUCCESS || true) {
      // satisfied within the threshold: still a success
      vector_t q2 = explicitResolve(p, q);
      double e = modelError(s, p, q2, true);
      if (e < .98 * p.thr && s.isSatisfied(q2)) {
        vector_t q3 = q2;
        HierIt::Status st2 = runLS(s, q3, R.ri(4));
        C.check(st2 == HierIt::SUCCESS, "satisfied-start-fails", [&] { return Str() << D().o.str() << " " << statusName(st2); });
        C.check(modelError(s, p, q3, true) <= p.thr * (1 + 1e-6) + 1e-9, "satisfied-start-lost", D);
        C.count("satisfied-within-threshold-starts");
      }
    }
  }
}
SUITE("C03", "by-substitution", 1200, 30000) { frameCase<BySub>(C, R, "BySubstitution"); }
SUITE("C03", "hierarchical", 500, 12000) { frameCase<HierIt>(C, R, "HierarchicalIterative"); }
// bounds given as vectors and as a user function
SUITE("C03", "saturation-kinds", 300, 6000) {
  size_type n = R.range(2, 6), m = R.range(1, (int)n);
  LiegroupSpacePtr_t sp = LiegroupSpace::Rn(n);
  HierIt s(sp);
  DifferentiableFunctionPtr_t f = smoothFn(R, n, m, "f", 1, .3);
  s.add(Implicit::create(f, ComparisonTypes_t(m, Equality)), 0);
  s.errorThreshold(1e-4); s.maxIterations(40);
  vector_t lb = randomVec(R, n, 1), ub = lb;
  for (int i = 0; i < n; ++i) { lb[i] = -R.uni(.05, 1); ub[i] = R.uni(.05, 1); }
  bool fn = R.coin(.4);
  if (fn) {
    s.saturation(std::make_shared<solver::saturation::Function>([lb, ub](vectorIn_t q, vectorOut_t o, Eigen::VectorXi& sat) {
      bool r = false;
      for (int i = 0; i < q.size(); ++i) { double v = q[i]; sat[i] = 0; if (v <= lb[i]) { v = lb[i]; sat[i] = -1; r = true; } else if (v >= ub[i]) { v = ub[i]; sat[i] = 1; r = true; } o[i] = v; }
      return r; }));
  } else s.saturation(std::make_shared<solver::saturation::Bounds>(lb, ub));
  vector_t qs(n); for (int i = 0; i < n; ++i) qs[i] = R.coin(.3) ? (R.coin() ? lb[i] : ub[i]) : R.uni(lb[i], ub[i]);
  s.rightHandSideFromConfig(qs);
  vector_t q(n); for (int i = 0; i < n; ++i) q[i] = std::min(ub[i], std::max(lb[i], qs[i] + R.uni(-.3, .3)));
  vector_t q0 = q;
  HierIt::Status st = runLS(s, q, R.ri(4));
  bool ok = true;
  for (int i = 0; i < n; ++i) ok = ok && q[i] >= lb[i] && q[i] <= ub[i];
  C.check(ok, "bounds", [&] { return Str() << "q0=" << vs(q0) << " q=" << vs(q) << " lb=" << vs(lb) << " ub=" << vs(ub); });
  if (st == HierIt::SUCCESS) C.check((*f)(q).vector().size() && maxAbs((*f)(q).vector() - (*f)(qs).vector()) <= 1e-4, "bounds-success", [&] { return Str() << vs(q0) << vs(q); });
  if (maxAbs(q - q0) > 1e-6) C.nontrivial(vs(q0) + vs(lb));
  C.count(std::string("sat-") + statusName(st));
}

// --------------------------------------------------------------------- C04 --
template <class S> static vector_t getRhs(Ctx& C, S& s, const Con& c) {
  vector_t r(c.space()->nq());
  r.setConstant(std::numeric_limits<double>::quiet_NaN());
  bool ok = s.getRightHandSide(c.c, r);
  C.check(ok, "rhs/get-not-found", [&] { return c.kind; });
  return r;
}
static bool sameRhs(const Con& c, const vector_t& a, const vector_t& b) {
  if (a.size() != b.size() || !a.allFinite()) return false;
  return maxAbs(difference(c.space(), a, b)) < 1e-7;
}
template <class S> static void checkAll(Ctx& C, S& s, Problem& p, const std::string& op) {
  std::vector<const Con*> seq;
  for (size_t l = 0; l < s.numberStacks(); ++l) for (size_t i : p.order) if (!p.cons[i].isExplicit && p.cons[i].level == l) seq.push_back(&p.cons[i]);
  for (size_t i : p.order) if (p.cons[i].isExplicit) seq.push_back(&p.cons[i]);
  size_type n = 0;
  for (auto c : seq) {
    n += c->space()->nq();
    vector_t r = getRhs(C, s, *c);
    C.check(sameRhs(*c, r, c->rhs), "rhs/read-back", [&] { return Str() << op << ": " << c->kind << " got " << vs(r) << " expected " << vs(c->rhs) << " " << p.desc(); });
  }
  C.check(s.rightHandSideSize() == n, "rhs/size", [&] { return Str() << op << " " << s.rightHandSideSize() << " vs " << n; });
  vector_t all = s.rightHandSide();
  if (!C.check(all.size() == n, "rhs/whole-size", [&] { return p.desc(); })) return;
  size_type row = 0;
  for (auto c : seq) {
    vector_t r = all.segment(row, c->space()->nq());
    row += r.size();
    C.check(sameRhs(*c, r, c->rhs), "rhs/read-back-whole", [&] { return Str() << op << ": " << c->kind << " got " << vs(r) << " expected " << vs(c->rhs) << " " << p.desc(); });
  }
}
template <class S> static void rhsCase(Ctx& C, Rng& R, const char* nm) {
  ProblemOpts o; o.levels = 3; o.maxImplicit = 4;
  Problem p = randomProblem(R, o);
  C.note(p.desc());
  S s(p.space);
  build(s, p);
  if (p.cons.empty()) return;
  std::string hist;
  checkAll(C, s, p, "initial");
  std::vector<const Con*> seq;
  for (size_t l = 0; l < s.numberStacks(); ++l) for (size_t i : p.order) if (!p.cons[i].isExplicit && p.cons[i].level == l) seq.push_back(&p.cons[i]);
  for (size_t i : p.order) if (p.cons[i].isExplicit) seq.push_back(&p.cons[i]);
  for (int t = 0; t < 6; ++t) {
    int op = R.ri(6);
    vector_t q = randomConfig(R, p.r.d);
    if (!allSmooth(p, q)) { C.skip("cut-locus"); continue; }
    if (op == 0) {
      hist = "fromConfig";
      vector_t ret = s.rightHandSideFromConfig(q);
      for (auto& c : p.cons) c.rhs = c.rhsFrom(q);
      C.check(close(ret, s.rightHandSide(), 1e-9), "rhs/returned", [&] { return p.desc(); });
      // q satisfies the Equality components of the level set
      for (auto& c : p.cons) {
        vector_t err(c.space()->nv()); bool f;
        s.isConstraintSatisfied(c.c, q, err, f);
        for (int i = 0; i < err.size(); ++i) if (c.comp[i] == Equality && c.mask[i]) C.check(std::fabs(err[i]) < 1e-7, "rhs/level-set", [&] { return Str() << nm << c.kind << " error " << vs(err) << " at the configuration that defines the right-hand side, " << p.desc() << " q=" << vs(q); });
        bool alleq = true;
        for (auto k : c.comp) alleq = alleq && k == Equality;
        if (alleq) C.check(s.isConstraintSatisfied(c.c, q, err, f), "rhs/level-set-verdict", [&] { return Str() << nm << c.kind; });
      }
    } else if (op == 1) {
      Con& c = p.cons[R.ri((int)p.cons.size())];
      hist = "fromConfig one " + c.kind;
      C.check(s.rightHandSideFromConfig(c.c, q), "rhs/set-not-found", [&] { return hist; });
      c.rhs = c.rhsFrom(q);
    } else if (op == 2 || op == 3) {
      Con& c = p.cons[R.ri((int)p.cons.size())];
      hist = "set one " + c.kind;
      vector_t v = c.project(R.coin() ? c.value(q) : randomElement(R, c.space()).vector());
      // through a copy of the constraint object now and then
      C.check(s.rightHandSide(R.coin(.3) ? c.c->copy() : c.c, v), "rhs/set-not-found", [&] { return hist; });
      c.rhs = v;
    } else if (op == 4) {
      hist = "set whole";
      vector_t all(s.rightHandSideSize());
      size_type row = 0;
      for (auto c : seq) {
        vector_t v = c->project(R.coin() ? c->value(q) : randomElement(R, c->space()).vector());
        all.segment(row, v.size()) = v; row += v.size();
        const_cast<Con*>(c)->rhs = v;
      }
      s.rightHandSide(all);
    } else {
      hist = "set whole from read";
      vector_t all = s.rightHandSide();
      S s2(s);
      s.rightHandSideFromConfig(q);
      s.rightHandSide(all);
    }
    checkAll(C, s, p, std::string(nm) + " " + hist);
    C.nontrivial(Str() << nm << hist << p.desc() << vs(q));
    C.count("op-" + std::to_string(op));
    // the verdict follows the right-hand side
    vector_t x = perturb(R, p.space, q, 1e-3);
    if (allSmooth(p, x)) for (auto& c : p.cons) {
      vector_t err(c.space()->nv()); bool f;
      s.isConstraintSatisfied(c.c, x, err, f);
      vector_t e = c.error(x, p.ineqThr);
      if (e.norm() < 2.5) C.check(close(err, e, 1e-6), "rhs/error-after-set", [&] { return Str() << nm << " after " << hist << ": " << c.kind << " error " << vs(err) << " expected " << vs(e); });
    }
  }
  // a constraint that is not in the solver is reported as such
  Con other = implicitCon(R, p.r);
  bool dup = false;
  for (auto& c : p.cons) if (c.c->function() == other.c->function()) dup = true;
  if (!dup) {
    vector_t r = other.space()->neutral().vector(), q = randomConfig(R, p.r.d);
    bool f = true; vector_t e(other.space()->nv());
    C.check(!s.rightHandSide(other.c, r) && !s.getRightHandSide(other.c, r) && !s.rightHandSideFromConfig(other.c, q) && !s.isConstraintSatisfied(other.c, q, e, f) && !f, "rhs/unknown-constraint", [&] { return other.kind; });
    checkAll(C, s, p, "unknown constraint");
  }
}
SUITE("C04", "by-substitution", 900, 20000) { rhsCase<BySub>(C, R, "BySubstitution"); }
SUITE("C04", "hierarchical", 400, 10000) { rhsCase<HierIt>(C, R, "HierarchicalIterative"); }
// time varying right-hand sides
SUITE("C04", "time-varying", 400, 8000) {
  ProblemOpts o; o.con.onlyEquality = true; o.levels = 2; o.con.masks = false;
  Problem p = randomProblem(R, o);
  std::map<size_t, DifferentiableFunctionPtr_t> fn;
  for (size_t i = 0; i < p.cons.size(); ++i) {
    Con& c = p.cons[i];
    bool eq = true; for (auto k : c.comp) eq = eq && k == Equality;
    if (!eq || !R.coin(.7)) continue;
    fn[i] = lieFn(R, 1, c.space(), "time");
    c.c->rightHandSideFunction(fn[i]);
  }
  BySub s(p.space);
  build(s, p);
  vector_t q = randomConfig(R, p.r.d);
  if (R.coin()) rhsFrom(s, p, q);
  for (int t = 0; t < 4; ++t) {
    double a = R.uni(-2, 2);
    bool viaCopy = R.coin(.3);
    vector_t S(1); S[0] = a;
    s.rightHandSideAt(a);
    for (auto& kv : fn) p.cons[kv.first].rhs = (*kv.second)(S).vector();
    checkAll(C, s, p, "time");
    if (viaCopy) { BySub s2(s); s2.rightHandSideAt(a + 1); checkAll(C, s, p, "time, copy moved on"); S[0] = a + 1; Problem p2 = p; for (auto& kv : fn) p2.cons[kv.first].rhs = (*kv.second)(S).vector(); checkAll(C, s2, p2, "time of copy"); S[0] = a; }
    // restriction to an interval
    for (auto& kv : fn) {
      vector_t b = p.cons[kv.first].c->rightHandSideAt(a);
      C.check(sameRhs(p.cons[kv.first], b, p.cons[kv.first].rhs), "time/at", [&] { return p.desc(); });
    }
  }
  if (!fn.empty()) C.nontrivial(p.desc() + vs(q));
  // invalid right-hand side functions are refused
  if (!p.cons.empty()) {
    Con& c = p.cons[0];
    bool thrown = false;
    try { c.c->rightHandSideFunction(lieFn(R, 2, c.space(), "bad")); } catch (const std::exception&) { thrown = true; }
    C.check(thrown, "time/bad-input-accepted", [&] { return c.kind; });
    thrown = false;
    try { c.c->rightHandSideFunction(lieFn(R, 1, LiegroupSpace::Rn(c.space()->nq() + 1), "bad")); } catch (const std::exception&) { thrown = true; }
    C.check(thrown, "time/bad-output-accepted", [&] { return c.kind; });
  }
}

// --------------------------------------------------------------------- C05 --
SUITE("C05", "bounded-work", 600, 15000) {
  ProblemOpts o; o.con.onlyEquality = R.coin(.5);
  Problem p = randomProblem(R, o);
  auto n = std::make_shared<std::pair<long, long>>(0, 0);
  long nimp = 0;
  for (auto& c : p.cons) if (!c.e) { c.c = Implicit::create(wrapCount(c.c->functionPtr(), n), c.comp, c.mask); nimp++; }
  if (!nimp) return;
  BySub s(p.space); HierIt h(p.space);
  Problem p2 = p;
  build(s, p); build(h, p2);
  vector_t qs = randomConfig(R, p.r.d);
  if (R.coin(.6)) { s.rightHandSideFromConfig(qs); h.rightHandSideFromConfig(qs); }
  vector_t q0 = R.coin() ? randomConfig(R, p.r.d) : perturb(R, p.space, qs, .3);
  int ls = R.ri(4);
  for (int w = 0; w < 3; ++w) {
    n->first = n->second = 0;
    vector_t q = q0;
    HierIt::Status st = w == 2 ? runOpt(s, q, ls) : w ? runLS(h, q, ls) : runLS(s, q, ls);
    long it = std::max(p.maxIter, 2) + 2;
    long lv = it * nimp * (ls == 1 ? 8 : 1), lj = it * nimp;
    auto D = [&] { return Str() << (w ? "h " : "b ") << lsName(ls) << " values " << n->first << " jacobians " << n->second << " maxIterations " << p.maxIter << " functions " << nimp << " " << p.desc() << " q0=" << vs(q0) << statusName(st); };
    C.check(n->first <= lv && n->second <= lj, "work", D);
    C.check(st >= HierIt::ERROR_INCREASED && st <= HierIt::SUCCESS, "status", D);
    if (n->second > 2 * nimp) C.nontrivial(D());
    C.count("values", n->first);
  }
}
// Newton convergence from a start close to a regular solution
template <class S> static void convergeCase(Ctx& C, Rng& R, const char* nm) {
  ProblemOpts o; o.con.onlyEquality = true; o.con.masks = false; o.levels = 2; o.restrictFree = false; o.maxImplicit = 2;
  Problem p = randomProblem(R, o);
  // solving level by level is a heuristic: only without effect on one level
  p.levelByLevel = p.levels == 1 && R.coin(.2);
  p.lastOptional = false;
  p.maxIter = 300;
  p.thr = 1e-4;
  p.saturate = false;
  S s(p.space);
  build(s, p);
  s.maxIterations(300);
  vector_t qs = randomConfig(R, p.r.d);
  rhsFrom(s, p, qs);
  // the explicit variables follow
  vector_t q1 = explicitResolve(p, qs);
  for (auto& c : p.cons) if (c.isExplicit && maxAbs(difference(c.outSpace, c.out(q1), c.out(qs))) > 1e-6) {
    // EqualToZero components of explicit constraints: move to the resolved configuration
  }
  qs = q1;
  rhsFrom(s, p, qs);
  if (modelError(s, p, qs, false) > 1e-6) { C.skip("not-a-solution"); return; }
  if (!allSmooth(p, qs)) { C.skip("cut-locus"); return; }
  // independent reduced Jacobian
  size_type rows = 0;
  for (auto& c : p.cons) if (!c.isExplicit) rows += c.space()->nv();
  if (rows == 0) { C.skip("no-implicit"); return; }
  std::vector<size_type> fr;
  for (size_type i = 0; i < p.space->nv(); ++i) {
    bool ex = true;
    for (auto& c : p.cons) if (c.isExplicit && c.outputsVel(i)) ex = false;
    if (ex) fr.push_back(i);
  }
  if (fr.empty()) { C.skip("no-free"); return; }
  auto F = [&](const vector_t& x) {
    vector_t q = explicitResolve(p, x), r(rows); size_type k = 0;
    for (auto& c : p.cons) if (!c.isExplicit) { vector_t e = c.error(q, 0); r.segment(k, e.size()) = e; k += e.size(); }
    return r;
  };
  double err;
  matrix_t J = numJac(F, p.space, LiegroupSpace::Rn(rows), qs, err), Jf(rows, fr.size());
  for (size_t i = 0; i < fr.size(); ++i) Jf.col(i) = J.col(fr[i]);
  Eigen::JacobiSVD<matrix_t> svd(Jf);
  double smin = svd.singularValues().minCoeff();
  if (rows > (size_type)fr.size() || smin < .1 || svd.singularValues()[0] > 20) { C.skip("not-regular"); return; }
  vector_t q0 = explicitResolve(p, perturb(R, p.space, qs, 2e-3));
  for (int ls = 0; ls < 5; ++ls) {
    vector_t q = q0;
    HierIt::Status st = runLS(s, q, ls);
    auto D = [&] { return Str() << nm << " " << lsName(ls) << " " << statusName(st) << " smin=" << smin << " error0=" << modelError(s, p, q0, false) << " error=" << modelError(s, p, q, false) << " " << p.desc() << " q0=" << vs(q0) << " qs=" << vs(qs); };
    if (C.verbose && st != HierIt::SUCCESS) {
      for (int k = 0; k < 6; ++k) {
        vector_t x = q0; s.maxIterations(k); runLS(s, x, ls);
        std::string e; for (auto& c : p.cons) e += Str() << c.kind << " " << vs(c.error(x, 0)) << "  ";
        C.note(Str() << lsName(ls) << " iteration " << k << ": " << e << " q-qs=" << vs(difference(p.space, x, qs)));
      }
      s.template computeValue<true>(q0); matrix_t J(s.reducedDimension(), fr.size()); s.getReducedJacobian(J);
      C.note(Str() << "reduced J " << show(J, 20) << " model " << show(Jf, 20));
      s.maxIterations(300);
    }
    C.check(st == HierIt::SUCCESS, std::string("converge/") + lsName(ls), D);
    C.check(modelError(s, p, q, false) <= p.thr + 1e-9, "converge/error", D);
    if (modelError(s, p, q0, false) > p.thr) C.nontrivial(D());
    if (std::string(nm) == "BySubstitution" && ls < 4 && modelError(s, p, q0, false) > p.thr) C.count("converged");
  }
}
SUITE("C05", "converge-by-substitution", 1200, 25000) { convergeCase<BySub>(C, R, "BySubstitution"); }
SUITE("C05", "converge-hierarchical", 600, 12000) { convergeCase<HierIt>(C, R, "HierarchicalIterative"); }
// linear systems: a single full step solves each level in the order of priority
SUITE("C05", "priorities", 800, 15000) {
  size_type n = R.range(2, 7);
  LiegroupSpacePtr_t sp = LiegroupSpace::Rn(n);
  int L = R.range(1, 3);
  HierIt h(sp); BySub b(sp);
  std::vector<matrix_t> A; std::vector<vector_t> B;
  size_type tot = 0;
  for (int l = 0; l < L; ++l) {
    size_type m = R.range(1, (int)n);
    matrix_t a(m, n);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = R.uni();
    if (l && R.coin(.4)) { // conflicting copy of a row of the previous level
      a.row(0) = A[l - 1].row(0);
    }
    tot += m;
    A.push_back(a); B.push_back(randomVec(R, m));
    DifferentiableFunctionPtr_t f = AffineFunction::create(a, -B[l], "l" + std::to_string(l));
    ImplicitPtr_t c = Implicit::create(f, ComparisonTypes_t(m, EqualToZero));
    h.add(c, l); b.add(c, l);
  }
  double thr = 1e-4;
  bool opt = L > 1 && R.coin(.5), byLevel = R.coin(.3);
  int it = R.range(1, 6);
  // expected lexicographic least squares, level by level
  std::vector<double> best;
  matrix_t Z = matrix_t::Identity(n, n);
  vector_t x = vector_t::Zero(n);
  bool illc = false;
  for (int l = 0; l < L; ++l) {
    if (Z.cols() == 0) { best.push_back((A[l] * x - B[l]).norm()); continue; }
    matrix_t AZ = A[l] * Z;
    Eigen::JacobiSVD<matrix_t> sv(AZ, Eigen::ComputeFullU | Eigen::ComputeFullV);
    sv.setThreshold(1e-8);
    size_type r = 0;
    for (int i = 0; i < sv.singularValues().size(); ++i) { if (sv.singularValues()[i] > 1e-2) r++; else if (sv.singularValues()[i] > 1e-11) illc = true; }
    vector_t y = sv.solve(B[l] - A[l] * x);
    x += Z * y;
    best.push_back((A[l] * x - B[l]).norm());
    Z = (Z * sv.matrixV().rightCols(Z.cols() - r)).eval();
  }
  if (illc) { C.skip("ill-conditioned"); return; }
  for (int w = 0; w < 2; ++w) for (int ls : {0, 2}) {
    if (ls == 2 && byLevel) continue;  // the error of the levels not handled yet may increase: heuristic
    HierIt& s = w ? (HierIt&)b : h;
    s.errorThreshold(thr); b.errorThreshold(thr); s.maxIterations(ls == 0 ? it + L : 400); s.lastIsOptional(opt); s.solveLevelByLevel(byLevel);
    vector_t q = randomVec(R, n, 2), q0 = q;
    HierIt::Status st = w ? runLS(b, q, ls) : runLS(h, q, ls);
    int last = opt ? L - 1 : L;
    bool feasible = true;
    for (int l = 0; l < last; ++l) feasible = feasible && best[l] < 1e-9;
    std::string bs; for (double d : best) bs += std::to_string(d) + " ";
    auto D = [&] { return Str() << (w ? "by-substitution " : "hierarchical ") << lsName(ls) << " n=" << n << " L=" << L << " optional=" << opt << " byLevel=" << byLevel << " best residuals " << bs << " status " << statusName(st) << " q0=" << vs(q0) << " q=" << vs(q); };
    if (feasible) C.check(st == HierIt::SUCCESS, "priorities/feasible-not-solved", D);
    else C.check(st != HierIt::SUCCESS, "priorities/infeasible-success", D);
    // with full steps the levels solvable given the higher ones are solved
    if (ls == 0) for (int l = 0; l < L; ++l) {
      bool prev = true; for (int k = 0; k <= l; ++k) prev = prev && best[k] < 1e-9;
      if (!prev) break;
      if (l >= last) break;
      double e = (A[l] * q - B[l]).norm();
      C.check(e < thr, "priorities/level-not-satisfied", [&] { return Str() << D().o.str() << " level " << l << " error " << e; });
      C.nontrivial(D());
    }
  }
}

// --------------------------------------------------------------------- C06 --
SUITE("C06", "velocity", 900, 20000) {
  ProblemOpts o; o.con.masks = R.coin(.3); o.con.inequalities = false; 
  Problem p = randomProblem(R, o);
  C.note(p.desc());
  BySub s(p.space);
  build(s, p);
  vector_t q = randomConfig(R, p.r.d);
  if (R.coin(.7)) { rhsFrom(s, p, q); q = explicitResolve(p, q); rhsFrom(s, p, q); }
  else q = explicitResolve(p, q);
  if (!allSmooth(p, q)) { C.skip("cut-locus"); return; }
  std::vector<size_type> fr;
  for (auto& g : s.freeVariables().indices()) for (size_type i = g.first; i < g.first + g.second; ++i) fr.push_back(i);
  vector_t v = randomVec(R, p.space->nv()), w(v.size());
  w.setConstant(std::numeric_limits<double>::quiet_NaN());
  s.projectVectorOnKernel(q, v, w);
  auto D = [&] { return Str() << p.desc() << " q=" << vs(q) << " v=" << vs(v) << " -> " << vs(w); };
  C.check(w.allFinite(), "kernel/undefined", D);
  // the explicit constraints: their outputs follow the variables they depend on;
  // variables that are neither free nor computed do not move
  std::vector<bool> isFree(v.size(), false), isOut(v.size(), false);
  for (size_type i : fr) isFree[i] = true;
  for (auto& g : s.explicitConstraintSet().outDers().indices()) for (size_type i = g.first; i < g.first + g.second; ++i) isOut[i] = true;
  for (size_type i = 0; i < v.size(); ++i) if (!isFree[i] && !isOut[i]) C.check(w[i] == 0, "kernel/excluded-variable-moves", D);
  bool anyExplicit = false;
  for (auto& c : p.cons) anyExplicit = anyExplicit || c.isExplicit;
  if (anyExplicit) {
    auto E = [&](double t) { return explicitResolve(p, integrate(p.space, q, w * t)); };
    double h = 1e-4;
    auto slope = [&](double t) { return vector_t(difference(p.space, E(t), E(-t)) / (2 * t)); };
    vector_t d1 = slope(h), d2 = slope(h / 2), d = d2 + (d2 - d1) / 3;
    double e = maxAbs(d2 - d1);
    if (e < 1e-5) {
      bool ok = true;
      for (size_type i = 0; i < v.size(); ++i) if (isOut[i] && std::fabs(d[i] - w[i]) > 1e-5 * (1 + maxAbs(w)) + e) ok = false;
      C.check(ok, "kernel/explicit-not-stationary", [&] { return Str() << D().o.str() << " outputs move along " << vs(d); });
      C.count("explicit-outputs-followed");
    } else C.skip("explicit-not-differentiable");
  }
  if (s.reducedDimension() == 0 || p.cons.empty()) {
    // nothing depends on the free variables
    for (size_type i : fr) C.check(w[i] == v[i], "kernel/nothing-to-project", D);
    vector_t w2(v.size());
    s.projectVectorOnKernel(q, w, w2);
    C.check(close(w2, w, 1e-9), "kernel/not-idempotent", [&] { return Str() << D().o.str() << " again " << vs(w2); });
    return;
  }
  size_type rows = 0;
  for (auto& c : p.cons) if (!c.isExplicit) rows += c.space()->nv();
  auto F = [&](const vector_t& x) {
    vector_t y = explicitResolve(p, x), r(rows); size_type k = 0;
    for (auto& c : p.cons) if (!c.isExplicit) { vector_t e = c.error(y, 0); r.segment(k, e.size()) = e; k += e.size(); }
    return r;
  };
  double err;
  matrix_t J = numJac(F, p.space, LiegroupSpace::Rn(rows), q, err), Jf(rows, fr.size());
  if (!(err < 1e-6)) { C.skip("ill-conditioned-difference"); return; }
  for (size_t i = 0; i < fr.size(); ++i) Jf.col(i) = J.col(fr[i]);
  if (fr.empty()) return;
  auto fre = [&](const vector_t& x) { vector_t y(fr.size()); for (size_t i = 0; i < fr.size(); ++i) y[i] = x[fr[i]]; return y; };
  vector_t vf = fre(v), wf = fre(w);
  Eigen::JacobiSVD<matrix_t> sv(Jf, Eigen::ComputeFullV);
  size_type r = 0; bool ill = false;
  for (int i = 0; i < sv.singularValues().size(); ++i) { double x = sv.singularValues()[i]; if (x > 1e-3) r++; else if (x > 1e-12 && sv.singularValues()[0] < 1e-3) ill = true; else if (x > 1e-7) ill = true; }
  if (ill) { C.skip("nearly-singular"); return; }
  // a rank deficient Jacobian leaves the numerical rank to rounding (the
  // solver's decomposition uses machine precision): only full rank is decided
  bool fullRank = r == std::min<size_type>(Jf.rows(), Jf.cols());
  // rows that are identically zero do not change the rank decision
  if (!fullRank) {
    size_type nz = 0; for (int i = 0; i < Jf.rows(); ++i) if (Jf.row(i).norm() > 1e-6) nz++;
    if (r != std::min<size_type>(nz, Jf.cols())) { C.count("rank-deficient"); }
  }
  C.check((Jf * wf).norm() <= 1e-5 * (1 + Jf.norm()), "kernel/not-stationary", [&] { return Str() << D().o.str() << " J w=" << vs(Jf * wf); });
  matrix_t K = sv.matrixV().rightCols(Jf.cols() - r);
  vector_t ex = K * (K.transpose() * vf);
  bool dec = true;
  if (!fullRank) dec = close(wf, ex, 1e-4);
  if (dec || fullRank) C.check(close(wf, ex, 1e-4 * (1 + vf.norm())), "kernel/not-the-projection", [&] { return Str() << D().o.str() << " expected " << vs(ex); });
  else C.skip("rank-decision");
  vector_t w2(v.size());
  w2.setConstant(std::numeric_limits<double>::quiet_NaN());
  s.projectVectorOnKernel(q, w, w2);
  C.check(close(fre(w2), wf, 1e-7) && close(w2, w, 1e-6 * (1 + maxAbs(w))), "kernel/not-idempotent", [&] { return Str() << D().o.str() << " again " << vs(w2); });
  if (r > 0 && maxAbs(wf - vf) > 1e-3) C.nontrivial(D());
}
SUITE("C06", "configuration", 500, 10000) {
  ProblemOpts o; o.con.inequalities = false;
  Problem p = randomProblem(R, o);
  BySub s(p.space);
  build(s, p);
  vector_t a = randomConfig(R, p.r.d);
  if (R.coin(.7)) rhsFrom(s, p, a);
  vector_t b = perturb(R, p.space, a, R.coin(.3) ? .8 : .1), c(a.size());
  c.setConstant(std::numeric_limits<double>::quiet_NaN());
  if (p.saturate) b = clampQ(p.r.d, b);
  s.projectOnKernel(a, b, c);
  auto D = [&] { return Str() << p.desc() << " from=" << vs(a) << " to=" << vs(b) << " result=" << vs(c); };
  if (!C.check(inSpace(p.space, c), "project/not-a-configuration", D)) return;
  if (p.cons.empty() && !p.restricted) { C.check(close(c, b, 0), "project/empty", D); return; }
  vector_t d = difference(p.space, b, a), e(d.size());
  s.projectVectorOnKernel(a, d, e);
  vector_t x = integrate(p.space, a, e);
  if (p.saturate) x = clampQ(p.r.d, x);
  C.check(maxAbs(difference(p.space, c, x)) < 1e-8, "project/displacement", [&] { return Str() << D().o.str() << " expected " << vs(x); });
  if (p.saturate) C.check(inBounds(p.r.d, c, 1e-6), "project/bounds", D);
  C.nontrivial(D());
}

// --------------------------------------------------------------------- C10 --
SUITE("C10", "reduced-jacobian", 900, 20000) {
  ProblemOpts o; o.con.inequalities = false; o.maxExplicit = 4;
  Problem p = randomProblem(R, o);
  p.ineqThr = 0;
  C.note(p.desc());
  BySub s(p.space);
  build(s, p);
  vector_t q = randomConfig(R, p.r.d);
  if (R.coin(.7)) { vector_t q2 = randomConfig(R, p.r.d); rhsFrom(s, p, q2); }
  q = explicitResolve(p, q);
  if (!allSmooth(p, q)) { C.skip("cut-locus"); return; }
  std::vector<size_type> fr;
  for (auto& g : s.freeVariables().indices()) for (size_type i = g.first; i < g.first + g.second; ++i) fr.push_back(i);
  // expected rows: active rows of constraints depending on the free variables
  size_type rows = 0;
  std::vector<const Con*> seq;
  for (size_t l = 0; l < s.numberStacks(); ++l) for (size_t i : p.order) if (!p.cons[i].isExplicit && p.cons[i].level == l) { seq.push_back(&p.cons[i]); rows += p.cons[i].space()->nv(); }
  if (!rows || fr.empty()) { C.skip("no-implicit"); return; }
  auto F = [&](const vector_t& x) {
    vector_t y = explicitResolve(p, x), r(rows); size_type k = 0;
    for (auto c : seq) { vector_t e = difference(c->space(), c->value(y), c->rhs); r.segment(k, e.size()) = e; k += e.size(); }
    return r;
  };
  double err;
  matrix_t N = numJac(F, p.space, LiegroupSpace::Rn(rows), q, err);
  if (!(err < 1e-6)) { C.skip("ill-conditioned-difference"); return; }
  s.computeValue<true>(q);
  s.updateJacobian(q);
  matrix_t J(s.reducedDimension(), fr.size());
  J.setConstant(std::numeric_limits<double>::quiet_NaN());
  s.getReducedJacobian(J);
  // the rows must be, in order, those of the model; a zero row may be omitted or kept
  size_type k = 0, row = 0;
  bool ok = true;
  std::string why;
  std::vector<vector_t> exp;
  for (auto c : seq) {
    size_type nv = c->space()->nv();
    for (size_type i = 0; i < nv; ++i) if (c->mask[i]) {
      vector_t n(fr.size());
      for (size_t j = 0; j < fr.size(); ++j) n[j] = N(row + i, fr[j]);
      exp.push_back(n);
    }
    row += nv;
  }
  size_t e = 0;
  while (ok && (e < exp.size() || k < J.rows())) {
    if (e < exp.size() && k < J.rows() && close(J.row(k).transpose(), exp[e], 1e-5 * (1 + maxAbs(exp[e])))) { ++e; ++k; }
    else if (e < exp.size() && maxAbs(exp[e]) < 1e-7) ++e;
    else if (k < J.rows() && maxAbs(J.row(k)) < 1e-7) ++k;
    else { ok = false; why = Str() << " row " << k << " expected " << (e < exp.size() ? vs(exp[e]) : std::string("none")); }
  }
  C.check(ok, "reduced-jacobian", [&] { return Str() << p.desc() << " " << why << " J=" << show(J, 20) << " q=" << vs(q); });
  bool ex = false; for (auto& c : p.cons) ex |= c.isExplicit && !c.inConf.empty();
  if (ex && J.rows()) C.nontrivial(p.desc() + vs(q));
  if (J.rows()) C.sample(p.desc().substr(0, 200));
}
SUITE("C10", "explicit-jacobian", 900, 20000) {
  ProblemOpts o; o.con.explicits = true; o.maxExplicit = 5; o.maxImplicit = 0; o.restrictFree = false;
  o.robot.predefined = .1; o.robot.minJoints = 4;
  Problem p = randomProblem(R, o);
  BySub b(p.space);
  build(b, p);
  const ExplicitConstraintSet& s = b.explicitConstraintSet();
  vector_t q = randomConfig(R, p.r.d);
  if (R.coin(.7)) { vector_t q2 = randomConfig(R, p.r.d); for (auto& c : p.cons) c.rhs = c.rhsFrom(q2); b.rightHandSideFromConfig(q2); }
  q = explicitResolve(p, q);
  if (!allSmooth(p, q)) { C.skip("cut-locus"); return; }
  auto F = [&](const vector_t& x) { return explicitResolve(p, x); };
  double err;
  matrix_t N = numJac(F, p.space, p.space, q, err);
  if (!(err < 1e-6)) { C.skip("ill-conditioned-difference"); return; }
  matrix_t J(p.space->nv(), p.space->nv());
  J.setConstant(std::numeric_limits<double>::quiet_NaN());
  s.jacobian(J, q);
  auto D = [&] { return Str() << p.desc() << " q=" << vs(q) << "\n J=" << show(J, 40) << "\n N=" << show(N, 40); };
  C.check(close(J, N, 1e-5 * (1 + maxAbs(N))), "explicit-jacobian", D);
  matrix_t S = s.jacobianNotOutToOut(J).eval();
  std::vector<size_type> in, out;
  for (auto& g : s.notOutDers().indices()) for (size_type i = g.first; i < g.first + g.second; ++i) in.push_back(i);
  for (auto& g : s.outDers().indices()) for (size_type i = g.first; i < g.first + g.second; ++i) out.push_back(i);
  bool ok = S.rows() == (size_type)out.size() && S.cols() == (size_type)in.size();
  if (ok) for (size_t i = 0; i < out.size(); ++i) for (size_t j = 0; j < in.size(); ++j) ok = ok && std::fabs(S(i, j) - N(out[i], in[j])) < 1e-5 * (1 + maxAbs(N));
  C.check(ok, "explicit-jacobian-extraction", [&] { return Str() << D().o.str() << " S=" << show(S); });
  if (!out.empty() && maxAbs(N - matrix_t::Identity(N.rows(), N.cols())) > 1e-3) C.nontrivial(p.desc() + vs(q));
}
