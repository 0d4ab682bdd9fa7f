// C07 copies, merges and extractions are independent and equivalent
#include "problem.hh"
#include <hpp/constraints/affine-function.hh>

typedef std::vector<double> FP;
static void put(FP& f, const vector_t& v) { f.push_back(v.size()); for (int i = 0; i < v.size(); ++i) f.push_back(v[i]); }
static HierIt::Status solveDefault(const BySub& s, vector_t& q) { return s.solve<solver::lineSearch::Constant>(q); }
static HierIt::Status solveDefault(const HierIt& s, vector_t& q) { return s.solve<solver::lineSearch::Constant>(q); }

static vector_t allRhs(const BySub& s) { return s.rightHandSide(); }
static vector_t allRhs(const HierIt& s) { return s.rightHandSide(); }

// everything observable of a solver, at a few configurations
template <class S> static FP fingerprint(const S& s, const NumericalConstraints_t& cs, const std::vector<vector_t>& qs, bool withSolve = true) {
  FP f;
  f.push_back(s.errorThreshold()); f.push_back(s.inequalityThreshold()); f.push_back(s.maxIterations());
  f.push_back(s.lastIsOptional()); f.push_back(s.solveLevelByLevel());
  f.push_back(s.dimension()); f.push_back(s.reducedDimension()); f.push_back(s.numberStacks()); f.push_back(s.constraints().size());
  put(f, allRhs(s));
  for (auto& c : s.constraints()) { f.push_back(c->comparisonType().size()); for (auto x : c->comparisonType()) f.push_back(x); f.push_back(!!c->rightHandSideFunction()); }
  for (auto& g : s.freeVariables().indices()) { f.push_back(g.first); f.push_back(g.second); }
  for (auto& c : cs) {
    f.push_back(s.contains(c));
    vector_t r = c->function().outputSpace()->neutral().vector();
    LiegroupElement e(c->function().outputSpace());
    bool ok = s.getRightHandSide(c, r);
    f.push_back(ok); put(f, r);
  }
  for (auto& q : qs) {
    f.push_back(s.isSatisfied(q));
    vector_t e(s.dimension()); s.residualError(e); put(f, e);
    for (auto& c : cs) { vector_t er = vector_t::Zero(c->function().outputSpace()->nv()); bool fd; f.push_back(s.isConstraintSatisfied(c, q, er, fd)); f.push_back(fd); put(f, er); }
    vector_t x = q;
    if (withSolve) { f.push_back(solveDefault(s, x)); put(f, x); }
  }
  return f;
}
static bool same(const FP& a, const FP& b, std::string& why) {
  if (a.size() != b.size()) { why = Str() << "sizes " << a.size() << " " << b.size(); return false; }
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i])) && !(std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(a[i])))) { why = Str() << "entry " << i << "/" << a.size() << ": " << a[i] << " != " << b[i]; return false; }
  return true;
}
static NumericalConstraints_t handles(const Problem& p) { NumericalConstraints_t v; for (auto& c : p.cons) v.push_back(c.c); return v; }


static ComparisonTypes_t flip(const ComparisonTypes_t& c) { ComparisonTypes_t r(c); for (auto& x : r) x = x == Equality ? EqualToZero : Equality; return r; }

// one documented modification of a solver; returns its name
template <class S> static std::string mutate(Rng& R, S& s, const Problem& p) {
  switch (R.ri(10)) {
    case 0: s.errorThreshold(R.coin() ? s.errorThreshold() * 100 : s.errorThreshold() / 100); return "errorThreshold";
    case 1: s.rightHandSideFromConfig(randomConfig(R, p.r.d)); return "rightHandSideFromConfig";
    case 2: {
      for (auto& c : s.constraints()) { bool known = false; for (auto& k : p.cons) known |= k.c->function() == c->function() && k.comp == c->comparisonType(); if (!known) return "none"; }
      S t(s); t.rightHandSideFromConfig(randomConfig(R, p.r.d)); s.rightHandSide(allRhs(t)); return "rightHandSide(vector)";
    }
    case 3: { if (p.cons.empty()) return "none"; const Con& c = R.pick(p.cons); s.rightHandSideFromConfig(c.c->copy(), randomConfig(R, p.r.d)); return "rightHandSideFromConfig(constraint)"; }
    case 4: s.maxIterations(s.maxIterations() + 7); s.inequalityThreshold(s.inequalityThreshold() + .05); return "maxIterations and inequalityThreshold";
    case 5: { Con c = implicitCon(R, p.r); for (auto& k : p.cons) if (k.c->function() == c.c->function()) return "none"; s.add(c.c, R.ri(2)); return "add"; }
    case 6: { if (p.cons.empty()) return "none"; for (auto& c : s.constraints()) c->comparisonType(flip(c->comparisonType())); return "comparisonType of constraints"; }
    case 7: { segments_t f; for (size_type i = 0; i < p.space->nv(); ++i) if (R.coin(.5)) f.push_back(segment_t(i, 1)); s.freeVariables(f); return "freeVariables"; }
    case 8: s.saturation(std::make_shared<solver::saturation::Base>()); return "saturation";
    default: {
      for (auto& c : s.constraints()) { bool eq = true; for (auto k : c->comparisonType()) eq = eq && k == Equality; if (eq && R.coin(.6)) c->rightHandSideFunction(lieFn(R, 1, c->function().outputSpace(), "time")); }
      s.rightHandSideAt(R.uni());
      return "right hand side functions";
    }
  }
}

template <class S> static void copyCase(Ctx& C, Rng& R, const char* nm) {
  ProblemOpts o; o.levels = 3; o.con.onlyEquality = R.coin(.4);
  Problem p = randomProblem(R, o);
  C.note(p.desc());
  p.maxIter = std::min(p.maxIter, 12);
  S s(p.space);
  build(s, p);
  vector_t qs = randomConfig(R, p.r.d);
  if (R.coin(.7)) s.rightHandSideFromConfig(qs);
  NumericalConstraints_t h;
  for (auto& c : p.cons) h.push_back(c.c->copy());
  std::vector<vector_t> qs3{qs, randomConfig(R, p.r.d), integrate(p.space, qs, randomVec(R, p.space->nv(), .05))};
  FP f0 = fingerprint(s, h, qs3);
  std::shared_ptr<S> t(new S(s)), u(new S(*t));
  std::string why;
  C.check(same(f0, fingerprint(*t, h, qs3), why), "copy/differs", [&] { return Str() << nm << " " << p.desc() << " " << why; });
  std::string hist;
  for (int k = 0; k < 3; ++k) {
    // modify one of the three, the others must not follow
    int w = R.ri(3);
    S* v[] = {&s, t.get(), u.get()};
    FP before[3];
    for (int i = 0; i < 3; ++i) before[i] = fingerprint(*v[i], h, qs3);
    std::string what = mutate(R, *v[w], p);
    if (what == "none") continue;
    hist += Str() << what << "@" << w << " ";
    for (int i = 0; i < 3; ++i) if (i != w) C.check(same(before[i], fingerprint(*v[i], h, qs3), why), "copy/not-independent", [&] { return Str() << nm << " " << hist << "changed " << (i == 0 ? "the original" : "a copy") << ": " << why << " " << p.desc(); });
    std::string x;
    if (!same(before[w], fingerprint(*v[w], h, qs3), x)) C.nontrivial(Str() << nm << p.desc() << hist);
    C.count("mutation-" + what);
    if (R.coin(.3)) { // a fresh copy of a modified solver is again equivalent
      S c(*v[w]);
      C.check(same(fingerprint(*v[w], h, qs3), fingerprint(c, h, qs3), why), "copy/differs-after", [&] { return Str() << nm << " " << hist << why << " " << p.desc(); });
    }
  }
  // the copies survive the original
  FP fu = fingerprint(*u, h, qs3);
  t.reset();
  C.check(same(fu, fingerprint(*u, h, qs3), why), "copy/depends-on-destroyed", [&] { return Str() << nm << " " << why << " " << p.desc(); });
  C.sample(Str() << nm << " " << hist << p.desc().substr(0, 120));
}
SUITE("C07", "copy-by-substitution", 500, 12000) { copyCase<BySub>(C, R, "BySubstitution"); }
SUITE("C07", "copy-hierarchical", 300, 8000) { copyCase<HierIt>(C, R, "HierarchicalIterative"); }

SUITE("C07", "copy-constraint", 500, 10000) {
  ProblemOpts o; o.maxExplicit = 3; o.maxImplicit = 2;
  Problem p = randomProblem(R, o);
  for (auto& c : p.cons) {
    ImplicitPtr_t d = c.c->copy(), e = d->copy();
    auto D = [&] { return Str() << c.kind << " " << p.r.desc; };
    C.check(d != c.c && *d == *c.c && *c.c == *d && *e == *c.c, "constraint/copy-not-equal", D);
    C.check(typeid(*d) == typeid(*c.c), "constraint/copy-type", D);
    ComparisonTypes_t c0 = c.c->comparisonType();
    vector_t q = randomConfig(R, p.r.d);
    auto obs = [&](const ImplicitPtr_t& x) {
      FP f; f.push_back(x->parameterSize()); f.push_back(x->rightHandSideSize()); f.push_back(x->checkAllRowsActive()); f.push_back(!!x->rightHandSideFunction());
      for (auto k : x->comparisonType()) f.push_back(k);
      for (auto& g : x->activeRows()) { f.push_back(g.first); f.push_back(g.second); }
      for (auto& g : x->equalityIndices().indices()) { f.push_back(g.first); f.push_back(g.second); }
      LiegroupElement r(x->function().outputSpace()); x->rightHandSideFromConfig(q, r); put(f, r.vector());
      f.push_back(x->checkRightHandSide(r));
      vector_t er = vector_t::Ones(x->function().outputSpace()->nv()); x->setInactiveRowsToZero(er); put(f, er);
      put(f, x->function()(q).vector());
      matrix_t J(jac(x->functionPtr(), q)); put(f, Eigen::Map<vector_t>(J.data(), J.size()));
      vector_t ra = x->rightHandSideFunction() ? vector_t(x->rightHandSideAt(.3)) : vector_t(); put(f, ra);
      if (ExplicitPtr_t ex = HPP_DYNAMIC_PTR_CAST(Explicit, x)) {
        vector_t qin(Eigen::RowBlockIndices(ex->inputConf()).rview(q).eval());
        LiegroupElement out(ex->explicitFunction()->outputSpace()); LiegroupElement rn(x->function().outputSpace()->neutral());
        ex->outputValue(out, qin, rn); put(f, out.vector());
        for (auto ss : {ex->inputConf(), ex->outputConf(), ex->inputVelocity(), ex->outputVelocity()}) for (auto& g : ss) { f.push_back(g.first); f.push_back(g.second); }
      }
      return f;
    };
    std::string why;
    FP f = obs(c.c);
    C.check(same(f, obs(d), why), "constraint/copy-differs", [&] { return Str() << D().o.str() << " " << why; });
    // modify one side
    ImplicitPtr_t v[] = {c.c, d, e};
    int w = R.ri(3);
    std::string what = "comparison";
    bool eq = true; for (auto k : c0) eq = eq && k == Equality;
    if (R.coin() && eq) { what = "right hand side function"; v[w]->rightHandSideFunction(lieFn(R, 1, c.space(), "time")); }
    else v[w]->comparisonType(flip(c0));
    for (int i = 0; i < 3; ++i) if (i != w) C.check(same(f, obs(v[i]), why), "constraint/copy-not-independent", [&] { return Str() << D().o.str() << " " << what << " of " << w << " changed " << i << ": " << why; });
    C.nontrivial(c.kind + p.r.desc + what + std::to_string(w));
  }
}

// merging
SUITE("C07", "merge", 700, 15000) {
  ProblemOpts o; o.maxImplicit = 4; o.maxExplicit = 4; o.levels = 2; o.restrictFree = false; o.con.inequalities = false;
  Problem p = randomProblem(R, o);
  C.note(p.desc());
  if (p.cons.empty()) return;
  p.saturate = false; p.ineqThr = 0; p.lastOptional = false;
  // split in two overlapping subsets
  Problem pa = p, pb = p; pa.order.clear(); pb.order.clear();
  int shared = 0;
  std::vector<size_t> perm = p.order; R.shuffle(perm);
  for (size_t i : perm) { int k = R.ri(3); if (k != 1) pa.order.push_back(i); if (k != 0) pb.order.push_back(i); shared += k == 2; }
  R.shuffle(pb.order);
  // the shared ones may be copies
  if (R.coin()) for (size_t i : pb.order) { pb.cons[i].c = pb.cons[i].c->copy(); }
  BySub a(p.space), b(p.space), m(p.space);
  build(a, pa); build(b, pb);
  vector_t q = randomConfig(R, p.r.d);
  a.rightHandSideFromConfig(q); b.rightHandSideFromConfig(q);
  NumericalConstraints_t h = handles(p);
  std::vector<vector_t> qs{q, randomConfig(R, p.r.d)};
  FP fb = fingerprint(b, h, qs);
  BySub ac(a);
  m.errorThreshold(p.thr); m.maxIterations(p.maxIter);
  bool fresh = R.coin(.3);
  BySub& t = fresh ? m : ac;
  if (fresh) t.merge(a);
  t.merge(b);
  auto D = [&] { return Str() << (fresh ? "fresh " : "") << p.desc() << " a=" << (int)pa.order.size() << " b=" << (int)pb.order.size() << " shared=" << shared; };
  std::string why;
  C.check(same(fb, fingerprint(b, h, qs), why), "merge/source-changed", [&] { return Str() << D().o.str() << why; });
  size_t n = p.order.size();
  C.check(t.constraints().size() == n, "merge/number", [&] { return Str() << D().o.str() << " got " << t.constraints().size(); });
  for (auto& c : p.cons) C.check(t.contains(c.c), "merge/missing", [&] { return Str() << D().o.str() << " " << c.kind; });
  for (auto& c : p.cons) {
    int k = 0; for (auto& x : t.constraints()) k += *x == *c.c;
    C.check(k == 1, "merge/duplicate", [&] { return Str() << D().o.str() << " " << c.kind << " x" << k; });
  }
  // a second merge, or adding a constraint of the solver again, changes nothing
  t.rightHandSideFromConfig(q);
  FP ft = fingerprint(t, h, qs);
  t.merge(b); t.merge(a);
  for (auto& c : p.cons) if (R.coin(.3)) C.check(!t.add(c.c->copy(), 0), "merge/added-twice", D);
  C.check(same(ft, fingerprint(t, h, qs), why), "merge/not-idempotent", [&] { return Str() << D().o.str() << why; });
  // dimensions
  size_type dim = 0; for (auto& c : p.cons) { ExplicitPtr_t ec = HPP_DYNAMIC_PTR_CAST(Explicit, c.c); bool e = ec && t.explicitConstraintSet().contains(ec); if (!e) dim += c.space()->nv(); }
  C.check(t.dimension() == dim, "merge/dimension", [&] { return Str() << D().o.str() << t.dimension() << " expected " << dim; });
  // verdicts
  for (int k = 0; k < 6; ++k) {
    vector_t x = k == 0 ? q : k == 5 ? randomConfig(R, p.r.d) : integrate(p.space, q, randomVec(R, p.space->nv(), .2));
    if (k == 1) solveDefault(a, x); if (k == 2) solveDefault(b, x); if (k == 3) solveDefault(t, x);
    // error of each constraint, away from the threshold
    bool clear = true, in = true;
    for (auto& c : p.cons) { c.rhs = c.rhsFrom(q); double e = c.error(x, 0).norm(); if (!c.smooth || c.smooth(x)) {} else clear = false; if (e > .3 * p.thr / std::sqrt((double)n) && e < 1.5 * p.thr) clear = false; if (e >= 1.5 * p.thr) in = false; }
    if (!clear) { C.skip("near-threshold"); continue; }
    bool sa = a.isSatisfied(x), sb = b.isSatisfied(x), st = t.isSatisfied(x);
    C.check(st == (sa && sb), "merge/verdict", [&] { return Str() << D().o.str() << " x=" << vs(x) << " a " << sa << " b " << sb << " merged " << st; });
    C.check(st == in, "merge/verdict-definition", [&] { return Str() << D().o.str() << " x=" << vs(x); });
    C.count(std::string("merged-") + (st ? "satisfied" : "violated") + (sa ? "+a" : "-a") + (sb ? "+b" : "-b"));
    if (!pa.order.empty() && !pb.order.empty()) C.nontrivial(Str() << p.desc() << vs(x) << fresh);
  }
}

// restriction of time varying right hand sides to an interval
template <class S> static void extractCase(Ctx& C, Rng& R) {
  ProblemOpts o; o.con.onlyEquality = true; o.levels = 2; o.con.masks = false; o.restrictFree = false;
  Problem p = randomProblem(R, o);
  std::map<size_t, DifferentiableFunctionPtr_t> fn;
  for (size_t i = 0; i < p.cons.size(); ++i) {
    Con& c = p.cons[i];
    bool eq = true; for (auto k : c.comp) eq = eq && k == Equality;
    if (!eq || !R.coin(.8)) continue;
    fn[i] = lieFn(R, 1, c.space(), "time");
    c.c->rightHandSideFunction(fn[i]);
  }
  if (fn.empty()) return;
  S s(p.space);
  build(s, p);
  value_type t1 = R.coin(.25) ? 0 : R.uni(0, 2), t2 = R.uni(0, 2);
  if (R.coin(.3)) s.rightHandSideAt(R.uni());
  NumericalConstraints_t h;
  for (auto& c : p.cons) h.push_back(c.c->copy());
  std::vector<vector_t> qs{randomConfig(R, p.r.d)};
  FP f0 = fingerprint(s, h, qs);
  std::string why;
  S x(s.extract(interval_t(t1, t2)));
  auto D = [&] { return Str() << "[" << t1 << "," << t2 << "] " << p.desc(); };
  C.check(same(f0, fingerprint(s, h, qs), why), "extract/original-changed", [&] { return Str() << D().o.str() << " " << why; });
  if (R.coin(.3)) {
    // modifying the extracted solver, or the original, leaves the other unchanged
    bool w = R.coin();
    S& chg = w ? s : x; S& other = w ? x : s;
    S keep(other);
    FP f1 = fingerprint(other, h, qs);
    std::string what;
    for (int k = 0; k < 3; ++k) what += mutate(R, chg, p) + " ";
    C.check(same(f1, fingerprint(other, h, qs), why), "extract/not-independent", [&] { return Str() << D().o.str() << " " << what << " of the " << (w ? "original: " : "extracted: ") << why; });
    // and later right hand sides are set in the same way as for an untouched copy
    vector_t q = randomConfig(R, p.r.d);
    other.rightHandSideFromConfig(q); keep.rightHandSideFromConfig(q);
    C.check(same(fingerprint(keep, h, qs), fingerprint(other, h, qs), why), "extract/not-independent-later", [&] { return Str() << D().o.str() << " " << what << " of the " << (w ? "original: " : "extracted: ") << why; });
    vector_t r = allRhs(keep);
    other.rightHandSide(r);
    C.check(same(fingerprint(keep, h, qs, false), fingerprint(other, h, qs, false), why), "extract/not-independent-vector", [&] { return Str() << D().o.str() << " " << what << " of the " << (w ? "original: " : "extracted: ") << why; });
    return;
  }
  bool first = R.coin();
  for (int k = 0; k < 3; ++k) {
    double a = R.uni(0, std::fabs(t2 - t1)), b = R.uni(0, 2);
    auto doX = [&] { x.rightHandSideAt(a); };
    auto doS = [&] { s.rightHandSideAt(b); };
    if (first) { doX(); doS(); } else { doS(); doX(); }
    for (auto& kv : fn) {
      const Con& c = p.cons[kv.first];
      auto at = [&](double t) { vector_t S1(1); S1[0] = t; return (*kv.second)(S1).vector().eval(); };
      vector_t rx = c.space()->neutral().vector(), rs = rx;
      bool g1 = x.getRightHandSide(c.c, rx), g2 = s.getRightHandSide(c.c, rs);
      vector_t ex = at(t1 <= t2 ? t1 + a : t1 - a), es = at(b);
      C.check(g1 && g2, "extract/constraint-lost", D);
      C.check(maxAbs(difference(c.space(), rx, ex)) < 1e-9, "extract/value", [&] { return Str() << D().o.str() << " " << c.kind << " at " << a << ": " << vs(rx) << " expected " << vs(ex); });
      C.check(maxAbs(difference(c.space(), rs, es)) < 1e-9, "extract/original-follows", [&] { return Str() << D().o.str() << " " << c.kind << " at " << b << ": " << vs(rs) << " expected " << vs(es); });
      DifferentiableFunctionPtr_t e = DifferentiableFunction::extract(kv.second, interval_t(t1, t2));
      vector_t S1(1); S1[0] = a;
      C.check(maxAbs(difference(c.space(), (*e)(S1).vector(), ex)) < 1e-12, "extract/function-value", D);
      double err; matrix_t N = numJac(valueOf(e), LiegroupSpace::Rn(1), c.space(), S1, err);
      if (err < 1e-6) C.check(close(jac(e, S1), N, 1e-5 * (1 + maxAbs(N))), "extract/function-jacobian", [&] { return Str() << D().o.str() << " J=" << show(jac(e, S1)) << " N=" << show(N); });
      C.nontrivial(Str() << c.kind << t1 << t2 << a);
    }
  }
}
SUITE("C07", "extract-by-substitution", 300, 6000) { extractCase<BySub>(C, R); }
SUITE("C07", "extract-hierarchical", 200, 4000) { extractCase<HierIt>(C, R); }
