// C26: printing, lifetimes, degenerate but valid uses, refused arguments.
#include "problem.hh"
#include "gen2.hh"
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/constraints/distance-between-bodies.hh>
#include <hpp/constraints/explicit/convex-shape-contact.hh>
#include <hpp/constraints/implicit-constraint-set.hh>
#include <hpp/pinocchio/body.hh>
#include <hpp/pinocchio/collision-object.hh>
#include <pinocchio/multibody/geometry.hpp>

static std::string key(const std::string& k) { return k.substr(0, k.find_first_of("/({:")); }
template <class T> static std::string printed(const T& x) { std::ostringstream o; o << x; return o.str(); }
template <class T> static std::string printed2(const T& x) { std::ostringstream o; x.print(o); return o.str(); }
static void put(std::vector<double>& f, const vector_t& v) { for (int i = 0; i < v.size(); ++i) f.push_back(v[i]); }

// --- printing ----------------------------------------------------------------------
SUITE("C26", "print-functions", 300, 6000) {
  std::vector<int> kinds = anyKinds();
  int kind = kinds[C.cur % kinds.size()];
  Robot r = robotFor(R, kind);
  AnyFn a = anyFn(R, r, kind);
  C.note(a.kind + " " + r.desc);
  std::string s = printed(*a.f);
  C.check(!s.empty() && s == printed(*a.f), "print/function/" + key(a.kind), [&] { return a.kind + " " + s; });
  C.check(s.find("nan") == std::string::npos, "print/function-undefined/" + key(a.kind), [&] { return a.kind + " " + s; });
  C.check(a.f->name().empty() || s.find(a.f->name()) != std::string::npos || a.kind.find("Subset") != std::string::npos, "print/function-name/" + key(a.kind), [&] { return a.kind + " " + a.f->name() + ": " + s; });
  printed(*a.f->outputSpace());
  vector_t q = a.rnd(R);
  printed((*a.f)(q));
  printed(*a.f);
  a.f->context("print"); printed(*a.f);
  C.nontrivial(a.kind + r.desc);
  C.sample(a.kind);
}
SUITE("C26", "print-solvers", 200, 6000) {
  ProblemOpts o; o.levels = 3;
  Problem p = randomProblem(R, o);
  C.note(p.desc());
  auto look = [&](const std::string& s) { C.check(s.find("nan") == std::string::npos, "print/solver-undefined", [&] { return p.desc() + "\n" + s; }); };
  BySub s(p.space); HierIt h(p.space);
  look(printed(s)); look(printed(h));
  build(s, p); look(printed(s)); look(printed2(s.explicitConstraintSet()));
  build(h, p); look(printed(h));
  for (auto& c : p.cons) {
    look(printed(c.c->comparisonType()));
    LockedJointPtr_t l = HPP_DYNAMIC_PTR_CAST(LockedJoint, c.c);
    if (l) { look(printed(*l)); C.count("locked-joint"); }
    if (c.e) look(printed(*c.e->explicitFunction()));
  }
  look(printed(s.freeVariables())); look(printed(s.explicitConstraintSet().inArgs())); look(printed(s.explicitConstraintSet().outDers()));
  look(printed(s.explicitConstraintSet().inOutDependencies()));
  vector_t q = randomConfig(R, p.r.d);
  s.rightHandSideFromConfig(q);
  s.solve<solver::lineSearch::FixedSequence>(q);
  look(printed(s));
  BySub t(s); look(printed(t));
  ImplicitConstraintSetPtr_t ics = ImplicitConstraintSet::create("set");
  printed2(*ics);
  for (auto& c : p.cons) ics->add(c.c);
  look(printed2(*ics));
  C.nontrivial(p.desc());
  C.sample(printed(s).substr(0, 120));
}

// --- lifetimes ---------------------------------------------------------------------
SUITE("C26", "lifetimes-functions", 300, 6000) {
  std::vector<int> kinds = anyKinds();
  int kind = kinds[C.cur % kinds.size()];
  Robot r = robotFor(R, kind);
  AnyFn a = anyFn(R, r, kind);
  C.note(a.kind + " " + r.desc);
  std::vector<vector_t> qs; std::vector<vector_t> v; std::vector<matrix_t> J;
  for (int t = 0; t < 3; ++t) {
    vector_t q = a.rnd(R);
    if (!a.smooth(q)) continue;
    qs.push_back(q); v.push_back((*a.f)(q).vector()); J.push_back(jac(a.f, q));
  }
  std::string K = a.kind;
  // the function is the only object that remains
  DifferentiableFunctionPtr_t f = a.f;
  a = AnyFn(); r = Robot();
  for (size_t i = 0; i < qs.size(); ++i) {
    vector_t w = (*f)(qs[i]).vector(); matrix_t N = jac(f, qs[i]);
    C.check(close(w, v[i], 1e-9 * (1 + maxAbs(v[i]))) && close(N, J[i], 1e-7 * (1 + maxAbs(J[i]))), "lifetime/function/" + key(K), [&] { return K + " " + vs(w) + " / " + vs(v[i]); });
  }
  printed(*f);
  if (qs.empty()) { C.skip("not-differentiable"); return; }
  LiegroupElement e = (*f)(qs[0]);
  f.reset();
  printed(e);
  C.nontrivial(K + std::to_string(C.cur));
  C.sample(K);
}
template <class S> static void lifetimes(Ctx& C, Rng& R, const char* nm) {
  ProblemOpts o; o.levels = 3;
  std::shared_ptr<S> s, t;
  std::vector<vector_t> qs;
  std::vector<double> before, after;
  std::string desc;
  bool keepCopy = R.coin();
  auto obs = [&](const S& x, std::vector<double>& f) {
    for (auto q : qs) {
      f.push_back(x.isSatisfied(q)); vector_t e(x.dimension()); x.residualError(e); put(f, e);
      f.push_back(x.template solve<solver::lineSearch::FixedSequence>(q)); put(f, q);
    }
    put(f, x.rightHandSide());
  };
  {
    Problem p = randomProblem(R, o);
    p.maxIter = std::min(p.maxIter, 10);
    desc = p.desc();
    C.note(desc);
    s.reset(new S(p.space));
    build(*s, p);
    vector_t q = randomConfig(R, p.r.d);
    if (R.coin()) s->rightHandSideFromConfig(q);
    qs.push_back(q); qs.push_back(randomConfig(R, p.r.d));
    obs(*s, before);
    if (keepCopy) { t.reset(new S(*s)); s.reset(); s = t; t.reset(); }
    else if (R.coin()) { S c(*s), d(c); c.rightHandSideFromConfig(qs[1]); d.errorThreshold(.5); }
  }
  obs(*s, after);
  bool ok = before.size() == after.size();
  for (size_t i = 0; ok && i < after.size(); ++i) ok = std::fabs(before[i] - after[i]) <= 1e-9 * (1 + std::fabs(before[i])) || (std::isnan(before[i]) && std::isnan(after[i])) || before[i] == after[i];
  C.check(ok, std::string("lifetime/") + nm, [&] { return desc; });
  NumericalConstraints_t cs = s->constraints();
  s.reset();
  for (auto& c : cs) { c->copy(); printed(c->function()); }
  C.count(keepCopy ? "copy-outlives" : "original-outlives");
  C.nontrivial(desc);
  C.sample(desc.substr(0, 120));
}
SUITE("C26", "lifetimes-by-substitution", 150, 5000) { lifetimes<BySub>(C, R, "by-substitution"); }
SUITE("C26", "lifetimes-hierarchical", 100, 3000) { lifetimes<HierIt>(C, R, "hierarchical"); }

// --- degenerate but valid uses --------------------------------------------------------
SUITE("C26", "empty", 60, 400) {
  Robot r = randomRobot(R);
  vector_t q = randomConfig(R, r.d), q0 = q;
  C.note(r.desc);
  BySub s(r.space()); HierIt h(r.space());
  s.errorThreshold(1e-3); h.errorThreshold(1e-3); s.maxIterations(5); h.maxIterations(5);
  if (R.coin()) { segments_t none; s.freeVariables(none); h.freeVariables(none); }
  if (R.coin()) { s.saturation(std::make_shared<solver::saturation::Device>(r.d)); h.saturation(std::make_shared<solver::saturation::Device>(r.d)); }
  bool ok = s.isSatisfied(q) && h.isSatisfied(q);
  vector_t e(0);
  ok = ok && s.isSatisfied(q, e) && s.dimension() == 0 && h.dimension() == 0 && s.rightHandSide().size() == 0 && h.rightHandSide().size() == 0 && s.rightHandSideFromConfig(q).size() == 0 && h.rightHandSideFromConfig(q).size() == 0;
  s.rightHandSideAt(.3); h.rightHandSideAt(.3); s.rightHandSide(vector_t(0)); h.rightHandSide(vector_t(0));
  ok = ok && s.solve<solver::lineSearch::Constant>(q) == HierIt::SUCCESS && h.solve<solver::lineSearch::Backtracking>(q) == HierIt::SUCCESS && q == q0;
  C.check(ok, "empty/solver", [&] { return r.desc; });
  BySub s2(s); HierIt h2(h); s2.merge(s); h2.merge(h);
  vector_t v = randomVec(R, r.nv()), w(v.size());
  s.projectVectorOnKernel(q, v, w);
  printed(s); printed(h);
  ExplicitConstraintSet x(r.space());
  x.solve(q); C.check(q == q0 && x.isSatisfied(q), "empty/explicit-set", [&] { return r.desc; });
  x.rightHandSideFromInput(q); x.rightHandSide(vector_t(0)); printed2(x);
  matrix_t J = matrix_t::Zero(r.nv(), r.nv()); x.jacobian(J, q);
  DifferentiableFunctionSetPtr_t fs = DifferentiableFunctionSet::create("empty"); printed(*fs);
  ImplicitConstraintSetPtr_t cs = ImplicitConstraintSet::create("empty"); cs->copy(); C.check(*cs == *cs->copy() && cs->parameterSize() == 0, "empty/constraint-set", [&] { return r.desc; });
  // a constraint none of whose rows is active
  Con k = implicitCon(R, r);
  ImplicitPtr_t c = Implicit::create(k.c->functionPtr(), k.comp, std::vector<bool>(k.comp.size(), false));
  BySub m(r.space()); m.errorThreshold(1e-3); m.maxIterations(5); m.add(c, R.ri(2));
  if (!k.smooth || k.smooth(q)) {
    vector_t qq = q;
    C.check(m.isSatisfied(q) && m.solve<solver::lineSearch::FixedSequence>(qq) == HierIt::SUCCESS && qq == q, "empty/inactive-constraint", [&] { return r.desc + k.kind; });
  }
  printed(m);
  C.nontrivial(r.desc + vs(q)); C.sample(r.desc);
}

// --- refused arguments ------------------------------------------------------------------
template <class E, class F> static void refused(Ctx& C, const std::string& what, const std::string& desc, F f) {
  try { f(); }
  catch (const E& e) { C.check(std::string(e.what()).size() > 0, "refused/no-message/" + what, [&] { return desc; }); C.count(what); return; }
  catch (const std::exception& e) { C.fail("refused/other-exception/" + what, desc + ": " + e.what()); return; }
  C.fail("refused/accepted/" + what, desc);
}
SUITE("C26", "refused-arguments", 600, 10000) {
  Robot r = randomRobot(R);
  std::string D = r.desc;
  int what = (int)(C.cur % 10);
  C.note(std::to_string(what) + " " + D);
  switch (what) {
    case 0: {  // right-hand side functions
      Con k = implicitCon(R, r);
      k.comp.assign(k.comp.size(), Equality);
      ImplicitPtr_t c = Implicit::create(k.c->functionPtr(), k.comp, k.mask);
      DifferentiableFunctionPtr_t good = lieFn(R, 1, k.space(), "time");
      c->rightHandSideFunction(good);
      vector_t v0 = c->rightHandSideAt(.3);
      auto same = [&] { C.check(c->rightHandSideFunction() == good && c->comparisonType() == k.comp && maxAbs(vector_t(c->rightHandSideAt(.3)) - v0) == 0, "refused/changed/rhs-function", [&] { return D + k.kind; }); };
      refused<std::invalid_argument>(C, "rhs-function-input", D, [&] { c->rightHandSideFunction(lieFn(R, 2, k.space(), "time")); }); same();
      refused<std::invalid_argument>(C, "rhs-function-space", D, [&] { c->rightHandSideFunction(lieFn(R, 1, LiegroupSpace::Rn(k.space()->nq() + 1), "time")); }); same();
      ComparisonTypes_t x = k.comp; x[R.ri((int)x.size())] = ComparisonType(R.coin() ? EqualToZero : R.coin() ? Superior : Inferior);
      ImplicitPtr_t c2 = Implicit::create(k.c->functionPtr(), x, k.mask);
      refused<std::invalid_argument>(C, "rhs-function-comparison", D, [&] { c2->rightHandSideFunction(good); });
      C.check(!c2->rightHandSideFunction(), "refused/changed/rhs-function", [&] { return D; });
      c->rightHandSideFunction(DifferentiableFunctionPtr_t());
      C.check(!c->rightHandSideFunction(), "refused/rhs-function-not-removed", [&] { return D; });
      break;
    }
    case 1: {  // weights
      ConfigurationConstraintPtr_t f = ConfigurationConstraint::create("c", r.d, randomConfig(R, r.d));
      vector_t w = randomVec(R, r.nv()).cwiseAbs(), q = randomConfig(R, r.d);
      f->weights(w);
      vector_t v = (*f)(q).vector();
      for (size_type n : {r.nv() + 1, r.nv() - 1, (size_type)0, r.nq() == r.nv() ? r.nv() + 2 : r.nq()})
        refused<std::invalid_argument>(C, "weights", D, [&] { f->weights(vector_t::Ones(n)); });
      refused<std::invalid_argument>(C, "weights-at-creation", D, [&] { ConfigurationConstraint::create("c", r.d, q, vector_t(vector_t::Ones(r.nv() + 1))); });
      C.check(f->weights() == w && (*f)(q).vector() == v, "refused/changed/weights", [&] { return D; });
      break;
    }
    case 2: {  // twice the same function
      HierIt h(r.space());
      h.errorThreshold(1e-3); h.maxIterations(5);
      Con k = implicitCon(R, r), k2 = implicitCon(R, r);
      h.add(k.c, 0);
      vector_t q = randomConfig(R, r.d);
      bool b = h.isSatisfied(q); size_type n = h.dimension();
      vector_t rhs = h.rightHandSideFromConfig(q);
      refused<std::logic_error>(C, "already-in-solver", D, [&] { h.add(R.coin() ? k.c : k.c->copy(), R.ri(3)); });
      vector_t x = q;
      C.check(h.dimension() == n && h.constraints().size() == 1 && h.numberStacks() == 1 && h.rightHandSide() == rhs, "refused/changed/solver", [&] { return D; });
      h.solve<solver::lineSearch::FixedSequence>(x); (void)b;
      break;
    }
    case 3: {  // an explicit constraint whose inputs and outputs overlap
      std::vector<JointPtr_t> vj = vectorJoints(r);
      if (vj.size() < 2) { C.skip("no-vector-joint"); return; }
      JointPtr_t a = R.pick(vj), b = R.pick(vj);
      segments_t ic, iv, oc{segment_t(a->rankInConfiguration(), a->configSize())}, ov{segment_t(a->rankInVelocity(), a->numberDof())};
      ic = oc; iv = ov;
      if (b->index() != a->index()) { ic.insert(R.coin() ? ic.begin() : ic.end(), segment_t(b->rankInConfiguration(), b->configSize())); iv.push_back(segment_t(b->rankInVelocity(), b->numberDof())); if (ic[0] != oc[0]) std::swap(iv[0], iv[1]); }
      size_type n = 0, nv = 0; for (auto& s : ic) n += s.second;
      for (auto& s : iv) nv += s.second;
      if (n + a->configSize() > r.d->configSize() || nv + a->numberDof() > r.d->numberDof()) { C.skip("more variables than the robot has"); return; }
      ExplicitPtr_t e = Explicit::create(r.space(), lieFn(R, n, LiegroupSpace::Rn(a->configSize()), "self"), ic, oc, iv, ov, ComparisonTypes_t(a->numberDof(), EqualToZero), std::vector<bool>(a->numberDof(), true));
      ExplicitConstraintSet s(r.space());
      JointPtr_t l = R.pick(allJoints(r));
      Con lk = lockedCon(R, r, l);
      s.add(lk.e);
      size_type err = s.errorSize();
      vector_t q = randomConfig(R, r.d), q1 = q, q2 = q;
      s.solve(q1);
      refused<std::logic_error>(C, "self-dependent", D, [&] { s.add(e); });
      s.solve(q2);
      C.check(s.errorSize() == err && q1 == q2 && !s.contains(e), "refused/changed/explicit-set", [&] { return D; });
      break;
    }
    case 4: refused<std::logic_error>(C, "empty-shape", D, [&] { ConvexShape s(std::vector<vector3_t>(), randomJoint(R, r.d)); }); break;
    case 5: {  // extraction of a function of several variables
      DifferentiableFunctionPtr_t f = smoothFn(R, R.range(2, 4), R.range(1, 3));
      value_type a = R.uni(), b = R.uni();
      refused<std::logic_error>(C, "extract", D, [&] { DifferentiableFunction::extract(f, interval_t(a, b)); });
      break;
    }
    case 6: {  // no collision pair
      RobotOpts ro; ro.geometry = true; ro.predefined = .3;
      Robot g = randomRobot(R, ro);
      std::vector<JointPtr_t> js;
      for (auto j : allJoints(g)) { hpp::pinocchio::BodyPtr_t b = j->linkedBody(); if (b && b->nbInnerObjects() > 0) js.push_back(j); }
      if (js.empty()) { C.skip("no-geometry"); return; }
      JointPtr_t j = R.pick(js);
      // an object is never paired with itself
      std::vector<hpp::pinocchio::CollisionObjectPtr_t> own;
      const hpp::pinocchio::GeomModel& gm = g.d->geomModel();
      for (size_t i = 0; i < gm.geometryObjects.size(); ++i) if (gm.geometryObjects[i].parentJoint == j->index()) own.push_back(hpp::pinocchio::CollisionObjectPtr_t(new hpp::pinocchio::CollisionObject(g.d, i)));
      refused<std::invalid_argument>(C, "collision-pair", g.desc, [&] { DistanceBetweenBodies::create("d", g.d, j, own); });
      break;
    }
    case 7: {  // explicit contacts of objects that are not free
      std::vector<JointPtr_t> nf, ff = freeflyerRoots(r);
      for (auto j : allJoints(r)) { bool f = false; for (auto k : ff) f |= k->index() == j->index(); if (!f) nf.push_back(j); }
      if (nf.empty()) { C.skip("only-free-flyers"); return; }
      Contact c = randomContact(R, r, true, R.pick(nf));
      refused<std::logic_error>(C, "contact-not-free", D, [&] { explicit_::ConvexShapeContact::create("c", r.d, c.F(), c.O(), c.margin); });
      if (!ff.empty()) {
        Contact c2 = randomContact(R, r, true, R.pick(ff));
        JointAndShapes_t o = c2.O(), o2 = c.O();
        o.insert(o.end(), o2.begin(), o2.end());
        refused<std::logic_error>(C, "contact-several-joints", D, [&] { explicit_::ConvexShapeContact::create("c", r.d, c2.F(), o, c2.margin); });
      }
      break;
    }
    case 8: {  // merging a solver that holds the same functions leaves both usable
      ProblemOpts o; Problem p = randomProblem(R, o);
      BySub s(p.space); build(s, p);
      size_t n = s.constraints().size(); size_type d = s.dimension();
      for (auto& c : p.cons) C.check(!s.add(c.c->copy(), R.ri(2)), "refused/accepted/duplicate", [&] { return p.desc() + c.kind; });
      C.check(s.constraints().size() == n && s.dimension() == d, "refused/changed/duplicate", [&] { return p.desc(); });
      C.count("duplicate", (long)p.cons.size());
      break;
    }
    default: {  // floors that are not surfaces
      Robot& g = r;
      Contact c = randomContact(R, g);
      for (auto& s : c.floors) s.p.resize(2);
      ConvexShapeContactPtr_t f;
      vector_t q = randomConfig(R, g.d);
      refused<std::logic_error>(C, "contact-on-lines", D, [&] { f = ConvexShapeContact::create("c", g.d, c.F(), c.O()); (*f)(q); });
      if (f) { C.note("jacobian"); refused<std::logic_error>(C, "contact-on-lines", D, [&] { jac(f, q); }); }
      break;
    }
  }
  C.nontrivial(Str() << what << D);
  C.sample(Str() << what << " " << D);
}
