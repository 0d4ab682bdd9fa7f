// C27 declared relative-pose dependencies, C19 purity of solver queries,
// C14 extracted functions, differences, subsets of parameters; C15/C20 constraints.
#include "problem.hh"
#include "gen2.hh"
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/explicit/convex-shape-contact.hh>
#include <hpp/constraints/explicit/relative-transformation.hh>
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/implicit-constraint-set.hh>

static std::string key(const std::string& k) { return k.substr(0, k.find_first_of("/({:")); }
static size_type idx(const JointConstPtr_t& j) { return j ? j->index() : 0; }
static bool below(const JointConstPtr_t& a, const JointConstPtr_t& j) {  // j is a or an ancestor of a
  for (JointConstPtr_t b = a; b && b->index() != 0; b = b->parentJoint()) if (b->index() == j->index()) return true;
  return false;
}
// joints moving one of the two joints but not the other
static std::set<size_type> between(const JointConstPtr_t& a, const JointConstPtr_t& b) {
  std::set<size_type> s;
  for (JointConstPtr_t x = a; x && x->index() != 0; x = x->parentJoint()) if (!below(b, x)) s.insert(x->index());
  for (JointConstPtr_t x = b; x && x->index() != 0; x = x->parentJoint()) if (!below(a, x)) s.insert(x->index());
  return s;
}
typedef std::pair<JointConstPtr_t, JointConstPtr_t> JJ;
static SE3 rel(const Robot& r, const JJ& p, const vector_t& q) {
  Kin K(r.d, q);
  return K.joint(p.first).inverse() * K.joint(p.second);
}
static double dist(const SE3& a, const SE3& b) {
  return (a.translation() - b.translation()).norm() + (a.rotation() - b.rotation()).norm();
}
static std::string pairStr(const JJ& p) { return Str() << "(" << (p.first ? p.first->name() : "universe") << ", " << (p.second ? p.second->name() : "universe") << ")"; }
static std::string cmps(const ComparisonTypes_t& c) { std::string s; for (auto x : c) s += x == Equality ? 'E' : x == EqualToZero ? '0' : x == Superior ? '>' : '<'; return s; }

static bool declared(Ctx& C, const JJ& p, const std::string& w) {
  if (!p.first && !p.second) { C.count("no-pair"); return false; }
  C.check(idx(p.first) <= idx(p.second), "pair-order", [&] { return w + " " + pairStr(p); });
  return idx(p.first) != idx(p.second);
}

static void functionDepends(Ctx& C, Rng& R, const Robot& r, const DifferentiableFunctionPtr_t& f, const std::string& kind, const std::function<bool(const vector_t&)>& smooth, const std::function<vector_t(Rng&)>& rnd) {
  std::string w = kind + " robot=" + r.desc;
  JJ p = f->dependsOnRelPoseBetween(r.d);
  if (!declared(C, p, w)) return;
  std::set<size_type> on = between(p.first, p.second);
  for (int t = 0; t < 4; ++t) {
    vector_t q = rnd(R);
    if (smooth && !smooth(q)) { C.count("near-singular"); continue; }
    vector_t q2 = randomConfig(R, r.d);
    for (auto j : allJoints(r)) if (on.count(j->index())) q2.segment(j->rankInConfiguration(), j->configSize()) = q.segment(j->rankInConfiguration(), j->configSize());
    double d = dist(rel(r, p, q), rel(r, p, q2));
    if (!(d < 1e-9)) { C.skip("relative-pose-moved"); continue; }
    vector_t v = (*f)(q).vector(), v2 = (*f)(q2).vector();
    C.check(maxAbs(v - v2) <= 1e-7 * (1 + maxAbs(v)), "value-depends-on-more-than-relative-pose/" + key(kind), [&] { return Str() << w << " " << pairStr(p) << " q=" << vs(q) << " q2=" << vs(q2) << " v=" << vs(v) << " v2=" << vs(v2); });
    C.count("function:" + key(kind));
    C.nontrivial(kind + r.desc + vs(q));
    C.sample(w.substr(0, 160) + " depends on " + pairStr(p));
  }
}

// A declared pair is rigidly linked over the level sets of the constraint.
static void constraintFixes(Ctx& C, Rng& R, const Robot& r, const ImplicitPtr_t& c, const std::string& kind, const vector_t* from = nullptr) {
  std::string w = kind + " robot=" + r.desc;
  JJ p = c->doesConstrainRelPoseBetween(r.d);
  if (!declared(C, p, w)) { C.count("constraint-none:" + key(kind)); return; }
  C.count("constraint-declares:" + key(kind));
  std::vector<SE3> poses; std::vector<vector_t> qs;
  bool parametric = c->parameterSize() > 0;
  vector_t q0 = from ? *from : randomConfig(R, r.d);
  for (int t = 0; t < 7; ++t) {
    BySub s(r.space());
    s.errorThreshold(1e-8); s.maxIterations(60);
    s.add(c->copy(), 0);
    s.rightHandSideFromConfig(q0);
    vector_t q = t == 0 ? q0 : randomConfig(R, r.d);
    BySub::Status st;
    switch (R.ri(3)) {
      case 0: st = s.solve<solver::lineSearch::Backtracking>(q); break;
      case 1: st = s.solve<solver::lineSearch::FixedSequence>(q); break;
      default: { solver::lineSearch::ErrorNormBased ls(.2); st = s.solve(q, ls); }
    }
    if (st != BySub::SUCCESS) { C.count("not-solved"); continue; }
    if (!inSpace(r.space(), q)) { C.skip("not-a-configuration"); continue; }
    poses.push_back(rel(r, p, q)); qs.push_back(q);
  }
  // along the level set by displacements of single joints
  if (!qs.empty()) {
    for (int t = 0; t < 6; ++t) {
      vector_t q = R.pick(qs), q2 = randomConfig(R, r.d), q3 = q;
      JointPtr_t j = R.pick(allJoints(r));
      q3.segment(j->rankInConfiguration(), j->configSize()) = q2.segment(j->rankInConfiguration(), j->configSize());
      BySub s(r.space());
      s.errorThreshold(1e-8);
      s.add(c->copy(), 0);
      s.rightHandSideFromConfig(q0);
      if (!s.isSatisfied(q3)) continue;
      poses.push_back(rel(r, p, q3)); qs.push_back(q3);
      C.count("moved-along-level-set");
    }
  }
  for (size_t i = 1; i < poses.size(); ++i) {
    C.check(dist(poses[0], poses[i]) < 1e-5, "relative-pose-varies/" + key(kind), [&] { return Str() << w << " " << pairStr(p) << " q1=" << vs(qs[0]) << " q2=" << vs(qs[i]) << " distance " << dist(poses[0], poses[i]); });
    C.count(parametric ? "same-right-hand-side" : "fixed-right-hand-side");
  }
  if (poses.size() > 1) { C.nontrivial(kind + r.desc + vs(qs[1])); C.sample(w.substr(0, 160) + " fixes " + pairStr(p)); }
}

SUITE("C27", "functions", 900, 20000) {
  std::vector<int> kinds;
  for (int k : anyKinds()) if (k != ANY_EXPREL && k != ANY_AFFINE && k != ANY_CONSTANT && k != ANY_IDENTITY && k < ANY_SUBSET) kinds.push_back(k);
  for (int k : {ANY_CONTACT, ANY_COMPLEMENT, ANY_HOLD}) kinds.push_back(k);
  int kind = kinds[C.cur % kinds.size()];
  Robot r = robotFor(R, kind);
  AnyFn k = anyFn(R, r, kind);
  C.note(k.kind + " " + r.desc);
  if (!k.robotInput && kind != ANY_IMPLFN && k.in->nq() != r.nq()) { C.count("not-on-the-robot"); return; }
  functionDepends(C, R, r, k.f, k.kind, k.smooth, k.rnd);
  // constraints built on the function
  if (k.f->outputSize() == 0) return;
  ComparisonTypes_t comp = randomComp(R, k.f->outputSpace(), true, false);
  std::vector<bool> mask(comp.size(), true);
  if (R.coin(.3)) for (size_t i = 0; i < mask.size(); ++i) mask[i] = R.coin(.8);
  ImplicitPtr_t c = Implicit::create(k.f, comp, mask);
  constraintFixes(C, R, r, c, "implicit " + k.kind + ":" + cmps(comp));
}

SUITE("C27", "constraints", 1500, 30000) {
  RobotOpts ro; ro.minJoints = 3; ro.maxJoints = 7; ro.predefined = .15;
  Robot r = randomRobot(R, ro);
  std::vector<JointPtr_t> js = allJoints(r), vj = vectorJoints(r), ff = freeflyerRoots(r);
  Con k;
  switch (C.cur % 6) {
    case 0: k = lockedCon(R, r, R.pick(js)); break;
    case 1: {
      std::vector<JointPtr_t> se3;
      for (auto j : ff) if (*j->configurationSpace() == *LiegroupSpace::SE3()) se3.push_back(j);
      if (se3.empty()) { k = lockedCon(R, r, R.pick(js)); break; }
      JointPtr_t j = R.pick(se3), j1;
      if (R.coin(.85)) j1 = R.pick(js);
      if (j1 && below(j1, j)) j1.reset();
      k = relPoseCon(R, r, j1, j);
      break;
    }
    case 2: {  // generic explicit constraint, possibly constant (no input)
      std::vector<JointPtr_t> out(1, R.pick(js)), in;
      if (R.coin(.3)) { JointPtr_t nx; for (auto x : js) if (x->rankInConfiguration() == out[0]->rankInConfiguration() + out[0]->configSize()) nx = x; if (nx) out.push_back(nx); }
      if (R.coin(.4)) for (auto x : vj) { bool o = false; for (auto y : out) o |= y->index() == x->index(); if (!o && R.coin(.5)) in.push_back(x); }
      if (in.empty()) {
        k.outSpace = LiegroupSpace::createCopy(out[0]->configurationSpace());
        for (size_t i = 1; i < out.size(); ++i) *k.outSpace *= out[i]->configurationSpace();
        LiegroupElement e = randomElement(R, k.outSpace);
        DifferentiableFunctionPtr_t f = ConstantFunction::create(e, 0, 0, "constant");
        segments_t oc{segment_t(out[0]->rankInConfiguration(), k.outSpace->nq())}, ov{segment_t(out[0]->rankInVelocity(), k.outSpace->nv())};
        k.comp.assign(k.outSpace->nv(), R.coin() ? Equality : EqualToZero);
        k.e = Explicit::create(r.space(), f, segments_t(), oc, segments_t(), ov, k.comp, std::vector<bool>(k.comp.size(), true));
        k.c = k.e; k.kind = "constant:" + k.outSpace->name() + ":" + cmps(k.comp);
      } else k = explicitCon(R, r, out, in);
      break;
    }
    case 3: {  // partially locked joint, extra configuration variables
      JointPtr_t j = R.pick(js);
      int t = R.ri(3);
      if (t == 0 && r.extra() > 0) {
        size_type i = R.ri((int)r.extra());
        vector_t v(1); v[0] = R.uni();
        k.c = LockedJoint::create(r.d, i, v); k.kind = "extra-locked";
      } else if (j->numberDof() > 1 && j->configurationSpace()->isVectorSpace()) {
        size_type i = R.ri((int)j->numberDof());
        vector_t v(1); v[0] = R.uni();
        k.c = LockedJoint::create(j, i, v); k.kind = "partially-locked";
      } else k = lockedCon(R, r, j);
      break;
    }
    default: {  // 6D transformations with every kind of comparison and mask
      JointPtr_t j2 = R.pick(js), j1;
      if (R.coin(.7)) j1 = R.pick(js);
      if (j1 && j1->index() == j2->index()) j1.reset();
      SE3 F1 = randomSE3(R), F2 = randomSE3(R);
      std::vector<bool> m(6, true);
      DifferentiableFunctionPtr_t f;
      int t = R.ri(4);
      bool so3 = t >= 2;
      if (!so3 && R.coin(.2)) m[R.ri(6)] = false;
      if (!j1) t = t & ~1; else t |= 1;
      switch (t) {
        case 0: f = Transformation::create("T", r.d, j2, F2, F1, m); break;
        case 1: f = RelativeTransformation::create("T", r.d, j1, j2, F1, F2, m); break;
        case 2: f = TransformationR3xSO3::create("T", r.d, j2, F2, F1, m); break;
        default: f = RelativeTransformationR3xSO3::create("T", r.d, j1, j2, F1, F2, m); break;
      }
      size_type n = f->outputDerivativeSize();
      k.comp.assign(n, Equality);
      int s = R.ri(4);
      if (!so3 || s == 1) for (auto& x : k.comp) x = s == 0 ? Equality : s == 1 ? EqualToZero : s == 2 ? (R.coin() ? Equality : EqualToZero) : (R.coin(.6) ? Equality : R.coin() ? Superior : R.coin() ? Inferior : EqualToZero);
      if (s == 1 && so3) k.comp.assign(n, EqualToZero);
      std::vector<bool> mask(n, true);
      if (R.coin(.2)) mask[R.ri((int)n)] = false;
      k.c = Implicit::create(f, k.comp, mask);
      k.kind = Str() << (so3 ? "transformationR3xSO3" : "transformation") << (j1 ? "/relative:" : "/absolute:") << cmps(k.comp);
      bool full = n == 6, eq = true;
      for (bool b : mask) full &= b;
      for (auto x : k.comp) eq &= x == Equality || x == EqualToZero;
      if (full && eq) {
        JJ p = k.c->doesConstrainRelPoseBetween(r.d);
        size_type a = std::min(idx(j1), idx(j2)), b = std::max(idx(j1), idx(j2));
        C.check(idx(p.first) == a && idx(p.second) == b, "complete-constraint-not-declared/" + key(k.kind), [&] { return Str() << k.kind << " " << r.desc << " " << pairStr(p) << " expected " << a << "," << b; });
      }
    }
  }
  C.note(k.kind + " " + r.desc);
  if (k.kind.compare(0, 7, "locked:") == 0) {
    JJ p = k.c->doesConstrainRelPoseBetween(r.d);
    size_type out = -1, par = -1;
    for (auto j : js) if (j->rankInConfiguration() == k.outConf[0].first) { out = j->index(); par = idx(j->parentJoint()); }
    C.check(idx(p.first) == par && idx(p.second) == out, "locked-joint-not-declared", [&] { return Str() << k.kind << " " << r.desc << " " << pairStr(p) << " expected " << par << "," << out; });
  }
  // comparisons may be changed after construction
  constraintFixes(C, R, r, k.c, k.kind);
  if (!k.c->function().outputSpace()->nq()) return;
  DifferentiableFunctionPtr_t f = k.c->functionPtr();
  functionDepends(C, R, r, f, "function of " + k.kind, k.smooth, [&](Rng& R) { return randomConfig(R, r.d); });
}
