// C08: archives.
#include "problem.hh"
#include "gen2.hh"
#include <boost/serialization/vector.hpp>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/explicit/implicit-function.hh>
#include <hpp/pinocchio/serialization.hh>
#include <hpp/util/serialization.hh>
#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>

namespace ser = hpp::serialization;
static const char* fmtName(int f) { const char* n[] = {"xml", "text", "binary"}; return n[f]; }
template <class OA, class IA, class T> static void rt(const T& in, T& out, const DevicePtr_t& d) {
  std::stringstream ss;
  { OA oa(ss); if (d) oa.insert(d->name(), d.get()); oa << boost::serialization::make_nvp("object", in); }
  { IA ia(ss); if (d) ia.insert(d->name(), d.get()); ia >> boost::serialization::make_nvp("object", out); }
}
template <class T> static void roundTrip(int fmt, const T& in, T& out, const DevicePtr_t& d) {
  switch (fmt) {
    case 0: rt<ser::xml_oarchive, ser::xml_iarchive>(in, out, d); break;
    case 1: rt<ser::text_oarchive, ser::text_iarchive>(in, out, d); break;
    default: rt<ser::binary_oarchive, ser::binary_iarchive>(in, out, d); break;
  }
}
template <class T> static std::string printed(const T& x) { std::ostringstream o; o.precision(12); o << x; return o.str(); }
static vector_t ex(const vector_t& q, const segments_t& s) {
  vector_t y((size_type)Eigen::BlockIndex::cardinal(s)); size_type k = 0;
  for (auto& x : s) { y.segment(k, x.second) = q.segment(x.first, x.second); k += x.second; }
  return y;
}

// same observable function
static void sameFunction(Ctx& C, Rng& R, const std::string& K, const std::string& desc, const DifferentiableFunctionPtr_t& f, const DifferentiableFunctionPtr_t& g, const std::function<vector_t(Rng&)>& rnd, const DevicePtr_t& dev, bool jacobian = true) {
  if (!C.check((bool)g, K + "/null", [&] { return desc; })) return;
  bool sizes = f->inputSize() == g->inputSize() && f->inputDerivativeSize() == g->inputDerivativeSize() && f->outputSize() == g->outputSize() && f->outputDerivativeSize() == g->outputDerivativeSize() && *f->outputSpace() == *g->outputSpace();
  if (!C.check(sizes, K + "/sizes", [&] { return Str() << desc << " in " << g->inputSize() << " " << g->inputDerivativeSize() << " out " << g->outputSize() << " " << g->outputDerivativeSize(); })) return;
  C.check(f->name() == g->name(), K + "/name", [&] { return desc + " " + g->name(); });
  bool act = f->activeParameters().size() == g->activeParameters().size() && f->activeDerivativeParameters().size() == g->activeDerivativeParameters().size();
  if (act) act = (f->activeParameters() == g->activeParameters()).all() && (f->activeDerivativeParameters() == g->activeDerivativeParameters()).all();
  C.check(act, K + "/active-parameters", [&] { return desc; });
  C.check(printed(*f) == printed(*g), K + "/printed", [&] { return desc + "\n" + printed(*f) + "\n" + printed(*g); });
  for (int t = 0; t < 3; ++t) {
    vector_t x = rnd(R);
    // the loaded object must not depend on evaluations of the original
    vector_t vg = (*g)(x).vector();
    matrix_t Jg = jacobian ? jac(g, x) : matrix_t();
    vector_t vf = (*f)(x).vector();
    matrix_t Jf = jacobian ? jac(f, x) : matrix_t();
    auto D = [&] { return Str() << desc << " x=" << vs(x) << " original " << vs(vf) << " loaded " << vs(vg) << "\n" << show(Jf, 8) << "\n" << show(Jg, 8); };
    C.check(close(vf, vg, 1e-11 * (1 + maxAbs(vf))), K + "/value", D);
    C.check(close(Jf, Jg, 1e-9 * (1 + maxAbs(Jf))), K + "/jacobian", D);
  }
  if (dev) {
    auto a = f->dependsOnRelPoseBetween(dev), b = g->dependsOnRelPoseBetween(dev);
    auto id = [](const JointConstPtr_t& j) { return j ? (long)j->index() : -1l; };
    C.check(id(a.first) == id(b.first) && id(a.second) == id(b.second), K + "/rel-pose-dependency", [&] { return desc; });
  }
}

// serialisable functions
static const std::vector<int>& serialisable() {
  static const std::vector<int> k = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, ANY_AFFINE, ANY_CONSTANT, ANY_IDENTITY};
  return k;
}
SUITE("C08", "functions", 900, 20000) {
  int kind = serialisable()[C.cur % serialisable().size()];
  Robot r = robotFor(R, kind);
  AnyFn a = anyFn(R, r, kind);
  if (!a.f) { C.skip("not-available"); return; }
  std::string desc = r.desc + " " + a.kind;
  std::string K = "function/" + a.kind.substr(0, a.kind.find_first_of(": [(/"));
  for (int fmt = 0; fmt < 3; ++fmt) {
    C.note(desc + fmtName(fmt));
    DifferentiableFunctionPtr_t g;
    try { roundTrip(fmt, a.f, g, r.d); }
    catch (const std::exception& e) { C.fail(K + "/exception", desc + " " + fmtName(fmt) + " " + e.what()); return; }
    sameFunction(C, R, K, desc + " " + fmtName(fmt), a.f, g, a.rnd, a.robotInput ? r.d : DevicePtr_t(), a.hasJacobian);
    C.count(K);
  }
  C.nontrivial(desc + std::to_string(C.cur));
  C.sample(desc.substr(0, 160));
}

// constraints whose functions are serialisable
static Con serialCon(Rng& R, const Robot& r, bool ineq = true) {
  std::vector<JointPtr_t> js = allJoints(r), vj = vectorJoints(r), ff = freeflyerRoots(r);
  int kind = R.ri(5);
  JointPtr_t j = R.pick(js);
  if (kind == 0) return lockedCon(R, r, j);
  if (kind == 1 && !ff.empty()) {
    j = R.pick(ff);
    if (*j->configurationSpace() == *LiegroupSpace::SE3()) {
      JointPtr_t j1 = R.coin(.8) ? R.pick(js) : JointPtr_t();
      for (JointConstPtr_t a = j1; a && a->index() != 0; a = a->parentJoint()) if (a->index() == j->index()) { j1.reset(); break; }
      return relPoseCon(R, r, j1, j);
    }
  }
  if (kind == 2 && vj.size() > 1) {
    // affine explicit constraint
    JointPtr_t o = R.pick(vj);
    Con k; segments_t ic, iv; size_type n = 0;
    for (auto x : vj) if (x->index() != o->index() && (R.coin(.5) || !n)) { ic.push_back(segment_t(x->rankInConfiguration(), x->configSize())); iv.push_back(segment_t(x->rankInVelocity(), x->numberDof())); n += x->configSize(); }
    if (n) {
      size_type m = o->configSize();
      matrix_t J(m, n); for (int i = 0; i < m; ++i) for (int c = 0; c < n; ++c) J(i, c) = R.uni();
      vector_t b = randomVec(R, m);
      DifferentiableFunctionPtr_t f = AffineFunction::create(J, b, "affine");
      k.outSpace = LiegroupSpace::Rn(m);
      k.outConf = {segment_t(o->rankInConfiguration(), m)}; k.outVel = {segment_t(o->rankInVelocity(), m)};
      k.inConf = ic; k.inVel = iv;
      for (int i = 0; i < m; ++i) k.comp.push_back(R.coin() ? Equality : EqualToZero);
      k.mask.assign(m, true);
      if (R.coin(.2)) for (size_t i = 0; i < k.mask.size(); ++i) k.mask[i] = R.coin();
      k.e = Explicit::create(r.space(), f, ic, k.outConf, iv, k.outVel, k.comp, k.mask);
      k.c = k.e; k.kind = Str() << "explicit-affine:" << m << "<-" << n; k.rhs = vector_t::Zero(m);
      k.prescribed = [=](const vector_t& q, const vector_t& rhs) { return vector_t(J * ex(q, ic) + b + rhs); };
      return k;
    }
  }
  ConOpts co; co.inequalities = ineq;
  for (int t = 0; t < 30; ++t) { Con k = implicitCon(R, r, co); if (k.kind.find("ComNullMask") == std::string::npos) return k; }
  return implicitCon(R, r, co);
}
static bool serialFn(const Con& k) {
  // only the functions written as serialisable by the library
  static const char* no[] = {"ConfigurationConstraint", "Config"};
  for (auto n : no) if (k.kind.find(n) != std::string::npos) return false;
  return true;
}
static void sameConstraint(Ctx& C, Rng& R, const std::string& K, const std::string& desc, const Robot& r, const Con& k, const ImplicitPtr_t& g) {
  if (!C.check((bool)g, K + "/null", [&] { return desc; })) return;
  auto rnd = [&](Rng& S) { return randomConfig(S, r.d); };
  sameFunction(C, R, K, desc, k.c->functionPtr(), g->functionPtr(), rnd, r.d);
  C.check(k.c->comparisonType() == g->comparisonType(), K + "/comparison", [&] { return desc; });
  C.check(k.c->parameterSize() == g->parameterSize() && k.c->rightHandSideSize() == g->rightHandSideSize(), K + "/parameter-size", [&] { return Str() << desc << " " << g->parameterSize() << " " << g->rightHandSideSize(); });
  C.check(k.c->activeRows() == g->activeRows() && k.c->checkAllRowsActive() == g->checkAllRowsActive(), K + "/mask", [&] { return desc; });
  {
    vector_t e = randomVec(R, k.c->function().outputDerivativeSize()), a(e), b(e);
    k.c->setInactiveRowsToZero(a); g->setInactiveRowsToZero(b);
    C.check(close(a, b, 0), K + "/inactive-rows", [&] { return desc; });
  }
  auto id = [](const JointConstPtr_t& j) { return j ? (long)j->index() : -1l; };
  auto p1 = k.c->doesConstrainRelPoseBetween(r.d), p2 = g->doesConstrainRelPoseBetween(r.d);
  C.check(id(p1.first) == id(p2.first) && id(p1.second) == id(p2.second), K + "/rel-pose", [&] { return desc; });
  ExplicitPtr_t ge = HPP_DYNAMIC_PTR_CAST(Explicit, g);
  if (!C.check((bool)ge == (bool)k.e, K + "/kind", [&] { return desc; })) return;
  if (k.e) {
    bool seg = ge->inputConf() == k.e->inputConf() && ge->inputVelocity() == k.e->inputVelocity() && ge->outputConf() == k.e->outputConf() && ge->outputVelocity() == k.e->outputVelocity();
    if (!C.check(seg, K + "/segments", [&] { return desc; })) return;
    for (int t = 0; t < 2; ++t) {
      vector_t q = randomConfig(R, r.d), rhs = k.project(expOf(k.space(), randomVec(R, k.space()->nv(), 1)));
      LiegroupElement y(k.e->explicitFunction()->outputSpace()), z(y.space());
      ge->outputValue(z, ex(q, ge->inputConf()), LiegroupElement(rhs, k.space()));
      k.e->outputValue(y, ex(q, k.e->inputConf()), LiegroupElement(rhs, k.space()));
      C.check(close(y.vector(), z.vector(), 1e-9), K + "/output-value", [&] { return Str() << desc << vs(y.vector()) << vs(z.vector()); });
      matrix_t J((size_type)Eigen::BlockIndex::cardinal(ge->outputVelocity()), (size_type)Eigen::BlockIndex::cardinal(ge->inputVelocity())), L(J);
      ge->jacobianOutputValue(ex(q, ge->inputConf()), z, LiegroupElement(rhs, k.space()), J);
      k.e->jacobianOutputValue(ex(q, ge->inputConf()), y, LiegroupElement(rhs, k.space()), L);
      C.check(close(J, L, 1e-8), K + "/output-jacobian", [&] { return Str() << desc << show(J) << show(L); });
    }
  }
  // the weak pointer to itself is restored: copies behave as well
  ImplicitPtr_t cp = g->copy();
  C.check((bool)cp && *cp == *g && cp != g, K + "/copy-of-loaded", [&] { return desc; });
  // verdicts of solvers holding the original and the loaded constraint
  BySub a(r.space()), b(r.space());
  double thr = std::pow(10., R.uni(-4, -1));
  for (auto s : {&a, &b}) { s->errorThreshold(thr); s->maxIterations(20); s->inequalityThreshold(.01); }
  a.add(k.c); b.add(g);
  vector_t q0 = randomConfig(R, r.d);
  vector_t rhsA = a.rightHandSideFromConfig(q0), rhsB = b.rightHandSideFromConfig(q0);
  C.check(close(rhsA, rhsB, 1e-9), K + "/solver-rhs", [&] { return Str() << desc << vs(rhsA) << vs(rhsB); });
  for (int t = 0; t < 3; ++t) {
    vector_t q = t ? integrate(r.space(), q0, randomVec(R, r.nv(), std::pow(10., R.uni(-4, -.5)))) : q0, e1, e2;
    bool s1 = a.isSatisfied(q), s2 = b.isSatisfied(q);
    a.computeError(); 
    vector_t q1 = q, q2 = q;
    auto r1 = a.solve(q1), r2 = b.solve(q2);
    C.check(s1 == s2, K + "/verdict", [&] { return Str() << desc << " q=" << vs(q) << " " << s1 << s2; });
    C.check(r1 == r2 && (r1 != HierIt::SUCCESS || close(q1, q2, 1e-6)), K + "/solve", [&] { return Str() << desc << " q=" << vs(q) << " " << r1 << vs(q1) << r2 << vs(q2); });
  }
}
SUITE("C08", "constraints", 900, 20000) {
  RobotOpts ro; ro.predefined = .15;
  Robot r = randomRobot(R, ro);
  Con k = serialCon(R, r);
  if (!serialFn(k)) { C.skip("function not serialisable"); return; }
  std::string desc = r.desc + " " + k.kind, K = "constraint/" + k.kind.substr(0, k.kind.find(':'));
  if (R.coin(.2)) {
    // evaluated before being saved
    vector_t q = randomConfig(R, r.d); k.value(q);
  }
  for (int fmt = 0; fmt < 3; ++fmt) {
    C.note(desc + " " + fmtName(fmt));
    ImplicitPtr_t g;
    try { roundTrip(fmt, k.c, g, r.d); }
    catch (const std::exception& e) { C.fail(K + "/exception", desc + " " + fmtName(fmt) + " " + e.what()); return; }
    sameConstraint(C, R, K, desc + " " + fmtName(fmt), r, k, g);
    C.count(K);
  }
  C.nontrivial(desc + std::to_string(C.cur));
  C.sample(desc.substr(0, 160));
}

// several objects in the same archive: sharing is preserved
SUITE("C08", "sharing", 250, 5000) {
  Robot r = randomRobot(R);
  std::vector<ImplicitPtr_t> v, w;
  std::vector<DifferentiableFunctionPtr_t> f, g;
  std::string desc = r.desc;
  int n = R.range(2, 4);
  for (int i = 0; i < n; ++i) { Con k = serialCon(R, r); if (!serialFn(k)) continue; v.push_back(k.c); desc += " " + k.kind; }
  if (v.empty()) return;
  if (R.coin()) v.push_back(R.pick(v));   // the same constraint twice
  if (R.coin()) {                         // two constraints on the same function
    ImplicitPtr_t c = R.pick(v);
    v.push_back(Implicit::create(c->functionPtr(), c->comparisonType()));
  }
  for (auto& c : v) f.push_back(c->functionPtr());
  std::pair<std::vector<ImplicitPtr_t>, std::vector<DifferentiableFunctionPtr_t>> in(v, f), out;
  roundTrip(R.ri(3), in, out, r.d);
  w = out.first; g = out.second;
  if (!C.check(w.size() == v.size() && g.size() == f.size(), "sharing/count", [&] { return desc; })) return;
  for (size_t i = 0; i < v.size(); ++i) {
    C.check(w[i]->functionPtr() == g[i], "sharing/function-of-constraint", [&] { return Str() << desc << " " << i; });
    for (size_t j = 0; j < i; ++j) {
      C.check((v[i] == v[j]) == (w[i] == w[j]), "sharing/constraints", [&] { return Str() << desc << " " << i << "," << j; });
      C.check((f[i] == f[j]) == (g[i] == g[j]), "sharing/functions", [&] { return Str() << desc << " " << i << "," << j; });
    }
  }
  C.nontrivial(desc + std::to_string(C.cur));
}

// solvers
template <class S> static void sameSolver(Ctx& C, Rng& R, const std::string& K, const std::string& desc, const Robot& r, S& a, S& b) {
  C.check(a.numberStacks() == b.numberStacks() && a.dimension() == b.dimension() && a.reducedDimension() == b.reducedDimension(), K + "/dimensions", [&] { return Str() << desc << " " << b.numberStacks() << " " << b.dimension() << " " << b.reducedDimension(); });
  C.check(std::fabs(a.errorThreshold() - b.errorThreshold()) < 1e-15 && a.inequalityThreshold() == b.inequalityThreshold() && a.maxIterations() == b.maxIterations() && a.lastIsOptional() == b.lastIsOptional() && a.solveLevelByLevel() == b.solveLevelByLevel(), K + "/settings",
          [&] { return Str() << desc << " " << b.errorThreshold() << " " << b.inequalityThreshold() << " " << b.maxIterations() << " " << b.lastIsOptional() << " " << b.solveLevelByLevel(); });
  C.check(a.freeVariables().nbIndices() == b.freeVariables().nbIndices() && a.freeVariables().indices() == b.freeVariables().indices(), K + "/free-variables", [&] { return Str() << desc << " " << a.freeVariables() << b.freeVariables(); });
  C.check(a.constraints().size() == b.constraints().size(), K + "/constraints", [&] { return desc; });
  if (a.rightHandSideSize() != b.rightHandSideSize()) { C.fail(K + "/rhs-size", Str() << desc << a.rightHandSideSize() << " " << b.rightHandSideSize()); return; }
  vector_t q0 = randomConfig(R, r.d);
  vector_t ra = a.rightHandSideFromConfig(q0), rb = b.rightHandSideFromConfig(q0);
  C.check(close(ra, rb, 1e-9), K + "/rhs", [&] { return Str() << desc << vs(ra) << vs(rb); });
  for (int t = 0; t < 3; ++t) {
    vector_t q = t ? integrate(r.space(), q0, randomVec(R, r.nv(), std::pow(10., R.uni(-4, -.5)))) : q0;
    bool s1 = a.isSatisfied(q), s2 = b.isSatisfied(q);
    C.check(s1 == s2, K + "/verdict", [&] { return Str() << desc << " q=" << vs(q) << " " << s1 << s2; });
    vector_t q1 = q, q2 = q;
    auto r1 = a.solve(q1), r2 = b.solve(q2);
    // rounding differences of the archive may be amplified by the iterations: compare successes
    if (r1 == HierIt::SUCCESS && r2 == HierIt::SUCCESS) C.check(close(q1, q2, 1e-4), K + "/solve", [&] { return Str() << desc << " q=" << vs(q) << vs(q1) << vs(q2); });
    else C.check(r1 == r2, K + "/status", [&] { return Str() << desc << " q=" << vs(q) << " " << statusName(r1) << " " << statusName(r2); });
  }
}
template <class S> static void solverCase(Ctx& C, Rng& R, const char* nm) {
  RobotOpts ro; ro.predefined = .15;
  Problem p;
  p.r = randomRobot(R, ro); p.space = p.r.space();
  p.levels = R.coin(.4) ? 2 : 1;
  int n = R.range(1, 4);
  for (int i = 0; i < n; ++i) {
    Con k = serialCon(R, p.r); if (!serialFn(k)) continue;
    bool dup = false;
    for (auto& c : p.cons) if (c.c->function() == k.c->function()) dup = true;
    if (dup) continue;
    k.level = R.ri((int)p.levels); p.order.push_back(p.cons.size()); p.cons.push_back(k);
  }
  p.thr = std::pow(10., R.uni(-5, -2)); p.ineqThr = R.coin() ? 0 : .01; p.maxIter = R.range(1, 40);
  p.lastOptional = R.coin(.4); p.levelByLevel = R.coin(.4); p.saturate = R.coin(.4);
  S a(p.space);
  build(a, p);
  std::string desc = std::string(nm) + " " + p.desc();
  bool bounds = !p.saturate && R.coin(.3) && p.r.extra() == 0;
  if (bounds) {
    // box constraints with their own bounds
    vector_t lb = vector_t::Constant(p.space->nq(), -.8), ub = vector_t::Constant(p.space->nq(), .8);
    bool vec = p.space->isVectorSpace();
    if (vec) a.saturation(std::make_shared<solver::saturation::Bounds>(lb, ub)); else bounds = false;
  }
  int fmt = R.ri(3);
  C.note(desc + " " + fmtName(fmt));
  std::string K = std::string("solver/") + nm;
  // loaded in an existing solver of the same space
  S b(p.space);
  try { roundTrip(fmt, a, b, p.r.d); } catch (const std::exception& e) { C.fail(K + "/exception", desc + e.what()); return; }
  sameSolver(C, R, K, desc + " in place " + fmtName(fmt) + (bounds ? " bounds" : ""), p.r, a, b);
  C.count(nm);
  // loaded through a pointer
  std::shared_ptr<S> pa(new S(a)), pb;
  try { roundTrip(fmt, pa, pb, p.r.d); } catch (const std::exception& e) { C.fail(K + "/pointer-exception", desc + e.what()); return; }
  if (C.check((bool)pb, K + "/pointer-null", [&] { return desc; })) sameSolver(C, R, K + "-pointer", desc + " pointer " + fmtName(fmt) + (bounds ? " bounds" : ""), p.r, *pa, *pb);
  C.nontrivial(desc);
}
SUITE("C08", "by-substitution", 300, 6000) { solverCase<BySub>(C, R, "BySubstitution"); }
SUITE("C08", "hierarchical", 200, 4000) { solverCase<HierIt>(C, R, "HierarchicalIterative"); }
