// C20 equality of constraints, C19 solver queries, C02/C07 sets of constraints
#include "problem.hh"
#include "gen2.hh"
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/constraints/implicit-constraint-set.hh>

static std::string key(const std::string& k) { return k.substr(0, k.find_first_of("/({:")); }
static std::string masks(const std::vector<bool>& m) { std::string s; for (bool b : m) s += b ? '1' : '0'; return s; }
static std::string cmps(const ComparisonTypes_t& c) { std::string s; for (auto x : c) s += x == Equality ? 'E' : x == EqualToZero ? '0' : x == Superior ? '>' : '<'; return s; }

// --- equality of constraints -----------------------------------------------------
static Con anyCon(Rng& R, const Robot& r, int kind) {
  std::vector<JointPtr_t> js = allJoints(r), vj = vectorJoints(r), ff;
  for (auto j : freeflyerRoots(r)) if (*j->configurationSpace() == *LiegroupSpace::SE3()) ff.push_back(j);
  switch (kind) {
    case 0: return lockedCon(R, r, R.pick(js));
    case 1:
      if (!ff.empty()) {
        JointPtr_t j = R.pick(ff), j1;
        if (R.coin(.8)) j1 = R.pick(js);
        for (JointConstPtr_t a = j1; a && a->index() != 0; a = a->parentJoint()) if (a->index() == j->index()) { j1.reset(); break; }
        return relPoseCon(R, r, j1, j);
      }
      return lockedCon(R, r, R.pick(js));
    case 2: {
      std::vector<JointPtr_t> out(1, R.pick(js)), in;
      for (auto x : vj) if (x->index() != out[0]->index() && R.coin(.6)) in.push_back(x);
      if (in.empty()) return lockedCon(R, r, out[0]);
      return explicitCon(R, r, out, in);
    }
    default: return implicitCon(R, r);
  }
}
// everything the constraint says about a configuration, for a right-hand side taken elsewhere
static vector_t observed(const ImplicitPtr_t& c, const vector_t& q, const vector_t& qr) {
  LiegroupElement r(c->function().outputSpace());
  c->rightHandSideFromConfig(qr, r);
  vector_t e = difference(c->function().outputSpace(), c->function()(q).vector(), r.vector());
  c->setInactiveRowsToZero(e);
  for (int i = 0; i < e.size(); ++i) {
    if (c->comparisonType()[i] == Superior && e[i] > 0) e[i] = 0;
    if (c->comparisonType()[i] == Inferior && e[i] < 0) e[i] = 0;
  }
  return e;
}
static bool sameConstraint(Rng& R, const Robot& r, const Con& a, const Con& b, std::string& why) {
  if (a.c->comparisonType() != b.c->comparisonType()) { why = "comparison types"; return false; }
  if (a.c->activeRows() != b.c->activeRows()) { why = "active rows"; return false; }
  if (a.c->parameterSize() != b.c->parameterSize() || a.c->rightHandSideSize() != b.c->rightHandSideSize()) { why = "sizes"; return false; }
  for (int t = 0; t < 3; ++t) {
    vector_t q = randomConfig(R, r.d), qr = randomConfig(R, r.d);
    if ((a.smooth && !(a.smooth(q) && a.smooth(qr))) || (b.smooth && !(b.smooth(q) && b.smooth(qr)))) continue;
    vector_t x = observed(a.c, q, qr), y = observed(b.c, q, qr);
    if (x.size() && !(maxAbs(x - y) <= 1e-9 * (1 + maxAbs(x)))) { why = Str() << "errors at " << vs(q) << ": " << vs(x) << " / " << vs(y); return false; }
    ExplicitPtr_t ea = HPP_DYNAMIC_PTR_CAST(Explicit, a.c), eb = HPP_DYNAMIC_PTR_CAST(Explicit, b.c);
    if (!ea != !eb) { why = "explicit and implicit"; return false; }
    if (ea && (ea->outputConf() != eb->outputConf() || ea->inputConf() != eb->inputConf())) { why = "variables"; return false; }
  }
  return true;
}
static void eqPair(Ctx& C, Rng& R, const Robot& r, const Con& a, const Con& b, const std::string& how) {
  auto D = [&] { return Str() << how << ": " << a.kind << " " << masks(a.mask) << " / " << b.kind << " " << masks(b.mask) << " " << r.desc; };
  bool e1 = *a.c == *b.c, e2 = *b.c == *a.c;
  C.check(e1 == e2, "constraint/not-symmetric/" + key(a.kind), D);
  C.count(e1 ? "near-miss-equal" : "near-miss-different");
  std::string why;
  if (e1) C.check(sameConstraint(R, r, a, b, why), "constraint/equal-but-different/" + key(a.kind), [&] { return Str() << std::string(D()) << " " << why; });
}
SUITE("C20", "constraints", 500, 12000) {
  RobotOpts ro; ro.minJoints = 3;
  Robot r = randomRobot(R, ro);
  int kind = (int)(C.cur % 5);
  uint64_t seed = R.g();
  Rng Ra(seed);
  Con a = anyCon(Ra, r, kind);
  C.note(a.kind + " " + r.desc);
  auto D = [&] { return Str() << a.kind << " " << masks(a.mask) << " " << r.desc; };
  C.check(*a.c == *a.c, "constraint/not-reflexive/" + key(a.kind), D);
  ImplicitPtr_t cp = a.c->copy();
  C.check(*cp == *a.c && *a.c == *cp, "constraint/copy-differs/" + key(a.kind), D);
  // equality survives evaluations
  LiegroupElement rh(a.space());
  cp->rightHandSideFromConfig(randomConfig(R, r.d), rh);
  if (a.e) { ExplicitPtr_t e = HPP_DYNAMIC_PTR_CAST(Explicit, cp); if (e && a.smooth) { vector_t q = randomConfig(R, r.d); if (a.smooth(q)) (*e->functionPtr())(q); } }
  C.check(*cp == *a.c && *a.c == *cp, "constraint/differs-after-evaluation/" + key(a.kind), D);
  // generated alike, with one argument changed
  for (int t = 0; t < 6; ++t) {
    Rng Rb(seed);
    Rb.mutateAt = 1 + R.ri((int)Ra.drawn);
    Con b = anyCon(Rb, r, R.coin(.9) ? kind : R.ri(5));
    eqPair(C, R, r, a, b, "one argument changed");
  }
  // same function, another comparison or mask
  for (int t = 0; t < 3; ++t) {
    Con b = a, c = a;
    bool m = R.coin();
    if (a.comp.empty()) break;
    int i = R.ri((int)a.comp.size());
    if (m) {
      b.mask[i] = !b.mask[i];
      c.c = Implicit::create(a.c->functionPtr(), a.comp, a.mask); b.c = Implicit::create(a.c->functionPtr(), a.comp, b.mask);
      C.check(!(*c.c == *b.c) && !(*b.c == *c.c), "constraint/mask-ignored", [&] { return Str() << std::string(D()) << " and mask " << masks(b.mask); });
    } else {
      b.comp[i] = ComparisonType((int(b.comp[i]) + 1 + R.ri(3)) % 4);
      c.c = Implicit::create(a.c->functionPtr(), a.comp, a.mask); b.c = Implicit::create(a.c->functionPtr(), b.comp, a.mask);
      C.check(!(*c.c == *b.c) && !(*b.c == *c.c), "constraint/comparison-ignored", [&] { return Str() << std::string(D()) << " and " << cmps(b.comp); });
      if (R.coin() && a.e && b.comp[i] != Superior && b.comp[i] != Inferior) {
        b.c = a.c->copy(); b.c->comparisonType(b.comp);
        eqPair(C, R, r, a, b, "comparison changed on the copy");
        C.check(!(*a.c == *b.c), "constraint/comparison-ignored", [&] { return Str() << std::string(D()) << " and " << cmps(b.comp); });
      }
    }
    Con k = a; k.c = Implicit::create(a.c->functionPtr(), a.comp, a.mask);
    C.check(*k.c == *c.c && *c.c == *k.c, "constraint/same-arguments-differ", D);
    eqPair(C, R, r, a, k, "implicit constraint on the same function");
  }
  C.nontrivial(a.kind + r.desc + std::to_string(seed));
  C.sample(a.kind + " " + r.desc);
}

// --- solver queries ----------------------------------------------------------------
typedef std::vector<double> FP;
static void put(FP& f, const vector_t& v) { f.push_back(v.size()); for (int i = 0; i < v.size(); ++i) f.push_back(v[i]); }
static size_type errSize(const BySub& s) { return s.errorSize(); }
static size_type errSize(const HierIt& s) { return s.dimension(); }
static bool satErr(const BySub& s, const vector_t& q, vector_t& e) { return s.isSatisfied(q, e); }
static bool satErr(const HierIt& s, const vector_t& q, vector_t& e) { bool b = s.isSatisfied(q); s.residualError(e); return b; }
static void kernel(const BySub& s, const vector_t& q, const vector_t& v, FP& f) { vector_t w(v.size()); s.projectVectorOnKernel(q, v, w); put(f, w); }
static void kernel(const HierIt&, const vector_t&, const vector_t&, FP&) {}
static bool sameFP(const FP& a, const FP& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(a[i]))) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
  return true;
}
static std::string fpStr(const FP& f) { Str s; for (double x : f) s << x << " "; return s; }
template <class S> static FP ask(const S& s, const NumericalConstraints_t& cs, const vector_t& q, const vector_t& v, int what) {
  FP f;
  switch (what) {
    case 0: f.push_back(s.isSatisfied(q)); break;
    case 1: { vector_t e = vector_t::Zero(errSize(s)); f.push_back(satErr(s, q, e)); put(f, e); break; }
    case 2: for (auto& c : cs) { vector_t e = vector_t::Zero(c->function().outputSpace()->nv()); bool fd; f.push_back(s.isConstraintSatisfied(c, q, e, fd)); f.push_back(fd); put(f, e); } break;
    case 3: f.push_back(s.isSatisfied(q, 1e-3)); f.push_back(s.isSatisfied(q, .3)); break;
    case 4: { vector_t x = q; f.push_back(s.template solve<solver::lineSearch::Constant>(x)); put(f, x); break; }
    case 5: { vector_t x = q; f.push_back(s.template solve<solver::lineSearch::FixedSequence>(x)); put(f, x); break; }
    case 6: { vector_t x = q; f.push_back(s.template solve<solver::lineSearch::Backtracking>(x)); put(f, x); break; }
    case 7: kernel(s, q, v, f); break;
    default: put(f, s.rightHandSide()); break;
  }
  return f;
}
static const char* whatStr[] = {"isSatisfied", "error vector", "isConstraintSatisfied", "isSatisfied with threshold", "solve Constant", "solve FixedSequence", "solve Backtracking", "projectVectorOnKernel", "rightHandSide"};
template <class S> static void queryCase(Ctx& C, Rng& R, const char* nm) {
  ProblemOpts o; o.levels = 3;
  Problem p = randomProblem(R, o);
  C.note(p.desc());
  p.maxIter = std::min(p.maxIter, 15);
  vector_t qr = randomConfig(R, p.r.d);
  bool setRhs = R.coin(.7);
  auto fresh = [&] { std::shared_ptr<S> s(new S(p.space)); build(*s, p); if (setRhs) s->rightHandSideFromConfig(qr); return s; };
  std::shared_ptr<S> s = fresh();
  NumericalConstraints_t cs; for (auto& c : p.cons) cs.push_back(c.c);
  std::vector<vector_t> qs{qr, randomConfig(R, p.r.d), randomConfig(R, p.r.d), integrate(p.space, qr, randomVec(R, p.space->nv(), .05))};
  vector_t v = randomVec(R, p.space->nv());
  struct Asked { int w, q; FP f; };
  std::vector<Asked> hist;
  std::string h;
  for (int t = 0; t < 10; ++t) {
    Asked a; a.w = R.ri(9); a.q = R.ri((int)qs.size());
    if (!hist.empty() && R.coin(.35)) { a.w = R.pick(hist).w; a.q = R.pick(hist).q; }
    a.f = ask(*s, cs, qs[a.q], v, a.w);
    h += Str() << whatStr[a.w] << "@" << a.q << " ";
    // a solver that never answered anything
    FP g = ask(*fresh(), cs, qs[a.q], v, a.w);
    C.check(sameFP(a.f, g), std::string("solver/depends-on-history/") + whatStr[a.w], [&] { return Str() << nm << " " << p.desc() << " history " << h << " q=" << vs(qs[a.q]) << " answers " << fpStr(a.f) << " expected " << fpStr(g); });
    for (auto& b : hist) if (b.w == a.w && b.q == a.q) {
      C.check(sameFP(a.f, b.f), std::string("solver/answer-changes/") + whatStr[a.w], [&] { return Str() << nm << " " << p.desc() << " history " << h << " q=" << vs(qs[a.q]) << " answers " << fpStr(a.f) << " before " << fpStr(b.f); });
      C.count("asked-again");
    }
    hist.push_back(a);
    if (R.coin(.2)) { p.r.d->currentConfiguration(randomConfig(R, p.r.d)); p.r.d->computeForwardKinematics((int)hpp::pinocchio::JOINT_POSITION); C.count("robot-moved"); h += "robot moved "; }
    C.count(whatStr[a.w]);
  }
  C.nontrivial(Str() << nm << p.desc() << vs(qr));
  C.sample(Str() << nm << " " << h.substr(0, 150));
}
SUITE("C19", "solver-queries", 120, 6000) { queryCase<BySub>(C, R, "BySubstitution"); }
SUITE("C19", "hierarchical-queries", 60, 3000) { queryCase<HierIt>(C, R, "HierarchicalIterative"); }

// --- sets of constraints -------------------------------------------------------------
static void setCase(Ctx& C, Rng& R, bool copies) {
  RobotOpts ro; ro.minJoints = 3;
  Robot r = randomRobot(R, ro);
  int n = R.range(1, 4);
  std::vector<Con> cons;
  for (int i = 0; i < n; ++i) {
    Con k = R.coin(.75) ? implicitCon(R, r) : lockedCon(R, r, R.pick(allJoints(r)));
    bool dup = false;
    for (auto& c : cons) dup |= c.c->function() == k.c->function();
    if (!dup) cons.push_back(k);
  }
  ImplicitConstraintSetPtr_t s = ImplicitConstraintSet::create("set"), o = ImplicitConstraintSet::create("other");
  bool merged = R.coin(.3);
  size_t cut = R.ri((int)cons.size() + 1);
  std::string d;
  for (size_t i = 0; i < cons.size(); ++i) { (merged && i >= cut ? o : s)->add(cons[i].c); d += cons[i].kind + " " + masks(cons[i].mask) + "; "; }
  if (merged) { s->merge(o); d += "merged"; }
  C.note(d + r.desc);
  auto D = [&] { return Str() << d << " " << r.desc; };
  ComparisonTypes_t comp; std::vector<bool> mask; size_type ps = 0, nq = 0;
  for (auto& c : cons) { comp.insert(comp.end(), c.comp.begin(), c.comp.end()); mask.insert(mask.end(), c.mask.begin(), c.mask.end()); ps += c.c->parameterSize(); nq += c.space()->nq(); }
  segments_t rows; for (size_t i = 0; i < mask.size(); ++i) if (mask[i]) rows.push_back(segment_t(i, 1));
  Eigen::BlockIndex::shrink(rows);
  std::string w = copies ? "copied-set" : "set";
  ImplicitPtr_t x = s;
  if (copies) {
    x = s->copy();
    C.check(x != s && *x == *s && *s == *x, w + "/not-equal", D);
    if (R.coin()) s.reset();
  }
  C.check(x->comparisonType() == comp, w + "/comparison", D);
  C.check(x->activeRows() == rows && x->checkAllRowsActive() == (std::find(mask.begin(), mask.end(), false) == mask.end()), w + "/active-rows", D);
  C.check(x->parameterSize() == ps, w + "/parameter-size", [&] { return Str() << std::string(D()) << " " << x->parameterSize() << " expected " << ps; });
  C.check(x->rightHandSideSize() == nq, w + "/right-hand-side-size", D);
  vector_t q0 = randomConfig(R, r.d);
  // the set in a solver of its own against its members in another one
  std::shared_ptr<HierIt> pa(new HierIt(r.space()));
  HierIt b(r.space());
  pa->add(x, 0);
  for (auto& c : cons) b.add(c.c, 0);
  if (copies && R.coin()) { pa.reset(new HierIt(*pa)); C.count("solver-copied"); }
  HierIt& a = *pa;
  double thr = std::pow(10., R.uni(-5, -1));
  for (HierIt* k : {&a, &b}) { k->errorThreshold(thr); k->maxIterations(1); }
  if (R.coin(.7)) { vector_t ra = a.rightHandSideFromConfig(q0), rb = b.rightHandSideFromConfig(q0); C.check(ra.size() == rb.size() && (!ra.size() || maxAbs(ra - rb) < 1e-9), w + "/right-hand-side", D); }
  for (int t = 0; t < 5; ++t) {
    vector_t q = t == 0 ? q0 : t < 3 ? integrate(r.space(), q0, randomVec(R, r.nv(), thr)) : randomConfig(R, r.d);
    bool ok = true; for (auto& c : cons) ok &= !c.smooth || c.smooth(q);
    if (!ok) { C.count("near-singular"); continue; }
    vector_t ea(a.dimension()), eb(b.dimension());
    bool sa = a.isSatisfied(q); a.residualError(ea);
    bool sb = b.isSatisfied(q); b.residualError(eb);
    // a set is one constraint: the norm of its whole error is compared to the threshold
    sb = eb.squaredNorm() <= thr * thr;
    C.check(sa == sb && ea.size() == eb.size() && (!ea.size() || maxAbs(ea - eb) < 1e-9 * (1 + maxAbs(ea))), w + "/verdict", [&] { return Str() << std::string(D()) << " q=" << vs(q) << " " << sa << sb << " " << vs(ea) << " / " << vs(eb); });
    vector_t e1 = vector_t::Zero(x->function().outputSpace()->nv()); bool found = false;
    bool s1 = a.isConstraintSatisfied(x, q, e1, found);
    C.check(found && s1 == sa && (!e1.size() || maxAbs(e1 - ea) < 1e-9 * (1 + maxAbs(ea))), w + "/member-verdict", [&] { return Str() << std::string(D()) << " " << found << s1 << sa << " " << vs(e1) << " / " << vs(ea); });
    if (sa || b.isSatisfied(q)) { C.count("satisfied"); continue; }
    vector_t qa = q, qb = q;
    HierIt::Status ra = a.solve<solver::lineSearch::FixedSequence>(qa), rb = b.solve<solver::lineSearch::FixedSequence>(qb);
    C.check((ra == rb || ra == HierIt::SUCCESS || rb == HierIt::SUCCESS || ra == HierIt::ERROR_INCREASED || rb == HierIt::ERROR_INCREASED) && maxAbs(qa - qb) < 1e-6 * (1 + maxAbs(qa)), w + "/solution", [&] { return Str() << std::string(D()) << " q=" << vs(q) << " " << statusName(ra) << " " << statusName(rb) << " " << vs(qa) << " / " << vs(qb); });
    C.count("not-satisfied");
  }
  C.nontrivial(d + r.desc);
  C.sample(d.substr(0, 150));
}
SUITE("C02", "constraint-sets", 250, 8000) { setCase(C, R, false); }
SUITE("C07", "copied-constraint-sets", 250, 8000) { setCase(C, R, true); }

// --- convex shapes ---------------------------------------------------------------------
typedef Eigen::Vector3d V3;
static std::vector<V3> flatPolygon(Rng& R, int n, const SE3& M) {
  // vertices on an ellipse, anticlockwise: strictly convex
  std::vector<double> a;
  for (int t = 0; (int)a.size() < n && t < 1000; ++t) {
    double x = R.uni(-M_PI, M_PI);
    bool ok = true;
    for (double y : a) ok &= std::fabs(std::remainder(x - y, 2 * M_PI)) > .25;
    if (ok) a.push_back(x);
  }
  std::sort(a.begin(), a.end());
  double rx = R.uni(.1, 2), ry = R.uni(.1, 2);
  std::vector<V3> p;
  for (double x : a) p.push_back(M.act(V3(rx * std::cos(x), ry * std::sin(x), 0)));
  return p;
}
// The normal is N, the polygon is seen anticlockwise from N
SUITE("C16", "shapes", 500, 15000) {
  Robot r = randomRobot(R);
  SE3 M = randomSE3(R);
  int n = R.range(3, 7);
  std::vector<V3> p = flatPolygon(R, n, M);
  if (p.size() < 3) { C.skip("polygon"); return; }
  JointPtr_t j; if (R.coin(.6)) j = randomJoint(R, r.d);
  ConvexShape s(p, j);
  auto D = [&] { Str o; o << r.desc << " joint " << (j ? j->name() : "none") << " points"; for (auto& x : p) o << " (" << x.transpose() << ")"; return o; };
  C.note(D());
  V3 N = (p[1] - p[0]).cross(p[2] - p[1]).normalized(), c = V3::Zero();
  for (auto& x : p) c += x / (double)p.size();
  auto frame = [&](const ConvexShape& t, const V3& nn, const char* k) {
    const SE3& F = t.positionInJoint();
    Eigen::Matrix3d A = F.rotation();
    C.check((A.transpose() * A - Eigen::Matrix3d::Identity()).norm() < 1e-9 && std::fabs(A.determinant() - 1) < 1e-9 && (A.col(0) - nn).norm() < 1e-9 && (F.translation() - c).norm() < 1e-9, std::string("shape/frame") + k, D);
    C.check((t.planeXaxis() - A.col(1)).norm() < 1e-9 && (t.planeYaxis() - A.col(2)).norm() < 1e-9, std::string("shape/axes") + k, D);
  };
  frame(s, N, "");
  vector_t q = randomConfig(R, r.d);
  r.d->currentConfiguration(q); r.d->computeForwardKinematics((int)hpp::pinocchio::JOINT_POSITION);
  Kin K(r.d, q);
  SE3 W = j ? K.joint(j) : SE3::Identity();
  ConvexShape rev(s), same(p, j); rev.reverse();
  if (R.coin()) { rev.reverse(); rev.reverse(); }
  frame(rev, -N, "-reversed");
  C.check(s == same && !(s != same) && s == ConvexShape(s) && s != rev, "shape/equality", D);
  if (p.size() == 3) C.check(ConvexShape(p[0], p[1], p[2], j) == s, "shape/triangle", D);
  {
    std::vector<V3> p2; double k0 = R.uni(1.005, 1.2); V3 shift = R.coin() ? V3(.01 * N) : V3(0, 0, 0);  // stays convex
    for (auto& y : p) p2.push_back(c + k0 * (y - c) + shift);
    C.check(ConvexShape(p2, j) != s, "shape/near-miss-equal", D);
    JointPtr_t k = randomJoint(R, r.d);
    if (k != j) C.check(ConvexShape(p, k) != s, "shape/other-joint-equal", D);
  }
  for (int t = 0; t < 12; ++t) {
    // points of the plane: anywhere, near the boundary, near vertices
    V3 x;
    int w = R.ri(4);
    if (w == 0) x = c + M.rotation() * V3(R.uni(-3, 3), R.uni(-3, 3), 0);
    else if (w == 1) { int i = R.ri(n); double u = R.uni(); x = p[i] + u * (p[(i + 1) % n] - p[i]) + R.uni(-.02, .02) * (p[i] - c); }
    else if (w == 2) x = p[R.ri(n)] + M.rotation() * V3(R.uni(-.1, .1), R.uni(-.1, .1), 0);
    else { x = c; for (auto& y : p) x += R.uni(0, 1) / n * (y - c); }
    double d = polygonDistance(p, x);
    for (const ConvexShape* h : {&s, &rev}) {
      ConvexShapeData data, data2;
      data.updateToCurrentTransform(*h);
      { hpp::pinocchio::DeviceSync ds(r.d); ds.currentConfiguration(r.d->currentConfiguration()); ds.computeForwardKinematics(hpp::pinocchio::JOINT_POSITION); data2.updateToCurrentTransform(*h, ds.d()); }
      V3 xw = W.act(x), nw = W.rotation() * (h == &s ? N : V3(-N));
      C.check((data.center_ - W.act(c)).norm() < 1e-9 && (data.normal_ - nw).norm() < 1e-9 && (data2.center_ - data.center_).norm() < 1e-12 && (data2.normal_ - data.normal_).norm() < 1e-12, "shape/world-frame", D);
      double dl = h->distanceLocal(x), dw = data.distance(*h, xw);
      C.check(std::fabs(dl - d) < 1e-9 && std::fabs(dw - d) < 1e-8, "shape/distance", [&] { return Str() << std::string(D()) << " x=" << x.transpose() << " " << dl << " " << dw << " expected " << d; });
      if (std::fabs(d) > 1e-9) C.check(h->isInsideLocal(x) == (d < 0), "shape/inside", [&] { return Str() << std::string(D()) << " x=" << x.transpose() << " distance " << d; });
      // along a line that crosses the plane
      V3 u = N + M.rotation() * V3(R.uni(-.8, .8), R.uni(-.8, .8), 0);
      V3 a = x + R.uni(-2, 2) * u, aw = W.act(a), uw = W.rotation() * u;
      C.check((h->intersectionLocal(a, u) - x).norm() < 1e-8 && (data.intersection(aw, uw) - xw).norm() < 1e-8, "shape/intersection", D);
      if (std::fabs(d) > 1e-7) C.check(data.isInside(*h, aw, uw) == (d < 0) && data.isInside(*h, xw) == (d < 0), "shape/inside-along-line", [&] { return Str() << std::string(D()) << " x=" << x.transpose() << " distance " << d; });
      // frame aligned with a vector
      V3 yw = randomVec(R, 3), nl = h == &s ? N : V3(-N);
      SE3 A = data.alignedPositionInJoint(*h, yw);
      V3 y = W.rotation().transpose() * yw, yp = y - y.dot(nl) * nl;
      if (yp.norm() > 1e-3) C.check((A.rotation().col(0) - nl).norm() < 1e-9 && (A.rotation().col(1) - yp.normalized()).norm() < 1e-8 && (A.rotation().col(2) - nl.cross(yp.normalized())).norm() < 1e-8 && (A.translation() - c).norm() < 1e-9, "shape/aligned-frame", [&] { return Str() << std::string(D()) << "\n" << A; });
    }
    C.count(d < 0 ? "inside" : "outside");
  }
  // segments
  V3 a = M.act(V3(R.uni(), R.uni(), 0)), b = M.act(V3(R.uni(), R.uni(), 0));
  if ((b - a).norm() > 1e-3) {
    ConvexShape g(std::vector<V3>{a, b}, j);
    for (int t = 0; t < 4; ++t) {
      V3 x = R.coin(.3) ? V3(a + R.uni(-2, 2) * (b - a)) : V3(M.act(V3(R.uni(-2, 2), R.uni(-2, 2), 0)));
      double u = std::max(0., std::min(1., (b - a).dot(x - a) / (b - a).squaredNorm()));
      V3 z = a + u * (b - a), B;
      C.check(std::fabs(g.distanceLocal(x) - (x - z).norm()) < 1e-8, "shape/segment-distance", [&] { return Str() << a.transpose() << " / " << b.transpose() << " x=" << x.transpose() << " " << g.distanceLocal(x) << " expected " << (x - z).norm(); });
      closestPointToSegment(x, a, b - a, B);
      C.check((B - z).norm() < 1e-8, "shape/closest-point", [&] { return Str() << a.transpose() << " / " << b.transpose() << " x=" << x.transpose() << " " << B.transpose() << " expected " << z.transpose(); });
      g.reverse();
    }
  }
  C.nontrivial(D());
  C.sample(std::string(D()).substr(0, 160));
}

// --- comparison types ---------------------------------------------------------------------
SUITE("C02", "comparison-types", 60, 2000) {
  auto any = [&] { return ComparisonType(R.ri(4)); };
  ComparisonTypes_t exp, v;
  ComparisonType a = any(), b = any();
  int n = R.range(0, 4), m = R.range(0, 4);
  switch (R.ri(5)) {
    case 0: v = a << b; exp = {a, b}; break;
    case 1: v = n * a << b; exp.assign(n, a); exp.push_back(b); break;
    case 2: v = a << n * b; exp.assign(n, b); exp.insert(exp.begin(), a); break;
    case 3: v = n * a; exp.assign(n, a); C.check(v == n * a && !(v == (n + 1) * a) && (n == 0 || !(v == n * ComparisonType((int(a) + 1) % 4))), "comparison/replicate", [&] { return cmps(v); }); break;
    default: v = n * a << m * b; exp.assign(n, a); exp.insert(exp.end(), m, b); break;
  }
  for (int t = 0; t < 4; ++t) {
    ComparisonType c = any(); int k = R.range(0, 3);
    const ComparisonTypes_t w = v;
    ComparisonTypes_t w1 = w << c, w2 = w << k * c;
    ComparisonTypes_t e1 = exp, e2 = exp; e1.push_back(c); e2.insert(e2.end(), k, c);
    C.check(w1 == e1 && w2 == e2, "comparison/append", [&] { return cmps(w1) + " " + cmps(w2); });
    if (R.coin()) { v << c; exp = e1; } else { v << k * c; exp = e2; }
    C.check(v == exp && w != w1, "comparison/append-in-place", [&] { return cmps(v) + " expected " + cmps(exp); });
  }
  C.nontrivial(cmps(v)); C.sample(cmps(v));
}

// --- assignment ------------------------------------------------------------------------------
SUITE("C07", "assigned-constraints", 200, 6000) {
  Robot r = randomRobot(R);
  Con a = implicitCon(R, r), b = implicitCon(R, r);
  C.note(a.kind + " = " + b.kind + " " + r.desc);
  auto D = [&] { return a.kind + " = " + b.kind + " " + r.desc; };
  if (R.coin()) { LiegroupElement e(a.space()); a.c->rightHandSideFromConfig(randomConfig(R, r.d), e); }
  bool eq = true; for (auto x : b.comp) eq &= x == Equality;
  if (eq) b.c->rightHandSideFunction(lieFn(R, 1, b.space(), "time"));
  *a.c = *b.c;
  a.mask = b.mask;
  std::string why;
  C.check(*a.c == *b.c && *b.c == *a.c, "assigned/not-equal", D);
  a.smooth = b.smooth;
  C.check(sameConstraint(R, r, a, b, why), "assigned/differs", [&] { return D() + " " + why; });
  if (eq) { vector_t x = a.c->rightHandSideAt(.4), y = b.c->rightHandSideAt(.4); C.check(x.size() == y.size() && maxAbs(x - y) < 1e-12, "assigned/right-hand-side-function", D); }
  ComparisonTypes_t c0 = b.c->comparisonType();
  a.c->comparisonType(ComparisonTypes_t(c0.size(), EqualToZero));
  C.check(b.c->comparisonType() == c0, "assigned/not-independent", D);
  C.nontrivial(D()); C.sample(D());
}
