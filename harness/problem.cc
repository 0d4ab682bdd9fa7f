#include "problem.hh"
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/pinocchio/configuration.hh>

vector_t logOf(const LiegroupSpacePtr_t& s, const vector_t& x) { return difference(s, x, s->neutral().vector()); }
vector_t expOf(const LiegroupSpacePtr_t& s, const vector_t& v) { return integrate(s, s->neutral().vector(), v); }

vector_t Con::project(const vector_t& x) const {
  vector_t l = logOf(space(), x);
  for (int i = 0; i < l.size(); ++i) if (comp[i] != Equality) l[i] = 0;
  return expOf(space(), l);
}
vector_t Con::rhsFrom(const vector_t& q) const { return project(value(q)); }
vector_t Con::error(const vector_t& q, double t) const {
  vector_t e = difference(space(), value(q), rhs);
  for (int i = 0; i < e.size(); ++i) {
    if (comp[i] == Superior) e[i] = e[i] >= t ? 0 : e[i] - t;
    else if (comp[i] == Inferior) e[i] = e[i] <= -t ? 0 : e[i] + t;
    if (!mask[i]) e[i] = 0;
  }
  return e;
}

ComparisonTypes_t randomComp(Rng& R, const LiegroupSpacePtr_t& s, bool ineq, bool onlyEq) {
  size_type n = s->nv();
  ComparisonTypes_t c(n, EqualToZero);
  if (onlyEq) return ComparisonTypes_t(n, Equality);
  // rotation factors need a uniform choice: the logarithm couples their components
  if (!s->isVectorSpace() ) {
    if (R.coin()) c.assign(n, Equality);
    return c;
  }
  int k = R.ri(4);
  for (size_type i = 0; i < n; ++i) {
    if (k == 0) c[i] = Equality;
    else if (k == 1) c[i] = EqualToZero;
    else c[i] = R.coin() ? Equality : EqualToZero;
    if (ineq && k == 3 && R.coin(.4)) c[i] = R.coin() ? Superior : Inferior;
  }
  return c;
}
static std::string cs(const ComparisonTypes_t& c) { std::string s; for (auto x : c) s += x == Equality ? 'E' : x == EqualToZero ? '0' : x == Superior ? '>' : '<'; return s; }

Con implicitCon(Rng& R, const Robot& r, const ConOpts& o) {
  Con k;
  int w;
  do { w = R.ri(nKinFn()); } while (w == 11 && R.coin(.6));
  KinFn f = randomKinFn(R, r, w);
  LiegroupSpacePtr_t s = f.f->outputSpace();
  k.comp = randomComp(R, s, o.inequalities, o.onlyEquality);
  k.mask.assign(s->nv(), true);
  if (o.masks && R.coin(.3)) for (size_t i = 0; i < k.mask.size(); ++i) k.mask[i] = R.coin(.7);
  k.c = Implicit::create(f.f, k.comp, k.mask);
  k.kind = "implicit:" + f.kind + ":" + cs(k.comp);
  for (size_t i = 0; i < k.mask.size(); ++i) if (!k.mask[i]) { k.kind += ":masked"; break; }
  k.rhs = s->neutral().vector();
  k.smooth = f.smooth;
  k.level = o.level;
  return k;
}

vector_t Con::out(const vector_t& q) const {
  vector_t y(outSpace->nq()); size_type k = 0;
  for (auto& s : outConf) { y.segment(k, s.second) = q.segment(s.first, s.second); k += s.second; }
  return y;
}
void Con::setOut(vector_t& q, const vector_t& y) const {
  size_type k = 0;
  for (auto& s : outConf) { q.segment(s.first, s.second) = y.segment(k, s.second); k += s.second; }
}
static bool meet(const segments_t& a, const segments_t& b) {
  for (auto& s : a) for (auto& o : b) if (s.first < o.first + o.second && o.first < s.first + s.second) return true;
  return false;
}

Con lockedCon(Rng& R, const Robot& r, const JointPtr_t& j) {
  Con k;
  vector_t q = randomConfig(R, r.d);
  LiegroupElement v(q.segment(j->rankInConfiguration(), j->configSize()), j->configurationSpace());
  LockedJointPtr_t lj = LockedJoint::create(j, v);
  k.c = lj; k.e = lj;
  k.comp = lj->comparisonType();
  if (R.coin(.4)) {
    for (auto& c : k.comp) c = R.coin() ? Equality : EqualToZero;
    lj->comparisonType(k.comp);
  }
  k.mask.assign(k.comp.size(), true);
  k.kind = "locked:" + j->configurationSpace()->name() + ":" + cs(k.comp);
  k.rhs = k.space()->neutral().vector();
  k.outConf = {segment_t(j->rankInConfiguration(), j->configSize())};
  k.outVel = {segment_t(j->rankInVelocity(), j->numberDof())};
  k.outSpace = j->configurationSpace();
  vector_t v0 = v.vector(); LiegroupSpacePtr_t os = k.outSpace;
  k.prescribed = [=](const vector_t&, const vector_t& rhs) { return integrate(os, v0, rhs); };
  k.smooth = [=](const vector_t& x) { return difference(os, x.segment(j->rankInConfiguration(), j->configSize()), v0).norm() < 2.9 || os->isVectorSpace(); };
  return k;
}

std::vector<JointPtr_t> allJoints(const Robot& r) {
  std::vector<JointPtr_t> v;
  for (size_type i = 0; i < r.d->nbJoints(); ++i) v.push_back(jointOf(r.d, i));
  return v;
}
std::vector<JointPtr_t> vectorJoints(const Robot& r) {
  std::vector<JointPtr_t> v;
  for (auto j : allJoints(r)) if (j->configurationSpace()->isVectorSpace()) v.push_back(j);
  return v;
}
std::vector<JointPtr_t> freeflyerRoots(const Robot& r) {
  std::vector<JointPtr_t> v;
  for (auto j : allJoints(r)) if (*j->configurationSpace() == *LiegroupSpace::SE3() || *j->configurationSpace() == *LiegroupSpace::R3xSO3()) v.push_back(j);
  return v;
}

Con explicitCon(Rng& R, const Robot& r, const std::vector<JointPtr_t>& out, const std::vector<JointPtr_t>& in, double amp) {
  Con k;
  segments_t ic, iv;
  size_type n = 0;
  for (auto j : in) {
    ic.push_back(segment_t(j->rankInConfiguration(), j->configSize()));
    iv.push_back(segment_t(j->rankInVelocity(), j->numberDof()));
    n += j->configSize();
  }
  k.outSpace = LiegroupSpace::createCopy(out[0]->configurationSpace());
  for (size_t i = 1; i < out.size(); ++i) *k.outSpace *= out[i]->configurationSpace();
  k.outConf = {segment_t(out[0]->rankInConfiguration(), k.outSpace->nq())};
  k.outVel = {segment_t(out[0]->rankInVelocity(), k.outSpace->nv())};
  vector_t q0 = randomConfig(R, r.d);
  vector_t y0 = k.out(q0);
  matrix_t A(k.outSpace->nv(), n), B(k.outSpace->nv(), n);
  for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < n; ++j) { A(i, j) = R.uni(-amp, amp) / std::sqrt(n); B(i, j) = R.uni(-amp, amp) / std::sqrt(n); }
  DifferentiableFunctionPtr_t f(new LieFn(A, B, LiegroupElement(y0, k.outSpace), "exp" + std::to_string(R.ri(1000000))));
  k.inConf = ic; k.inVel = iv;
  k.comp.assign(k.outSpace->nv(), EqualToZero);
  for (auto& c : k.comp) c = R.coin() ? Equality : EqualToZero;
  k.mask.assign(k.comp.size(), true);
  k.e = Explicit::create(r.space(), f, ic, k.outConf, iv, k.outVel, k.comp, k.mask);
  k.c = k.e;
  k.rhs = k.space()->neutral().vector();
  k.kind = "explicit:" + k.outSpace->name() + "<-" + std::to_string(n) + ":" + cs(k.comp);
  LiegroupSpacePtr_t os = k.outSpace;
  auto fin = [=](const vector_t& q) {
    vector_t x(n); int p = 0;
    for (auto& s : ic) { x.segment(p, s.second) = q.segment(s.first, s.second); p += s.second; }
    vector_t v = A * x + ((B * x).array().sin()).matrix();
    return integrate(os, y0, v);
  };
  k.prescribed = [=](const vector_t& q, const vector_t& rhs) { return integrate(os, fin(q), rhs); };
  Con kc; kc.outConf = k.outConf; kc.outSpace = os;
  std::vector<LiegroupSpacePtr_t> sub; for (auto j : out) sub.push_back(j->configurationSpace());
  k.smooth = [=](const vector_t& q) {
    vector_t d = difference(os, kc.out(q), fin(q)); size_type v = 0;
    for (auto& u : sub) { if (!u->isVectorSpace() && !(d.segment(v, u->nv()).norm() < 2.9)) return false; v += u->nv(); }
    return true;
  };
  return k;
}

Con relPoseCon(Rng& R, const Robot& r, const JointPtr_t& j1, const JointPtr_t& j2, bool zero) {
  Con k;
  SE3 F1 = randomSE3(R), F2 = randomSE3(R);
  k.comp.assign(6, (zero || R.coin(.4)) ? EqualToZero : Equality);
  if (!zero && R.coin(.3)) for (int i = 0; i < 3; ++i) k.comp[i] = R.coin() ? Equality : EqualToZero;
  k.mask.assign(6, true);
  explicit_::RelativePosePtr_t e = explicit_::RelativePose::create("relpose", r.d, j1, j2, F1, F2, k.comp);
  k.e = e; k.c = e;
  k.outConf = {segment_t(j2->rankInConfiguration(), j2->configSize())};
  k.outVel = {segment_t(j2->rankInVelocity(), j2->numberDof())};
  k.outSpace = j2->configurationSpace();
  k.inConf = e->inputConf(); k.inVel = e->inputVelocity();
  k.rhs = k.space()->neutral().vector();
  k.kind = std::string("relpose:") + (j1 ? "joint" : "world") + ":" + cs(k.comp);
  DevicePtr_t d = r.d;
  k.prescribed = [=](const vector_t& q, const vector_t& rhs) {
    Kin K(d, q);
    SE3 M1(Eigen::Quaterniond(rhs[6], rhs[3], rhs[4], rhs[5]).toRotationMatrix(), rhs.head(3));
    // J2 F2 = J1 F1 rhs
    SE3 J2 = K.joint(j1) * F1 * M1 * F2.inverse();
    JointConstPtr_t p = j2->parentJoint();
    SE3 T = j2->positionInParentFrame().inverse() * (K.joint(p).inverse() * J2);
    vector_t o(7);
    o.head(3) = T.translation();
    Eigen::Quaterniond qq(T.rotation());
    o.tail(4) = qq.coeffs();
    return o;
  };
  k.smooth = [=](const vector_t& q) {
    Kin K(d, q);
    SE3 M = (K.joint(j1) * F1).inverse() * (K.joint(j2) * F2);
    return logOf(LiegroupSpace::SO3(), Eigen::Quaterniond(M.rotation()).coeffs()).norm() < 2.9;
  };
  return k;
}

std::string Problem::desc() const {
  Str s;
  s << r.desc << " thr=" << thr << " ineq=" << ineqThr << " it=" << maxIter << (lastOptional ? " lastOptional" : "") << (levelByLevel ? " byLevel" : "") << (saturate ? " saturate" : "") << (restricted ? " restricted" : "") << " {";
  for (auto& c : cons) s << c.kind << "@" << (int)c.level << (c.isExplicit ? "(explicit) " : " ");
  s << "}";
  return s;
}

static bool reaches(const std::vector<Con>& cons, const Con& k) {
  // would adding k create a loop through cons?
  segments_t todo(k.inConf);
  std::set<size_t> seen;
  while (!todo.empty()) {
    segments_t s(1, todo.back()); todo.pop_back();
    if (meet(s, k.outConf)) return true;
    for (size_t i = 0; i < cons.size(); ++i) {
      if (!cons[i].e || seen.count(i)) continue;
      if (meet(s, cons[i].outConf)) { seen.insert(i); for (auto x : cons[i].inConf) todo.push_back(x); }
    }
  }
  return false;
}

Problem randomProblem(Rng& R, const ProblemOpts& o) {
  Problem p;
  p.r = randomRobot(R, o.robot);
  p.space = p.r.space();
  p.levels = o.levels > 1 && R.coin(.4) ? R.range(2, o.levels) : 1;
  std::vector<JointPtr_t> js = allJoints(p.r), vj = vectorJoints(p.r), ff = freeflyerRoots(p.r);
  std::set<size_t> outs;
  if (o.con.explicits) {
    int n = R.range(0, o.maxExplicit);
    for (int t = 0; t < n; ++t) {
      JointPtr_t j = R.pick(js);
      int kind = R.ri(4);
      if (kind == 3 && !ff.empty()) j = R.pick(ff); 
      if (outs.count(j->index())) continue;
      Con k;
      if (kind == 0) k = lockedCon(R, p.r, j);
      else if (kind == 3 && *j->configurationSpace() == *LiegroupSpace::SE3()) {
        JointPtr_t j1;
        if (R.coin(.85)) { j1 = R.pick(js); }
        // joint1 must not be below joint2
        bool below = false;
        for (JointConstPtr_t a = j1; a && a->index() != 0; a = a->parentJoint()) below |= a->index() == j->index();
        if (below) j1.reset();
        k = relPoseCon(R, p.r, j1, j);
      } else {
        std::vector<JointPtr_t> in;
        std::vector<JointPtr_t> out(1, j);
        // several consecutive output joints (the outputs must be contiguous)
        while (R.coin(.35)) {
          JointPtr_t nx;
          for (auto x : js) if (x->rankInConfiguration() == out.back()->rankInConfiguration() + out.back()->configSize() && !outs.count(x->index())) nx = x;
          if (!nx) break;
          out.push_back(nx);
        }
        for (auto x : vj) { bool o = false; for (auto y : out) o |= y->index() == x->index(); if (!o && R.coin(.5)) in.push_back(x); }
        if (in.empty()) k = lockedCon(R, p.r, j);
        else k = explicitCon(R, p.r, out, in);
      }
      if (reaches(p.cons, k)) continue;
      // an already present input must not become circular through the new output
      for (auto x : js) if (meet({segment_t(x->rankInConfiguration(), x->configSize())}, k.outConf)) outs.insert(x->index());
      p.cons.push_back(k);
    }
  }
  int n = R.range(p.cons.empty() ? 1 : 0, o.maxImplicit);
  for (int t = 0; t < n; ++t) {
    ConOpts co = o.con;
    co.level = R.ri((int)p.levels);
    Con k = implicitCon(R, p.r, co);
    bool dup = false;
    for (auto& c : p.cons) if (c.c->function() == k.c->function()) dup = true;
    if (!dup) p.cons.push_back(k);
  }
  p.thr = std::pow(10., R.uni(-6, -2));
  p.ineqThr = R.coin(.5) ? 0 : R.pick(std::vector<double>{1e-3, 1e-2, .1});
  p.maxIter = R.range(1, 60);
  p.lastOptional = p.levels > 1 && R.coin(.4);
  p.levelByLevel = R.coin(.2);
  p.saturate = R.coin(.5);
  if (o.restrictFree && R.coin(.35)) {
    p.restricted = true;
    p.freeMask.resize(p.space->nv());
    for (size_t i = 0; i < p.freeMask.size(); ++i) p.freeMask[i] = R.coin(.75);
  }
  p.order.resize(p.cons.size());
  for (size_t i = 0; i < p.order.size(); ++i) p.order[i] = i;
  R.shuffle(p.order);
  return p;
}

template <class S>
void configure(S& s, const Problem& p) {
  s.errorThreshold(p.thr);
  s.inequalityThreshold(p.ineqThr);
  s.maxIterations(p.maxIter);
  s.lastIsOptional(p.lastOptional && s.numberStacks() >= 2 );
  s.solveLevelByLevel(p.levelByLevel);
  if (p.saturate) s.saturation(std::make_shared<solver::saturation::Device>(p.r.d));
}
void build(BySub& s, Problem& p) {
  for (size_t i : p.order) {
    Con& c = p.cons[i];
    s.add(c.c, c.level);
    c.isExplicit = c.e && s.explicitConstraintSet().contains(c.e);
  }
  if (p.restricted) {
    segments_t f;
    const Eigen::ColBlockIndices& no = s.explicitConstraintSet().notOutDers();
    for (auto& g : no.indices()) for (size_type i = g.first; i < g.first + g.second; ++i) if (p.freeMask[i]) f.push_back(segment_t(i, 1));
    s.freeVariables(f);
  }
  p.lastOptional = p.lastOptional && s.numberStacks() >= 2;
  configure(s, p);
}
void build(HierIt& s, Problem& p) {
  for (size_t i : p.order) { Con& c = p.cons[i]; s.add(c.c, c.level); c.isExplicit = false; }
  if (p.restricted) {
    segments_t f;
    for (size_t i = 0; i < p.freeMask.size(); ++i) if (p.freeMask[i]) f.push_back(segment_t(i, 1));
    s.freeVariables(f);
  }
  p.lastOptional = p.lastOptional && s.numberStacks() >= 2;
  configure(s, p);
}
vector_t explicitResolve(const Problem& p, const vector_t& q0) {
  vector_t q = q0;
  for (size_t t = 0; t <= p.cons.size(); ++t)
    for (auto& c : p.cons)
      if (c.isExplicit) c.setOut(q, c.prescribed(q, c.rhs));
  return q;
}
const char* statusName(HierIt::Status s) {
  switch (s) {
    case HierIt::ERROR_INCREASED: return "ERROR_INCREASED";
    case HierIt::MAX_ITERATION_REACHED: return "MAX_ITERATION_REACHED";
    case HierIt::INFEASIBLE: return "INFEASIBLE";
    case HierIt::SUCCESS: return "SUCCESS";
  }
  return "UNDEFINED";
}
bool allSmooth(const Problem& p, const vector_t& q) {
  for (auto& c : p.cons) if (c.smooth && !c.smooth(q)) return false;
  return true;
}
bool inBounds(const DevicePtr_t& d, const vector_t& q, double tol) {
  const auto& m = d->model();
  for (int i = 0; i < m.nq; ++i) if (q[i] < m.lowerPositionLimit[i] - tol || q[i] > m.upperPositionLimit[i] + tol) return false;
  for (size_type i = 0; i < d->extraConfigSpace().dimension(); ++i)
    if (q[m.nq + i] < d->extraConfigSpace().lower(i) - tol || q[m.nq + i] > d->extraConfigSpace().upper(i) + tol) return false;
  return true;
}
struct CountFn : public DifferentiableFunction {
  DifferentiableFunctionPtr_t f;
  std::shared_ptr<std::pair<long, long>> n;
  CountFn(const DifferentiableFunctionPtr_t& g, std::shared_ptr<std::pair<long, long>> c)
      : DifferentiableFunction(g->inputSize(), g->inputDerivativeSize(), g->outputSpace(), "count " + g->name()), f(g), n(c) {
    activeParameters_ = g->activeParameters();
    activeDerivativeParameters_ = g->activeDerivativeParameters();
  }
  void impl_compute(LiegroupElementRef r, vectorIn_t x) const { n->first++; f->value(r, x); }
  void impl_jacobian(matrixOut_t J, vectorIn_t x) const { n->second++; f->jacobian(J, x); }
  bool isEqual(const DifferentiableFunction& o) const { return dynamic_cast<const CountFn&>(o).f == f; }
};
DifferentiableFunctionPtr_t wrapCount(const DifferentiableFunctionPtr_t& f, std::shared_ptr<std::pair<long, long>> n) { return DifferentiableFunctionPtr_t(new CountFn(f, n)); }
