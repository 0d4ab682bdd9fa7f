// C09 explicit constraint sets, C11 explicit and implicit formulations agree,
// C10 Jacobian of single explicit constraints.
#include "problem.hh"
#include "gen2.hh"
#include <hpp/constraints/explicit/convex-shape-contact.hh>
#include <sstream>

typedef Eigen::BlockIndex BI;
static std::set<size_type> setOf(const segments_t& s) {
  std::set<size_type> r;
  for (auto& x : s) for (size_type i = x.first; i < x.first + x.second; ++i) r.insert(i);
  return r;
}
static vector_t extract(const vector_t& q, const segments_t& s) {
  vector_t y((size_type)BI::cardinal(s)); size_type k = 0;
  for (auto& x : s) { y.segment(k, x.second) = q.segment(x.first, x.second); k += x.second; }
  return y;
}
static std::string ss(const std::set<size_type>& s) { Str o; for (auto x : s) o << x << " "; return o; }

// ---- model of a set of explicit constraints -----------------------------------
struct Model {
  std::vector<Con> acc;
  std::set<size_type> outQ, outV;
  bool feedsOn(const Con& k) const {  // an input of k depends on an output of k
    std::set<size_type> out = setOf(k.outConf), todo = setOf(k.inConf), seen;
    while (!todo.empty()) {
      size_type i = *todo.begin(); todo.erase(todo.begin());
      if (out.count(i)) return true;
      if (!seen.insert(i).second) continue;
      for (auto& c : acc) if (setOf(c.outConf).count(i)) for (auto x : setOf(c.inConf)) todo.insert(x);
    }
    return false;
  }
  bool accepts(const Con& k) const {
    for (auto x : k.comp) if (x != Equality && x != EqualToZero) return false;
    for (auto i : setOf(k.outConf)) if (outQ.count(i)) return false;
    return !feedsOn(k);
  }
  void add(const Con& k) { acc.push_back(k); for (auto i : setOf(k.outConf)) outQ.insert(i); for (auto i : setOf(k.outVel)) outV.insert(i); }
  // free degrees of freedom upstream of constraint i
  std::set<size_type> upstream(size_t i) const {
    std::set<size_type> todo = setOf(acc[i].inVel), seen, r;
    while (!todo.empty()) {
      size_type d = *todo.begin(); todo.erase(todo.begin());
      if (!seen.insert(d).second) continue;
      bool comp = false;
      for (auto& c : acc) if (setOf(c.outVel).count(d)) { comp = true; for (auto x : setOf(c.inVel)) todo.insert(x); }
      if (!comp) r.insert(d);
    }
    return r;
  }
};
// everything observable of a set: text (exact) and numbers (up to rounding)
struct Snap {
  std::string t; vector_t x; matrix_t J;
  bool operator==(const Snap& o) const { return t == o.t && close(x, o.x, 1e-9) && close(J, o.J, 1e-8); }
  std::string str() const { return Str() << t << "|" << x.transpose() << "|" << J; }
};
static Snap snapshot(const ExplicitConstraintSet& s, const vector_t& q) {
  std::ostringstream o;
  o.precision(17);
  s.print(o); o << "|" << s.errorSize() << "|" << s.rightHandSideSize() << "|" << s.rightHandSide().transpose() << "|" << s.derFunction().transpose() << "|" << s.inOutDependencies() << "|"
    << s.inArgs() << s.notOutArgs() << s.outArgs() << s.inDers() << s.notOutDers() << s.outDers() << "|" << s.inOutDofDependencies();
  Snap r; r.t = o.str();
  r.x = q; s.solve(r.x);
  r.J.resize(s.nv(), s.nv()); s.jacobian(r.J, r.x);
  return r;
}

// a candidate: may conflict with others, be circular, or have inequalities
static Con candidate(Rng& R, const Robot& r, const std::vector<JointPtr_t>& js, const std::vector<JointPtr_t>& vj, const std::vector<JointPtr_t>& ff, const std::vector<Con>& prev) {
  Con k;
  int kind = R.ri(7);
  if (!prev.empty() && R.coin(.08)) return R.pick(prev);  // the same object again
  JointPtr_t j = R.pick(js);
  if (kind == 0) k = lockedCon(R, r, j);
  else if (kind <= 2 && !ff.empty()) {
    j = R.pick(ff);
    JointPtr_t j1 = R.coin(.9) ? R.pick(js) : JointPtr_t();
    bool below = false;
    for (JointConstPtr_t a = j1; a && a->index() != 0; a = a->parentJoint()) below |= a->index() == j->index();
    if (below) j1.reset();
    if (*j->configurationSpace() == *LiegroupSpace::SE3()) k = relPoseCon(R, r, j1, j);
    else k = lockedCon(R, r, j);
  } else {
    std::vector<JointPtr_t> out(1, j), in;
    while (R.coin(.3)) {
      JointPtr_t nx;
      for (auto x : js) if (x->rankInConfiguration() == out.back()->rankInConfiguration() + out.back()->configSize()) nx = x;
      if (!nx) break;
      out.push_back(nx);
    }
    double p = R.pick(std::vector<double>{.15, .3, .6});
    for (auto x : vj) { bool o = false; for (auto y : out) o |= y->index() == x->index(); if (!o && R.coin(p)) in.push_back(x); }
    R.shuffle(in);   // inputs need not be in increasing order
    if (in.empty()) k = lockedCon(R, r, j);
    else k = explicitCon(R, r, out, in);
  }
  if (R.coin(.06) && k.outSpace->isVectorSpace()) {
    k.comp[R.ri((int)k.comp.size())] = R.coin() ? Superior : Inferior;
    k.c->comparisonType(k.comp);
    k.kind += "+ineq";
  }
  return k;
}

SUITE("C09", "add-and-solve", 2600, 60000) {
  RobotOpts ro; ro.predefined = .12; ro.minJoints = 2; ro.maxJoints = 9;
  Robot r = randomRobot(R, ro);
  std::vector<JointPtr_t> js = allJoints(r), vj = vectorJoints(r), ff = freeflyerRoots(r);
  ExplicitConstraintSet s(r.space());
  Model M;
  std::vector<Con> cand;
  std::string desc = r.desc;
  int n = R.range(1, 9);
  vector_t qs = randomConfig(R, r.d);
  long refused = 0;
  for (int t = 0; t < n; ++t) {
    Con k = candidate(R, r, js, vj, ff, cand);
    cand.push_back(k);
    bool expect = M.accepts(k);
    // the set must not change when a constraint is refused, including right-hand sides
    if (R.coin(.5) && !M.acc.empty()) {
      vector_t q2 = randomConfig(R, r.d);
      s.rightHandSideFromInput(q2);
      for (auto& c : M.acc) c.rhs = c.rhsFrom(q2);
    }
    bool snap = !expect || R.coin(.2);
    Snap before; if (snap) before = snapshot(s, qs);
    C.note(desc + " + " + k.kind);
    size_type id = s.add(k.e);
    desc += Str() << " " << k.kind << "@" << k.outConf[0].first << (expect ? "" : "(refuse)");
    if (!C.check((id >= 0) == expect, expect ? "explicit-set/refused-compatible" : "explicit-set/accepted-incompatible", [&] { return Str() << desc << " add returned " << id; })) return;
    if (expect) {
      C.check(id == (size_type)M.acc.size(), "explicit-set/index", [&] { return Str() << desc << " add returned " << id; });
      k.rhs = k.space()->neutral().vector();   // new constraints have a neutral right-hand side
      k.isExplicit = true;
      M.add(k);
    } else {
      ++refused;
      C.check(before == snapshot(s, qs), "explicit-set/refused-changes", [&] { return Str() << desc << "\nbefore " << before.str() << "\nafter " << snapshot(s, qs).str(); });
    }
    C.check(s.contains(k.e) || !expect, "explicit-set/contains", [&] { return desc; });
    // partition
    std::set<size_type> inQ, inV, all, allV, noQ, noV;
    for (auto& c : M.acc) { for (auto i : setOf(c.inConf)) if (!M.outQ.count(i)) inQ.insert(i); for (auto i : setOf(c.inVel)) if (!M.outV.count(i)) inV.insert(i); }
    for (size_type i = 0; i < r.nq(); ++i) if (!M.outQ.count(i)) noQ.insert(i);
    for (size_type i = 0; i < r.nv(); ++i) if (!M.outV.count(i)) noV.insert(i);
    auto same = [&](const char* what, const segments_t& got, size_type cnt, const std::set<size_type>& want) {
      C.check(setOf(got) == want && cnt == (size_type)want.size(), std::string("explicit-set/partition-") + what, [&] { return Str() << desc << " " << what << " got " << ss(setOf(got)) << "(" << cnt << ") expected " << ss(want); });
    };
    same("outArgs", s.outArgs().indices(), s.outArgs().nbIndices(), M.outQ);
    same("inArgs", s.inArgs().indices(), s.inArgs().nbIndices(), inQ);
    same("notOutArgs", s.notOutArgs().indices(), s.notOutArgs().nbIndices(), noQ);
    same("outDers", s.outDers().indices(), s.outDers().nbIndices(), M.outV);
    same("inDers", s.inDers().indices(), s.inDers().nbIndices(), inV);
    same("notOutDers", s.notOutDers().indices(), s.notOutDers().nbIndices(), noV);
    same("activeParameters", s.activeParameters().indices(), s.activeParameters().nbIndices(), inQ);
  }
  C.count("candidates", n); C.count("refused", refused); C.count("accepted", (long)M.acc.size());
  if (M.acc.empty()) return;
  // dependencies
  size_type es = 0;
  Eigen::MatrixXi iod = s.inOutDependencies(), dof = s.inOutDofDependencies();
  std::vector<size_type> outV(M.outV.begin(), M.outV.end()), inV;
  for (auto i : setOf(s.inDers().indices())) inV.push_back(i);
  for (size_t i = 0; i < M.acc.size(); ++i) {
    es += M.acc[i].space()->nv();
    std::set<size_type> up = M.upstream(i);
    bool ok = true;
    for (size_type v = 0; v < r.nv(); ++v) ok = ok && (iod((size_type)i, v) > 0) == (up.count(v) > 0);
    C.check(ok, "explicit-set/dependencies", [&] { return Str() << desc << " constraint " << i << " row " << iod.row((size_type)i) << " expected " << ss(up); });
    if (inV.empty()) continue;
    if (!C.check(dof.rows() == (size_type)outV.size() && dof.cols() == (size_type)inV.size(), "explicit-set/dof-dependencies-size", [&] { return Str() << desc << " " << dof.rows() << "x" << dof.cols(); })) continue;
    std::set<size_type> ov = setOf(M.acc[i].outVel);
    for (size_t a = 0; a < outV.size(); ++a) if (ov.count(outV[a]))
      for (size_t b = 0; b < inV.size(); ++b) ok = ok && (dof((size_type)a, (size_type)b) > 0) == (up.count(inV[b]) > 0);
    C.check(ok, "explicit-set/dof-dependencies", [&] { return Str() << desc << " constraint " << i << "\n" << dof << "\nexpected " << ss(up); });
  }
  C.check(s.errorSize() == es, "explicit-set/error-size", [&] { return Str() << desc << s.errorSize() << " expected " << es; });
  // solve
  Problem P; P.r = r; P.space = r.space();
  for (int rep = 0; rep < 2; ++rep) {
    for (auto& c : M.acc) {
      if (R.coin(.6)) c.rhs = c.project(expOf(c.space(), randomVec(R, c.space()->nv(), R.coin() ? 1 : .1)));
      C.check(s.rightHandSide(c.e, c.rhs), "explicit-set/rhs-not-found", [&] { return desc + c.kind; });
    }
    P.cons = M.acc;
    vector_t q0 = randomConfig(R, r.d), q = q0;
    C.check(s.solve(q), "explicit-set/solve-failed", [&] { return desc; });
    vector_t m = explicitResolve(P, q0);
    auto D = [&] { return Str() << desc << " q0=" << vs(q0) << "\n got " << vs(q) << "\n exp " << vs(m); };
    // outputs may be represented by opposite quaternions: compare on the manifold
    bool ok = inSpace(r.space(), q, 1e-6) && maxAbs(difference(r.space(), q, m)) < 1e-7;
    C.check(ok, "explicit-set/solve-value", D);
    bool untouched = true;
    for (size_type i = 0; i < r.nq(); ++i) if (!M.outQ.count(i) && q[i] != q0[i]) untouched = false;
    C.check(untouched, "explicit-set/solve-touches-others", D);
    bool smooth = true;
    for (auto& c : M.acc) if (c.smooth && !c.smooth(q)) smooth = false;
    if (smooth) {
      vector_t e(s.errorSize());
      C.check(s.isSatisfied(q, e, 1e-6) && maxAbs(e) < 1e-6 && s.isSatisfied(q, 1e-6), "explicit-set/solved-not-satisfied", [&] { return Str() << D().o.str() << " error " << vs(e); });
    } else C.skip("cut-locus");
    vector_t q2 = q; s.solve(q2);
    C.check(maxAbs(difference(r.space(), q2, q)) < 1e-9, "explicit-set/solve-idempotent", D);
    // any order of insertion
    std::vector<size_t> o(M.acc.size());
    for (size_t i = 0; i < o.size(); ++i) o[i] = i;
    R.shuffle(o);
    ExplicitConstraintSet t(r.space());
    bool allok = true;
    for (size_t i : o) allok = allok && t.add(M.acc[i].e) >= 0;
    C.check(allok, "explicit-set/order-acceptance", [&] { return desc; });
    if (allok) {
      for (auto& c : M.acc) t.rightHandSide(c.e, c.rhs);
      vector_t q3 = q0; t.solve(q3);
      C.check(maxAbs(q3 - q) < 1e-12, "explicit-set/order-solve", D);
      matrix_t J(s.nv(), s.nv()), K(s.nv(), s.nv());
      s.jacobian(J, q); t.jacobian(K, q);
      C.check(maxAbs(J - K) < 1e-9, "explicit-set/order-jacobian", [&] { return Str() << D().o.str() << "\n" << show(J, 30) << "\n" << show(K, 30); });
    }
    size_t chain = 0;
    for (auto& c : M.acc) for (auto i : setOf(c.inConf)) if (M.outQ.count(i)) { ++chain; break; }
    C.count("chained", (long)chain);
    if (maxAbs(q - q0) > 1e-6 && (chain || refused)) C.nontrivial(desc + vs(q0));
  }
  C.sample(desc.substr(0, 240));
}

// constraints whose own inputs and outputs overlap are refused
SUITE("C09", "self-overlap", 60, 1000) {
  Robot r = randomRobot(R);
  std::vector<JointPtr_t> vj = vectorJoints(r);
  if (vj.empty()) return;
  JointPtr_t j = R.pick(vj);
  std::vector<JointPtr_t> in(1, j);
  for (auto x : vj) if (x->index() != j->index() && R.coin(.4)) in.push_back(x);
  R.shuffle(in);
  size_type sz = j->configSize(), sv = j->numberDof();
  for (auto x : in) { sz += x->configSize(); sv += x->numberDof(); }
  if (sz > r.d->configSize() || sv > r.d->numberDof()) { C.skip("more variables than the robot has"); return; }
  Con k = explicitCon(R, r, std::vector<JointPtr_t>(1, j), in);
  ExplicitConstraintSet s(r.space());
  if (R.coin()) { JointPtr_t a = R.pick(allJoints(r)); s.add(lockedCon(R, r, a).e); }
  vector_t q = randomConfig(R, r.d);
  Snap b = snapshot(s, q);
  bool refused = false;
  try { refused = s.add(k.e) < 0; } catch (const std::logic_error&) { refused = true; }
  C.check(refused, "explicit-set/accepted-self-dependent", [&] { return r.desc + " " + k.kind; });
  C.check(b == snapshot(s, q), "explicit-set/refused-changes", [&] { return r.desc + " " + k.kind; });
  C.nontrivial(r.desc + k.kind);
}

// ---- C11 ------------------------------------------------------------------------
static std::string tail(const std::string& k) { return k.substr(0, k.find(':')); }
// y = outputValue(input part of q, rhs)
static vector_t outputOf(const ExplicitPtr_t& e, const vector_t& q, const vector_t& rhs) {
  LiegroupElement y(e->explicitFunction()->outputSpace());
  vector_t qin = extract(q, e->inputConf());
  e->outputValue(y, qin, LiegroupElement(rhs, e->function().outputSpace()));
  return y.vector();
}
static void agree(Ctx& C, Rng& R, const Robot& r, const Con& k) {
  std::string K = "agree/" + tail(k.kind);
  for (int t = 0; t < 3; ++t) {
    vector_t q = randomConfig(R, r.d);
    vector_t rhs = R.coin(.15) ? k.space()->neutral().vector() : k.project(expOf(k.space(), randomVec(R, k.space()->nv(), k.outSpace->isVectorSpace() && R.coin() ? 3 : 1)));
    vector_t y = outputOf(k.e, q, rhs), exp = k.prescribed(q, rhs);
    auto D = [&] { return Str() << r.desc << " " << k.kind << " q=" << vs(q) << " rhs=" << vs(rhs) << " y=" << vs(y) << " expected " << vs(exp); };
    C.check(inSpace(k.outSpace, y, 1e-6) && maxAbs(difference(k.outSpace, y, exp)) < 1e-7, K + "/output-value", D);
    vector_t q1 = q; k.setOut(q1, y);
    vector_t h = k.value(q1);
    // compare through the chart centred at rhs
    double e = maxAbs(difference(k.space(), h, rhs));
    if (!k.smooth || k.smooth(q1)) C.check(e < 1e-6, K + "/implicit-value", [&] { return Str() << D().o.str() << " implicit value " << vs(h) << " off by " << e; });
    else C.skip("cut-locus");
    // converse: every configuration is a fixed point for the right-hand side it defines
    vector_t q2 = randomConfig(R, r.d);
    if (R.coin(.3)) q2 = integrate(r.space(), q1, randomVec(R, r.nv(), .2));
    if (!k.smooth || k.smooth(q2)) {
      vector_t h2 = k.value(q2);
      vector_t y2 = outputOf(k.e, q2, h2), o2 = k.out(q2);
      C.check(inSpace(k.outSpace, y2, 1e-6) && maxAbs(difference(k.outSpace, y2, o2)) < 1e-6, K + "/fixed-point", [&] { return Str() << r.desc << " " << k.kind << " q=" << vs(q2) << " rhs=" << vs(h2) << " output " << vs(y2); });
    } else C.skip("cut-locus");
    if (maxAbs(logOf(k.space(), rhs)) > 1e-3 || (k.e->inputConf().size() && t == 0)) C.nontrivial(r.desc + k.kind + vs(q));
    C.count(tail(k.kind));
  }
}
SUITE("C11", "locked-generic-relpose", 1500, 40000) {
  RobotOpts ro; ro.predefined = .15; ro.minJoints = 2; ro.maxJoints = 8;
  Robot r = randomRobot(R, ro);
  std::vector<JointPtr_t> js = allJoints(r), vj = vectorJoints(r), ff = freeflyerRoots(r);
  for (int t = 0; t < 2; ++t) {
    std::vector<Con> none;
    Con k = candidate(R, r, js, vj, ff, none);
    bool eq = true;
    for (auto c : k.comp) eq = eq && (c == Equality || c == EqualToZero);
    if (!eq) continue;
    C.note(r.desc + k.kind);
    agree(C, R, r, k);
  }
}

// locked joints: all constructors
SUITE("C11", "locked-partial-extra", 400, 8000) {
  RobotOpts ro; ro.extra = true; ro.predefined = .1;
  Robot r = randomRobot(R, ro);
  size_type rq, rv;
  vector_t val;
  LockedJointPtr_t lj;
  std::string kind;
  if (r.extra() && R.coin()) {
    size_type ne = r.extra(), i = R.ri((int)ne), n = R.range(1, (int)(ne - i));
    val = randomVec(R, n);
    kind = Str() << "extra " << i << "+" << n << "/" << ne;
    C.note(r.desc + kind);
    lj = LockedJoint::create(r.d, i, val);
    rq = r.nq() - ne + i; rv = r.nv() - ne + i;
  } else {
    std::vector<JointPtr_t> c;
    for (auto j : vectorJoints(r)) c.push_back(j);
    if (c.empty()) return;
    JointPtr_t j = R.pick(c);
    size_type ne = j->configSize(), i = R.ri((int)ne), n = R.range(1, (int)(ne - i));
    val = randomVec(R, n);
    kind = Str() << "partial " << j->configurationSpace()->name() << " " << i << "+" << n;
    C.note(r.desc + kind);
    lj = LockedJoint::create(j, i, val);
    rq = j->rankInConfiguration() + i; rv = j->rankInVelocity() + i;
  }
  size_type n = val.size();
  auto D = [&] { return Str() << r.desc << " " << kind << " value " << vs(val); };
  bool sizes = lj->outputConf() == segments_t(1, segment_t(rq, n)) && lj->outputVelocity() == segments_t(1, segment_t(rv, n)) && lj->inputConf().empty() && lj->inputVelocity().empty() &&
      lj->configSize() == n && lj->numberDof() == n && lj->rankInConfiguration() == rq && lj->rankInVelocity() == rv && (size_type)lj->comparisonType().size() == n && lj->checkAllRowsActive() && lj->parameterSize() == n;
  if (!C.check(sizes, "locked-partial/segments", D)) return;
  vector_t q = randomConfig(R, r.d), rhs = R.coin(.3) ? vector_t(vector_t::Zero(n)) : randomVec(R, n);
  vector_t y = outputOf(lj, q, rhs);
  C.check(close(y, val + rhs, 1e-12), "locked-partial/output", D);
  C.check(close(lj->function()(q).vector(), q.segment(rq, n) - val, 1e-12), "locked-partial/implicit-value", D);
  matrix_t J = jac(lj->functionPtr(), q), E = matrix_t::Zero(n, r.nv());
  for (size_type i = 0; i < n; ++i) E(i, rv + i) = 1;
  C.check(close(J, E, 1e-12), "locked-partial/jacobian", D);
  ExplicitConstraintSet s(r.space());
  C.check(s.add(lj) == 0, "locked-partial/refused", D);
  s.rightHandSide(lj, rhs);
  vector_t q1 = q; s.solve(q1);
  vector_t q2 = q; q2.segment(rq, n) = val + rhs;
  C.check(close(q1, q2, 1e-12), "locked-partial/solve", D);
  BySub b(r.space()); b.errorThreshold(1e-6); b.maxIterations(20);
  b.add(lj);
  vector_t q3 = q;
  C.check(b.solve(q3) == HierIt::SUCCESS && close(q3.segment(rq, n), val, 1e-12), "locked-partial/solver", D);
  C.nontrivial(r.desc + kind + vs(val));
}

// surface contacts
struct Hold { Robot r; JointPtr_t obj; Contact c; explicit_::ConvexShapeContactPtr_t e; bool ok = false; };
static Hold randomHold(Rng& R, double predefined = .1) {
  Hold h;
  RobotOpts ro; ro.predefined = predefined; ro.minJoints = 2; ro.maxJoints = 7;
  for (int t = 0; t < 20; ++t) {
    h.r = randomRobot(R, ro);
    std::vector<JointPtr_t> c;
    for (auto j : freeflyerRoots(h.r)) if (*j->configurationSpace() == *LiegroupSpace::SE3()) c.push_back(j);
    if (c.empty()) continue;
    h.obj = R.pick(c);
    h.c = randomContact(R, h.r, true, h.obj);
    h.ok = true;
    return h;
  }
  return h;
}
// random right-hand side asking for a contact inside floor i with object surface k
static vector_t contactRhs(Rng& R, const Contact& c, size_t i, size_t k, double M) {
  SE3 F = shapeFrame(c.floors[i].p, true);
  // convex combination of the vertices
  Eigen::Vector3d x = Eigen::Vector3d::Zero(); double w = 0;
  for (auto& p : c.floors[i].p) { double a = R.uni(.05, 1); x += a * p; w += a; }
  x = F.actInv(Eigen::Vector3d(x / w));
  vector_t rhs = vector_t::Zero(8);
  rhs[5] = x[1] + 2 * (double)i * M; rhs[6] = x[2] + 2 * (double)k * M; rhs[7] = R.uni(-2.8, 2.8);
  return rhs;
}
static double floorRadius(const Contact& c) {
  double M = 0;
  for (auto& f : c.floors) { SE3 F = shapeFrame(f.p, true); for (auto& x : f.p) M = std::max(M, (x - F.translation()).norm()); }
  return M + 1;
}
SUITE("C11", "surface-contact", 1200, 30000) {
  Hold h = randomHold(R);
  if (!h.ok) { C.skip("no free-flyer"); return; }
  Robot& r = h.r; Contact& c = h.c;
  double M = floorRadius(c);
  C.note(r.desc);
  auto T = explicit_::ConvexShapeContact::createConstraintAndComplement("hold", r.d, c.F(), c.O(), c.margin);
  ImplicitPtr_t con = std::get<0>(T), comp = std::get<1>(T);
  ExplicitPtr_t e = std::get<2>(T);
  std::string desc = Str() << r.desc << " obj " << h.obj->name() << " floors " << c.floors.size() << " surfaces " << c.objects.size() << " margin " << c.margin;
  for (auto& f : c.floors) desc += std::string(" ") + (f.j ? f.j->name() : "world");
  C.check(e->outputConf() == segments_t(1, segment_t(h.obj->rankInConfiguration(), 7)) && e->outputVelocity() == segments_t(1, segment_t(h.obj->rankInVelocity(), 6)), "contact/output-segment", [&] { return desc; });
  for (int t = 0; t < 4; ++t) {
    vector_t q = randomConfig(R, r.d);
    // the three constraints describe the same relation at every configuration
    vector_t v = con->function()(q).vector(), w = comp->function()(q).vector(), x = e->function()(q).vector(), vw(8);
    vw << v, w;
    C.check(close(x, vw, 1e-9), "contact/hold-is-contact-and-complement", [&] { return Str() << desc << " q=" << vs(q) << " contact " << vs(v) << " complement " << vs(w) << " hold " << vs(x); });
    size_t i = R.ri((int)c.floors.size()), k = R.ri((int)c.objects.size());
    vector_t rhs = contactRhs(R, c, i, k, M);
    vector_t y = outputOf(e, q, rhs);
    auto D = [&] { return Str() << desc << " floor " << i << " surface " << k << " q=" << vs(q) << " rhs=" << vs(rhs) << " y=" << vs(y); };
    if (!C.check(inSpace(LiegroupSpace::SE3(), y, 1e-6), "contact/output-invalid", D)) continue;
    vector_t q1 = q; q1.segment(h.obj->rankInConfiguration(), 7) = y;
    // geometry: the object surface is on the floor, margin away, where requested
    Kin K(r.d, q1);
    SE3 F = K.joint(c.floors[i].j) * shapeFrame(c.floors[i].p, true), O = K.joint(h.obj) * shapeFrame(c.objects[k].p, false);
    SE3 rel = F.inverse() * O;
    vector_t g(6), eg(6);
    g.head(3) = rel.translation(); g.tail(3) = logOf(LiegroupSpace::SO3(), Eigen::Quaterniond(rel.rotation()).coeffs());
    eg << -c.margin, rhs[5] - 2 * (double)i * M, rhs[6] - 2 * (double)k * M, rhs[7], 0, 0;
    C.check(close(g, eg, 1e-7), "contact/output-geometry", [&] { return Str() << D().o.str() << " relative placement " << vs(g) << " expected " << vs(eg); });
    ContactRef ref = contactRef(c, r.d, q1);
    if (ref.ifloor != i || ref.iobject != k || ref.gap < 1e-6 || std::fabs(ref.dp) < 1e-4) { C.skip("other-pair-nearer"); continue; }
    vector_t hv = e->function()(q1).vector();
    C.check(close(hv, rhs, 1e-7), "contact/implicit-value", [&] { return Str() << D().o.str() << " implicit " << vs(hv); });
    // converse
    vector_t y2 = outputOf(e, q1, hv);
    C.check(inSpace(LiegroupSpace::SE3(), y2, 1e-6) && maxAbs(difference(LiegroupSpace::SE3(), y2, y)) < 1e-6, "contact/fixed-point", [&] { return Str() << D().o.str() << " y2=" << vs(y2); });
    // through a solver: explicit and implicit versions accept the same configurations
    BySub b(r.space()), m(r.space());
    for (auto s : {&b, &m}) { s->errorThreshold(1e-5); s->maxIterations(20); }
    b.add(e); m.add(con); m.add(comp);
    b.rightHandSideFromConfig(q1); m.rightHandSideFromConfig(q1);
    vector_t q2 = q1;
    if (R.coin()) q2 = integrate(r.space(), q1, randomVec(R, r.nv(), std::pow(10., R.uni(-8, -1))));
    if (R.coin(.3)) { size_type rk = h.obj->rankInVelocity(); vector_t d = vector_t::Zero(r.nv()); d.segment(rk, 6) = randomVec(R, 6, std::pow(10., R.uni(-8, -1))); q2 = integrate(r.space(), q1, d); }
    if (b.explicitConstraintSet().contains(e)) {
      vector_t q3 = q2;
      if (R.coin()) b.solve(q3);
      bool s1 = b.isSatisfied(q3), s2 = m.isSatisfied(q3);
      vector_t a = e->function()(q3).vector() - hv;
      double n = a.norm();
      // errors are split in two constraints in the implicit version
      if (n < .6e-5 || n > 2e-5) C.check(s1 == s2, "contact/verdicts-differ", [&] { return Str() << D().o.str() << " q=" << vs(q3) << " explicit " << s1 << " implicit " << s2 << " error " << n; });
    } else C.fail("contact/not-explicit", desc);
    C.nontrivial(desc + vs(q));
    C.sample(desc.substr(0, 200));
  }
}

// ---- C10: Jacobian of one explicit constraint ------------------------------------
static void jacobianOf(Ctx& C, Rng& R, const Robot& r, const ExplicitPtr_t& e, const vector_t& rhs, const vector_t& q, const std::string& desc, const std::string& kind) {
  LiegroupSpacePtr_t os = e->explicitFunction()->outputSpace();
  auto F = [&](const vector_t& x) { return outputOf(e, x, rhs); };
  double err;
  matrix_t N = numJac(F, r.space(), os, q, err);
  if (!(err < 1e-6)) { C.skip("ill-conditioned-difference"); return; }
  matrix_t J((size_type)BI::cardinal(e->outputVelocity()), (size_type)BI::cardinal(e->inputVelocity()));
  J.setConstant(std::numeric_limits<double>::quiet_NaN());
  LiegroupElement f(os);
  vector_t qin = extract(q, e->inputConf());
  e->outputValue(f, qin, LiegroupElement(rhs, e->function().outputSpace()));
  e->jacobianOutputValue(qin, f, LiegroupElement(rhs, e->function().outputSpace()), J);
  matrix_t X = matrix_t::Zero(J.rows(), r.nv());
  size_type k = 0;
  for (auto& s : e->inputVelocity()) { X.middleCols(s.first, s.second) = J.middleCols(k, s.second); k += s.second; }
  C.check(close(X, N, 1e-5 * (1 + maxAbs(N))), "output-jacobian/" + kind, [&] { return Str() << desc << " q=" << vs(q) << " rhs=" << vs(rhs) << "\nJ\n" << show(X, 12) << "\nnumerical\n" << show(N, 12); });
  if (maxAbs(N) > 1e-3) C.nontrivial(desc + vs(q));
}
SUITE("C10", "output-jacobian", 800, 20000) {
  RobotOpts ro; ro.predefined = .15; ro.minJoints = 2; ro.maxJoints = 8;
  Robot r = randomRobot(R, ro);
  std::vector<JointPtr_t> js = allJoints(r), vj = vectorJoints(r), ff = freeflyerRoots(r);
  std::vector<Con> none;
  Con k = candidate(R, r, js, vj, ff, none);
  C.note(r.desc + k.kind);
  vector_t q = randomConfig(R, r.d);
  vector_t rhs = R.coin(.2) ? k.space()->neutral().vector() : k.project(expOf(k.space(), randomVec(R, k.space()->nv(), 1)));
  jacobianOf(C, R, r, k.e, rhs, q, r.desc + k.kind, tail(k.kind));
}
SUITE("C10", "output-jacobian-contact", 400, 10000) {
  Hold h = randomHold(R);
  if (!h.ok) { C.skip("no free-flyer"); return; }
  std::string desc = Str() << h.r.desc << " obj " << h.obj->name();
  for (auto& f : h.c.floors) desc += std::string(" ") + (f.j ? f.j->name() : "world");
  C.note(desc);
  explicit_::ConvexShapeContactPtr_t e = explicit_::ConvexShapeContact::create("hold", h.r.d, h.c.F(), h.c.O(), h.c.margin);
  double M = floorRadius(h.c);
  vector_t rhs = contactRhs(R, h.c, R.ri((int)h.c.floors.size()), R.ri((int)h.c.objects.size()), M);
  vector_t q = randomConfig(R, h.r.d);
  jacobianOf(C, R, h.r, e, rhs, q, desc, "contact");
}
