// C18: symbolic expressions.
#include "gen.hh"
#include <hpp/constraints/symbolic-calculus.hh>
#include <hpp/constraints/symbolic-function.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>

typedef Eigen::Vector3d V3;
typedef std::function<V3(const vector_t&)> Ref;

// type erased node: forwards to the real expression
struct Any : CalculusBase<Any> {
  std::shared_ptr<void> keep;
  std::function<void()> inv;
  std::function<V3(const vector_t&)> val;
  std::function<matrix_t(const vector_t&)> ja;
  void init(const std::shared_ptr<Any>&) {}
  template <class T> static std::shared_ptr<Any> make(const std::shared_ptr<T>& e) {
    std::shared_ptr<Any> a(new Any);
    a->keep = e;
    a->inv = [e] { e->invalidate(); };
    a->val = [e](const vector_t& q) { e->computeValue(q); return V3(e->value()); };
    a->ja = [e](const vector_t& q) { e->computeJacobian(q); return matrix_t(e->jacobian()); };
    return a;
  }
  void impl_value(const ConfigurationIn_t q) { value_ = val(q); }
  void impl_jacobian(const ConfigurationIn_t q) { jacobian_ = ja(q); }
  void invalidate() { CalculusBase<Any>::invalidate(); inv(); }
};
typedef std::shared_ptr<Any> AnyP;

struct Node {
  int type = 4;  // 0 Point 1 PointInJoint 2 VectorInJoint 3 PointCom 4 Any
  std::shared_ptr<Point> p; std::shared_ptr<PointInJoint> pj; std::shared_ptr<VectorInJoint> vj; std::shared_ptr<PointCom> pc; AnyP any;
  Ref ref;
  std::string s;
  int depth = 0;
};
struct World {
  Robot r; std::vector<JointPtr_t> js; std::vector<Node> pool; size_type ncol;
  std::vector<std::pair<CenterOfMassComputationPtr_t, std::vector<size_t>>> coms;
};
static V3 rv(Rng& R) { if (R.coin(.12)) return V3::Zero(); return V3(R.uni(), R.uni(), R.uni()); }

template <class F> static void visit(const Node& n, F f) {
  switch (n.type) { case 0: f(n.p); break; case 1: f(n.pj); break; case 2: f(n.vj); break; case 3: f(n.pc); break; default: f(n.any); }
}
static Node leaf(Rng& R, World& w) {
  Node n; int t = R.ri(w.coms.empty() ? 3 : 4);
  DevicePtr_t d = w.r.d;
  if (t == 0) {
    V3 x = rv(R); n.type = 0; n.p = Point::create(x, (std::size_t)w.ncol);
    n.ref = [x](const vector_t&) { return x; }; n.s = "Pt";
  } else if (t == 1) {
    V3 x = rv(R); JointPtr_t j = R.pick(w.js); bool three = R.coin(.3), null = three && R.coin(.5);
    n.type = 1;
    if (null) { n.pj = PointInJoint::create(JointPtr_t(), x, w.ncol); n.ref = [x](const vector_t&) { return x; }; n.s = "PointInWorld"; }
    else {
      n.pj = three ? PointInJoint::create(j, x, w.ncol) : PointInJoint::create(j, x);
      n.ref = [x, j, d](const vector_t& q) { return V3(Kin(d, q).joint(j).act(x)); }; n.s = x.isZero() ? "PointInJoint0" : "PointInJoint";
    }
  } else if (t == 2) {
    V3 x = rv(R); JointPtr_t j = R.pick(w.js); bool three = R.coin(.3), null = three && R.coin(.5);
    n.type = 2;
    if (null) { n.vj = VectorInJoint::create(JointPtr_t(), x, w.ncol); n.ref = [x](const vector_t&) { return x; }; n.s = "VectorInWorld"; }
    else {
      n.vj = three ? VectorInJoint::create(j, x, w.ncol) : VectorInJoint::create(j, x);
      n.ref = [x, j, d](const vector_t& q) { return V3(Kin(d, q).joint(j).rotation() * x); }; n.s = "VectorInJoint";
    }
  } else {
    auto c = R.pick(w.coms);
    n.type = 3; n.pc = PointCom::create(c.first);
    auto roots = c.second; n.ref = [roots, d](const vector_t& q) { return comOf(d, q, roots); }; n.s = roots.empty() ? "Com" : "PartCom";
  }
  return n;
}
static Node bin(Rng& R, const Node& a, const Node& b, int op) {
  Node n; Ref x = a.ref, y = b.ref;
  visit(a, [&](const auto& l) { visit(b, [&](const auto& r) {
    switch (op) {
      case 0: n.any = Any::make(l + r); break;
      case 1: n.any = Any::make(l - r); break;
      default: n.any = Any::make(l ^ r); break;
    }
  }); });
  if (op == 0) n.ref = [x, y](const vector_t& q) { return V3(x(q) + y(q)); };
  else if (op == 1) n.ref = [x, y](const vector_t& q) { return V3(x(q) - y(q)); };
  else n.ref = [x, y](const vector_t& q) { return V3(x(q).cross(y(q))); };
  n.s = Str() << "(" << a.s << "+-^"[op] << b.s << ")";
  n.depth = 1 + std::max(a.depth, b.depth);
  return n;
}
static Node un(Rng& R, World& w, const Node& a, int op) {
  Node n; Ref x = a.ref; DevicePtr_t d = w.r.d;
  JointPtr_t j = R.pick(w.js); double k = R.pick(std::vector<double>{0, 1, -1, .5, 2.5, -3});
  visit(a, [&](const auto& l) {
    switch (op) {
      case 0: n.any = Any::make(k * l); break;
      case 1: n.any = Any::make(j * l); break;
      default: n.any = Any::make(JointTranspose(j) * l); break;
    }
  });
  if (op == 0) { n.ref = [x, k](const vector_t& q) { return V3(k * x(q)); }; n.s = Str() << k << a.s; }
  else if (op == 1) { n.ref = [x, j, d](const vector_t& q) { return V3(Kin(d, q).joint(j).rotation() * x(q)); }; n.s = "R*" + a.s; }
  else { n.ref = [x, j, d](const vector_t& q) { return V3(Kin(d, q).joint(j).rotation().transpose() * x(q)); }; n.s = "Rt*" + a.s; }
  n.depth = 1 + a.depth;
  return n;
}
static Node expr(Rng& R, World& w, int depth) {
  if (depth == 0 || R.coin(.12)) {
    if (!w.pool.empty() && R.coin(.35)) return R.pick(w.pool);
    Node n = leaf(R, w); w.pool.push_back(n); return n;
  }
  if (!w.pool.empty() && R.coin(.12)) { Node n = R.pick(w.pool); if (n.depth <= depth) return n; }
  Node n;
  if (R.coin(.3)) n = un(R, w, expr(R, w, depth - 1), R.ri(3));
  else { Node a = expr(R, w, depth - 1); Node b = R.coin(.08) ? a : expr(R, w, depth - 1); n = bin(R, a, b, R.ri(3)); }
  w.pool.push_back(n);
  return n;
}
static World world(Rng& R, double extra = .5) {
  World w; RobotOpts o; o.extra = R.coin(extra); o.predefined = .15; o.maxJoints = 5; w.r = randomRobot(R, o);
  w.ncol = w.r.nv() - w.r.extra();
  for (auto& j : std::vector<int>(6)) { (void)j; JointPtr_t x = randomJoint(R, w.r.d); if (x) w.js.push_back(x); }
  if (hasCom(w.r)) {
    CenterOfMassComputationPtr_t c = hpp::pinocchio::CenterOfMassComputation::create(w.r.d); std::vector<size_t> roots;
    c->add(w.r.d->rootJoint()); c->compute(hpp::pinocchio::COMPUTE_ALL);
    for (size_t i = 1; i < w.r.d->model().joints.size(); ++i) if (w.r.d->model().parents[i] == 0) roots.push_back(i);
    w.coms.push_back({c, roots});
  }
  return w;
}
static void setRobot(const DevicePtr_t& d, const vector_t& q) { d->currentConfiguration(q); d->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION | hpp::pinocchio::JACOBIAN); }
static matrix_t refJac(const World& w, const VecFn& f, size_type m, const vector_t& q, double& err) {
  matrix_t J = numJac(f, w.r.space(), LiegroupSpace::Rn(m), q, err);
  return J.leftCols(w.ncol);
}
static double tolv(const vector_t& v) { return 1e-9 * (1 + maxAbs(v)); }

SUITE("C18", "expressions", 700, 14000) {
  World w = world(R);
  int depth = R.range(1, 4);
  Node n = expr(R, w, depth);
  std::string desc = w.r.desc + " " + n.s, top = n.s.substr(0, 3);
  C.note(desc);
  VecFn f = [&](const vector_t& q) { return vector_t(n.ref(q)); };
  // direct use, random order of evaluations, several configurations
  std::vector<vector_t> qs; for (int i = 0; i < 3; ++i) qs.push_back(randomConfig(R, w.r.d));
  for (int t = 0; t < 4; ++t) {
    const vector_t& q = R.pick(qs);
    setRobot(w.r.d, q);
    visit(n, [&](const auto& e) {
      if (t || R.coin(.7)) e->invalidate();   // freshly created expressions are not valid
      V3 v; matrix_t J; bool jfirst = R.coin(), both = R.coin(.7);
      if (jfirst) { e->computeJacobian(q); J = e->jacobian(); if (both) { e->computeValue(q); v = e->value(); } }
      else { e->computeValue(q); v = e->value(); if (both) { e->computeJacobian(q); J = e->jacobian(); } }
      vector_t x = f(q); double err = 0;
      if (!jfirst || both) C.check(close(v, x, tolv(x)), "expression/value", [&] { return Str() << desc << " q=" << vs(q) << " " << vs(v) << " expected " << vs(x); });
      if (jfirst || both) {
        matrix_t Jr = refJac(w, f, 3, q, err);
        C.check(close(J, Jr, 1e-5 * (1 + maxAbs(Jr)) + 20 * err), "expression/jacobian", [&] { return Str() << desc << " q=" << vs(q) << "\n" << show(J) << "\n expected\n" << show(Jr); });
      }
      C.count(Str() << "depth" << n.depth);
    });
  }
  C.nontrivial(desc);
  C.sample(desc.substr(0, 200));
}

// shared sub-expressions evaluated from several roots, interleaved with changes of configuration
SUITE("C18", "sharing", 400, 8000) {
  World w = world(R);
  std::vector<Node> roots; std::string desc = w.r.desc;
  for (int i = 0; i < 3; ++i) { roots.push_back(expr(R, w, R.range(1, 3))); desc += " " + roots.back().s; }
  C.note(desc);
  vector_t q = randomConfig(R, w.r.d); setRobot(w.r.d, q);
  for (auto& n : roots) visit(n, [&](const auto& e) { e->invalidate(); });
  for (int t = 0; t < 14; ++t) {
    if (R.coin(.35)) {
      // the configuration changes: every root is invalidated
      q = randomConfig(R, w.r.d); setRobot(w.r.d, q);
      for (auto& n : roots) visit(n, [&](const auto& e) { e->invalidate(); });
    }
    const Node& n = R.pick(roots);
    visit(n, [&](const auto& e) {
      if (R.coin()) {
        e->computeValue(q); V3 v = e->value(); vector_t x = n.ref(q);
        C.check(close(v, x, tolv(x)), "sharing/value", [&] { return Str() << desc << " root " << n.s << " q=" << vs(q) << " " << vs(v) << " expected " << vs(x); });
      } else {
        e->computeJacobian(q); matrix_t J = e->jacobian(); double err = 0;
        matrix_t Jr = refJac(w, [&](const vector_t& x) { return vector_t(n.ref(x)); }, 3, q, err);
        C.check(close(J, Jr, 1e-5 * (1 + maxAbs(Jr)) + 20 * err), "sharing/jacobian", [&] { return Str() << desc << " root " << n.s << " q=" << vs(q) << "\n" << show(J) << "\n expected\n" << show(Jr); });
      }
    });
  }
  C.nontrivial(desc);
}

// functions built from expressions, masks, other functions moving the robot
template <class E> static void functionCase(Ctx& C, Rng& R, World& w, const std::shared_ptr<E>& e, const VecFn& f, size_type m, const std::string& desc, const std::function<bool(const vector_t&)>& smooth = nullptr) {
  std::vector<bool> mask(m, true);
  bool masked = R.coin(.4) && m > 1;
  if (masked) { for (size_type i = 0; i < m; ++i) mask[i] = R.coin(); mask[R.ri((int)m)] = true; }
  typedef SymbolicFunction<E> SF;
  auto g = masked || R.coin() ? SF::create("symbolic", w.r.d, e, mask) : SF::create("symbolic", w.r.d, e);
  if (!masked) mask.assign(m, true);
  size_type k = 0; for (bool b : mask) k += b;
  C.note(desc);
  if (!C.check(g->outputSize() == k && g->outputDerivativeSize() == k && g->inputSize() == w.r.nq() && g->inputDerivativeSize() == w.r.nv(), "function/sizes", [&] { return Str() << desc << " mask " << masked << " " << g->outputSize() << " for " << k; })) return;
  VecFn fm = [&](const vector_t& q) { vector_t x = f(q), y(k); size_type c = 0; for (size_type i = 0; i < m; ++i) if (mask[i]) y[c++] = x[i]; return y; };
  vector_t q0 = randomConfig(R, w.r.d);
  for (int t = 0; t < 4; ++t) {
    vector_t q = t == 2 ? q0 : randomConfig(R, w.r.d);
    if (smooth && !smooth(q)) { C.skip("singular"); continue; }
    vector_t v; matrix_t J;
    bool jfirst = R.coin();
    if (jfirst) J = jac(g, q);
    v = (*g)(q).vector();
    if (!jfirst) J = jac(g, q);
    vector_t x = fm(q); double err = 0;
    matrix_t Jr = numJac(fm, w.r.space(), LiegroupSpace::Rn(k), q, err);
    C.check(close(v, x, tolv(x)), "function/value", [&] { return Str() << desc << " q=" << vs(q) << " " << vs(v) << " expected " << vs(x); });
    C.check(close(J, Jr, 1e-5 * (1 + maxAbs(Jr)) + 20 * err), "function/jacobian", [&] { return Str() << desc << " q=" << vs(q) << "\n" << show(J) << "\n expected\n" << show(Jr); });
    if (R.coin(.4)) setRobot(w.r.d, randomConfig(R, w.r.d));  // someone else moves the robot
  }
  C.nontrivial(desc);
}
SUITE("C18", "functions", 400, 8000) {
  World w = world(R);
  int k = R.ri(4);
  if (k == 0) {
    JointPtr_t j = R.pick(w.js); DevicePtr_t d = w.r.d;
    auto e = JointFrame::create(j);
    VecFn f = [=](const vector_t& q) {
      SE3 M = Kin(d, q).joint(j); Eigen::AngleAxisd aa(M.rotation()); vector_t v(6); v << M.translation(), aa.angle() * aa.axis();
      if (aa.angle() > M_PI) v.tail<3>() = (aa.angle() - 2 * M_PI) * aa.axis();
      return v; };
    // a lower precision of the logarithm is accepted close to half turns
    auto smooth = [=](const vector_t& q) { Eigen::AngleAxisd aa(Kin(d, q).joint(j).rotation()); return aa.angle() < M_PI - .1; };
    functionCase(C, R, w, e, f, 6, w.r.desc + " JointFrame", smooth);
  } else if (k == 1) {
    // scalar product
    Node a = expr(R, w, R.range(0, 2)), b = R.coin(.15) ? a : expr(R, w, R.range(0, 2));
    std::string desc = w.r.desc + " " + a.s + "." + b.s;
    VecFn f = [=](const vector_t& q) { vector_t v(1); v[0] = a.ref(q).dot(b.ref(q)); return v; };
    visit(a, [&](const auto& l) { visit(b, [&](const auto& r) { functionCase(C, R, w, l * r, f, 1, desc); }); });
  } else {
    Node a = expr(R, w, R.range(0, 3));
    VecFn f = [=](const vector_t& q) { return vector_t(a.ref(q)); };
    visit(a, [&](const auto& l) { functionCase(C, R, w, l, f, 3, w.r.desc + " " + a.s); });
  }
  C.count(Str() << "function" << k);
}
// matrices of expressions
SUITE("C18", "matrices", 250, 5000) {
  World w = world(R);
  int nr = R.range(1, 2), nc = R.range(1, 4);
  std::vector<std::vector<Node>> e(nr);
  std::string desc = w.r.desc + " [";
  matrix_t v0 = matrix_t::Zero(3 * nr, nc), j0 = matrix_t::Zero(3 * nr, nc * w.ncol);
  auto M = MatrixOfExpressions<>::create(v0, j0);
  M->setSize(nr, nc);
  for (int i = 0; i < nr; ++i)
    for (int j = 0; j < nc; ++j) {
      Node n = expr(R, w, R.range(0, 2)); 
      if (n.type != 4) { Node a = n; visit(a, [&](const auto& l) { n.any = Any::make(l); }); n.type = 4; }
      e[i].push_back(n); M->set(i, j, n.any); desc += " " + n.s;
    }
  C.note(desc);
  auto val = [&](const vector_t& q) { matrix_t m(3 * nr, nc); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) m.block(3 * i, j, 3, 1) = e[i][j].ref(q); return m; };
  for (int t = 0; t < 3; ++t) {
    vector_t q = randomConfig(R, w.r.d); setRobot(w.r.d, q);
    M->invalidate();
    matrix_t m = val(q);
    int what = R.ri(3);
    if (what == 0) { M->computeValue(q); C.check(close(M->value(), m, 1e-9 * (1 + maxAbs(m))), "matrix/value", [&] { return desc; }); continue; }
    M->computePseudoInverse(q);
    Eigen::JacobiSVD<matrix_t> svd(m, Eigen::ComputeFullU | Eigen::ComputeFullV);
    vector_t s = svd.singularValues();
    double smin = 1e9; int rank = 0;
    for (int i = 0; i < s.size(); ++i) if (s[i] > 1e-3 * (1 + s[0])) { ++rank; smin = std::min(smin, s[i]); } else if (s[i] > 1e-14 * (1 + s[0])) smin = 0;
    if (smin < .05 || rank == 0) { C.skip("ill conditioned"); continue; }
    // constant rank around q is needed for the derivative
    auto pinv = [&](const vector_t& x) { matrix_t a = val(x); Eigen::JacobiSVD<matrix_t> d(a, Eigen::ComputeThinU | Eigen::ComputeThinV); d.setThreshold(1e-7); vector_t i = d.singularValues(); for (int k = 0; k < i.size(); ++k) i[k] = i[k] > 1e-7 * i[0] ? 1 / i[k] : 0; return matrix_t(d.matrixV() * i.asDiagonal() * d.matrixU().transpose()); };
    matrix_t P = pinv(q);
    C.check(close(M->pinv(), P, 1e-8 * (1 + maxAbs(P)) / smin), "matrix/pseudo-inverse", [&] { return Str() << desc << show(M->pinv()) << show(P); });
    if (what == 2 && rank == std::min(3 * nr, nc)) {
      vector_t rhs = randomVec(R, 3 * nr); double err = 0;
      M->computePseudoInverseJacobian(q, rhs);
      matrix_t Jr = refJac(w, [&](const vector_t& x) { return vector_t(pinv(x) * rhs); }, nc, q, err);
      C.check(close(M->pinvJacobian(), Jr, 1e-4 * (1 + maxAbs(Jr)) + 20 * err), "matrix/pseudo-inverse-jacobian", [&] { return Str() << desc << " q=" << vs(q) << show(M->pinvJacobian()) << show(Jr); });
      C.count("pinv-jacobian");
    }
  }
  C.nontrivial(desc);
}
