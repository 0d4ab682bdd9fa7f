#include "gen2.hh"
#include "problem.hh"
#include <hpp/constraints/com-between-feet.hh>
#include <hpp/constraints/distance-between-bodies.hh>
#include <hpp/constraints/distance-between-points-in-bodies.hh>
#include <hpp/constraints/manipulability.hh>
#include <hpp/constraints/qp-static-stability.hh>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/active-set-differentiable-function.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/explicit/relative-transformation.hh>
#include <hpp/constraints/explicit/implicit-function.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>
#include <hpp/pinocchio/body.hh>
#include <hpp/pinocchio/collision-object.hh>
#include <coal/distance.h>
#include <pinocchio/multibody/geometry.hpp>
#include <hpp/constraints/function/of-parameter-subset.hh>
// function::Difference is not exported by the library: compile it here
#if __has_include(<../src/function/difference.cc>)
#include <../src/function/difference.cc>
#define HAVE_DIFFERENCE 1
#endif

typedef Eigen::Vector3d V3;

std::vector<int> anyKinds() {
  std::vector<int> v;
  for (int i = 0; i < nKinFn(); ++i) v.push_back(i);
  for (int i = ANY_COMFEET; i < ANY_END; ++i) v.push_back(i);
  return v;
}
bool anyNeedsGeometry(int k) { return k == ANY_DISTBODY; }
Robot robotFor(Rng& R, int kind) {
  RobotOpts o;
  o.geometry = anyNeedsGeometry(kind);
  if (o.geometry) o.predefined = 0;
  return randomRobot(R, o);
}
static std::string jn(const JointConstPtr_t& j) { return j ? j->name() : std::string("world"); }

// --- contacts -----------------------------------------------------------------
JointAndShapes_t toJS(const std::vector<Surf>& s) {
  JointAndShapes_t r;
  for (auto& x : s) { Shape_t sh(x.p.begin(), x.p.end()); r.push_back(JointAndShape_t(x.j, sh)); }
  return r;
}
JointAndShapes_t Contact::F() const { return toJS(floors); }
JointAndShapes_t Contact::O() const { return toJS(objects); }

Surf randomPolygon(Rng& R, const JointPtr_t& j, double rmin, double rmax) {
  Surf s; s.j = j;
  SE3 P = randomSE3(R);
  int n = R.range(3, 7);
  double a = R.uni(rmin, rmax), b = R.coin(.5) ? a : R.uni(rmin, rmax);
  std::vector<double> th;
  // angles separated enough to define a polygon without degenerate corners
  double base = R.uni(0, 2 * M_PI);
  for (int i = 0; i < n; ++i) th.push_back(base + 2 * M_PI * (i + R.uni(-.3, .3)) / n);
  bool flip = R.coin();
  for (int i = 0; i < n; ++i) {
    double t = th[flip ? n - 1 - i : i];
    V3 x(a * std::cos(t), b * std::sin(t), 0);
    s.p.push_back(P.act(x));
  }
  return s;
}
Contact randomContact(Rng& R, const Robot& r, bool ff, const JointPtr_t& obj) {
  Contact c;
  int nf = R.range(1, 3), no = R.range(1, 3);
  JointPtr_t fj;
  for (int i = 0; i < nf; ++i) {
    JointPtr_t j;
    if (R.coin(.5)) j = randomJoint(R, r.d);
    if (ff && j) {
      bool below = false;
      for (JointConstPtr_t a = j; a && a->index() != 0; a = a->parentJoint()) below |= a->index() == obj->index();
      if (below) j.reset();
    }
    c.floors.push_back(R.coin(.5) ? randomPolygon(R, j, .2, 1) : randomPolygon(R, j, 1, 6));
  }
  for (int i = 0; i < no; ++i) {
    JointPtr_t j = ff ? obj : randomJoint(R, r.d);
    Surf s = randomPolygon(R, j, .1, .6);
    if (!ff && R.coin(.25)) s.p.resize(1);
    c.objects.push_back(s);
  }
  if (R.coin(.4)) c.margin = R.uni(0, .1);
  return c;
}
SE3 shapeFrame(const std::vector<V3>& p0, bool reverse) {
  std::vector<V3> p(p0);
  if (reverse) std::reverse(p.begin(), p.end());
  V3 c = V3::Zero();
  for (auto& x : p) c += x;
  c /= (double)p.size();
  SE3 M;
  M.translation() = c;
  V3 n, s, u;
  if (p.size() == 1) { n = V3(1, 0, 0); s = V3(0, 1, 0); u = V3(0, 0, 1); }
  else {
    n = (p[1] - p[0]).cross(p[2] - p[1]).normalized();
    u = (p[1] - p[0]).normalized();
    s = u.cross(n);
  }
  M.rotation().col(0) = n; M.rotation().col(1) = s; M.rotation().col(2) = u;
  return M;
}
double polygonDistance(const std::vector<V3>& p, const V3& x) {
  V3 c = V3::Zero();
  for (auto& y : p) c += y;
  c /= (double)p.size();
  V3 n = (p[1] - p[0]).cross(p[2] - p[1]).normalized();
  bool inside = true;
  double best = 1e300;
  for (size_t i = 0; i < p.size(); ++i) {
    V3 a = p[i], b = p[(i + 1) % p.size()];
    V3 ab = b - a;
    double t = std::max(0., std::min(1., ab.dot(x - a) / ab.squaredNorm()));
    best = std::min(best, (x - a - t * ab).norm());
    // same side as the centroid
    V3 m = ab.cross(n);
    if (m.dot(x - a) * m.dot(c - a) < 0) inside = false;
  }
  return inside ? -best : best;
}
ContactRef contactRef(const Contact& c, const DevicePtr_t& d, const vector_t& q) {
  Kin K(d, q);
  ContactRef r;
  double best = 1e300, second = 1e300;
  double M = 0;
  for (size_t i = 0; i < c.floors.size(); ++i) {
    std::vector<V3> p;
    for (auto& x : c.floors[i].p) p.push_back(K.joint(c.floors[i].j).act(x));
    SE3 Fl = shapeFrame(c.floors[i].p, true);
    for (auto& x : c.floors[i].p) M = std::max(M, (x - Fl.translation()).norm());
    SE3 W = K.joint(c.floors[i].j) * Fl;
    V3 n = W.rotation().col(0), C = W.translation();
    for (size_t k = 0; k < c.objects.size(); ++k) {
      SE3 O = K.joint(c.objects[k].j) * shapeFrame(c.objects[k].p, false);
      double dn = n.dot(O.translation() - C);
      V3 pr = O.translation() - dn * n;
      double dp = polygonDistance(p, pr);
      double D = dp < 0 ? dn * dn : dn * dn + dp * dp;
      if (D < best) {
        second = best; best = D;
        r.inside = dp < 0; r.ifloor = i; r.iobject = k; r.dp = dp; r.dn = dn;
        SE3 rel = W.inverse() * O;
        r.v.head<3>() = rel.translation();
        r.v.tail<3>() = logOf(LiegroupSpace::SO3(), Eigen::Quaterniond(rel.rotation()).coeffs());
        r.objectDim = c.objects[k].p.size();
      } else if (D < second) second = D;
    }
  }
  r.gap = second - best;
  r.M = M + 1;
  return r;
}
vector_t contactValue(const ContactRef& c, double margin) {
  vector_t v(5);
  v[0] = c.v[0] + margin;
  if (c.inside) v.segment(1, 2).setZero(); else v.segment(1, 2) = c.v.segment<2>(1);
  if (c.objectDim == 1) v.tail(2).setZero(); else v.tail(2) = c.v.tail<2>();
  return v;
}
vector_t complementValue(const ContactRef& c) {
  vector_t v(3);
  v[2] = c.v[3];
  if (c.inside) v.head(2) = c.v.segment<2>(1); else v.head(2).setZero();
  v[0] += 2 * (double)c.ifloor * c.M;
  v[1] += 2 * (double)c.iobject * c.M;
  return v;
}
static bool contactSmooth(const Contact& c, const DevicePtr_t& d, const vector_t& q) {
  ContactRef r = contactRef(c, d, q);
  return std::fabs(r.dp) > .02 && (c.floors.size() * c.objects.size() == 1 || r.gap > .02 * (1 + r.dn * r.dn + r.dp * r.dp)) && r.v.tail<3>().norm() < 2.9;
}

// --- stability ------------------------------------------------------------------
StaticStability::Contacts_t randomForces(Rng& R, const Robot& r, int n) {
  StaticStability::Contacts_t v;
  for (int i = 0; i < n; ++i) {
    StaticStability::Contact_t c;
    c.joint = randomJoint(R, r.d);
    for (int k = 0; k < 3; ++k) { c.point[k] = R.uni(); c.normal[k] = R.gauss(); }
    c.normal.normalize();
    v.push_back(c);
  }
  return v;
}
matrix_t graspMatrix(const StaticStability::Contacts_t& c, const DevicePtr_t& d, const vector_t& q, const std::vector<size_t>& roots) {
  Kin K(d, q);
  V3 g = comOf(d, q, roots);
  matrix_t A(6, c.size());
  for (size_t i = 0; i < c.size(); ++i) {
    SE3 M = K.joint(c[i].joint);
    V3 n = M.rotation() * c[i].normal, p = M.act(c[i].point);
    A.col(i).head(3) = n;
    A.col(i).tail(3) = (g - p).cross(n);
  }
  return A;
}
double nnls(const matrix_t& A, const vector_t& b, vector_t* xo) {
  int n = (int)A.cols();
  double best = b.squaredNorm();
  if (xo) *xo = vector_t::Zero(n);
  for (int m = 1; m < (1 << n); ++m) {
    std::vector<int> id;
    for (int i = 0; i < n; ++i) if (m >> i & 1) id.push_back(i);
    matrix_t B(A.rows(), id.size());
    for (size_t i = 0; i < id.size(); ++i) B.col(i) = A.col(id[i]);
    vector_t y = B.completeOrthogonalDecomposition().solve(b);
    if ((y.array() < -1e-12).any()) continue;
    double v = (B * y - b).squaredNorm();
    if (v < best) {
      best = v;
      if (xo) { xo->setZero(); for (size_t i = 0; i < id.size(); ++i) (*xo)[id[i]] = y[i]; }
    }
  }
  return best;
}

// --- the functions ----------------------------------------------------------------
static AnyFn fromKin(const Robot& r, const KinFn& k) {
  AnyFn a;
  a.f = k.f; a.kind = k.kind; a.ref = k.ref; a.smooth = k.smooth;
  return a;
}
static bool always(const vector_t&) { return true; }
static double minSingular(const matrix_t& A) { return A.size() ? Eigen::JacobiSVD<matrix_t>(A).singularValues().minCoeff() : 0; }

// Functions of a part of the argument: restriction to a segment of the parameters,
// shifted / reversed functions of one parameter, differences of two evaluations.
static AnyFn partFn(Rng& R, const Robot& r, int kind) {
  AnyFn a;
  a.robot = r.d;
  a.smooth = [](const vector_t&) { return true; };
  // inner function
  DifferentiableFunctionPtr_t g;
  LiegroupSpacePtr_t gi;
  std::function<vector_t(Rng&)> grnd;
  std::function<bool(const vector_t&)> gs = a.smooth;
  VecFn gref;
  std::string gk;
  int t = kind == ANY_EXTRACT ? 1 + R.ri(3) : R.ri(4);
  if (t == 0) {  // a function of the configuration of the robot
    AnyFn k = anyFn(R, r, R.coin(.7) ? R.ri(8) : ANY_CONSTANT);
    g = k.f; gi = k.in; grnd = k.rnd; gs = k.smooth; gref = k.ref; gk = k.kind.substr(0, k.kind.find('/'));
  } else {
    int n = kind == ANY_EXTRACT ? 1 : R.range(1, 4), m = R.range(1, 3);
    gi = LiegroupSpace::Rn(n);
    grnd = [n](Rng& R) { return randomVec(R, n, 2); };
    if (t == 1) {
      matrix_t A(m, n); vector_t b = randomVec(R, m);
      for (int i = 0; i < m; ++i) for (int k = 0; k < n; ++k) A(i, k) = R.coin(.3) ? 0 : R.uni(-2, 2);
      g = AffineFunction::create(A, b); gk = "Affine";
      gref = [=](const vector_t& x) -> vector_t { return A * x + b; };
    } else if (t == 2) { g = smoothFn(R, n, m); gk = "smooth"; }
    else {
      LiegroupSpacePtr_t os = R.pick(std::vector<LiegroupSpacePtr_t>{LiegroupSpace::SE3(), LiegroupSpace::R3xSO3(), LiegroupSpace::R2xSO2(), LiegroupSpace::SO3(), LiegroupSpace::SE2()});
      g = lieFn(R, n, os); gk = "lie" + os->name();
    }
  }
  if (!gref) gref = [g](const vector_t& x) -> vector_t { return (*g)(x).vector(); };
  if (kind == ANY_EXTRACT) {
    double t1 = R.coin(.2) ? 0 : R.uni(-2, 2), t2 = R.uni(-2, 2);
    a.again = [=]() -> DifferentiableFunctionPtr_t { return DifferentiableFunction::extract(g, interval_t(t1, t2)); };
    a.f = a.again();
    a.again = nullptr;  // (extracted functions do not define equality)
    double s = t1 > t2 ? -1 : 1;
    a.kind = Str() << "Extracted(" << gk << (s < 0 ? ",reversed)" : ")");
    double len = std::fabs(t2 - t1);
    a.in = gi;
    a.rnd = [=](Rng& R) { vector_t x(1); x[0] = R.coin(.1) ? 0 : R.uni(0, len); return x; };
    auto sh = [=](const vector_t& x) { vector_t y(x); y[0] = t1 + s * x[0]; return y; };
    a.ref = [=](const vector_t& x) { return gref(sh(x)); };
    a.jref = [=](const vector_t& x) -> matrix_t { return s * jac(g, sh(x)); };
    return a;
  }
  int b0 = R.ri(4), b1 = R.ri(4), b2 = R.ri(4);
  size_type nq = gi->nq(), nv = gi->nv();
  if (kind == ANY_SUBSET) {
    if (R.coin(.3)) b0 = 0;
    LiegroupSpacePtr_t in = LiegroupSpace::createCopy(b0 ? LiegroupSpace::Rn(b0) : gi);
    if (b0) *in *= gi;
    if (b1) *in *= LiegroupSpace::Rn(b1);
    a.in = in;
    a.rnd = [=](Rng& R) { vector_t q(in->nq()); q << randomVec(R, b0), grnd(R), randomVec(R, b1); return q; };
    a.again = [=]() -> DifferentiableFunctionPtr_t { return function::OfParameterSubset::create(g, in->nq(), in->nv(), segment_t(b0, nq), segment_t(b0, nv)); };
    a.f = a.again();
    a.kind = "OfParameterSubset(" + gk + ")";
    a.ref = [=](const vector_t& q) { return gref(q.segment(b0, nq)); };
    a.smooth = [=](const vector_t& q) { return gs(q.segment(b0, nq)); };
    a.jref = [=](const vector_t& q) { matrix_t J = matrix_t::Zero(g->outputDerivativeSize(), in->nv()); J.middleCols(b0, nv) = jac(g, q.segment(b0, nq)); return J; };
    return a;
  }
#ifdef HAVE_DIFFERENCE
  LiegroupSpacePtr_t in = LiegroupSpace::createCopy(b0 ? LiegroupSpace::Rn(b0) : gi);
  if (b0) *in *= gi;
  if (b1) *in *= LiegroupSpace::Rn(b1);
  *in *= gi;
  if (b2) *in *= LiegroupSpace::Rn(b2);
  bool swap = R.coin();  // left interval after the right one
  size_type lq = b0, lv = b0, rq = b0 + nq + b1, rv = b0 + nv + b1;
  if (swap) { std::swap(lq, rq); std::swap(lv, rv); }
  a.in = in;
  a.rnd = [=](Rng& R) { vector_t q(in->nq()); q << randomVec(R, b0), grnd(R), randomVec(R, b1), grnd(R), randomVec(R, b2); return q; };
  a.again = [=]() -> DifferentiableFunctionPtr_t {
    return DifferentiableFunctionPtr_t(new function::Difference(g, in->nq(), in->nv(), segment_t(lq, nq), segment_t(lv, nv), segment_t(rq, nq), segment_t(rv, nv)));
  };
  a.f = a.again();
  a.kind = "Difference(" + gk + ")";
  LiegroupSpacePtr_t os = g->outputSpace();
  a.ref = [=](const vector_t& q) { return difference(os, gref(q.segment(lq, nq)), gref(q.segment(rq, nq))); };
  a.smooth = [=](const vector_t& q) {
    vector_t l = q.segment(lq, nq), x = q.segment(rq, nq);
    if (!gs(l) || !gs(x)) return false;
    if (os->nq() == os->nv()) return true;
    vector_t v = difference(os, (*g)(l).vector(), (*g)(x).vector());
    for (int i = 0; i < v.size(); ++i) for (int n = 1; n <= 3 && i + n <= v.size(); ++n) if (std::fabs(v.segment(i, n).norm() - M_PI) < .15) return false;
    return true;
  };
  return a;
#else
  return anyFn(R, r, ANY_SUBSET);
#endif
}
AnyFn anyFn(Rng& R, const Robot& r, int kind) {
  DevicePtr_t d = r.d;
  AnyFn a;
  if (kind == ANY_COMFEET && !hasCom(r)) kind = ANY_DISTPTS;
  if ((kind == ANY_STATIC || kind == ANY_QP) && r.partRoots.empty()) kind = ANY_DISTPTS;
  if (kind == ANY_DISTBODY) {
    int ng = d->geomModel().ngeoms; (void)ng;
    int ok = 0;
    for (size_type i = 0; i < d->nbJoints(); ++i) { hpp::pinocchio::BodyPtr_t b = jointOf(d, i)->linkedBody(); if (b && b->nbInnerObjects() > 0) ++ok; }
    if (ok < 2) kind = ANY_DISTPTS;
  }
  if (kind < nKinFn()) { a = fromKin(r, randomKinFn(R, r, kind)); }
  a.robot = d;
  if (!a.f) a.smooth = always;
  auto robotIn = [&] { a.in = r.space(); a.robotInput = true; a.rnd = [d](Rng& R) { return randomConfig(R, d); }; };
  robotIn();
  if (a.f) return a;
  switch (kind) {
    case ANY_COMFEET: {
      JointPtr_t l = randomJoint(R, d), rr = randomJoint(R, d), jr = randomJoint(R, d);
      V3 pl(R.uni(), R.uni(), R.uni()), pr(R.uni(), R.uni(), R.uni()), ref(R.uni(), R.uni(), R.uni());
      std::vector<bool> m(4);
      do { for (int i = 0; i < 4; ++i) m[i] = R.coin(.7); } while (!m[0] && !m[1] && !m[2] && !m[3]);
      bool part = R.coin(.4) && !r.partRoots.empty();
      std::vector<size_t> roots{1};
      hpp::pinocchio::CenterOfMassComputationPtr_t comc;
      if (part) {
        roots = {R.pick(r.partRoots)};
        comc = r.com(roots[0]);
        a.again = [=]() -> DifferentiableFunctionPtr_t { return ComBetweenFeet::create("feet", d, comc, l, rr, pl, pr, jr, ref, m); };
      } else
        a.again = [=]() -> DifferentiableFunctionPtr_t { return ComBetweenFeet::create("feet", d, l, rr, pl, pr, jr, ref, m); };
      a.f = a.again();
      if (!part) a.again = nullptr;
      a.kind = "ComBetweenFeet";
      a.ref = [=](const vector_t& q) {
        Kin K(d, q);
        V3 c = comOf(d, q, roots), L = K.joint(l).act(pl), Q = K.joint(rr).act(pr), u = Q - L;
        V3 e = c - (L + Q) / 2;
        double v[4] = {c[2] - ref[2], (K.joint(jr).rotation().transpose() * e.cross(u))[2], (c - L).dot(u), (c - Q).dot(u)};
        vector_t y(std::count(m.begin(), m.end(), true));
        int k = 0;
        for (int i = 0; i < 4; ++i) if (m[i]) y[k++] = v[i];
        return y;
      };
      break;
    }
    case ANY_DISTPTS: {
      JointPtr_t j1 = randomJoint(R, d), j2;
      if (R.coin(.7)) j2 = randomJoint(R, d);
      V3 p1(R.uni(), R.uni(), R.uni()), p2(R.uni(), R.uni(), R.uni());
      if (j2 || R.coin(.3)) a.again = [=]() -> DifferentiableFunctionPtr_t { return DistanceBetweenPointsInBodies::create("dist", d, j1, j2, p1, p2); };
      else a.again = [=]() -> DifferentiableFunctionPtr_t { return DistanceBetweenPointsInBodies::create("dist", d, j1, p1, p2); };
      a.f = a.again();
      a.kind = Str() << "DistanceBetweenPoints/" << (j2 ? "joint" : "world");
      a.ref = [=](const vector_t& q) { Kin K(d, q); vector_t y(1); y[0] = (K.joint(j1).act(p1) - K.joint(j2).act(p2)).norm(); return y; };
      VecFn rf = a.ref;
      a.smooth = [=](const vector_t& q) { return rf(q)[0] > .05; };
      break;
    }
    case ANY_DISTBODY: {
      const hpp::pinocchio::GeomModel& g0 = d->geomModel();
      hpp::pinocchio::GeomModel& gm = const_cast<hpp::pinocchio::GeomModel&>(g0);
      // prepare the geometry once per robot
      static std::weak_ptr<hpp::pinocchio::Device> prepared;
      if (prepared.lock() != d) {
        prepared = d;
        uint64_t s = hashStr(r.desc + std::to_string(gm.geometryObjects.size() ? gm.geometryObjects[0].placement.translation()[0] : 0.));
        gm.removeAllCollisionPairs();
        int nf = 1 + (int)(s / 2 % 2);  // fixed objects of the environment
        for (int k = 0; k < nf; ++k) {
          SE3 pl = SE3::Identity(); pl.translation() << .7 * k, -.4 + .1 * (double)(s / 4 % 8), .5;
          std::shared_ptr<coal::CollisionGeometry> g(new coal::Sphere(.1));
          gm.addGeometryObject(::pinocchio::GeometryObject("fixed" + std::to_string(k), 0, 0, pl, g));
        }
        // pairs in both orders
        bool swap = s & 1;
        for (size_t i = 0; i < gm.geometryObjects.size(); ++i) for (size_t k = i + 1; k < gm.geometryObjects.size(); ++k)
          if (gm.geometryObjects[i].parentJoint != gm.geometryObjects[k].parentJoint)
            gm.addCollisionPair(swap ? ::pinocchio::CollisionPair(k, i) : ::pinocchio::CollisionPair(i, k));
        d->createGeomData();
      }
      std::vector<JointPtr_t> js;
      for (size_type i = 0; i < d->nbJoints(); ++i) { hpp::pinocchio::BodyPtr_t b = jointOf(d, i)->linkedBody(); if (b && b->nbInnerObjects() > 0) js.push_back(jointOf(d, i)); }
      JointPtr_t j1 = R.pick(js), j2;
      do j2 = R.pick(js); while (j2->index() == j1->index());
      bool objs = R.coin(.35);
      std::vector<hpp::pinocchio::CollisionObjectPtr_t> fixed;
      std::vector<size_t> second;
      for (size_t i = 0; i < gm.geometryObjects.size(); ++i) if (gm.geometryObjects[i].parentJoint == (objs ? 0 : j2->index())) {
        if (objs && !second.empty() && R.coin(.4)) continue;
        second.push_back(i);
        if (objs) fixed.push_back(hpp::pinocchio::CollisionObjectPtr_t(new hpp::pinocchio::CollisionObject(d, i)));
      }
      if (objs) a.again = [=]() -> DifferentiableFunctionPtr_t { return DistanceBetweenBodies::create("bodies", d, j1, fixed); };
      else a.again = [=]() -> DifferentiableFunctionPtr_t { return DistanceBetweenBodies::create("bodies", d, j1, j2); };
      a.f = a.again();
      a.kind = Str() << "DistanceBetweenBodies" << (objs ? "/fixed" : "/joints");
      auto dist = [=](const vector_t& q) {
        Kin K(d, q);
        std::vector<double> v;
        const hpp::pinocchio::GeomModel& m = d->geomModel();
        for (auto& x : m.geometryObjects) for (size_t o : second) if (x.parentJoint == j1->index()) {
          auto& y = m.geometryObjects[o];
          SE3 A = K.joint(j1) * x.placement, B = (objs ? SE3::Identity() : K.joint(j2)) * y.placement;
          coal::DistanceRequest req(true); coal::DistanceResult res;
          coal::Transform3s TA(A.rotation(), A.translation()), TB(B.rotation(), B.translation());
          v.push_back(coal::distance(x.geometry.get(), TA, y.geometry.get(), TB, req, res));
        }
        std::sort(v.begin(), v.end());
        return v;
      };
      a.ref = [=](const vector_t& q) { vector_t y(1); y[0] = dist(q)[0]; return y; };
      a.smooth = [=](const vector_t& q) { std::vector<double> v = dist(q); return v[0] > .1 && (v.size() < 2 || v[1] - v[0] > .05); };
      a.jtol = 2e-3;
      break;
    }
    case ANY_MANIP: {
      KinFn k = randomKinFn(R, r, R.ri(8));
      int tries = 0;
      while (!k.f->activeDerivativeParameters().any() && ++tries < 20) k = randomKinFn(R, r, R.ri(8));
      if (!k.f->activeDerivativeParameters().any()) return anyFn(R, r, ANY_DISTPTS);
      DifferentiableFunctionPtr_t f = k.f;
      a.again = [=]() -> DifferentiableFunctionPtr_t { return Manipulability::create(f, d, "manip"); };
      a.f = a.again();
      a.kind = "Manipulability(" + k.kind.substr(0, k.kind.find('/')) + ")";
      auto sv = [=](const vector_t& q) {
        matrix_t J = jac(f, q);
        std::vector<int> c;
        for (int i = 0; i < J.cols(); ++i) if (f->activeDerivativeParameters()[i]) c.push_back(i);
        matrix_t B(J.rows(), c.size());
        for (size_t i = 0; i < c.size(); ++i) B.col(i) = J.col(c[i]);
        vector_t s = Eigen::JacobiSVD<matrix_t>(B).singularValues();
        return s;
      };
      a.ref = [=](const vector_t& q) {
        vector_t s = sv(q), y(1);
        y[0] = 0;
        for (int i = 0; i < s.size(); ++i) y[0] -= std::log10(std::max(s[i], 1e-300));
        y[0] = std::max(0., y[0]);
        return y;
      };
      auto sm = k.smooth;
      VecFn rf = a.ref;
      a.smooth = [=](const vector_t& q) { return sm(q) && sv(q).minCoeff() > 1e-2 && rf(q)[0] > .02; };
      a.jtol = 2e-4;
      break;
    }
    case ANY_CONTACT: case ANY_COMPLEMENT: case ANY_HOLD: {
      Contact c = randomContact(R, r);
      if (kind == ANY_HOLD) c.margin = 0;
      a.smooth = [=](const vector_t& q) { return contactSmooth(c, d, q); };
      if (kind == ANY_CONTACT) {
        a.again = [=]() -> DifferentiableFunctionPtr_t { ConvexShapeContactPtr_t f = ConvexShapeContact::create("contact", d, c.F(), c.O()); f->setNormalMargin(c.margin); return f; };
        a.kind = "ConvexShapeContact";
        a.ref = [=](const vector_t& q) { return contactValue(contactRef(c, d, q), c.margin); };
      } else if (kind == ANY_COMPLEMENT) {
        a.again = [=]() -> DifferentiableFunctionPtr_t { return ConvexShapeContactComplement::createPair("contact", d, c.F(), c.O()).second; };
        a.kind = "ConvexShapeContactComplement";
        a.ref = [=](const vector_t& q) { return complementValue(contactRef(c, d, q)); };
      } else {
        a.again = [=]() -> DifferentiableFunctionPtr_t { return ConvexShapeContactHold::create("contact", d, c.F(), c.O()); };
        a.kind = "ConvexShapeContactHold";
        a.ref = [=](const vector_t& q) { ContactRef k = contactRef(c, d, q); vector_t v(8); v.head(5) = contactValue(k, 0); v.tail(3) = complementValue(k); return v; };
      }
      a.f = a.again();
      break;
    }
    case ANY_STATIC: case ANY_QP: {
      int n = R.range(kind == ANY_QP ? 3 : 2, 8);
      StaticStability::Contacts_t f = randomForces(R, r, n);
      std::vector<size_t> roots{R.pick(r.partRoots)};
      hpp::pinocchio::CenterOfMassComputationPtr_t comc = r.com(roots[0]);
      vector_t up = vector_t::Zero(6); up[2] = 1;
      if (kind == ANY_STATIC) {
        a.again = [=]() -> DifferentiableFunctionPtr_t { return StaticStability::create("static", d, f, comc); };
        a.kind = "StaticStability";
        a.ref = [=](const vector_t& q) {
          matrix_t A = graspMatrix(f, d, q, roots);
          Eigen::CompleteOrthogonalDecomposition<matrix_t> cod(A);
          matrix_t P = cod.pseudoInverse();
          vector_t u = P * up, um = (-u).cwiseMax(0.);
          vector_t y(n + 6);
          y.head(n) = u + um - P * (A * um);
          y.tail(6) = A * u - up;
          return y;
        };
        // the pseudo-inverse depends smoothly on a matrix of constant rank; forces away from zero
        a.smooth = [=](const vector_t& q) {
          matrix_t A = graspMatrix(f, d, q, roots);
          vector_t s = Eigen::JacobiSVD<matrix_t>(A).singularValues();
          if (!(s.minCoeff() > 2e-2)) return false;
          vector_t u = A.completeOrthogonalDecomposition().solve(up);
          return u.cwiseAbs().minCoeff() > 2e-2;
        };
        a.jtol = 1e-4; a.h = 2e-4;
      } else {
        a.again = [=]() -> DifferentiableFunctionPtr_t { return QPStaticStability::create("qp", d, f, comc); };
        a.kind = "QPStaticStability";
        a.ref = [=](const vector_t& q) { vector_t y(1); y[0] = nnls(graspMatrix(f, d, q, roots), up); return y; };
        a.smooth = [=](const vector_t& q) {
          matrix_t A = graspMatrix(f, d, q, roots);
          vector_t x; nnls(A, up, &x);
          vector_t dual = A.transpose() * (A * x - up);
          std::vector<int> act;
          for (int i = 0; i < n; ++i) { if (std::fabs(x[i]) < .02 && std::fabs(dual[i]) < .02) return false; if (x[i] > 0) act.push_back(i); }
          matrix_t B(6, act.size());
          for (size_t i = 0; i < act.size(); ++i) B.col(i) = A.col(act[i]);
          return act.empty() || (B.cols() <= 6 && minSingular(B) > .02);
        };
        a.jtol = 1e-4; a.h = 2e-4;
      }
      a.f = a.again();
      break;
    }
    case ANY_EXPREL: {
      std::vector<JointPtr_t> ff;
      for (auto j : freeflyerRoots(r)) if (*j->configurationSpace() == *LiegroupSpace::SE3()) ff.push_back(j);
      if (ff.empty()) return anyFn(R, r, ANY_DISTPTS);
      JointPtr_t j2 = R.pick(ff), j1;
      if (R.coin(.85)) j1 = randomJoint(R, d);
      bool below = false;
      for (JointConstPtr_t b = j1; b && b->index() != 0; b = b->parentJoint()) below |= b->index() == j2->index();
      if (below) j1.reset();
      SE3 F1 = randomSE3(R), F2 = randomSE3(R);
      a.again = [=]() -> DifferentiableFunctionPtr_t { return explicit_::RelativeTransformation::create("exprel", d, j1, j2, F1, F2); };
      a.f = a.again();
      a.kind = Str() << "explicit RelativeTransformation/" << (j1 ? "joint" : "world");
      // input variables: joints on one of the two chains only
      std::set<size_t> s1, s2;
      for (JointConstPtr_t b = j1; b && b->index() != 0; b = b->parentJoint()) s1.insert(b->index());
      for (JointConstPtr_t b = j2->parentJoint(); b && b->index() != 0; b = b->parentJoint()) s2.insert(b->index());
      std::vector<std::pair<size_type, size_type>> seg;
      a.in = LiegroupSpace::empty();
      LiegroupSpacePtr_t in = LiegroupSpace::createCopy(a.in);
      for (size_type i = 0; i < d->nbJoints(); ++i) {
        JointPtr_t j = jointOf(d, i);
        if (s1.count(j->index()) != s2.count(j->index())) { seg.push_back({j->rankInConfiguration(), j->configSize()}); *in *= j->configurationSpace(); }
      }
      a.in = in; a.robotInput = false;
      a.rnd = [=](Rng& R) {
        vector_t q = randomConfig(R, d), x(in->nq());
        size_type k = 0;
        for (auto& s : seg) { x.segment(k, s.second) = q.segment(s.first, s.second); k += s.second; }
        return x;
      };
      vector_t q0 = randomConfig(R, d);
      a.ref = [=](const vector_t& x) {
        vector_t q = q0;
        size_type k = 0;
        for (auto& s : seg) { q.segment(s.first, s.second) = x.segment(k, s.second); k += s.second; }
        Kin K(d, q);
        SE3 J2 = K.joint(j1) * F1 * F2.inverse();
        SE3 T = j2->positionInParentFrame().inverse() * (K.joint(j2->parentJoint()).inverse() * J2);
        vector_t o(7);
        o.head(3) = T.translation();
        o.tail(4) = Eigen::Quaterniond(T.rotation()).coeffs();
        return o;
      };
      break;
    }
    case ANY_IMPLFN: {
      std::vector<JointPtr_t> vj = vectorJoints(r), js = allJoints(r);
      JointPtr_t out = R.pick(js);
      std::vector<JointPtr_t> in;
      for (auto j : vj) if (j->index() != out->index() && R.coin(.6)) in.push_back(j);
      if (in.empty()) return anyFn(R, r, ANY_DISTPTS);
      Con c = explicitCon(R, r, {out}, in, .5);
      DifferentiableFunctionPtr_t ef = c.e->explicitFunction();
      LiegroupSpacePtr_t sp = r.space();
      a.again = [=]() -> DifferentiableFunctionPtr_t { return explicit_::ImplicitFunction::create(sp, ef, c.inConf, c.outConf, c.inVel, c.outVel); };
      a.f = a.again();
      a.kind = "explicit ImplicitFunction/" + c.outSpace->name();
      auto ps = c.prescribed; Con cc; cc.outConf = c.outConf; cc.outSpace = c.outSpace;
      vector_t z = vector_t::Zero(c.outSpace->nv());
      a.ref = [=](const vector_t& q) { return difference(cc.outSpace, cc.out(q), ps(q, z)); };
      a.smooth = c.smooth;
      break;
    }
    case ANY_SET: {
      DifferentiableFunctionSetPtr_t s = DifferentiableFunctionSet::create("set");
      int n = R.range(1, 4);
      std::vector<KinFn> parts;
      std::string nm;
      for (int i = 0; i < n; ++i) {
        KinFn k = randomKinFn(R, r);
        parts.push_back(k);
        nm += k.kind.substr(0, k.kind.find('/')) + ",";
      }
      a.again = [=]() -> DifferentiableFunctionPtr_t {
        DifferentiableFunctionSetPtr_t s = DifferentiableFunctionSet::create("set");
        if (parts.size() > 2) {  // nested
          DifferentiableFunctionSetPtr_t t = DifferentiableFunctionSet::create("sub");
          t->add(parts[1].f); t->add(parts[2].f);
          s->add(parts[0].f); s->add(t);
          for (size_t i = 3; i < parts.size(); ++i) s->add(parts[i].f);
        } else for (auto& p : parts) s->add(p.f);
        return s;
      };
      a.f = a.again();
      if (n > 2) a.again = nullptr;
      a.kind = "Set{" + nm + "}";
      a.ref = [=](const vector_t& q) {
        std::vector<vector_t> v; size_type n = 0;
        for (auto& p : parts) { v.push_back(p.ref ? p.ref(q) : (*p.f)(q).vector()); n += v.back().size(); }
        vector_t y(n); n = 0;
        for (auto& x : v) { y.segment(n, x.size()) = x; n += x.size(); }
        return y;
      };
      a.smooth = [=](const vector_t& q) { for (auto& p : parts) if (!p.smooth(q)) return false; return true; };
      a.jref = [=](const vector_t& q) {
        matrix_t J(0, d->numberDof());
        for (auto& p : parts) { matrix_t K = jac(p.f, q); matrix_t L(J.rows() + K.rows(), K.cols()); L << J, K; J = L; }
        return J;
      };
      break;
    }
    case ANY_AFFINE: {
      int n = R.range(1, 6), m = R.range(1, 5);
      matrix_t A(m, n); vector_t b = randomVec(R, m);
      for (int i = 0; i < m; ++i) for (int k = 0; k < n; ++k) A(i, k) = R.coin(.3) ? 0 : R.uni(-2, 2);
      if (R.coin(.3)) A.col(R.ri(n)).setZero();
      bool nob = R.coin(.3);
      if (nob) b.setZero();
      a.again = [=]() -> DifferentiableFunctionPtr_t { if (nob) return AffineFunction::create(A); return AffineFunction::create(A, b); };
      a.f = a.again();
      a.kind = "Affine";
      a.in = LiegroupSpace::Rn(n); a.robotInput = false;
      a.rnd = [=](Rng& R) { return randomVec(R, n, 3); };
      a.ref = [=](const vector_t& x) -> vector_t { return A * x + b; };
      a.jref = [=](const vector_t&) { return A; };
      break;
    }
    case ANY_CONSTANT: {
      LiegroupSpacePtr_t os = R.pick(std::vector<LiegroupSpacePtr_t>{LiegroupSpace::Rn(3), LiegroupSpace::SE3(), LiegroupSpace::R3xSO3(), LiegroupSpace::R2xSO2(), LiegroupSpace::SO3()});
      LiegroupElement e = randomElement(R, os);
      int n = (int)r.nq(), m = (int)r.nv();
      a.again = [=]() -> DifferentiableFunctionPtr_t { if (os->isVectorSpace()) return ConstantFunction::create(e.vector(), n, m); return ConstantFunction::create(e, n, m); };
      a.f = a.again();
      a.kind = "Constant/" + os->name();
      vector_t c = e.vector();
      a.ref = [=](const vector_t&) { return c; };
      size_type nv = os->nv();
      a.jref = [=](const vector_t&) -> matrix_t { return matrix_t::Zero(nv, m); };
      break;
    }
    case ANY_IDENTITY: {
      LiegroupSpacePtr_t sp = r.space();
      a.again = [=]() -> DifferentiableFunctionPtr_t { return Identity::create(sp, "id"); };
      a.f = a.again();
      a.kind = "Identity";
      a.ref = [](const vector_t& x) { return x; };
      size_type nv = sp->nv();
      a.jref = [=](const vector_t&) -> matrix_t { return matrix_t::Identity(nv, nv); };
      break;
    }
    case ANY_ACTIVESET: {
      KinFn k = randomKinFn(R, r);
      segments_t s;
      std::vector<bool> off(r.nv(), false);
      for (int i = 0, n = R.range(1, 3); i < n; ++i) { segment_t g; g.first = R.ri((int)r.nv()); g.second = R.range(1, (int)(r.nv() - g.first)); s.push_back(g); for (int x = 0; x < g.second; ++x) off[g.first + x] = true; }
      DifferentiableFunctionPtr_t f = k.f;
      a.again = [=]() -> DifferentiableFunctionPtr_t { return DifferentiableFunctionPtr_t(new ActiveSetDifferentiableFunction(f, s)); };
      a.f = a.again();
      a.kind = "ActiveSet(" + k.kind.substr(0, k.kind.find('/')) + ")";
      a.ref = k.ref; a.smooth = k.smooth;
      a.jref = [=](const vector_t& q) { matrix_t J = jac(f, q); for (size_t i = 0; i < off.size(); ++i) if (off[i]) J.col(i).setZero(); return J; };
      break;
    }
    case ANY_SUBSET: case ANY_EXTRACT: case ANY_DIFFERENCE: return partFn(R, r, kind);
    default: break;
  }
  return a;
}
