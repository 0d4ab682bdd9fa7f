#include "gen.hh"
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/relative-com.hh>
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>
#include <hpp/pinocchio/configuration.hh>
#include <hpp/pinocchio/device-sync.hh>
#include <hpp/pinocchio/simple-device.hh>
#include <hpp/pinocchio/liegroup.hh>
#include <pinocchio/algorithm/kinematics.hpp>
#include <pinocchio/algorithm/center-of-mass.hpp>
#include <pinocchio/algorithm/geometry.hpp>
#include <coal/shape/geometric_shapes.h>

namespace pin = ::pinocchio;

size_type Robot::extra() const { return d->extraConfigSpace().dimension(); }

Eigen::Quaterniond randomQuat(Rng& R) {
  Eigen::Quaterniond q(R.gauss(), R.gauss(), R.gauss(), R.gauss());
  q.normalize();
  return q;
}
Eigen::Matrix3d randomRot(Rng& R) { return randomQuat(R).toRotationMatrix(); }
SE3 randomSE3(Rng& R) {
  SE3 M = SE3::Identity();
  int k = R.ri(8);
  if (k == 0) return M;
  if (k != 1) M.translation() = Eigen::Vector3d(R.uni(-.5, .5), R.uni(-.5, .5), R.uni(-.5, .5));
  if (k != 2) M.rotation() = randomRot(R);
  return M;
}
vector_t randomVec(Rng& R, size_type n, double amp) {
  vector_t v(n);
  for (size_type i = 0; i < n; ++i) v[i] = R.uni(-amp, amp);
  return v;
}
// One handle per joint: functions of the library compare handles of joints.
JointPtr_t jointOf(const DevicePtr_t& d, size_type i) {
  static std::weak_ptr<hpp::pinocchio::Device> last;
  static std::vector<JointPtr_t> js;
  if (last.lock() != d) {
    last = d; js.clear();
    for (size_type k = 0; k < d->nbJoints(); ++k) js.push_back(d->jointAt(k));
  }
  return js[i];
}
JointPtr_t randomJoint(Rng& R, const DevicePtr_t& d) { return jointOf(d, R.ri((int)d->nbJoints())); }

static void setB(pin::Model& m, pin::JointIndex j, Rng& R) {
  int iq = m.joints[j].idx_q(), nq = m.joints[j].nq();
  int iv = m.joints[j].idx_v(), nv = m.joints[j].nv();
  for (int i = 0; i < nq; ++i) {
    m.lowerPositionLimit[iq + i] = -R.uni(.5, 3);
    m.upperPositionLimit[iq + i] = R.uni(.5, 3);
  }
  std::string s = m.joints[j].shortname();
  auto unit = [&](int a, int n) {
    for (int i = a; i < a + n; ++i) { m.lowerPositionLimit[iq + i] = -1.01; m.upperPositionLimit[iq + i] = 1.01; }
  };
  if (s == "JointModelFreeFlyer") unit(3, 4);
  else if (s == "JointModelPlanar") unit(2, 2);
  else if (s == "JointModelSpherical") unit(0, 4);
  else if (nq == 2 && nv == 1) unit(0, 2);
  for (int i = 0; i < nv; ++i) { m.velocityLimit[iv + i] = 1; m.effortLimit[iv + i] = 1; }
}

Robot randomRobot(Rng& R, const RobotOpts& o) {
  Robot r;
  static int cnt = 0;
  ++cnt;
  using namespace hpp::pinocchio;
  if (R.coin(o.predefined) && !o.geometry) {
    int k = R.ri(2);
    if (k == 0) { r.d = unittest::makeDevice(unittest::ManipulatorArm2); r.desc = "ManipulatorArm2"; }
    else { r.d = unittest::makeDevice(unittest::HumanoidSimple); r.desc = "HumanoidSimple"; }
    if (k == 1) {
      Model& m = r.d->model();
      for (int i = 0; i < 3; ++i) { m.lowerPositionLimit[i] = -1; m.upperPositionLimit[i] = 1; }
    }
  } else {
    ModelPtr_t mp(new Model());
    Model& m = *mp;
    m.name = "rnd";
    int n = R.range(o.minJoints, o.maxJoints);
    std::string desc = "tree[";
    hpp::shared_ptr<GeomModel> gm(new GeomModel());
    for (int i = 0; i < n; ++i) {
      // Pinocchio requires the joints to be numbered in depth-first order: the parent is an ancestor of the previous joint.
      size_t parent = (size_t)i;
      if (i && !R.coin(.7)) do parent = m.parents[parent]; while (parent && R.coin(.5));
      SE3 pl = randomSE3(R);
      std::string nm = "j" + std::to_string(i);
      Eigen::Vector3d ax(R.gauss(), R.gauss(), R.gauss());
      ax.normalize();
      int t = R.ri(o.lieJoints ? 11 : 6);
      pin::JointIndex j;
      switch (t) {
        case 0: j = m.addJoint(parent, pin::JointModelRX(), pl, nm); break;
        case 1: j = m.addJoint(parent, pin::JointModelRZ(), pl, nm); break;
        case 2: j = m.addJoint(parent, pin::JointModelRevoluteUnaligned(ax), pl, nm); break;
        case 3: j = m.addJoint(parent, pin::JointModelPY(), pl, nm); break;
        case 4: j = m.addJoint(parent, pin::JointModelPrismaticUnaligned(ax), pl, nm); break;
        case 5: j = m.addJoint(parent, pin::JointModelTranslation(), pl, nm); break;
        case 6: j = m.addJoint(parent, pin::JointModelFreeFlyer(), pl, nm); break;
        case 7: j = m.addJoint(parent, pin::JointModelPlanar(), pl, nm); break;
        case 8: j = m.addJoint(parent, pin::JointModelSpherical(), pl, nm); break;
        case 9: j = m.addJoint(parent, pin::JointModelRUBZ(), pl, nm); break;
        default: j = m.addJoint(parent, pin::JointModelFreeFlyer(), pl, nm); break;
      }
      desc += std::to_string(parent) + ":" + m.joints[j].shortname().substr(10) + (i + 1 < n ? "," : "");
      setB(m, j, R);
      SE3 bp = randomSE3(R);
      m.appendBodyToJoint(j, pin::Inertia(R.uni(.2, 3), Eigen::Vector3d(R.uni(-.3, .3), R.uni(-.3, .3), R.uni(-.3, .3)), Eigen::Matrix3d::Identity() * R.uni(.01, .1)), SE3::Identity());
      m.addJointFrame(j);
      pin::FrameIndex bf = m.addBodyFrame("b" + std::to_string(i), j, bp);
      if (o.geometry) {
        int ng = R.range(0, 2);
        if (i == 0 || i == n - 1) ng = std::max(ng, 1);
        for (int k = 0; k < ng; ++k) {
          std::shared_ptr<coal::CollisionGeometry> g;
          switch (R.ri(3)) {
            case 0: g.reset(new coal::Sphere(R.uni(.02, .12))); break;
            case 1: g.reset(new coal::Capsule(R.uni(.02, .08), R.uni(.05, .3))); break;
            default: g.reset(new coal::Sphere(R.uni(.02, .12))); break;
          }
          SE3 gp = randomSE3(R);
          gp.translation() *= .5;
          gm->addGeometryObject(pin::GeometryObject("g" + std::to_string(i) + "_" + std::to_string(k), j, bf, gp, g));
        }
      }
    }
    desc += "]";
    m.inertias[1] = pin::Inertia(1., Eigen::Vector3d(.1, 0, .05), Eigen::Matrix3d::Identity() * .1);
    r.d = Device::create("rnd" + std::to_string(cnt));
    r.d->setModel(mp);
    r.d->setGeomModel(gm);
    r.d->createData();
    r.d->createGeomData();
    r.desc = desc;
  }
  if (o.extra && R.coin(.4)) {
    int e = R.range(1, 3);
    r.d->setDimensionExtraConfigSpace(e);
    for (int i = 0; i < e; ++i) { r.d->extraConfigSpace().lower(i) = -R.uni(.5, 2); r.d->extraConfigSpace().upper(i) = R.uni(.5, 2); }
    r.desc += "+extra" + std::to_string(e);
  }
  for (size_t j = 1; j < (size_t)r.d->model().njoints; ++j) if (!r.d->model().children[j].empty()) r.partRoots.push_back(j);
  r.d->controlComputation((Computation_t)(JOINT_POSITION | JACOBIAN | COM));
  return r;
}

vector_t randomConfig(Rng& R, const DevicePtr_t& d, int kind) {
  const pin::Model& m = d->model();
  vector_t q(d->configSize());
  q.head(m.nq) = pin::neutral(m);
  if (kind < 0) kind = R.ri(10);
  // 0: neutral, 1: every joint at a bound, others: uniform in bounds
  for (size_t j = 1; j < (size_t)m.njoints; ++j) {
    int iq = m.joints[j].idx_q(), nq = m.joints[j].nq();
    std::string s = m.joints[j].shortname();
    int t = nq, qn = 0;
    if (s == "JointModelFreeFlyer") { t = 3; qn = 4; }
    else if (s == "JointModelPlanar") { t = 2; qn = 2; }
    else if (s == "JointModelSpherical") { t = 0; qn = 4; }
    else if (nq == 2 && m.joints[j].nv() == 1) { t = 0; qn = 2; }
    for (int i = 0; i < t; ++i) {
      double lo = m.lowerPositionLimit[iq + i], up = m.upperPositionLimit[iq + i];
      if (!(lo > -10)) lo = -2;
      if (!(up < 10)) up = 2;
      if (kind == 0) q[iq + i] = std::min(std::max(0., lo), up);
      else if (kind == 1) q[iq + i] = R.coin() ? lo : up;
      else q[iq + i] = R.uni(lo, up);
      // rounding residues, as left by projections
      if (kind == 3 && R.coin(.6)) { double x = (R.coin() ? 1 : -1) * std::pow(10., -R.uni(2, 18)); if (x > lo && x < up) q[iq + i] = x; }
    }
    if (kind != 0) {
      if (qn == 4) {
        Eigen::Quaterniond qq = randomQuat(R);
        if (kind == 2 && R.coin()) qq = Eigen::Quaterniond(Eigen::AngleAxisd(R.pick(std::vector<double>{M_PI / 2, M_PI, 1e-3}), Eigen::Vector3d::Unit(R.ri(3))));
        q.segment(iq + t, 4) = qq.coeffs();
      } else if (qn == 2) {
        double a = R.uni(-M_PI, M_PI);
        q[iq + t] = std::cos(a); q[iq + t + 1] = std::sin(a);
      }
    }
  }
  for (size_type i = 0; i < d->extraConfigSpace().dimension(); ++i)
    q[m.nq + i] = kind == 0 ? 0. : R.uni(d->extraConfigSpace().lower(i), d->extraConfigSpace().upper(i));
  return q;
}

LiegroupElement randomElement(Rng& R, const LiegroupSpacePtr_t& s) {
  LiegroupElement e(s->neutral());
  e += randomVec(R, s->nv(), 1.2);
  return e;
}
bool inSpace(const LiegroupSpacePtr_t& s, const vector_t& q, double eps) {
  if (q.size() != s->nq()) return false;
  for (int i = 0; i < q.size(); ++i) if (!std::isfinite(q[i])) return false;
  LiegroupElement e(q, s);
  return hpp::pinocchio::checkNormalized(e, eps);
}
vector_t integrate(const LiegroupSpacePtr_t& s, const vector_t& q, const vector_t& v) {
  LiegroupElement e(q, s);
  e += v;
  return e.vector();
}
vector_t difference(const LiegroupSpacePtr_t& s, const vector_t& q1, const vector_t& q0) {
  LiegroupElement a(q1, s), b(q0, s);
  return a - b;
}

Kin::Kin(const DevicePtr_t& d, const vector_t& q_) : data(d->model()), model(d->model()), q(q_) {
  pin::forwardKinematics(model, data, q.head(model.nq));
}
SE3 Kin::joint(const JointConstPtr_t& j) const {
  if (!j || j->index() == 0) return SE3::Identity();
  return data.oMi[j->index()];
}
// The centre of mass itself is computed by hpp-pinocchio (trusted dependency, see DESIGN.md)
Eigen::Vector3d comOf(const DevicePtr_t& d, const vector_t& q, const std::vector<size_t>& roots) {
  hpp::pinocchio::CenterOfMassComputationPtr_t c = hpp::pinocchio::CenterOfMassComputation::create(d);
  for (size_t r : roots) c->add(hpp::pinocchio::Joint::create(d, r));
  hpp::pinocchio::DeviceSync s(d);
  s.currentConfiguration(q);
  s.computeForwardKinematics(hpp::pinocchio::JOINT_POSITION);
  c->compute(s.d(), hpp::pinocchio::COM);
  return c->com(s.d());
}

hpp::pinocchio::CenterOfMassComputationPtr_t Robot::com(size_t root) const {
  auto& c = (*coms)[root];
  if (!c) {
    c = hpp::pinocchio::CenterOfMassComputation::create(d);
    c->add(hpp::pinocchio::Joint::create(d, root));
  }
  return c;
}

static matrix_t nj(const VecFn& f, const LiegroupSpacePtr_t& in, const LiegroupSpacePtr_t& out, const vector_t& q, const vector_t& f0, double h) {
  matrix_t J(out->nv(), in->nv());
  for (size_type i = 0; i < in->nv(); ++i) {
    vector_t v = vector_t::Zero(in->nv());
    auto d = [&](double s) { v[i] = s; return difference(out, f(integrate(in, q, v)), f0); };
    J.col(i) = (8 * (d(h) - d(-h)) - (d(2 * h) - d(-2 * h))) / (12 * h);
  }
  return J;
}
matrix_t numJac(const VecFn& f, const LiegroupSpacePtr_t& in, const LiegroupSpacePtr_t& out, const vector_t& q, double& err, double h) {
  vector_t f0 = f(q);
  matrix_t a = nj(f, in, out, q, f0, h), b = nj(f, in, out, q, f0, h / 2);
  err = a.size() ? maxAbs(a - b) : 0;
  return b;
}
VecFn valueOf(const DifferentiableFunctionPtr_t& f) {
  return [f](const vector_t& q) -> vector_t { return (*f)(q).vector(); };
}
matrix_t jac(const DifferentiableFunctionPtr_t& f, const vector_t& q) {
  matrix_t J(f->outputDerivativeSize(), f->inputDerivativeSize());
  // poison: every entry must be written
  J.setConstant(std::numeric_limits<double>::quiet_NaN());
  f->jacobian(J, q);
  return J;
}
std::string show(const matrix_t& m, int maxr) {
  std::ostringstream o;
  o.precision(9);
  o << "(" << m.rows() << "x" << m.cols() << ")[";
  for (int i = 0; i < m.rows() && i < maxr; ++i) {
    for (int j = 0; j < m.cols() && j < 24; ++j) o << (j ? " " : "") << m(i, j);
    o << "; ";
  }
  o << "]";
  return o.str();
}
std::string vs(const vector_t& v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
  o << "]";
  return o.str();
}

static matrix_t randM(Rng& R, size_type m, size_type n, double a) {
  matrix_t M(m, n);
  for (size_type i = 0; i < m; ++i) for (size_type j = 0; j < n; ++j) M(i, j) = R.uni(-a, a);
  return M;
}
DifferentiableFunctionPtr_t smoothFn(Rng& R, size_type n, size_type m, const std::string& name, double lin, double nl) {
  return DifferentiableFunctionPtr_t(new SmoothFn(n, n, randM(R, m, n, lin), randM(R, m, n, nl), randomVec(R, m), name));
}
void LieFn::impl_compute(LiegroupElementRef r, vectorIn_t x) const {
  vector_t v = A * x + ((B * x).array().sin()).matrix();
  LiegroupElement e(y0, outputSpace());
  e += v;
  r.vector() = e.vector();
}
void LieFn::impl_jacobian(matrixOut_t J, vectorIn_t x) const {
  vector_t v = A * x + ((B * x).array().sin()).matrix();
  LiegroupElement e(y0, outputSpace());
  matrix_t D = A + ((B * x).array().cos()).matrix().asDiagonal() * B;
  outputSpace()->dIntegrate_dv<hpp::pinocchio::DerivativeTimesInput>(e, v, D);
  J = D;
}
DifferentiableFunctionPtr_t lieFn(Rng& R, size_type n, const LiegroupSpacePtr_t& out, const std::string& name) {
  double s = 1. / std::sqrt((double)std::max<size_type>(n, 1));
  return DifferentiableFunctionPtr_t(new LieFn(randM(R, out->nv(), n, s), randM(R, out->nv(), n, s), randomElement(R, out), name));
}

// ---------------------------------------------------------------------------
static vector_t log3(const Eigen::Matrix3d& M) {
  // independent logarithm: through the quaternion
  Eigen::Quaterniond q(M);
  q.normalize();
  if (q.w() < 0) q.coeffs() *= -1;
  double n = q.vec().norm();
  double th = 2 * std::atan2(n, q.w());
  vector_t r(3);
  if (n < 1e-12) r = 2 * q.vec();
  else r = th / n * q.vec();
  return r;
}
static vector_t sel(const vector_t& v, const std::vector<bool>& m) {
  vector_t r(std::count(m.begin(), m.end(), true));
  int k = 0;
  for (size_t i = 0; i < m.size(); ++i) if (m[i]) r[k++] = v[i];
  return r;
}
static std::vector<bool> rmask(Rng& R, int n, double pfull = .5) {
  std::vector<bool> m(n, true);
  if (R.coin(pfull)) return m;
  for (;;) {
    int c = 0;
    for (int i = 0; i < n; ++i) { m[i] = R.coin(.6); c += m[i]; }
    if (c) return m;
  }
}
static std::string ms(const std::vector<bool>& m) { std::string s; for (bool b : m) s += b ? '1' : '0'; return s; }

template <int O>
static KinFn mkGT(Rng& R, const Robot& r, const char* nm) {
  typedef GenericTransformation<O> F;
  KinFn k;
  const bool rel = O & RelativeBit, pos = O & PositionBit, ori = O & OrientationBit, so3 = O & OutputR3xSO3Bit;
  JointPtr_t j2 = randomJoint(R, r.d), j1;
  if (rel) {
    int t = R.ri(6);
    if (t) { do { j1 = randomJoint(R, r.d); } while (j1->index() == j2->index() && r.d->nbJoints() > 1); }
    if (j1 && j1->index() == j2->index()) j1.reset();
  }
  // a null joint2 in relative functions means the world frame
  SE3 F1 = randomSE3(R), F2 = randomSE3(R);
  std::vector<bool> mask = so3 ? std::vector<bool>(F::DerSize, true) : rmask(R, F::DerSize);
  typename F::Ptr_t f;
  bool viaRef = R.coin(.25);
  if (viaRef) {
    SE3 ref = randomSE3(R);
    if (rel) f = F::create(nm, r.d, j1, j2, ref, mask);
    else f = F::create(nm, r.d, j2, ref, mask);
    F1 = ref; F2 = SE3::Identity();
  } else {
    if (rel) f = F::create(nm, r.d, j1, j2, F1, F2, mask);
    else f = F::create(nm, r.d, j2, F2, F1, mask);
  }
  k.f = f;
  k.kind = std::string(nm) + (viaRef ? "/ref" : "") + (rel && !j1 ? "/world" : "") + "/" + ms(mask) + (F1 == SE3::Identity() ? "/F1=I" : "") + (F2 == SE3::Identity() ? "/F2=I" : "");
  DevicePtr_t d = r.d;
  k.ref = [=](const vector_t& q) -> vector_t {
    Kin K(d, q);
    SE3 M = (K.joint(j1) * F1).inverse() * (K.joint(j2) * F2);
    vector_t v(F::ValueSize);
    int i = 0;
    if (pos) { v.head(3) = M.translation(); i = 3; }
    if (ori) {
      if (so3) { Eigen::Quaterniond qq(M.rotation()); v.segment(i, 4) = qq.coeffs(); }
      else v.segment(i, 3) = log3(M.rotation());
    }
    if (so3) return v;
    return sel(v, mask);
  };
  k.smooth = [=](const vector_t& q) {
    if (!ori || so3) return true;
    Kin K(d, q);
    SE3 M = (K.joint(j1) * F1).inverse() * (K.joint(j2) * F2);
    return log3(M.rotation()).norm() < M_PI - 0.05;
  };
  k.joints = {j1, j2};
  return k;
}

// hpp-pinocchio's centre of mass is only defined for robots with one root
// joint that has children (it reads children[root].back())
bool hasCom(const Robot& r) {
  const pin::Model& m = r.d->model();
  int n = 0;
  for (size_t a = 1; a < (size_t)m.njoints; ++a) n += m.parents[a] == 0;
  return n == 1 && m.njoints > 2;
}
int nKinFn() { return 12; }
KinFn randomKinFn(Rng& R, const Robot& r, int which) {
  if (which < 0) which = R.ri(nKinFn());
  if (which == 10 && !hasCom(r) && r.partRoots.empty()) which = 5;
  DevicePtr_t d = r.d;
  switch (which) {
    case 0: return mkGT<PositionBit>(R, r, "Position");
    case 1: return mkGT<OrientationBit>(R, r, "Orientation");
    case 2: return mkGT<PositionBit | OrientationBit>(R, r, "Transformation");
    case 3: return mkGT<RelativeBit | PositionBit>(R, r, "RelativePosition");
    case 4: return mkGT<RelativeBit | OrientationBit>(R, r, "RelativeOrientation");
    case 5: return mkGT<RelativeBit | PositionBit | OrientationBit>(R, r, "RelativeTransformation");
    case 6: return mkGT<PositionBit | OrientationBit | OutputR3xSO3Bit>(R, r, "TransformationR3xSO3");
    case 7: return mkGT<RelativeBit | PositionBit | OrientationBit | OutputR3xSO3Bit>(R, r, "RelativeTransformationR3xSO3");
    case 8: return mkGT<OrientationBit | OutputR3xSO3Bit>(R, r, "OrientationSO3");
    case 9: return mkGT<RelativeBit | OrientationBit | OutputR3xSO3Bit>(R, r, "RelativeOrientationSO3");
    case 10: {
      KinFn k;
      JointPtr_t j = randomJoint(R, d);
      Eigen::Vector3d ref(R.uni(), R.uni(), R.uni());
      std::vector<bool> mask = rmask(R, 3);
      bool part = (R.coin(.4) && !r.partRoots.empty()) || !hasCom(r);
      std::vector<size_t> roots{1};
      if (part) {
        size_t root = R.pick(r.partRoots);
        hpp::pinocchio::CenterOfMassComputationPtr_t comc = r.com(root);
        roots = {root};
        k.f = RelativeCom::create("RelativeCom", d, comc, j, ref, mask);
      } else
        k.f = RelativeCom::create("RelativeCom", d, j, ref, mask);
      k.kind = "RelativeCom/" + ms(mask) + (part ? "/part" : "");
      k.ref = [=](const vector_t& q) -> vector_t {
        Kin K(d, q);
        Eigen::Vector3d v = K.joint(j).actInv(comOf(d, q, roots)) - ref;
        return sel(v, mask);
      };
      k.smooth = [](const vector_t&) { return true; };
      k.joints = {j};
      return k;
    }
    default: {
      KinFn k;
      vector_t goal = randomConfig(R, d);
      vector_t w = vector_t::Ones(d->numberDof());
      bool uniform = R.coin(.5);
      if (!uniform) for (int i = 0; i < w.size(); ++i) w[i] = R.coin(.3) ? 0 : R.uni(.1, 3);
      k.f = ConfigurationConstraint::create("ConfigurationConstraint", d, goal, w);
      k.kind = std::string("ConfigurationConstraint") + (uniform ? "/unit" : "/weights");
      LiegroupSpacePtr_t sp = d->configSpace();
      k.ref = [=](const vector_t& q) -> vector_t {
        vector_t dv = difference(sp, goal, q);
        vector_t r(1);
        r[0] = .5 * (dv.array() * dv.array() * w.array()).sum();
        return r;
      };
      k.smooth = [=](const vector_t& q) {
        vector_t dv = difference(sp, goal, q);
        // away from the cut locus of the rotations: every rotation component
        for (int i = 0; i < dv.size(); ++i) if (std::fabs(dv[i]) > M_PI - .1) return false;
        for (int i = 0; i + 2 < dv.size(); ++i) if (dv.segment(i, 3).norm() > M_PI - .1 && std::fabs(dv.segment(i, 3).norm() - M_PI) < .1) return false;
        return true;
      };
      return k;
    }
  }
}
