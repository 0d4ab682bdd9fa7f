// Generators of robots, frames, configurations and independent reference
// computations (kinematics straight from pinocchio, numerical derivatives).
#pragma once
#include "common.hh"
#include <hpp/constraints/fwd.hh>
#include <hpp/constraints/differentiable-function.hh>
#include <hpp/pinocchio/device.hh>
#include <hpp/pinocchio/extra-config-space.hh>
#include <hpp/pinocchio/joint.hh>
#include <hpp/pinocchio/liegroup-element.hh>
#include <hpp/pinocchio/liegroup-space.hh>
#include <pinocchio/multibody/model.hpp>
#include <pinocchio/multibody/data.hpp>

using namespace hpp::constraints;
typedef Transform3s SE3;
typedef std::pair<std::string, std::string> SS;

struct RobotOpts {
  bool extra = true;      // allow extra configuration variables
  bool geometry = false;  // attach collision shapes
  bool lieJoints = true;  // free-flyers, planar, spherical, unbounded joints
  int minJoints = 2, maxJoints = 7;
  double predefined = 0.3;  // probability of a predefined robot
};
struct Robot {
  DevicePtr_t d;
  std::string desc;
  std::vector<size_t> partRoots;  // joints whose subtree has a usable centre of mass
  // centre of mass computations already built for this robot (functions that
  // share one may compare equal)
  std::shared_ptr<std::map<size_t, hpp::pinocchio::CenterOfMassComputationPtr_t>> coms =
      std::make_shared<std::map<size_t, hpp::pinocchio::CenterOfMassComputationPtr_t>>();
  hpp::pinocchio::CenterOfMassComputationPtr_t com(size_t root) const;
  const LiegroupSpacePtr_t& space() const { return d->configSpace(); }
  size_type nq() const { return d->configSize(); }
  size_type nv() const { return d->numberDof(); }
  size_type extra() const;
};
Robot randomRobot(Rng& R, const RobotOpts& o = RobotOpts());
// kind: configuration sampling style, -1 random
vector_t randomConfig(Rng& R, const DevicePtr_t& d, int kind = -1);
vector_t randomVec(Rng& R, size_type n, double amp = 1);
SE3 randomSE3(Rng& R);               // mixes identity, pure rotation, pure translation, general
Eigen::Matrix3d randomRot(Rng& R);
Eigen::Quaterniond randomQuat(Rng& R);
JointPtr_t randomJoint(Rng& R, const DevicePtr_t& d);
JointPtr_t jointOf(const DevicePtr_t& d, size_type i);

// element of a Lie group space (random)
LiegroupElement randomElement(Rng& R, const LiegroupSpacePtr_t& s);
bool inSpace(const LiegroupSpacePtr_t& s, const vector_t& q, double eps = 1e-4);
vector_t integrate(const LiegroupSpacePtr_t& s, const vector_t& q, const vector_t& v);
vector_t difference(const LiegroupSpacePtr_t& s, const vector_t& q1, const vector_t& q0);

struct Kin {
  ::pinocchio::Data data;
  const ::pinocchio::Model& model;
  vector_t q;
  Kin(const DevicePtr_t& d, const vector_t& q);
  SE3 joint(const JointConstPtr_t& j) const;
};
Eigen::Vector3d comOf(const DevicePtr_t& d, const vector_t& q, const std::vector<size_t>& roots);

typedef std::function<vector_t(const vector_t&)> VecFn;
// Derivative of f : space -> outSpace at q, fourth order central differences.
// 'err' receives an estimate of the truncation error (difference with half step)
matrix_t numJac(const VecFn& f, const LiegroupSpacePtr_t& in, const LiegroupSpacePtr_t& out,
                const vector_t& q, double& err, double h = 1e-3);
VecFn valueOf(const DifferentiableFunctionPtr_t& f);
matrix_t jac(const DifferentiableFunctionPtr_t& f, const vector_t& q);

inline double maxAbs(const matrix_t& m) {
  double r = 0;
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) {
      double a = std::fabs(m(i, j));
      if (!(a <= r)) r = a;  // propagates NaN
      if (std::isnan(a)) return a;
    }
  return r;
}
inline bool close(const matrix_t& a, const matrix_t& b, double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  if (a.size() == 0) return true;
  double e = maxAbs(a - b);
  return e <= tol;
}
std::string show(const matrix_t& m, int maxr = 12);
std::string vs(const vector_t& v);

// --- user defined functions used as building blocks -------------------------
// y = A x (linear on vector input), nonlinear smooth map R^n -> R^m
struct SmoothFn : public DifferentiableFunction {
  matrix_t A, B; vector_t c;
  SmoothFn(size_type nq, size_type nv, const matrix_t& A_, const matrix_t& B_, const vector_t& c_, const std::string& n)
      : DifferentiableFunction(nq, nv, A_.rows(), n), A(A_), B(B_), c(c_) {}
  // y = A x + sin(B x) + c     (vector input, nq == nv)
  void impl_compute(LiegroupElementRef r, vectorIn_t x) const {
    r.vector() = A * x + ((B * x).array().sin()).matrix() + c;
  }
  void impl_jacobian(matrixOut_t J, vectorIn_t x) const {
    J = A + ((B * x).array().cos()).matrix().asDiagonal() * B;
  }
  bool isEqual(const DifferentiableFunction& o) const {
    const SmoothFn& s = dynamic_cast<const SmoothFn&>(o);
    return DifferentiableFunction::isEqual(o) && A == s.A && B == s.B && c == s.c;
  }
};
DifferentiableFunctionPtr_t smoothFn(Rng& R, size_type n, size_type m, const std::string& name = "smooth", double lin = 1, double nl = 0.5);

// smooth map from R^n to an arbitrary Lie group: y = y0 (+) (A x + sin (B x))
struct LieFn : public DifferentiableFunction {
  matrix_t A, B; vector_t y0;
  LieFn(const matrix_t& A_, const matrix_t& B_, const LiegroupElement& e, const std::string& n)
      : DifferentiableFunction(A_.cols(), A_.cols(), e.space(), n), A(A_), B(B_), y0(e.vector()) {}
  void impl_compute(LiegroupElementRef r, vectorIn_t x) const;
  void impl_jacobian(matrixOut_t J, vectorIn_t x) const;
  bool isEqual(const DifferentiableFunction& o) const {
    const LieFn& s = dynamic_cast<const LieFn&>(o);
    return DifferentiableFunction::isEqual(o) && A == s.A && B == s.B && y0 == s.y0;
  }
};
DifferentiableFunctionPtr_t lieFn(Rng& R, size_type n, const LiegroupSpacePtr_t& out, const std::string& name = "lie");

// --- kinematic functions with an independent definition ----------------------
struct KinFn {
  DifferentiableFunctionPtr_t f;
  std::string kind;    // class + option signature
  VecFn ref;           // independent value (may be empty)
  std::function<bool(const vector_t&)> smooth;  // false: not differentiable / ill conditioned here
  std::vector<JointConstPtr_t> joints;
};
KinFn randomKinFn(Rng& R, const Robot& r, int which = -1);
int nKinFn();
bool hasCom(const Robot& r);
