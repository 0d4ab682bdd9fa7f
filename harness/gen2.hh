// More functions, with independent definitions: distances, contacts, stability,
// manipulability, explicit functions and combinators.
#pragma once
#include "gen.hh"
#include <hpp/constraints/convex-shape-contact.hh>
#include <hpp/constraints/static-stability.hh>

struct AnyFn {
  DifferentiableFunctionPtr_t f;
  std::string kind;
  LiegroupSpacePtr_t in;                       // input space
  std::function<vector_t(Rng&)> rnd;           // input sampler
  VecFn ref;                                   // independent value (may be empty)
  std::function<bool(const vector_t&)> smooth; // differentiable and well conditioned here
  std::function<matrix_t(const vector_t&)> jref; // Jacobian defined by the parts (composites), may be empty
  double jtol = 1e-5;
  double h = 1e-3;
  bool pureValue = true;
  bool robotInput = false;                     // the input is a configuration of the robot
  DevicePtr_t robot;
  bool hasJacobian = true;
  std::function<DifferentiableFunctionPtr_t()> again;  // builds an equal function (same arguments)
};
enum AnyKind {
  ANY_KIN0 = 0,
  ANY_COMFEET = 100, ANY_DISTPTS, ANY_DISTBODY, ANY_MANIP, ANY_CONTACT, ANY_COMPLEMENT, ANY_HOLD, ANY_STATIC, ANY_QP, ANY_EXPREL,
  ANY_IMPLFN, ANY_SET, ANY_AFFINE, ANY_CONSTANT, ANY_IDENTITY, ANY_ACTIVESET, ANY_SUBSET, ANY_EXTRACT, ANY_DIFFERENCE, ANY_END
};
std::vector<int> anyKinds();
AnyFn anyFn(Rng& R, const Robot& r, int kind);
bool anyNeedsGeometry(int kind);
Robot robotFor(Rng& R, int kind);

// --- contacts -----------------------------------------------------------------
struct Surf {
  JointPtr_t j;
  std::vector<Eigen::Vector3d> p;
};
struct Contact {
  std::vector<Surf> floors, objects;
  JointAndShapes_t F() const, O() const;
  double margin = 0;
};
Surf randomPolygon(Rng& R, const JointPtr_t& j, double rmin, double rmax);
Contact randomContact(Rng& R, const Robot& r, bool objectOnFreeflyer = false, const JointPtr_t& obj = JointPtr_t());
struct ContactRef {
  bool inside = false;
  size_t ifloor = 0, iobject = 0;
  double dp, dn, gap;          // signed planar distance, normal distance, margin of the choice of the pair
  Eigen::Matrix<double, 6, 1> v;  // relative placement (log in R3 x SO3)
  double M;
  size_t objectDim;
};
ContactRef contactRef(const Contact& c, const DevicePtr_t& d, const vector_t& q);
// signed distance to a convex polygon, in its plane
double polygonDistance(const std::vector<Eigen::Vector3d>& p, const Eigen::Vector3d& x);
SE3 shapeFrame(const std::vector<Eigen::Vector3d>& p, bool reverse);
vector_t contactValue(const ContactRef& c, double margin);
vector_t complementValue(const ContactRef& c);

// --- stability ------------------------------------------------------------------
StaticStability::Contacts_t randomForces(Rng& R, const Robot& r, int n);
matrix_t graspMatrix(const StaticStability::Contacts_t& c, const DevicePtr_t& d, const vector_t& q, const std::vector<size_t>& roots);
// min |A x - b|^2 over x >= 0 (enumeration of active sets)
double nnls(const matrix_t& A, const vector_t& b, vector_t* x = nullptr);
