// Random constraint problems with an independent model of what they mean.
#pragma once
#include "gen.hh"
#include <hpp/constraints/implicit.hh>
#include <hpp/constraints/explicit.hh>
#include <hpp/constraints/locked-joint.hh>
#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/constraints/explicit-constraint-set.hh>
#include <hpp/constraints/solver/by-substitution.hh>

typedef solver::BySubstitution BySub;
typedef solver::HierarchicalIterative HierIt;

struct Con {
  ImplicitPtr_t c;
  ExplicitPtr_t e;              // set when the constraint has an explicit form
  std::string kind;
  ComparisonTypes_t comp;
  std::vector<bool> mask;
  std::size_t level = 0;
  bool isExplicit = false;      // treated as explicit by the solver
  vector_t rhs;                 // model of the right-hand side (element of the output space)
  // explicit part: output segment and prescribed value (element of the output
  // joint space) as a function of the whole configuration and right-hand side
  segments_t outConf, outVel;   // in the order of the components of outSpace
  vector_t out(const vector_t& q) const;
  void setOut(vector_t& q, const vector_t& y) const;
  bool outputsVel(size_type i) const { for (auto& s : outVel) if (i >= s.first && i < s.first + s.second) return true; return false; }
  segments_t inConf, inVel;
  LiegroupSpacePtr_t outSpace;
  std::function<vector_t(const vector_t& q, const vector_t& rhs)> prescribed;
  std::function<bool(const vector_t&)> smooth;
  DifferentiableFunctionPtr_t rhsFn;
  LiegroupSpacePtr_t space() const { return c->function().outputSpace(); }
  vector_t value(const vector_t& q) const { return c->function()(q).vector(); }
  // rhs obtained from a configuration: only Equality components are kept
  vector_t rhsFrom(const vector_t& q) const;
  vector_t project(const vector_t& rhs) const;  // keep Equality components of the logarithm
  // documented error (inequality threshold t)
  vector_t error(const vector_t& q, double t) const;
};

vector_t logOf(const LiegroupSpacePtr_t& s, const vector_t& x);
vector_t expOf(const LiegroupSpacePtr_t& s, const vector_t& v);

struct ConOpts {
  bool inequalities = true, masks = true, explicits = true, time = false;
  bool onlyEquality = false;
  int level = 0;
};
Con implicitCon(Rng& R, const Robot& r, const ConOpts& o = ConOpts());
Con lockedCon(Rng& R, const Robot& r, const JointPtr_t& j);
// generic explicit constraint computing joint 'out' from vector joints; inputs may be forced
Con explicitCon(Rng& R, const Robot& r, const std::vector<JointPtr_t>& out, const std::vector<JointPtr_t>& in, double amp = .5);
Con relPoseCon(Rng& R, const Robot& r, const JointPtr_t& j1, const JointPtr_t& j2, bool zero = false);
// vector-valued joints that can be inputs of generic explicit constraints
std::vector<JointPtr_t> vectorJoints(const Robot& r);
std::vector<JointPtr_t> allJoints(const Robot& r);
std::vector<JointPtr_t> freeflyerRoots(const Robot& r);  // SE3 joints
ComparisonTypes_t randomComp(Rng& R, const LiegroupSpacePtr_t& s, bool ineq, bool onlyEq);

struct Problem {
  Robot r;
  LiegroupSpacePtr_t space;
  std::vector<Con> cons;
  std::vector<size_t> order;
  std::vector<bool> freeMask;  // velocity variables free for the solver (user restriction); empty = all
  bool restricted = false;
  double thr = 1e-4, ineqThr = 0;
  int maxIter = 50;
  bool lastOptional = false, levelByLevel = false;
  size_t levels = 1;
  bool saturate = false;
  std::string desc() const;
};
struct ProblemOpts {
  RobotOpts robot;
  int maxImplicit = 3, maxExplicit = 3, levels = 2;
  ConOpts con;
  bool restrictFree = true;
};
Problem randomProblem(Rng& R, const ProblemOpts& o = ProblemOpts());
// Build a solver from the problem; fills isExplicit
template <class S> void configure(S& s, const Problem& p);
void build(BySub& s, Problem& p);
void build(HierIt& s, Problem& p);
// model side of explicit resolution: applies the prescriptions until fixed point
vector_t explicitResolve(const Problem& p, const vector_t& q);
bool explicitDefined(const Problem& p, const vector_t& q);
const char* statusName(HierIt::Status s);
bool allSmooth(const Problem& p, const vector_t& q);
bool inBounds(const DevicePtr_t& d, const vector_t& q, double tol = 1e-12);
DifferentiableFunctionPtr_t wrapCount(const DifferentiableFunctionPtr_t& f, std::shared_ptr<std::pair<long, long>> n);
