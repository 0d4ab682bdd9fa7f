// C23: logarithms of rotations and poses.  C24: decomposition helpers.
#include "gen.hh"
#include <Eigen/SVD>
#include <hpp/constraints/svd.hh>
#include <hpp/constraints/tools.hh>
#include <pinocchio/spatial/explog.hpp>

typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef long double LD;
typedef Eigen::Matrix<LD, 3, 1> V3L;
typedef Eigen::Matrix<LD, 3, 3> M3L;
static M3L crossL(const V3L& v) { M3L m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
static M3L expL(const V3L& r) {
  LD t = r.norm(); M3L K = crossL(r), I = M3L::Identity();
  if (t < 1e-5L) return I + K + K * K / 2 + K * K * K / 6;
  return I + std::sin(t) / t * K + (1 - std::cos(t)) / (t * t) * K * K;
}
// inverse of the right Jacobian of the exponential
static M3L jlogL(const V3L& r) {
  LD t = r.norm(); M3L K = crossL(r);
  LD b = t < 1e-3L ? 1.L / 12 + t * t / 720 : 1 / (t * t) - 1 / (2 * t * std::tan(t / 2));
  return M3L::Identity() + K / 2 + b * K * K;
}
// inverse of the translation part of the exponential of SE3
static M3L vinvL(const V3L& r) { return jlogL(-r); }

struct Rot { V3L r; M3 R; std::string d; double theta; };
static V3 axis(Rng& R) {
  V3 a;
  do {
    int k = R.ri(5);
    a = V3(R.uni(), R.uni(), R.uni());
    if (k == 1) a[R.ri(3)] = 0;
    if (k == 2) { int i = R.ri(3); double s = R.coin() ? 1 : -1; a.setZero(); a[i] = s; }
    if (k == 3) a[R.ri(3)] *= R.pick(std::vector<double>{1e-3, 1e-6, 1e-9, 1e-12});
    if (k == 4) for (int i = 0; i < 3; ++i) a[i] = R.ri(3) - 1;
  } while (a.norm() < .1);
  return a.normalized();
}
static Rot rot(Rng& R) {
  Rot x; V3L a = axis(R).cast<LD>(); a.normalize();
  int k = R.ri(7); LD t;
  LD e = std::pow(10.L, -R.uni(0, 17));
  if (k == 0) t = 0;
  else if (k == 1) t = e;                        // near the identity
  else if (k == 2) t = (LD)M_PIl - e;            // near half turns
  else if (k == 3) t = M_PIl;
  else if (k == 4) t = R.pick(std::vector<double>{M_PI / 2, M_PI / 3, M_PI - 1e-2, 1e-2, 1e-6, 9.99e-3, 1.01e-2});
  else t = R.uni(0, M_PI);
  x.r = t * a; x.theta = t; x.R = expL(x.r).cast<double>();
  if (k == 3) x.R = (2 * a * a.transpose() - M3L::Identity()).cast<double>();   // symmetric: signs undetermined by the antisymmetric part
  if (R.coin(.3)) { Eigen::Quaterniond q(x.R); q.normalize(); x.R = q.toRotationMatrix(); if (k == 3) k = 8; }
  x.d = Str() << "theta=" << x.theta << " axis=" << (double)a[0] << "," << (double)a[1] << "," << (double)a[2];
  return x;
}
static std::string kind(double t) { return t == 0 ? "zero" : t < 1e-6 ? "<1e-6" : t < 1e-2 ? "<1e-2" : t < M_PI - 1e-2 ? "regular" : t < M_PI - 1e-7 ? "near pi" : "pi"; }

SUITE("C23", "rotations", 300000, 6000000) {
  Rot x = rot(R);
  double theta = -1; V3 r;
  if (R.coin(.3)) { Eigen::VectorXd big = Eigen::VectorXd::Constant(6, 7); logSO3(x.R, theta, big.tail<3>()); r = big.tail<3>();
    C.check((big.head<3>().array() == 7).all(), "log3/writes-elsewhere", [&] { return x.d; }); }
  else logSO3(x.R, theta, r);
  auto D = [&] { return Str() << x.d << " R=\n" << x.R << "\nlog " << r.transpose() << " angle " << theta; };
  C.check(r.norm() <= M_PI + 1e-7 && std::abs(theta - r.norm()) < 2e-7 && theta >= 0, "log3/angle", D);
  double e = (expL(r.cast<LD>()) - x.R.cast<LD>()).cwiseAbs().maxCoeff();
  C.check(e < 1e-6, "log3/exp", [&] { return std::string(D() << " error " << e); });
  double tol = x.theta < M_PI - 2e-2 ? 1e-11 : 1e-6;
  // the logarithm is unique away from half turns
  if (x.theta < M_PI - 1e-5) { double d = (r - x.r.cast<double>()).cwiseAbs().maxCoeff(); C.check(d < tol, "log3/value", [&] { return std::string(D() << " expected " << x.r.cast<double>().transpose()); }); }
  C.count("log3 " + kind(x.theta));
  // Jacobian, from the angle and vector just computed
  if (x.theta < M_PI - 1e-5) {
    M3 J; JlogSO3(theta, r, J);
    M3 ref = jlogL(x.r).cast<double>();
    C.check((J - ref).cwiseAbs().maxCoeff() < 1e-6, "jlog3", [&] { return std::string(D() << " J=\n" << J << "\nexpected\n" << ref); });
    // the angle is also the norm of the vector
    JlogSO3(r.norm(), r, J);
    C.check((J - ref).cwiseAbs().maxCoeff() < 1e-6, "jlog3/norm", [&] { return std::string(D() << " J=\n" << J << "\nexpected\n" << ref); });
    if (x.theta < 3) {
      M3 num; double h = 1e-4;
      auto f = [&](int i, double t) { V3L w = V3L::Zero(); w[i] = t; V3 y; double a; logSO3(M3((x.R.cast<LD>() * expL(w)).cast<double>()), a, y); return y; };
      for (int i = 0; i < 3; ++i) num.col(i) = (8 * (f(i, h) - f(i, -h)) - (f(i, 2 * h) - f(i, -2 * h))) / (12 * h);
      C.check((J - num).cwiseAbs().maxCoeff() < 1e-6, "jlog3/numerical", [&] { return std::string(D() << " J=\n" << J << "\nnumerical\n" << num); });
    }
  }
  C.nontrivial(x.d); C.sample(x.d);
}
SUITE("C23", "poses", 150000, 3000000) {
  Rot x = rot(R);
  double s = R.pick(std::vector<double>{0, 1, 1, 1, 20, 1e-6});
  V3 p = s * V3(R.uni(), R.uni(), R.uni());
  SE3 M(x.R, p);
  Eigen::Matrix<double, 6, 1> v; logSE3(M, v);
  std::string d = Str() << x.d << " p=" << vs(p);
  V3L r = x.r; bool half = x.theta > M_PI - 1e-5;
  if (half) r = v.tail<3>().cast<LD>();   // any of the two logarithms of a half turn
  double e = (expL(v.tail<3>().cast<LD>()) - x.R.cast<LD>()).cwiseAbs().maxCoeff();
  double tol = x.theta < M_PI - 2e-2 ? 1e-8 : 2e-6;
  C.check(e < tol, "log6/rotation", [&] { return Str() << d << " log " << v.transpose(); });
  V3 t = (vinvL(r) * p.cast<LD>()).cast<double>();
  C.check((t - v.head<3>()).cwiseAbs().maxCoeff() < tol * (1 + s), "log6/translation", [&] { return Str() << d << " log " << v.transpose() << " expected translation " << t.transpose(); });
  // exponential by another route
  SE3 E = ::pinocchio::exp6(::pinocchio::MotionTpl<double>(v));
  C.check((E.translation() - p).cwiseAbs().maxCoeff() < 5e-6 * (1 + s), "log6/exp", [&] { return Str() << d << " exp(log)=" << E.translation().transpose(); });
  C.count("log6 " + kind(x.theta));
  if (x.theta < 3.1) {
    Eigen::Matrix<double, 6, 6> J, num; J.setConstant(7);
    JlogSE3(M, J);
    double h = 1e-3;
    auto f = [&](int i, double a) { Eigen::Matrix<double, 6, 1> w = Eigen::Matrix<double, 6, 1>::Zero(), y; w[i] = a; logSE3(SE3(M * ::pinocchio::exp6(::pinocchio::MotionTpl<double>(w))), y); return y; };
    for (int i = 0; i < 6; ++i) num.col(i) = (8 * (f(i, h) - f(i, -h)) - (f(i, 2 * h) - f(i, -2 * h))) / (12 * h);
    C.check((J - num).cwiseAbs().maxCoeff() < 2e-6 * (1 + s), "jlog6", [&] { return Str() << d << "\n" << J << "\nnumerical\n" << num; });
    M3 J3 = jlogL(x.r).cast<double>();
    C.check((J.bottomRightCorner<3, 3>() - J3).cwiseAbs().maxCoeff() < 1e-6 && J.bottomLeftCorner<3, 3>().isZero(), "jlog6/rotation", [&] { return Str() << d << "\n" << J; });
    // written in a block of a larger matrix
    Eigen::MatrixXd big = Eigen::MatrixXd::Constant(8, 9, 3); JlogSE3(M, big.block<6, 6>(1, 2));
    C.check(big.block(1, 2, 6, 6) == J && (big.row(0).array() == 3).all() && (big.row(7).array() == 3).all() && (big.leftCols(2).array() == 3).all() && (big.col(8).array() == 3).all(), "jlog6/block", [&] { return d; });
  }
  // quaternions and configurations
  Eigen::Vector4d q; matrixToQuat(x.R, q);
  C.check(std::abs(q.norm() - 1) < 1e-9 && (Eigen::Quaterniond(q[3], q[0], q[1], q[2]).toRotationMatrix() - x.R).cwiseAbs().maxCoeff() < 1e-9, "quaternion", [&] { return Str() << d << " " << q.transpose(); });
  Eigen::VectorXd c = Eigen::VectorXd::Constant(9, 5); se3ToConfig(M, c.segment(1, 7));
  C.check(c[0] == 5 && c[8] == 5 && c.segment<3>(1) == p && c.segment<4>(4) == q, "config", [&] { return Str() << d << " " << c.transpose(); });
  M3 X; V3 w(R.uni(), R.uni(), R.uni()); X.setConstant(9); computeCrossMatrix(p, X);
  C.check((X * w - p.cross(w)).norm() < 1e-12 * (1 + s), "cross-matrix", [&] { return d; });
  C.nontrivial(d); C.sample(d);
}

// ---------------------------------------------------------------- C24
typedef Eigen::JacobiSVD<matrix_t> SVD;
static matrix_t orth(Rng& R, size_type n) {
  matrix_t a(n, n); for (size_type i = 0; i < n; ++i) for (size_type j = 0; j < n; ++j) a(i, j) = R.gauss();
  Eigen::HouseholderQR<matrix_t> qr(a); return qr.householderQ() * matrix_t::Identity(n, n);
}
SUITE("C24", "decompositions", 60000, 1000000) {
  size_type m = R.range(1, 9), n = R.range(1, 9), k = std::min(m, n), rank = R.ri((int)k + 1), tail = 0;
  matrix_t U = orth(R, m), V = orth(R, n);
  vector_t s = vector_t::Zero(k);
  double lo = R.pick(std::vector<double>{1e-4, 1e-2, 1, 1});
  for (size_type i = 0; i < rank; ++i) s[i] = R.coin(.3) ? 1 : R.uni(lo, 3);
  // a threshold hides small but non-zero singular values
  bool threshold = R.coin(.4); double thr = 1e-6;
  matrix_t A = U.leftCols(k) * s.asDiagonal() * V.leftCols(k).transpose(), Ar = A;
  if (threshold && rank && rank < k) { vector_t z = vector_t::Zero(k); for (size_type i = rank; i < k; ++i) if (R.coin()) { z[i] = R.uni(1e-9, 1e-8) * std::min(1., s.maxCoeff()); ++tail; } A += U.leftCols(k) * z.asDiagonal() * V.leftCols(k).transpose(); }
  if (!threshold && R.coin(.2)) {   // exactly representable structure
    A.setZero(); std::vector<size_t> rows, cols; for (size_type i = 0; i < m; ++i) rows.push_back(i); for (size_type i = 0; i < n; ++i) cols.push_back(i);
    R.shuffle(rows); R.shuffle(cols); for (size_type i = 0; i < rank; ++i) A(rows[i], cols[i]) = R.pick(std::vector<double>{1, -1, 2, .5}); Ar = A; }
  std::string d = Str() << m << "x" << n << " rank " << rank << " threshold " << threshold << " hidden " << tail;
  C.note(d);
  bool fullU = R.coin(), fullV = R.coin();
  SVD svd(m, n, (fullU ? Eigen::ComputeFullU : Eigen::ComputeThinU) | (fullV ? Eigen::ComputeFullV : Eigen::ComputeThinV));
  svd.setThreshold(threshold ? thr : 1e-10);
  if (R.coin(.3)) { matrix_t junk = matrix_t::Random(m, n); svd.compute(junk); }   // decomposition objects are reused
  svd.compute(A);
  if (!C.check(svd.rank() == rank, "rank", [&] { return Str() << d << " " << svd.rank() << " singular values " << svd.singularValues().transpose(); })) return;
  double smin = rank ? s.head(rank).minCoeff() : 1; double tol = 1e-11 / std::min(1., smin) + (tail ? 1e-7 / std::min(1., smin) : 0);
  auto close = [&](const matrix_t& a, const matrix_t& b, double t, const char* key) { C.check(a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() < t), key, [&] { return Str() << d << " full " << fullU << fullV << " A=\n" << A << "\ngot\n" << a << "\nexpected\n" << b; }); };
  matrix_t P = matrix_t::Constant(n, m, 7); pseudoInverse<SVD>(svd, P);
  double tp = tol * (1 + maxAbs(P)) * (1 + maxAbs(P));
  close(Ar * P * Ar, Ar, tp, "pinv/A P A"); close(P * Ar * P, P, tp * (1 + maxAbs(P)), "pinv/P A P");
  matrix_t AP = Ar * P, PA = P * Ar;
  close(AP, AP.transpose(), tp, "pinv/(A P)^T"); close(PA, PA.transpose(), tp, "pinv/(P A)^T");
  matrix_t I = matrix_t::Identity(n, n), Im = matrix_t::Identity(m, m);
  auto projector = [&](const matrix_t& X, size_type r, const char* key) {
    close(X * X, X, tol, key); close(X.transpose(), X, tol, key);
    C.check(std::abs(X.trace() - (double)r) < 1e-6, key, [&] { return Str() << d << " trace " << X.trace() << " for rank " << r; }); };
  matrix_t S = matrix_t::Constant(n, n, 7), K = S, Si = matrix_t::Constant(m, m, 7), Ki = Si;
  projectorOnSpan<SVD>(svd, S); projector(S, rank, "span"); close(Ar * S, Ar, tol, "span/row space");
  projectorOnSpanOfInv<SVD>(svd, Si); projector(Si, rank, "span-of-inv"); close(Si * Ar, Ar, tol, "span-of-inv/column space");
  // the fast variant needs the full decomposition
  bool fv = fullV && R.coin(), fu = fullU && R.coin();
  projectorOnKernel<SVD>(svd, K, fv); projector(K, n - rank, "kernel"); close(Ar * K, 0 * Ar, tol, "kernel/A K = 0"); close(S + K, I, tol, "kernel/complement");
  projectorOnKernelOfInv<SVD>(svd, Ki, fu); projector(Ki, m - rank, "kernel-of-inv"); close(Ki * Ar, 0 * Ar, tol, "kernel-of-inv/K A = 0"); close(Si + Ki, Im, tol, "kernel-of-inv/complement");
  close(S, PA, tp, "span/pinv A"); close(Si, AP, tp, "span-of-inv/A pinv");
  // bases
  matrix_t U1 = getU1<SVD>(svd, rank), V1 = getV1<SVD>(svd, rank);
  C.check(U1.cols() == rank && V1.cols() == rank, "bases/size", [&] { return d; });
  close(U1.transpose() * U1, matrix_t::Identity(rank, rank), tol, "bases/orthonormal"); close(V1.transpose() * V1, matrix_t::Identity(rank, rank), tol, "bases/orthonormal");
  close(U1 * U1.transpose() * Ar, Ar, tol, "bases/column space"); close(Ar * V1 * V1.transpose(), Ar, tol, "bases/row space");
  if (fullV) { matrix_t V2 = getV2<SVD>(svd, rank); C.check(V2.cols() == n - rank, "bases/size", [&] { return d; }); close(Ar * V2, matrix_t::Zero(m, n - rank), tol, "bases/kernel"); close(V2.transpose() * V2, matrix_t::Identity(n - rank, n - rank), tol, "bases/orthonormal"); }
  if (fullU) { matrix_t U2 = getU2<SVD>(svd, rank); C.check(U2.cols() == m - rank, "bases/size", [&] { return d; }); close(U2.transpose() * Ar, matrix_t::Zero(m - rank, n), tol, "bases/kernel of transpose"); }
  // written in a block of a larger matrix
  { matrix_t big = matrix_t::Constant(n + 2, m + 3, 4); pseudoInverse<SVD>(svd, big.block(1, 2, n, m)); matrix_t ref = matrix_t::Constant(n + 2, m + 3, 4); ref.block(1, 2, n, m) = P; C.check((big.array() == ref.array()).all(), "pinv/block", [&] { return d; }); }
  C.count(Str() << "rank" << rank << (rank == k ? " full" : ""));
  C.nontrivial(Str() << d << A(0, 0)); C.sample(d);
}
