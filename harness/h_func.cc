// Functions on the configuration space and on other spaces:
// C12 Jacobians are derivatives, C13 values match geometry, C14 combinators,
// C15 inactive parameters, C16/C17 values of contact and stability functions,
// C19 purity, C20 equality.
#include "gen2.hh"
#include "problem.hh"

static std::string key(const std::string& k) { return k.substr(0, k.find_first_of("/({")); }
static std::string where(const Robot& r, const std::string& k, const vector_t& q) {
  return Str() << k << " robot=" << r.desc << " q=" << vs(q);
}
static int pickKind(Ctx& C, const std::vector<int>& v) { return v[C.cur % (long)v.size()]; }

static void valueCase(Ctx& C, Rng& R, int kind, int n) {
  Robot r = robotFor(R, kind);
  AnyFn k = anyFn(R, r, kind);
  C.note(k.kind + " " + r.desc);
  for (int t = 0; t < n; ++t) {
    vector_t q = k.rnd(R);
    if (!k.smooth(q) && key(k.kind) != "DistanceBetweenBodies") {
      // at a cut locus of the logarithm, near a change of contact pair...
      C.count("near-singular");
      continue;
    }
    vector_t v = (*k.f)(q).vector(), w = k.ref(q);
    LiegroupSpacePtr_t os = k.f->outputSpace();
    bool ok = v.size() == w.size() && v.size() == os->nq() && inSpace(os, v);
    double e = ok && v.size() ? maxAbs(os->nq() != os->nv() ? difference(os, v, w) : vector_t(v - w)) : 0;
    double tol = key(k.kind) == "DistanceBetweenBodies" ? 1e-4 : (key(k.kind) == "QPStaticStability" ? 1e-5 : 1e-6 * (1 + (w.size() ? maxAbs(w) : 0)));
    C.check(ok && e < tol, "value/" + key(k.kind), [&] { return Str() << where(r, k.kind, q) << " value=" << vs(v) << " expected=" << vs(w); });
    C.count(key(k.kind));
    C.nontrivial(k.kind + r.desc + vs(q));
    C.sample(where(r, k.kind, q).substr(0, 200) + " -> " + vs(v));
  }
}

SUITE("C13", "kin-values", 1200, 30000) { valueCase(C, R, (int)(C.cur % nKinFn()), 3); }
SUITE("C13", "distance-values", 500, 12000) {
  valueCase(C, R, pickKind(C, {ANY_COMFEET, ANY_DISTPTS, ANY_DISTBODY, ANY_MANIP, ANY_EXPREL}), 4);
}
SUITE("C16", "contact-values", 600, 15000) { valueCase(C, R, pickKind(C, {ANY_CONTACT, ANY_COMPLEMENT, ANY_HOLD}), 5); }
SUITE("C17", "stability-values", 600, 12000) { valueCase(C, R, pickKind(C, {ANY_STATIC, ANY_QP}), 4); }
SUITE("C14", "values", 600, 12000) { valueCase(C, R, pickKind(C, {ANY_SET, ANY_AFFINE, ANY_CONSTANT, ANY_IDENTITY, ANY_ACTIVESET, ANY_IMPLFN, ANY_SET, ANY_SUBSET, ANY_EXTRACT, ANY_DIFFERENCE}), 2); }
SUITE("C14", "jacobians", 600, 12000) {
  int kind = pickKind(C, {ANY_SET, ANY_AFFINE, ANY_CONSTANT, ANY_IDENTITY, ANY_ACTIVESET, ANY_SET, ANY_SUBSET, ANY_EXTRACT});
  Robot r = robotFor(R, kind);
  AnyFn k = anyFn(R, r, kind);
  C.note(k.kind + " " + r.desc);
  vector_t q = k.rnd(R);
  if (!k.jref) { C.skip("no-parts"); return; }
  // both results are built from the same Jacobians of the parts: they are identical
  matrix_t J = jac(k.f, q), N = k.jref(q);
  C.check(J.rows() == N.rows() && J.cols() == N.cols() && (J.size() == 0 || maxAbs(J - N) <= 1e-9 * (1 + maxAbs(N))), "combined-jacobian/" + key(k.kind), [&] { return Str() << where(r, k.kind, q) << "\n J=" << show(J) << "\n N=" << show(N); });
  C.nontrivial(k.kind + r.desc + vs(q));
}

SUITE("C12", "kin-jacobians", 700, 16000) {
  std::vector<int> kinds;
  for (int k : anyKinds()) if (k != ANY_ACTIVESET) kinds.push_back(k);
  int kind = pickKind(C, kinds);
  Robot r = robotFor(R, kind);
  AnyFn k = anyFn(R, r, kind);
  C.note(k.kind + " " + r.desc);
  vector_t q;
  bool ok = false;
  for (int t = 0; t < 12 && !ok; ++t) { q = k.rnd(R); ok = k.smooth(q); }
  if (!ok) { C.skip("not-differentiable"); return; }
  C.note(Str() << "q=" << vs(q));
  double err;
  matrix_t N = numJac(valueOf(k.f), k.in, k.f->outputSpace(), q, err, k.h);
  if (!(err < std::max(1e-6, .1 * k.jtol) * (1 + maxAbs(N)))) { C.skip("ill-conditioned-difference"); return; }
  matrix_t J = jac(k.f, q);
  C.check(close(J, N, k.jtol * (1 + maxAbs(N))), "jacobian/" + key(k.kind),
          [&] { return Str() << where(r, k.kind, q) << "\n J=" << show(J) << "\n N=" << show(N); });
  C.count(key(k.kind));
  if (maxAbs(N) > 1e-3) C.nontrivial(k.kind + r.desc + vs(q));
  C.sample(where(r, k.kind, q).substr(0, 200));
}

// the finite differences offered by the library approximate the derivative,
// whatever the magnitude of the coordinates
SUITE("C12", "finite-differences", 300, 6000) {
  static const std::vector<int> kinds = {0, 1, 2, 3, 5, 7, 8, ANY_COMFEET, ANY_DISTPTS, ANY_IMPLFN, ANY_AFFINE, ANY_EXTRACT, ANY_SUBSET, ANY_SET};
  int kind = pickKind(C, kinds);
  Robot r = robotFor(R, kind);
  AnyFn k = anyFn(R, r, kind);
  C.note(k.kind + " " + r.desc);
  vector_t q = k.robotInput && R.coin() ? randomConfig(R, r.d, 3) : k.rnd(R);
  if (!k.robotInput) {
    // (only differences in vector spaces are offered for other inputs)
    if (k.in->nq() != k.in->nv()) { C.count("not-a-vector-space"); return; }
    for (int i = 0; i < q.size(); ++i) if (R.coin(.4)) q[i] = R.coin(.3) ? 0 : (R.coin() ? 1 : -1) * std::pow(10., -R.uni(2, 18));
  }
  if (!k.smooth(q)) { C.skip("not-smooth"); return; }
  // (pinocchio's logarithm on SO(2) loses angles of the order of the step)
  if (k.f->outputSpace()->name().find("2)") != std::string::npos) { C.skip("logarithm-on-SO2"); return; }
  double err;
  matrix_t N = numJac(valueOf(k.f), k.in, k.f->outputSpace(), q, err, k.h);
  double m = 1 + maxAbs(N) + maxAbs((*k.f)(q).vector());
  if (!(err < 1e-6 * m)) { C.skip("ill-conditioned-difference"); return; }
  matrix_t J = matrix_t::Constant(N.rows(), N.cols(), 5.);
  bool central = R.coin();
  DevicePtr_t d = k.robotInput ? r.d : DevicePtr_t();
  if (central) k.f->finiteDifferenceCentral(J, q, d); else k.f->finiteDifferenceForward(J, q, d);
  // (columns declared inactive are zero)
  C.check(close(J, N, 3e-4 * m), "finite-difference/" + key(k.kind), [&] { return Str() << where(r, k.kind, q) << (central ? " central" : " forward") << "\n J=" << show(J) << "\n N=" << show(N); });
  C.count(central ? "finite-difference-central" : "finite-difference-forward");
  if (maxAbs(N) > 1e-3) C.nontrivial("fd" + k.kind + r.desc + vs(q));
}

// ------------------------------------------------------------------------------
SUITE("C15", "functions", 700, 12000) {
  int kind = pickKind(C, anyKinds());
  Robot r = robotFor(R, kind);
  AnyFn k = anyFn(R, r, kind);
  C.note(k.kind + " " + r.desc);
  const auto& ap = k.f->activeParameters();
  const auto& ad = k.f->activeDerivativeParameters();
  C.check(ap.size() == k.f->inputSize() && ad.size() == k.f->inputDerivativeSize(), "size-of-declaration", [&] { return Str() << k.kind << " " << r.desc; });
  vector_t q = k.rnd(R);
  // replace every inactive variable: whole components of the space when they
  // all are inactive, coordinates of vector components otherwise
  vector_t p = k.rnd(R), q2 = q;
  size_type iq = 0, iv = 0, changed = 0;
  for (size_t c = 0; c < k.in->liegroupTypes().size(); ++c) {
    size_type nq = k.in->nq(c), nv = k.in->nv(c);
    bool any = false, all = true;
    for (size_type i = 0; i < nq; ++i) { any |= !ap[iq + i]; all &= !ap[iq + i]; }
    if (all && nq) { q2.segment(iq, nq) = p.segment(iq, nq); changed += nq; }
    else if (any && nq == nv) for (size_type i = 0; i < nq; ++i) if (!ap[iq + i]) { q2[iq + i] = p[iq + i]; ++changed; }
    iq += nq; iv += nv;
  }
  vector_t v = (*k.f)(q).vector(), v2 = (*k.f)(q2).vector();
  // (the manipulability of a singular configuration is the logarithm of a rounding
  // error; near half turns and other singularities rounding errors are amplified
  // or make the value jump)
  if (changed && k.smooth(q) && k.smooth(q2)) {
    C.check(v.size() == 0 || maxAbs(v - v2) <= 1e-9 * (1 + maxAbs(v)), "inactive-parameter-matters/" + key(k.kind), [&] { return Str() << where(r, k.kind, q) << " q2=" << vs(q2) << " v=" << vs(v) << " v2=" << vs(v2); });
    C.count("parameters-changed", changed);
  }
  long zero = 0;
  if (k.hasJacobian && k.smooth(q)) {
    matrix_t J = jac(k.f, q);
    for (size_type i = 0; i < ad.size(); ++i) if (!ad[i]) {
      ++zero;
      C.check(J.rows() == 0 || maxAbs(J.col(i)) <= 1e-9 * (1 + maxAbs(J)), "inactive-column-not-zero/" + key(k.kind), [&] { return Str() << where(r, k.kind, q) << " column " << i << "\n J=" << show(J); });
      // the value does not vary along an inactive velocity either
      vector_t dv = vector_t::Zero(k.in->nv()); dv[i] = .3;
      vector_t w = (*k.f)(integrate(k.in, q, dv)).vector();
      if (!k.smooth(integrate(k.in, q, dv))) continue;
      C.check(maxAbs(v - w) <= 1e-7 * (1 + maxAbs(v)), "inactive-velocity-matters/" + key(k.kind), [&] { return Str() << where(r, k.kind, q) << " velocity " << i << " v=" << vs(v) << " w=" << vs(w); });
    }
  }
  if (changed || zero) { C.nontrivial(k.kind + r.desc + vs(q)); C.count(key(k.kind)); C.sample(where(r, k.kind, q).substr(0, 200)); }
}

// ------------------------------------------------------------------------------
SUITE("C19", "functions", 500, 10000) {
  int kind = pickKind(C, anyKinds());
  Robot r = robotFor(R, kind);
  AnyFn k = anyFn(R, r, kind);
  // another function on the same robot
  AnyFn o = anyFn(R, r, anyNeedsGeometry(kind) ? kind : R.pick(anyKinds()));
  C.note(k.kind + " then " + o.kind + " " + r.desc);
  int n = 3;
  std::vector<vector_t> qs, vals;
  std::vector<matrix_t> jacs;
  std::vector<bool> jok;
  // reference results, each from a fresh state
  for (int i = 0; i < n; ++i) {
    vector_t q = k.rnd(R);
    qs.push_back(q);
    r.d->currentConfiguration(q.size() == r.nq() ? q : randomConfig(R, r.d));
    r.d->computeForwardKinematics((int)hpp::pinocchio::JOINT_POSITION | (int)hpp::pinocchio::JACOBIAN);
    vals.push_back((*k.f)(q).vector());
    jok.push_back(k.smooth(q));
    jacs.push_back(jok[i] ? jac(k.f, q) : matrix_t());
  }
  // The input of explicit functions of a part of the configuration does not
  // define the whole configuration: the other joints stay where they are.
  for (int t = 0; t < 14; ++t) {
    int i = R.ri(n);
    switch (R.ri(6)) {
      case 0: {
        vector_t v = (*k.f)(qs[i]).vector();
        C.check(v.size() == 0 || maxAbs(v - vals[i]) <= 1e-9 * (1 + maxAbs(v)), "value-depends-on-history/" + key(k.kind), [&] { return Str() << where(r, k.kind, qs[i]) << " first=" << vs(vals[i]) << " now=" << vs(v); });
        C.count("value-again"); break;
      }
      case 1: case 2: {
        if (!jok[i]) break;
        matrix_t J = jac(k.f, qs[i]);
        C.check(J.size() == 0 || maxAbs(J - jacs[i]) <= 1e-7 * (1 + maxAbs(J)), "jacobian-depends-on-history/" + key(k.kind), [&] { return Str() << where(r, k.kind, qs[i]) << "\n first=" << show(jacs[i]) << "\n now=" << show(J); });
        C.count("jacobian-again"); break;
      }
      case 3: {
        r.d->currentConfiguration(randomConfig(R, r.d));
        if (R.coin()) r.d->computeForwardKinematics((int)hpp::pinocchio::JOINT_POSITION | (R.coin() ? (int)hpp::pinocchio::JACOBIAN : 0));
        C.count("robot-moved"); break;
      }
      case 4: { vector_t q = o.rnd(R); (*o.f)(q); C.count("other-function-value"); break; }
      default: { vector_t q = o.rnd(R); if (o.smooth(q)) jac(o.f, q); C.count("other-function-jacobian"); break; }
    }
  }
  // the value and Jacobian entry points agree when given a dirty output
  {
    int i = R.ri(n);
    LiegroupElement y(k.f->outputSpace());
    y.vector().setConstant(3);
    k.f->value(y, qs[i]);
    C.check(y.vector().size() == 0 || maxAbs(y.vector() - vals[i]) <= 1e-9 * (1 + maxAbs(vals[i])), "value-depends-on-output-content/" + key(k.kind), [&] { return Str() << where(r, k.kind, qs[i]) << " " << vs(y.vector()); });
    if (jok[i]) {
      matrix_t J = matrix_t::Constant(k.f->outputDerivativeSize(), k.f->inputDerivativeSize(), R.coin() ? 7.5 : std::numeric_limits<double>::quiet_NaN());
      k.f->jacobian(J, qs[i]);
      C.check(J.size() == 0 || maxAbs(J - jacs[i]) <= 1e-7 * (1 + maxAbs(J)), "jacobian-depends-on-output-content/" + key(k.kind), [&] { return Str() << where(r, k.kind, qs[i]) << "\n first=" << show(jacs[i]) << "\n now=" << show(J); });
    }
  }
  C.nontrivial(k.kind + o.kind + r.desc + vs(qs[0]));
  C.sample(k.kind + " interleaved with " + o.kind);
}

// ------------------------------------------------------------------------------
static bool sameBehaviour(Ctx& C, Rng& R, const AnyFn& a, const AnyFn& b, std::string& why) {
  if (a.f->inputSize() != b.f->inputSize() || a.f->outputSize() != b.f->outputSize() || a.f->inputDerivativeSize() != b.f->inputDerivativeSize() || a.f->outputDerivativeSize() != b.f->outputDerivativeSize()) { why = "sizes"; return false; }
  if (*a.f->outputSpace() != *b.f->outputSpace()) { why = "output space"; return false; }
  for (int t = 0; t < 4; ++t) {
    vector_t q = a.rnd(R);
    vector_t v = (*a.f)(q).vector(), w = (*b.f)(q).vector();
    if (v.size() && !(maxAbs(v - w) <= 1e-9 * (1 + maxAbs(v)))) { why = Str() << "values at " << vs(q) << ": " << vs(v) << " / " << vs(w); return false; }
    if (a.smooth(q) && b.smooth(q)) {
      matrix_t J = jac(a.f, q), K = jac(b.f, q);
      if (J.size() && !(maxAbs(J - K) <= 1e-6 * (1 + maxAbs(J)))) { why = Str() << "Jacobians at " << vs(q); return false; }
    }
  }
  return true;
}
SUITE("C20", "functions", 900, 16000) {
  int kind = pickKind(C, anyKinds());
  Robot r = robotFor(R, kind);
  uint64_t seed = R.g();
  Rng Ra(seed);
  AnyFn a = anyFn(Ra, r, kind);
  C.note(a.kind + " " + r.desc);
  C.check(*a.f == *a.f && !(*a.f != *a.f), "not-reflexive/" + key(a.kind), [&] { return Str() << a.kind << " " << r.desc; });
  if (a.again) {
    DifferentiableFunctionPtr_t f = a.again();
    bool e1 = *a.f == *f, e2 = *f == *a.f;
    C.check(e1 == e2 && e1 == !(*a.f != *f), "not-symmetric/" + key(a.kind), [&] { return Str() << a.kind << " " << r.desc; });
    C.check(e1, "same-arguments-differ/" + key(a.kind), [&] { return Str() << a.kind << " " << r.desc; });
    // equality survives evaluations
    vector_t q = a.rnd(R);
    (*a.f)(q);
    if (a.smooth(q)) jac(a.f, q);
    C.check(*a.f == *f && *f == *a.f, "differ-after-evaluation/" + key(a.kind), [&] { return Str() << a.kind << " " << r.desc; });
    C.count("rebuilt");
  }
  long nd = Ra.drawn;
  for (int t = 0; t < 12; ++t) {
    Rng Rb(seed);
    Rb.mutateAt = 1 + R.ri((int)nd);
    AnyFn b = anyFn(Rb, r, R.coin(.9) ? kind : R.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, ANY_DISTPTS, ANY_IDENTITY, ANY_CONSTANT}));
    if (a.f->inputSize() != b.f->inputSize() && R.coin(.5)) continue;
    bool e1 = *a.f == *b.f, e2 = *b.f == *a.f;
    C.check(e1 == e2, "not-symmetric/" + key(a.kind), [&] { return Str() << a.kind << " / " << b.kind << " " << r.desc; });
    C.count(e1 ? "near-miss-equal" : "near-miss-different");
    std::string why;
    if (e1) C.check(sameBehaviour(C, R, a, b, why), "equal-but-different/" + key(a.kind), [&] { return Str() << a.kind << " / " << b.kind << " " << r.desc << " " << why; });
  }
  C.nontrivial(a.kind + r.desc + std::to_string(seed));
  C.sample(a.kind + " " + r.desc);
}
