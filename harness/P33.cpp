// The Kalman filter: estimates and covariances.
#include "eigen3/Eigen/Eigen"
#include "datetime/dtcalendar.hpp"
#include <cstdio>
#define printf(...) ((void)0)
#include "filters/filters.hpp"
#undef printf
#include "vpbt.hpp"
#include <memory>
using namespace vp;
using std::vector;
typedef long double ld;
typedef Eigen::Matrix<ld, Eigen::Dynamic, 1> LV;
typedef Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic> LM;
typedef dso::datetime<dso::nanoseconds> Date;
static Date date(Gen &g) { return Date(dso::modified_julian_day(g.integer(50000, 60000)), dso::nanoseconds(g.integer(0, 86399999999999))); }
// covariance, not too badly conditioned
static LM covariance(Gen &g, int n) {
  LM a = LM::Zero(n, n);
  for (int i = 0; i < n; i++) {
    const ld s = g.logreal(0.3, 10);
    a(i, i) = s;
    for (int j = 0; j < i; j++)
      a(i, j) = g.boolean(0.4) ? 0 : s * g.real(-0.5, 0.5);
  }
  return a * a.transpose();
}
static LM transition(Gen &g, int n) {
  LM f = LM::Identity(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (g.boolean(0.4))
        f(i, j) += g.real(-0.4, 0.4);
  return f;
}
// the same through an implementation with the clocks of n stations, or on its own
struct Filter {
  virtual ~Filter() {}
  virtual void time(const Date &, const Eigen::VectorXd &, const Eigen::MatrixXd &, const Eigen::MatrixXd *) = 0;
  virtual void observe(double, double, double, const Eigen::VectorXd &) = 0;
  virtual Eigen::VectorXd x() = 0;
  virtual Eigen::MatrixXd P() = 0;
  virtual Date when() = 0;
  virtual void symmetric(const Eigen::MatrixXd &) = 0;
};
struct Plain : Filter {
  dso::ExtendedKalmanFilter<dso::nanoseconds> f;
  Plain(const Date &t, const Eigen::VectorXd &x, const Eigen::MatrixXd &P) : f(t, x, P) {}
  void time(const Date &t, const Eigen::VectorXd &x, const Eigen::MatrixXd &phi, const Eigen::MatrixXd *q) override { q ? f.time_update(t, x, phi, *q) : f.time_update(t, x, phi); }
  void observe(double z, double g, double s, const Eigen::VectorXd &h) override { f.observation_update(z, g, s, h); }
  Eigen::VectorXd x() override { return f.state(); }
  Eigen::MatrixXd P() override { return f.P; }
  Date when() override { return f.time(); }
  void symmetric(const Eigen::MatrixXd &P) override { f.P = P; }
};
template <int Np, dso::BeaconClockModel M> struct Impl : Filter {
  dso::EkfFilter<Np, M> f;
  Impl(int ns, const Date &t, const Eigen::VectorXd &x, const Eigen::MatrixXd &P) : f(ns, t) { f._ekf._ekf.x = x, f.P() = P; }
  void time(const Date &t, const Eigen::VectorXd &x, const Eigen::MatrixXd &phi, const Eigen::MatrixXd *) override { f.time_update(t, x, phi); }
  void observe(double z, double g, double s, const Eigen::VectorXd &h) override { f.observation_update(z, g, s, h); }
  Eigen::VectorXd x() override { return f.estimates(); }
  Eigen::MatrixXd P() override { return f.P(); }
  Date when() override { return f._ekf._ekf.time(); }
  void symmetric(const Eigen::MatrixXd &P) override { f.P() = P; }
};
static std::unique_ptr<Filter> make(Gen &g, int kind, int &n, const Date &t, const LV &x, const LM &P) {
  const Eigen::VectorXd X = x.cast<double>();
  const Eigen::MatrixXd C = P.cast<double>();
  switch (kind) {
  case 0: return std::make_unique<Plain>(t, X, C);
  case 1: return std::make_unique<Impl<1, dso::BeaconClockModel::None>>((n - 7) / 2, t, X, C);
  default: return std::make_unique<Impl<0, dso::BeaconClockModel::Linear>>((n - 6) / 3, t, X, C);
  }
}
static int size(Gen &g, int kind) { return kind == 0 ? (int)g.integer(1, 8) : kind == 1 ? 7 + 2 * (int)g.integer(0, 2) : 6 + 3 * (int)g.integer(0, 2); }
VP_PROP(steps, 12000, 400000, "observations and time updates, and an observation as good as certain") {
  const int kind = (int)g.weighted({4, 1, 1});
  int n = size(g, kind);
  LV x(n);
  for (int i = 0; i < n; i++)
    x(i) = g.real(-100, 100);
  LM P = covariance(g, n);
  Date t = date(g);
  auto f = make(g, kind, n, t, x, P);
  P = P.cast<double>().cast<ld>(), x = x.cast<double>().cast<ld>();
  bool obs = false, tim = false, sure = false;
  const int steps = (int)g.integer(1, 10);
  for (int s = 0; s < steps; s++) {
    const ld before = P.diagonal().maxCoeff();
    ld amp = 1, move = 0; // of rounding
    if (g.boolean(0.35)) {
      tim = true;
      const LM phi = transition(g, n).cast<double>().cast<ld>();
      t = date(g);
      // the state is propagated by the caller, not linearly
      for (int i = 0; i < n; i++)
        x(i) = (ld)(double)(x(i) + g.real(-1, 1));
      const bool noise = kind == 0 && g.boolean();
      LM Q = noise ? (1e-2L * covariance(g, n)).cast<double>().cast<ld>().eval() : LM::Zero(n, n).eval();
      const Eigen::MatrixXd q = Q.cast<double>();
      f->time(t, x.cast<double>(), phi.cast<double>(), noise ? &q : nullptr);
      P = phi * P * phi.transpose() + Q;
      amp += phi.squaredNorm();
      g.note("time update%s", noise ? " with noise" : "");
    } else {
      obs = true;
      LV h(n);
      for (int i = 0; i < n; i++)
        h(i) = g.boolean(0.4) ? 0 : (ld)g.real(-2, 2);
      const double z = g.real(-1000, 1000), c = z + g.pick({0., 1., 100.}) * g.real(-1, 1), sigma = g.logreal(1e-3, 10);
      const ld hph = h.dot(P * h);
      sure |= sigma * sigma < 1e-6L * hph;
      f->observe(z, c, sigma, h.cast<double>());
      const LV k = P * h / (hph + (ld)sigma * sigma);
      x += k * ((ld)z - c);
      amp += (1 + k.norm() * h.norm()) * (1 + k.norm() * h.norm()), move = k.norm() * fabsl((ld)z - c) * (1 + before * h.squaredNorm() / (hph + (ld)sigma * sigma));
      P -= k * (h.transpose() * P);
      P = (P + P.transpose()) / 2;
      g.note("observed %.9g, computed %.9g +- %.3g", z, c, sigma);
    }
    const Eigen::VectorXd X = f->x();
    const Eigen::MatrixXd C = f->P();
    VP_CHECK(X.size() == n && C.rows() == n && C.cols() == n, "%d parameters, covariance %d x %d, should be %d", (int)X.size(), (int)C.rows(), (int)C.cols(), n);
    VP_CHECK((kind && !tim) || f->when() == t, "another epoch than that of the last update");
    const ld tc = 1e-13L * amp * std::max(before, P.diagonal().maxCoeff()), tx = 1e-13L * (100 + x.norm() + amp * move);
    for (int i = 0; i < n; i++)
      VP_CHECK(fabsl(X(i) - x(i)) <= tx, "step %d: parameter %d is %.15g, should be %.15Lg", s, i, X(i), x(i));
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        VP_CHECK(fabsl(C(i, j) - P(i, j)) <= tc, "step %d: covariance (%d, %d) is %.15g, should be %.15Lg", s, i, j, C(i, j), P(i, j));
        VP_CHECK(std::fabs(C(i, j) - C(j, i)) <= (double)tc, "step %d: covariance (%d, %d) is %.15g, but (%d, %d) %.15g", s, i, j, C(i, j), j, i, C(j, i));
      }
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(C, Eigen::EigenvaluesOnly);
    VP_CHECK(es.eigenvalues()(0) >= -(double)tc, "step %d: the covariance has the eigenvalue %g", s, es.eigenvalues()(0));
    // go on from where it is
    const Eigen::MatrixXd S = (C + C.transpose()) / 2;
    f->symmetric(S);
    x = X.cast<ld>(), P = S.cast<ld>();
  }
  g.nontrivial(obs && tim && sure);
}
VP_PROP(batch, 6000, 200000, "more observations than parameters, and time passes between them") {
  // linear: what all observations and the a priori say together
  const int kind = (int)g.weighted({4, 1, 1});
  int n = size(g, kind);
  LV x0(n);
  for (int i = 0; i < n; i++)
    x0(i) = (ld)g.real(-10, 10);
  LM P0 = LM::Zero(n, n);
  for (int i = 0; i < n; i++) {
    const double s = g.real(0.5, 5);
    P0(i, i) = s * s;
  }
  auto f = make(g, kind, n, date(g), x0, P0);
  LM F = LM::Identity(n, n); // to now
  LM N = P0.inverse();
  LV b = N * x0;
  int k = 0;
  bool moved = false;
  const int steps = (int)g.integer(1, 2 * n + 4);
  for (int s = 0; s < steps; s++) {
    if (g.boolean(0.2)) {
      LM phi = transition(g, n).cast<double>().cast<ld>();
      if (fabsl(phi.determinant()) < 0.1L)
        phi = LM::Identity(n, n);
      F = phi * F;
      const Eigen::VectorXd xn = (phi * f->x().cast<ld>()).cast<double>();
      f->time(date(g), xn, phi.cast<double>(), nullptr);
      moved |= k > 0;
      continue;
    }
    LV h(n);
    for (int i = 0; i < n; i++)
      h(i) = g.boolean(0.3) ? 0 : (ld)g.real(-1, 1);
    const double z = g.real(-50, 50), sigma = g.real(0.1, 3);
    const double c = (double)h.dot(f->x().cast<ld>());
    f->observe(z, c, sigma, h.cast<double>());
    const LV a = F.transpose() * h; // of the parameters at first
    N += a * a.transpose() / ((ld)sigma * sigma);
    b += a * z / ((ld)sigma * sigma);
    k++;
  }
  g.nontrivial(k > n && moved);
  g.note("%d parameters, %d observations", n, k);
  const LM P = F * N.inverse() * F.transpose();
  const LV x = F * N.ldlt().solve(b);
  const Eigen::VectorXd X = f->x();
  const Eigen::MatrixXd C = f->P();
  const ld cmax = P.diagonal().maxCoeff(), big = x.cwiseAbs().maxCoeff() + 10;
  for (int i = 0; i < n; i++) {
    VP_CHECK(fabsl(X(i) - x(i)) <= 1e-8L * big, "parameter %d is %.12g, that of all observations together %.12Lg", i, X(i), x(i));
    for (int j = 0; j < n; j++)
      VP_CHECK(fabsl(C(i, j) - P(i, j)) <= 1e-8L * cmax, "covariance (%d, %d) is %.12g, that of all observations together %.12Lg", i, j, C(i, j), P(i, j));
  }
}

VP_PROP(as_good_as_certain, 8000, 300000, "two or more observations, one over 1e16 times as good as what was known") {
  // of single parameters, which are independent: information adds up, however unequal
  const int kind = (int)g.weighted({4, 1, 1});
  int n = size(g, kind);
  LV x(n);
  LM P = LM::Zero(n, n);
  for (int i = 0; i < n; i++)
    x(i) = g.real(-100, 100), P(i, i) = g.logreal(1e-6, 1e13);
  auto f = make(g, kind, n, date(g), x, P);
  P = P.cast<double>().cast<ld>(), x = x.cast<double>().cast<ld>();
  bool sure = false;
  const int steps = (int)g.integer(1, 6);
  for (int s = 0; s < steps; s++) {
    const int i = (int)g.choose(n);
    Eigen::VectorXd h = Eigen::VectorXd::Zero(n);
    h(i) = g.boolean(0.3) ? g.sign() * g.logreal(1e-2, 1e2) : g.sign();
    const double sigma = g.logreal(1e-6, 1e3), z = g.real(-1000, 1000), c = z + g.real(-1, 1);
    const ld R = (ld)sigma * sigma / ((ld)h(i) * h(i));
    g.note("parameter %d of %d, variance %.3Lg, observed with %.3Lg", i, n, P(i, i), R);
    sure |= R < 1e-16L * P(i, i);
    f->observe(z, c, sigma, h);
    const ld k = P(i, i) / (P(i, i) + R), p = P(i, i), want = p * R / (p + R);
    x(i) += k * ((ld)z - c) / h(i);
    const Eigen::VectorXd X = f->x();
    const Eigen::MatrixXd C = f->P();
    VP_CHECK(fabsl(C(i, i) - want) <= 1e-12L * want + 1e-30L * p, "step %d: variance %.15g of parameter %d, known with %.15Lg and observed with %.15Lg, should be %.15Lg", s, C(i, i), i, p, R, want);
    VP_CHECK(fabsl(X(i) - x(i)) <= 1e-12L * (100 + fabsl(x(i)) + fabsl(((ld)z - c) / h(i))), "step %d: parameter %d is %.15g, should be %.15Lg", s, i, X(i), x(i));
    for (int a = 0; a < n; a++)
      for (int b = 0; b < n; b++)
        if (a != b || a != i)
          VP_CHECK(fabsl(C(a, b) - P(a, b)) <= 1e-13L * sqrtl(P(a, a) * P(b, b)), "step %d: covariance (%d, %d) is %g, was %g before parameter %d was observed", s, a, b, C(a, b), (double)P(a, b), i);
    P(i, i) = C(i, i), x(i) = X(i);
  }
  g.nontrivial(steps > 1 && sure);
}
