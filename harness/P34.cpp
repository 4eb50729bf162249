// Parameters of the orbit filter: each has its place.
#include "eigen3/Eigen/Eigen"
#include "datetime/dtcalendar.hpp"
#include <cstdio>
#define printf(...) ((void)0)
#include "filters/filters.hpp"
#undef printf
#include "vpbt.hpp"
using namespace vp;
using std::vector;
typedef dso::datetime<dso::nanoseconds> Date;
using dso::BeaconClockModel;
// what the filter should hold
struct Model {
  vector<double> trop, off, drift, strop, soff, sdrift;
  double drag = 0, sdrag = 1;
};
template <int Np, BeaconClockModel B> void history(Gen &g) {
  constexpr bool lin = B == BeaconClockModel::Linear;
  const int ns = g.boolean(0.01) ? (int)g.integer(13, 150) : g.weighted({1, 6}) ? (int)g.integer(1, 12) : (int)g.integer(0, 1);
  const int64_t ref = 55000LL * 86400000000000LL + g.integer(-300LL * 86400000000000LL, 300LL * 86400000000000LL);
  auto date = [](int64_t ns) { return Date(dso::modified_julian_day(ns / 86400000000000LL), dso::nanoseconds(ns % 86400000000000LL)); };
  dso::EkfFilter<Np, B> f(ns, date(ref));
  const auto &cf = f;
  const int n = 6 + Np + ns * (lin ? 3 : 2);
  VP_CHECK((int)f.num_params() == n && f.estimates().size() == n && f.P().rows() == n && f.P().cols() == n, "%d parameters, %d estimates, covariance %d x %d, should be %d", (int)f.num_params(),
           (int)f.estimates().size(), (int)f.P().rows(), (int)f.P().cols(), n);
  // places
  vector<int> who(n, 0);
  for (int i = 0; i < 6; i++)
    who[i] = 1;
  if constexpr (Np > 0) {
    VP_CHECK(f.drag_coef_index() >= 6 && (int)f.drag_coef_index() < 6 + Np, "the drag coefficient is parameter %d", (int)f.drag_coef_index());
    for (int i = 0; i < Np; i++)
      who[6 + i] = 1;
  }
  for (int i = 0; i < ns; i++) {
    const int p[3] = {(int)f.tropo_index(i), (int)f.rfoff_index(i), (int)f.rfoff_index(i) + 1};
    for (int k = 0; k < (lin ? 3 : 2); k++) {
      VP_CHECK(p[k] >= 0 && p[k] < n, "parameter %d of station %d of %d has the place %d of %d", k, i, ns, p[k], n);
      VP_CHECK(!who[p[k]], "parameter %d of station %d has the place %d, which is another's", k, i, p[k]);
      who[p[k]] = 1;
    }
  }
  Eigen::VectorXd x = Eigen::VectorXd::Zero(n);
  Eigen::MatrixXd P = Eigen::MatrixXd::Identity(n, n);
  if (g.boolean(0.7)) // as after some observations
    for (int i = 0; i < n; i++)
      for (int j = 0; j <= i; j++)
        f.P()(i, j) = f.P()(j, i) = P(i, j) = P(j, i) = g.real(-1, 1) + 3 * (i == j);
  bool all = false, one = false;
  const int steps = (int)g.integer(1, 12);
  for (int s = 0; s < steps; s++) {
    const int b = ns == 0 || g.boolean(0.3) ? -1 : (int)g.choose(ns);
    const double v = g.real(-10, 10), w = g.real(-10, 10);
    const bool dflt = b < 0 && g.boolean();
    const int lo = b < 0 ? 0 : b, hi = b < 0 ? ns - 1 : b;
    (b < 0 ? all : one) = true;
    switch (g.choose(6)) {
    case 0:
      g.note("troposphere of %d: %g", b, v);
      dflt ? f.set_tropo_apriori(v) : f.set_tropo_apriori(v, b);
      for (int i = lo; i <= hi; i++)
        x(f.tropo_index(i)) = v;
      break;
    case 1:
      g.note("variance of the troposphere of %d: %g", b, v);
      dflt ? f.set_tropo_apriori_sigma(v) : f.set_tropo_apriori_sigma(v, b);
      for (int i = lo; i <= hi; i++)
        P(f.tropo_index(i), f.tropo_index(i)) = v;
      break;
    case 2:
      g.note("clock of %d: %g %g", b, v, w);
      if constexpr (lin)
        dflt ? f.set_rfoff_apriori(v, w) : f.set_rfoff_apriori(v, w, b);
      else
        dflt ? f.set_rfoff_apriori(v) : f.set_rfoff_apriori(v, b);
      for (int i = lo; i <= hi; i++) {
        x(f.rfoff_index(i)) = v;
        if (lin)
          x(f.rfoff_index(i) + 1) = w;
      }
      break;
    case 3:
      g.note("variance of the clock of %d: %g %g", b, v, w);
      if constexpr (lin)
        dflt ? f.set_rfoff_apriori_sigma(v, w) : f.set_rfoff_apriori_sigma(v, w, b);
      else
        dflt ? f.set_rfoff_apriori_sigma(v) : f.set_rfoff_apriori_sigma(v, b);
      for (int i = lo; i <= hi; i++) {
        P(f.rfoff_index(i), f.rfoff_index(i)) = v;
        if (lin)
          P(f.rfoff_index(i) + 1, f.rfoff_index(i) + 1) = w;
      }
      break;
    case 4:
      if constexpr (Np > 0) {
        g.note("drag: %g, variance %g", v, w);
        f.set_drag_coef_apriori(v), f.set_drag_coef_apriori_sigma(w);
        x(6) = v, P(6, 6) = w;
        VP_CHECK(cf.drag_coef() == v, "drag coefficient %g, should be %g", cf.drag_coef(), v);
        if (g.boolean())
          f.drag_coef() = x(6) = w;
      }
      break;
    default:
      if (b >= 0) {
        g.note("by reference, station %d: %g", b, v);
        f.tropo_estimate(b) = x(f.tropo_index(b)) = v;
        if constexpr (!lin)
          f.rfoff_estimate(b) = x(f.rfoff_index(b)) = w;
      }
    }
    const Eigen::VectorXd X = cf.estimates();
    for (int i = 0; i < n; i++) {
      VP_CHECK(X(i) == x(i), "after step %d, parameter %d of %d is %g, should be %g", s, i, n, X(i), x(i));
      for (int j = 0; j < n; j++)
        VP_CHECK(f.P()(i, j) == P(i, j), "after step %d, covariance (%d, %d) of %d is %g, should be %g", s, i, j, n, f.P()(i, j), P(i, j));
    }
    // read by name
    for (int i = 0; i < ns; i++) {
      VP_CHECK(cf.tropo_estimate(i) == x(f.tropo_index(i)), "troposphere of station %d is %g, should be %g", i, cf.tropo_estimate(i), x(f.tropo_index(i)));
      if constexpr (lin) {
        const int64_t at = ref + g.integer(-20LL * 86400000000000LL, 20LL * 86400000000000LL);
        const double dt = (double)(at - ref) * 1e-9, want = x(f.rfoff_index(i)) + dt * x(f.rfoff_index(i) + 1);
        VP_CHECK(std::fabs(f.deltat(date(at)) - dt) <= 1e-9 * (1 + std::fabs(dt)), "%.9f s since the reference epoch, should be %.9f", f.deltat(date(at)), dt);
        VP_CHECK(near(cf.rfoff_estimate(i, date(at)), want, 1e-12, 1e-8), "clock of station %d %.9g s after the reference epoch is %.15g, should be %.15g", i, dt, cf.rfoff_estimate(i, date(at)), want);
      } else
        VP_CHECK(cf.rfoff_estimate(i) == x(f.rfoff_index(i)), "clock of station %d is %g, should be %g", i, cf.rfoff_estimate(i), x(f.rfoff_index(i)));
    }
  }
  g.nontrivial(all && one && ns > 2);
}
VP_PROP(parameters, 20000, 600000, "three or more stations, set one by one and all at once") {
  switch (g.choose(4)) {
  case 0: return history<1, BeaconClockModel::Linear>(g);
  case 1: return history<1, BeaconClockModel::None>(g);
  case 2: return history<2, BeaconClockModel::Linear>(g);
  default: return history<3, BeaconClockModel::None>(g);
  }
}
