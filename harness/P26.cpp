// Nominal frequencies, ionospheric and relativistic corrections.
#include "doris_observation_equations.hpp"
#include "doris_system_info.hpp"
#include "vpbt.hpp"
using namespace vp;
typedef long double ld;
typedef Eigen::Matrix<double, 3, 1> V3;
VP_PROP(frequencies, 20000, 400000, "a shift factor that is not zero") {
  const int k = g.boolean(0.2) ? (int)g.integer(-100000, 100000) : (int)g.integer(-60, 60);
  double s1 = 0, u2 = 0;
  VP_CHECK(dso::beacon_nominal_frequency(k, s1, u2) == 0, "status");
  // RINEX DORIS 3.0, 6.16: f = N F0 (3/4 + 87 k / (5 2^26))
  const ld c = 0.75L + 87.0L * k / (5.0L * 67108864.0L);
  VP_CHECK(near(s1, (double)(543 * 5e6L * c), 1e-15) && near(u2, (double)(107 * 5e6L * c), 1e-15), "k = %d: %.6f and %.6f Hz, should be %.6Lf and %.6Lf", k, s1, u2, 543 * 5e6L * c, 107 * 5e6L * c);
  VP_CHECK(dso::DORIS_FREQ1_MHZ == 2036.25 && dso::DORIS_FREQ2_MHZ == 401.25 && dso::USO_F0 == 5e6, "system frequencies");
  VP_CHECK(near(dso::GAMMA_FACTOR_SQRT, 2036.25 / 401.25, 1e-15) && near(dso::GAMMA_FACTOR, 2036.25 * 2036.25 / (401.25 * 401.25), 1e-15), "ratio of the frequencies");
  g.nontrivial(k != 0);
}
// L1 with the correction added is free of any delay proportional to 1/f^2
VP_PROP(ionosphere, 20000, 400000, "always") {
  const ld f1 = 2036.25e6L, f2 = 401.25e6L, c = 299792458.0L;
  const ld rho = g.real(-1e7, 1e7), iono = g.sign() * g.logreal(1e-6, 1e4); // [m], delay [m] on 2 GHz
  const ld g2 = f1 * f1 / (f2 * f2);
  // phase advances
  const double L1 = (double)((rho - iono) * f1 / c), L2 = (double)((rho - iono * g2) * f2 / c);
  const double d = dso::carrier_iono_correction(L1, L2);
  const ld want = iono * f1 / c;
  VP_CHECK(std::fabs((double)(d - want)) <= 1e-14 * (std::fabs(L1) + 5.1 * std::fabs(L2)), "correction %.12g cycles, the delay on L1 is %.12Lg", d, want);
  g.nontrivial();
}
VP_PROP(relativity, 20000, 400000, "a latitude with a sizeable J2 term") {
  V3 r, v;
  const double R = g.boolean(0.5) ? g.real(6.35e6, 6.4e6) : g.real(6.6e6, 4.3e7);
  ld u[3], n = 0;
  for (ld &x : u)
    x = g.realb(-1, 1, {0e0, 1e0, -1e0}), n += x * x;
  if (n < 1e-3L)
    g.discard();
  for (int i = 0; i < 3; i++)
    r(i) = (double)(u[i] / sqrtl(n)) * R, v(i) = g.realb(-8e3, 8e3, {0e0});
  const double GM = g.pick({3.986004415e14, 3.986004418e14, 1e14}), J2 = g.realb(-2e-3, 2e-3, {1.0826359e-3, 0e0}), Re = g.pick({6378136.3, 6378137.0, 6e6});
  ld rr = 0, vv = 0;
  for (int i = 0; i < 3; i++)
    rr += (ld)r(i) * r(i), vv += (ld)v(i) * v(i);
  const ld rn = sqrtl(rr), c = 299792458.0L, sl = r(2) / rn;
  const ld w0 = (GM / rn + vv / 2) / c;
  const ld w1 = (GM / rn * (1 - (ld)Re / rn * Re / rn * J2 * (3 * sl * sl - 1) / 2) + vv / 2) / c;
  const double a = dso::relativistic_clock_correction(r, v, GM), b = dso::relativistic_clock_correction(r, v, GM, J2, Re);
  VP_CHECK(near(a, (double)w0, 2e-15), "%.17g, (mu/r + v^2/2)/c is %.17Lg", a, w0);
  VP_CHECK(near(b, (double)w1, 4e-15), "with J2: %.17g, should be %.17Lg (sine of the latitude %.6Lg)", b, w1, sl);
  g.nontrivial(std::fabs((double)(w1 - w0)) > 1e-6);
}
