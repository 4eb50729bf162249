// Phase laws and phase centers of the ground antennas, against the published
// tables (ref/doris_phase_law_antex_*.txt, CNES).
#include "doris_system_info.hpp"
#include "vpbt.hpp"
using namespace vp;
typedef long double ld;
static const double ALC[19] = {0.00, 2.05, 7.24, 9.21, 6.71, 8.14, 11.87, 12.48, 12.28, 13.67, 13.91, 13.01, 13.01, 11.87, 9.70, 7.94, 4.99, 0.41, -3.93};
static const double STA[19] = {0.00, 0.06, -0.32, -1.12, -2.87, -4.02, -3.44, -2.15, -1.73, -1.73, -0.08, 1.37, 2.20, 5.37, 7.02, 10.70, 13.86, 17.27, 22.37};
struct Ant {
  const char *name;
  double (*pcv)(double, int &);
  Eigen::Matrix<double, 3, 1> (*pco)();
  double e, n, u;
  const double *law;
  double up;
};
using T = dso::GroundAntennaType;
template <T A, int F> static Ant ant(const char *name, const double *law, double up) {
  using O = dso::AntennaOffset<A, F>;
  return {name, [](double z, int &o) { return O::pcv(z, o); }, [] { return Eigen::Matrix<double, 3, 1>(O::pco()); }, O::deast(), O::dnorth(), O::dup(), law, up};
}
static std::vector<Ant> all() {
  return {ant<T::Alcatel, 1>("Alcatel 2 GHz", ALC, 510),  ant<T::Alcatel, 2>("Alcatel 400 MHz", nullptr, 335), ant<T::Starec_B, 1>("Starec B 2 GHz", STA, 487),
          ant<T::Starec_B, 2>("Starec B 400 MHz", nullptr, 0), ant<T::Starec_C, 1>("Starec C 2 GHz", STA, 487), ant<T::Starec_C, 2>("Starec C 400 MHz", nullptr, 0)};
}
VP_PROP(phase_law, 60000, 2000000, "an angle within the table") {
  const auto A = all();
  const Ant &a = A[g.choose(A.size())];
  const ld PI = 3.14159265358979323846264338327950288L;
  double z;
  switch (g.weighted({5, 3, 2, 2, 3})) {
  case 0: z = g.real(0, dso::DPI / 2); break;
  case 4: z = (double)(PI / 36) * (double)g.integer(0, 18) + g.sign() * g.logreal(1e-12, 0.05); break;
  case 1: { // at and next to the nodes
    z = (double)(PI / 36) * (double)g.integer(0, 18);
    for (int k = (int)g.integer(0, 3); k--;)
      z = std::nextafter(z, g.boolean() ? 10. : -10.);
    break;
  }
  case 2: z = g.real(-4, 4); break;
  default: z = g.pick({0e0, -0e0, dso::DPI / 2, -1e-300, 1e-300, std::nextafter(dso::DPI / 2, 2.), std::nextafter(dso::DPI / 2, 0.), 1e9, -1e9});
  }
  int out = 99;
  const double v = a.pcv(z, out);
  const bool oob = z < 0 || z > dso::DPI / 2;
  g.note("%s at %.17g rad", a.name, z);
  VP_CHECK((out != 0) == oob, "%s: out of bounds is %d at %.17g deg", a.name, out, z * 180 / dso::DPI);
  if (oob || !a.law) {
    VP_CHECK(v == 0, "%s: %g mm at %.17g deg", a.name, v, z * 180 / dso::DPI);
  } else {
    const ld d = (ld)z * 180 / PI / 5;
    const int i = std::min(17, (int)std::floor(d));
    const ld want = a.law[i] + (d - i) * ((ld)a.law[i + 1] - a.law[i]);
    VP_CHECK(std::fabs((double)(v - want)) < 1e-11, "%s: %.12g mm at %.12g deg, the published law gives %.12Lg", a.name, v, z * 180 / dso::DPI, want);
  }
  VP_CHECK(a.e == 0 && a.n == 0 && a.u == a.up, "%s: phase center %g %g %g mm", a.name, a.e, a.n, a.u);
  const auto p = a.pco();
  VP_CHECK(p(0) == 0 && p(1) == 0 && p(2) == a.up, "%s: phase center vector %g %g %g mm", a.name, p(0), p(1), p(2));
  g.label(a.name);
  g.nontrivial(!oob && a.law);
}
// the iono-free phase center of a station
VP_PROP(iono_free, 4000, 100000, "always") {
  dso::BeaconStation s;
  memset(&s, (int)g.choose(256), sizeof s);
  for (char &c : s.m_station_id)
    c = (char)('A' + g.choose(26));
  const char t = s.m_station_id[3] = g.pick({'A', 'B', 'C', 'A', 'B', 'C', 'D', 'a'});
  // some stack in use before
  volatile double junk[64];
  for (double volatile &x : junk)
    x = g.real(-1e6, 1e6);
  Eigen::Matrix<double, 3, 1> r;
  bool thrown = false;
  try {
    r = s.iono_free_phase_center();
  } catch (std::runtime_error &) {
    thrown = true;
  }
  VP_CHECK(thrown == (t != 'A' && t != 'B' && t != 'C'), "antenna '%c'", t);
  if (!thrown) {
    const ld f1 = 2036.25L, f2 = 401.25L, u1 = t == 'A' ? 510 : 487, u2 = t == 'A' ? 335 : 0;
    // the point whose distance is the iono-free combination of those of the two centers
    const ld want = (f1 * f1 * u1 - f2 * f2 * u2) / (f1 * f1 - f2 * f2) / 1000;
    VP_CHECK(r(0) == 0 && r(1) == 0 && std::fabs((double)(r(2) - want)) < 1e-15, "antenna '%c': iono-free center %.15g %.15g %.15g, should be 0 0 %.15Lg", t, r(0), r(1), r(2), want);
  }
  g.nontrivial();
}
