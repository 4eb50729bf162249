// Between the celestial and the terrestrial frame.
#include "orbit_integration.hpp"
#include "datetime/utcdates.hpp"
#include "iers2010/iau.hpp"
#include "iers2010/iers2010.hpp"
#include "vpbt.hpp"
using namespace vp;
using std::vector;
using M3 = Eigen::Matrix<double, 3, 3>;
using V3 = Eigen::Matrix<double, 3, 1>;
using V6 = Eigen::Matrix<double, 6, 1>;
typedef long double ld;
struct L3 {
  ld a[3][3];
};
static L3 conv(const M3 &m) {
  L3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      r.a[i][j] = m(i, j);
  return r;
}
static L3 mul(const L3 &x, const L3 &y) {
  L3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      r.a[i][j] = 0;
      for (int k = 0; k < 3; k++)
        r.a[i][j] += x.a[i][k] * y.a[k][j];
    }
  return r;
}
static M3 rotation(Gen &g, double max) {
  M3 m = M3::Identity();
  for (int k = 0; k < 3; k++)
    m = iers2010::sofa::vp_r(k, g.real(-max, max)) * m;
  return m;
}
static bool close3(const double *a, const ld *b, double tol) {
  for (int i = 0; i < 3; i++)
    if (!(std::fabs(a[i] - b[i]) <= tol))
      return false;
  return true;
}
#define V3F "(%.12g, %.12g, %.12g)"
#define V3A(v) (double)(v)[0], (double)(v)[1], (double)(v)[2]
VP_PROP(vectors, 30000, 1000000, "all three rotations are by more than a degree") {
  const bool real_ = g.boolean(0.4);
  const M3 q = real_ ? iers2010::sofa::c2ixys_e(g.real(-3e-3, 3e-3), g.real(-1e-4, 1e-4), g.real(-1e-7, 1e-7)) : rotation(g, 3.1);
  const M3 w = real_ ? iers2010::sofa::pom00_e(g.real(-3e-6, 3e-6), g.real(-3e-6, 3e-6), g.real(-1e-10, 1e-10)) : rotation(g, 3.1);
  const double era = g.weighted({5, 1, 1}) ? g.pick({0., 1.5707963267948966, 3.141592653589793, 6.283185307179586}) : g.real(0, 6.283);
  const double lod = g.boolean(0.2) ? 0 : g.boolean() ? g.real(-4e-3, 4e-3) : g.real(-4000, 4000); // the last to see where it goes
  V6 y;
  const double R = g.logreal(6.4e6, 5e7), V = g.logreal(1, 9e3);
  for (int i = 0; i < 3; i++)
    y(i) = g.real(-1, 1) * R, y(i + 3) = g.boolean(0.1) ? 0 : g.real(-1, 1) * V;
  g.nontrivial(!real_ && std::fabs(std::sin(era)) > 0.02);
  g.note("era %.17g, lod %g, r " V3F " v " V3F, era, lod, V3A(y.data()), V3A(y.data() + 3));
  L3 r3{{{cosl(era), sinl(era), 0}, {-sinl(era), cosl(era), 0}, {0, 0, 1}}};
  const ld om = (ld)iers2010::OmegaEarth * (1 - (ld)lod / 86400);
  L3 d3{{{-om * sinl(era), om * cosl(era), 0}, {-om * cosl(era), -om * sinl(era), 0}, {0, 0, 0}}};
  const L3 T = mul(conv(w), mul(r3, conv(q))), D = mul(conv(w), mul(d3, conv(q)));
  ld pos[3], vel[3], cpos[3], cvel[3];
  for (int i = 0; i < 3; i++) {
    pos[i] = vel[i] = cpos[i] = cvel[i] = 0;
    for (int k = 0; k < 3; k++) {
      pos[i] += T.a[i][k] * y(k);
      vel[i] += T.a[i][k] * y(k + 3) + D.a[i][k] * y(k);
      cpos[i] += T.a[k][i] * y(k);
      cvel[i] += T.a[k][i] * y(k + 3) + D.a[k][i] * y(k);
    }
  }
  const double tp = 1e-13 * R * 20, tv = 1e-13 * 20 * (V + 8e-5 * R);
  const V3 a = dso::rcel2ter(y.block<3, 1>(0, 0), q, era, w);
  VP_CHECK(close3(a.data(), pos, tp), "to terrestrial: " V3F ", should be " V3F, V3A(a.data()), V3A(pos));
  const V3 b = dso::rter2cel(y.block<3, 1>(0, 0), q, era, w);
  VP_CHECK(close3(b.data(), cpos, tp), "to celestial: " V3F ", should be " V3F, V3A(b.data()), V3A(cpos));
  const V6 t = dso::ycel2ter(y, q, era, lod, w);
  VP_CHECK(close3(t.data(), pos, tp), "state to terrestrial: position " V3F ", should be " V3F, V3A(t.data()), V3A(pos));
  VP_CHECK(close3(t.data() + 3, vel, tv), "state to terrestrial: velocity " V3F ", should be " V3F, V3A(t.data() + 3), V3A(vel));
  const V6 c = dso::yter2cel(y, q, era, lod, w);
  VP_CHECK(close3(c.data(), cpos, tp), "state to celestial: position " V3F ", should be " V3F, V3A(c.data()), V3A(cpos));
  VP_CHECK(close3(c.data() + 3, cvel, tv), "state to celestial: velocity " V3F ", should be " V3F, V3A(c.data() + 3), V3A(cvel));
  // there and back
  const V6 back = dso::yter2cel(t, q, era, lod, w), forth = dso::ycel2ter(c, q, era, lod, w);
  for (int i = 0; i < 6; i++)
    VP_CHECK(std::fabs(back(i) - y(i)) <= 4 * (i < 3 ? tp : tv) && std::fabs(forth(i) - y(i)) <= 4 * (i < 3 ? tp : tv), "there and back, component %d is %.15g and %.15g, was %.15g", i, back(i), forth(i), y(i));
  VP_CHECK(near(a.norm(), y.block<3, 1>(0, 0).norm(), 1e-12), "length %.15g became %.15g", y.block<3, 1>(0, 0).norm(), a.norm());
}
static int dat(long mjd, int &ex) { return dso::dat(dso::modified_julian_day(mjd), ex); }
VP_PROP(epoch, 15000, 500000, "the table has the epoch") {
  const int n = (int)g.integer(6, 14);
  const long leap[] = {50630, 53736, 57204, 57754};
  const long d0 = g.boolean(0.4) ? leap[g.choose(4)] - g.integer(3, n - 3) : g.integer(50083, 60000);
  dso::EopLookUpTable e(n);
  vector<double> c[6];
  const double size[6] = {0.5, 0.5, 0.2, 2e-3, 1e-3, 1e-3};
  for (int k = 0; k < 6; k++) {
    const double v0 = g.real(-1, 1);
    for (int i = 0; i < n; i++)
      c[k].push_back(size[k] * (v0 + 0.05 * g.real(-1, 1)));
  }
  for (int i = 0; i < n; i++) {
    int ex;
    *e.mjd(i) = (double)(d0 + i) + (dat(d0 + i, ex) + 32.184) / 86400;
    *e.xp(i) = c[0][i], *e.yp(i) = c[1][i], *e.dut(i) = c[2][i], *e.lod(i) = c[3][i], *e.dx(i) = c[4][i], *e.dy(i) = c[5][i];
  }
  for (int k = 0; k < 3; k++) {
    double tai = g.weighted({4, 1}) ? d0 + g.real(-4, n + 4) : d0 + g.real(3, n - 3);
    if (g.boolean(0.2)) { // within a second of midnight UTC, where UT1 may be on another day; and of TAI
      int ex;
      const double day = std::floor(tai);
      tai = day + ((g.boolean(0.8) ? dat((long)day, ex) : 0) + g.real(-1, 1)) / 86400;
    }
    const double ttm = tai + 32.184 / 86400;
    M3 q = M3::Constant(9), w = M3::Constant(9);
    double era = 9, lod = 9;
    const int rc = dso::gcrs2itrs(tai, e, q, era, w, lod);
    g.note("TAI %.10f, table from %ld for %d days", tai, d0, n);
    dso::EopRecord r;
    if (e.interpolate(ttm, r)) {
      // at its ends, the time of an epoch comes in twice
      dso::EopRecord r2;
      if (e.interpolate(ttm - 1e-9, r2) && e.interpolate(ttm + 1e-9, r2))
        VP_CHECK(rc != 0, "nothing reported though the table does not have the epoch");
      continue;
    }
    if (rc) {
      dso::EopRecord r2;
      VP_CHECK(e.interpolate(ttm - 1e-9, r2) || e.interpolate(ttm + 1e-9, r2), "refused (%d) though the table has the epoch", rc);
      continue;
    }
    g.nontrivial();
    // day of UTC
    long day = (long)std::floor(tai);
    double s = (tai - (double)day) * 86400;
    int ex, d = dat(day, ex);
    if (s < d)
      --day, s += 86400, d = dat(day, ex);
    if (ex || s - d > 86399.9 || s - d < 0.1)
      continue; // what a fraction of a longer day is lies with the time library
    const ld ut1 = ((ld)s - d + r.dut) / 86400; // fraction of `day`
    const ld tu = (ld)day - 51544.5L + ut1;
    // whole day: mjd at 0h is a half day away from a Julian date
    ld th = 2 * 3.14159265358979323846L * (fmodl(tu, 1) + 0.7790572732640L + 0.00273781191135448L * tu);
    th = fmodl(th, 2 * 3.14159265358979323846L);
    ld de = fabsl(th - era);
    de = std::min(de, fabsl(2 * 3.14159265358979323846L - de));
    VP_CHECK(de < 1e-9, "Earth rotation angle %.12f, should be %.12Lf (UT1 off by %.3Lg s?)", era, th, de / 7.292e-5L);
    VP_CHECK(std::fabs(lod - r.lod) < 1e-9, "LOD %.12g, should be %.12g", lod, r.lod);
    using namespace iers2010;
    double x, y;
    sofa::xy06(2400000.5, ttm, x, y);
    const double ss = sofa::s06(2400000.5, ttm, x, y);
    const M3 qq = sofa::c2ixys_e(x + r.dx * DAS2R, y + r.dy * DAS2R, ss), ww = sofa::pom00_e(r.xp * DAS2R, r.yp * DAS2R, sofa::sp00(2400000.5, ttm));
    for (int i = 0; i < 9; i++) {
      VP_CHECK(std::fabs(q(i) - qq(i)) < 2e-13, "element %d of the celestial-intermediate matrix is %.16g, should be %.16g", i, q(i), qq(i));
      VP_CHECK(std::fabs(w(i) - ww(i)) < 2e-13, "element %d of the polar motion matrix is %.16g, should be %.16g", i, w(i), ww(i));
    }
  }
}
