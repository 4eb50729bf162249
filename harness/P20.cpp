// The equations of motion and the variational equations.
#include "astrodynamics.hpp"
#include "datetime/utcdates.hpp"
#include "iers2010/iau.hpp"
#include "orbit_integration.hpp"
#include "vpbt.hpp"
#include <memory>
#include <optional>
using namespace vp;
using std::string;
using std::vector;
typedef long double ld;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<ld, 3, 1> L3;
typedef Eigen::Matrix<ld, 3, 3> LM3;
typedef dso::nrlmsise00::InParams<dso::nrlmsise00::detail::FluxDataFeedType::ST_CSV_SW> Feed;
static double sun[3], moon[3]; // [km], at a time; they move on a straight line
static double speed[2][3], et0, gms, gmm;
static void position(int target, double et, int observer, double *pos) {
  for (int i = 0; i < 3; i++)
    pos[i] = observer != 399 ? 1e6 : target == 10 ? sun[i] + speed[0][i] * (et - et0) : target == 301 ? moon[i] + speed[1][i] * (et - et0) : 2e6;
}
// attraction of a body at s less that of the Earth by it, and its derivative
static L3 third(ld gm, const L3 &r, const L3 &s, LM3 *d = nullptr) {
  const L3 x = s - r;
  const ld n = x.norm(), m = s.norm();
  if (d)
    *d = gm * (3 * x * x.transpose() / powl(n, 5) - LM3::Identity() / (n * n * n));
  return gm * (x / (n * n * n) - s / (m * m * m));
}
static V3 direction(Gen &g) {
  V3 d;
  do
    for (int i = 0; i < 3; i++)
      d(i) = g.real(-1, 1);
  while (d.norm() < 0.1);
  return d.normalized();
}
static void heavens(Gen &g) {
  const V3 s = direction(g) * g.real(1.47e8, 1.52e8), m = direction(g) * g.real(3.6e5, 4.06e5);
  for (int i = 0; i < 3; i++)
    sun[i] = s(i), moon[i] = m(i), speed[0][i] = g.real(-30, 30), speed[1][i] = g.real(-1, 1);
  // also much heavier than they are, to see what becomes of them
  gms = 132712440041.9394 * g.pick({1., 1., 1e4}), gmm = 4902.800066 * g.pick({1., 1., 1e5});
  auto &sp = vp_spice_state();
  sp = vp_spice();
  sp.position = position, sp.gm_sun = gms, sp.gm_moon = gmm;
}
static void at(double et, L3 &s, L3 &m) {
  for (int i = 0; i < 3; i++)
    s(i) = ((ld)sun[i] + (ld)speed[0][i] * (et - et0)) * 1000, m(i) = ((ld)moon[i] + (ld)speed[1][i] * (et - et0)) * 1000;
}
static double et_of(double mjd_tai) { return (mjd_tai - 51544.5) * 86400 + 32.184; }
static bool near3(const V3 &a, const L3 &b, ld tol) { return (a.cast<ld>() - b).norm() <= tol; }
#define V3F "(%.12g, %.12g, %.12g)"
#define V3A(v) (double)(v)(0), (double)(v)(1), (double)(v)(2)
VP_PROP(bodies, 30000, 1000000, "the Moon is within 60 degrees of the satellite") {
  heavens(g);
  double t = g.real(50000, 60000);
  et0 = et_of(t);
  V3 r = direction(g) * g.logreal(6.5e6, 5e7);
  for (int again = g.boolean(0.3); again >= 0; again--) {
    g.note("; TAI %.9f, satellite " V3F ", Sun (%.9g, %.9g, %.9g), Moon (%.9g, %.9g, %.9g), GM %g %g", t, V3A(r), sun[0], sun[1], sun[2], moon[0], moon[1], moon[2], gms, gmm);
    V3 sa, ma, sp;
    M3 mp;
    sa.setConstant(7), ma = sp = sa, mp.setConstant(7);
    dso::SunMoon(t, r, gms, gmm, sa, ma, sp, mp);
    L3 s, m;
    at(et_of(t), s, m);
    LM3 d;
    const L3 R = r.cast<ld>(), ws = third((ld)gms * 1e9L, R, s), wm = third((ld)gmm * 1e9L, R, m, &d);
    // the difference of nearly equal attractions
    const ld es = 1e-15L * 20 * (ld)gms * 1e9L / s.squaredNorm() + 1e-8L * ws.norm(), em = 1e-15L * 20 * (ld)gmm * 1e9L / m.squaredNorm() + 1e-7L * wm.norm();
    VP_CHECK(near3(sa, ws, es), "acceleration by the Sun " V3F ", should be " V3F, V3A(sa), V3A(ws));
    VP_CHECK(near3(ma, wm, em), "acceleration by the Moon " V3F ", should be " V3F, V3A(ma), V3A(wm));
    VP_CHECK(near3(sp, s, 1e-7L * s.norm()), "the Sun is at " V3F ", should be " V3F, V3A(sp), V3A(s));
    VP_CHECK((mp.cast<ld>() - d).norm() <= 1e-6L * d.norm(), "partial derivatives by the Moon: %.12g %.12g %.12g .., should be %.12Lg %.12Lg %.12Lg", mp(0, 0), mp(0, 1), mp(0, 2), d(0, 0), d(0, 1), d(0, 2));
    g.nontrivial(R.dot(m) > 0.5L * R.norm() * m.norm());
    // and a second call: another place, another time, or other parameters
    const int what = (int)g.integer(1, 7);
    if (what & 1)
      r = direction(g) * g.logreal(6.5e6, 5e7);
    if (what & 2)
      t += g.pick({1., -1.}) * g.logreal(1e-4, 1);
    if (what & 4)
      gms *= g.real(0.5, 2), gmm *= g.real(0.5, 2);
  }
}
static string flux(Gen &g, long d0, int n) {
  string s = "DATE,BSRN,ND,KP1,KP2,KP3,KP4,KP5,KP6,KP7,KP8,KP_SUM,AP1,AP2,AP3,AP4,AP5,AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,"
             "F10.7_DATA_TYPE,F10.7_OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81\n";
  for (int i = 0; i < n; i++) {
    int y, m, d;
    dso::vp_mjd2ymd(d0 + i, y, m, d);
    s += fmt("%04d-%02d-%02d,2500,1,10,10,10,10,10,10,10,10,80", y, m, d);
    for (int k = 0; k < 9; k++)
      s += fmt(",%d", (int)g.integer(2, 100));
    s += ",0.5,2,20";
    for (int k = 0; k < 6; k++)
      s += fmt(",%d.%d", (int)g.integer(70, 250), (int)g.choose(10)) + (k == 1 ? ",OBS" : "");
    s += "\n";
  }
  return s;
}
static string attitude(Gen &g, double tai0, double tai1) {
  // UTC records from before the one to after the other
  string s;
  const int64_t a = (int64_t)((tai0 - 50000) * 86400000) - 60000 - 40000, b = (int64_t)((tai1 - 50000) * 86400000) + 5000;
  int64_t t = a;
  while (t <= b + 400000) {
    int y, m, d;
    dso::vp_mjd2ymd(50000 + t / 86400000, y, m, d);
    const int64_t ms = t % 86400000;
    double q[4], n = 0;
    for (double &x : q)
      x = g.real(-1, 1), n += x * x;
    n = std::sqrt(n) + 1e-9;
    s += fmt("%04d/%02d/%02d %02d:%02d:%02d.%03d\t          \t%.9f\t", y, m, d, (int)(ms / 3600000), (int)(ms / 60000 % 60), (int)(ms / 1000 % 60), (int)(ms % 1000), q[0] / n);
    for (int i = 1; i < 4; i++)
      s += fmt("    \t          \t%.9f\t", q[i] / n);
    s += "\n";
    t += g.integer(10000, 100000);
  }
  return s;
}
VP_PROP(motion, 20000, 400000, "attraction, drag and derivative matrices all of account, UTC on another day than TAI or not") {
  heavens(g);
  // epoch: not next to a leap second
  const long day = g.pick({53000L, 55000L, 56500L, 57500L, 58000L, 59000L}) + g.integer(0, 300);
  double sec = g.real(200, 86200);
  if (g.boolean(0.35))
    sec = g.pick({0.2, 20., 36.02, 34.97, 38.5, 86399.2, 3.});
  double tsec = g.pick({0., 1., -1.}) * g.real(0, 7200);
  const double mjd = (double)day + (sec - tsec) / 86400;
  double now = mjd + tsec / dso::sec_per_day;
  // the calls of an integrator: the parameters stay, time and state move
  const int calls = g.boolean(0.4) ? (int)g.integer(2, 4) : 1;
  const double reach = g.pick({0., 1., 60., 600.}); // [s]
  et0 = et_of((double)day);
  const int leap = dso::dat(dso::modified_julian_day(day));
  if (leap != dso::dat(dso::modified_julian_day(day + 1)) || leap != dso::dat(dso::modified_julian_day(day - 1)))
    return;
  // tables and files
  dso::EopLookUpTable eop(14);
  for (int i = 0; i < 14; i++)
    *eop.mjd(i) = (double)(day - 6 + i), *eop.xp(i) = g.real(-0.5, 0.5), *eop.yp(i) = g.real(-0.5, 0.5), *eop.dut(i) = g.real(-0.5, 0.5), *eop.lod(i) = g.real(-2e-3, 2e-3), *eop.dx(i) = g.real(-1e-3, 1e-3),
    *eop.dy(i) = g.real(-1e-3, 1e-3);
  const int deg = (int)g.integer(2, 6), ord = (int)g.integer(0, deg);
  dso::HarmonicCoeffs hc(deg);
  hc.GM() = 3.986004415e14, hc.Re() = 6378136.3;
  const double size = g.pick({1e-6, 1e-2});
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= n; m++) {
      hc.C(n, m) = n == 0 ? 1 : n == 1 ? 0 : n == 2 && m == 0 ? -1.0826e-3 : size * g.real(-1, 1) / (1 + m * m);
      if (m)
        hc.S(n, m) = n == 1 ? 0 : size * g.real(-1, 1) / (1 + m * m);
    }
  const string fq = scratch_file("att"), ff = scratch_file("sw");
  write_file(fq, attitude(g, now, now + 4 * reach / 86400));
  write_file(ff, flux(g, day - 6, 10));
  dso::JasonQuaternionHunter hunt(fq.c_str()), hunt2(fq.c_str());
  const bool later = g.boolean(0.3); // the feed may stand at another day
  Feed feed(ff.c_str(), dso::modified_julian_day(later ? day + 1 : day - 1), 40000.), feed2(ff.c_str(), dso::modified_julian_day(day), 0.);
  feed.params_.meters_on(), feed2.params_.meters_on();
  dso::Nrlmsise00 msis, msis2;
  vector<dso::MacroModelComponent> plates((size_t)g.integer(1, 8));
  for (auto &p : plates) {
    p = dso::MacroModelComponent();
    const V3 n = direction(g);
    p.m_surf = g.real(0.1, 10);
    for (int i = 0; i < 3; i++)
      p.m_normal[i] = n(i);
  }
  const double mass = g.real(100, 3000);
  double cd = g.real(1, 4) * g.pick({1., 1e4});
  dso::IntegrationParameters p(deg, ord, eop, hc, "pck.tpc");
  {
    const size_t before = live_bytes();
    { dso::IntegrationParameters q(deg, ord, eop, hc, nullptr); } // (the kernels are loaded)
    VP_CHECK(live_bytes() <= before, "%zu bytes of the parameters are left behind", live_bytes() - before);
  }
  VP_CHECK(p.GMSun == gms && p.GMMon == gmm, "gravitational parameters %g %g, the kernel has %g %g", p.GMSun, p.GMMon, gms, gmm);
  p.mjd_tai = mjd, p.macromodel = plates.data(), p.numMacroModelComponents = (int)plates.size(), p.qhunt = &hunt, p.SatMass = &mass, p.AtmDataFeed = &feed, p.nrlmsise00 = &msis, p.drag_coef = &cd;
  V3 r, v;
  bool drawn = false;
  for (int call = 0; call < calls; call++) {
    // state and matrices
    const double h = g.pick({g.real(250e3, 500e3), g.real(200e3, 1300e3)});
    if (call == 0 || g.boolean())
      r = direction(g) * (6378137. + h);
    if (call == 0 || g.boolean())
      v = direction(g) * g.real(3e3, 8e3);
    if (call) {
      const double step = g.boolean(0.2) ? 0 : g.real(0, 1) * reach;
      tsec += step, sec += step;
      now = mjd + tsec / dso::sec_per_day;
      if (g.boolean(0.3)) // the filter has a new estimate
        cd *= g.real(0.5, 2);
    }
    Eigen::VectorXd y(48), yp = Eigen::VectorXd::Constant(48, 77);
    y.segment<3>(0) = r, y.segment<3>(3) = v;
    const bool unit = g.boolean();
    Eigen::Matrix<double, 6, 7> Phi = Eigen::Matrix<double, 6, 7>::Zero();
    for (int c = 0; c < 7; c++)
      for (int k = 0; k < 6; k++) {
        Phi(k, c) = unit ? (k == c) : g.boolean(0.2) ? 0 : g.real(-10, 10);
        y(6 + 6 * c + k) = Phi(k, c);
      }
    g.note("%sTAI %ld %.6f s (%.6f s after the reference), degree %d order %d, position " V3F ", velocity " V3F ", %zu plates, m %.3f, C_D %.3f, GM of Sun and Moon %g %g%s", call ? "; then " : "", day, sec, tsec, deg,
           ord, V3A(r), V3A(v), plates.size(), mass, cd, gms, gmm, unit ? ", unit matrix" : "");
    dso::VariationalEquations(tsec, y, yp, p);
    VP_CHECK(yp.size() == 48, "the derivative has size %d", (int)yp.size());
    // the parts
    M3 q, w;
    double era, lod;
    VP_CHECK(dso::gcrs2itrs(now, eop, q, era, w, lod) == 0, "no rotations");
    const LM3 T = w.cast<ld>() * iers2010::sofa::vp_r(2, era).cast<ld>() * q.cast<ld>(); // celestial to terrestrial
    const L3 R = r.cast<ld>(), U = v.cast<ld>(), rt = T * R;
    dso::Mat2D<dso::MatrixStorageType::Trapezoid> V(deg + 3, ord + 3), W(deg + 3, ord + 3);
    M3 gp;
    const V3 ga = dso::grav_potential_accel(rt.cast<double>(), deg, ord, V, W, hc, gp);
    const L3 grav = T.transpose() * ga.cast<ld>();
    const LM3 dgrav = T.transpose() * gp.cast<ld>() * T;
    L3 s, m;
    at(et_of(now), s, m);
    LM3 ds, dm;
    const L3 as = third((ld)gms * 1e9L, R, s, &ds), am = third((ld)gmm * 1e9L, R, m, &dm);
    // drag
    Eigen::Quaternion<double> att;
    VP_CHECK(hunt2.get_at(now, att) == 0, "no attitude");
    const L3 om(0, 0, (ld)iers2010::OmegaEarth), vr = U - om.cross(R);
    ld area = 0;
    for (auto &c : plates) {
      const ld cs = (att.normalized().toRotationMatrix().transpose() * V3(c.m_normal)).cast<ld>().dot(vr) / vr.norm();
      if (cs > 0)
        area += cs * c.m_surf;
    }
    double us = sec - leap; // UTC
    const long ud = us < 0 ? day - 1 : us >= 86400 ? day + 1 : day;
    us += us < 0 ? 86400 : us >= 86400 ? -86400 : 0;
    VP_CHECK(feed2.update_params((int)ud, us) == 0, "no flux");
    auto density = [&](const L3 &x) {
      feed2.set_spatial_from_cartesian(x.cast<double>());
      dso::nrlmsise00::OutParams o;
      msis2.gtd7d(&feed2.params_, &o);
      return (ld)o.d[5];
    };
    const ld rho = density(rt);
    auto gradient = [&](ld step) {
      L3 d;
      for (int i = 0; i < 3; i++) {
        L3 e = L3::Zero();
        e(i) = step;
        d(i) = (density(rt + e) - density(rt - e)) / (2 * step);
      }
      return d;
    };
    const L3 gr = gradient(5);
    // the model has small steps at some altitudes
    if ((gradient(1) - gr).norm() > 1e-3L * gr.norm() || (gradient(20) - gr).norm() > 1e-3L * gr.norm())
      continue;
    const L3 gc = T.transpose() * gr;
    const ld k = -0.5L * cd * area / mass;
    const L3 drag = k * rho * vr.norm() * vr;
    LM3 X; // d(om x r)/dr
    X << 0, -om(2), 0, om(2), 0, 0, 0, 0, 0;
    const LM3 ddv = k * rho * (vr.norm() * LM3::Identity() + vr * vr.transpose() / vr.norm());
    const LM3 ddr = k * vr.norm() * vr * gc.transpose() - ddv * X;
    const L3 ddC = drag / cd;
    // what the density is good for: epochs are in double precision
    const ld er = 3e-4L;
    const L3 acc = grav + as + am + drag;
    const V3 gotv = yp.segment<3>(0), gota = yp.segment<3>(3);
    VP_CHECK(near3(gotv, U, 0), "derivative of the position " V3F ", should be " V3F, V3A(gotv), V3A(U));
    const ld ea = 1e-9L * grav.norm() + er * drag.norm() + 1e-7L * (as.norm() + am.norm()) + 1e-14L * ((ld)gms * 1e9L / s.squaredNorm() + (ld)gmm * 1e9L / m.squaredNorm());
    VP_CHECK(near3(gota, acc, ea), "acceleration " V3F ", should be " V3F " (without the Earth's main term: " V3F ", should be " V3F "; drag " V3F ")", V3A(gota), V3A(acc), V3A((gota.cast<ld>() - grav).eval()),
             V3A((acc - grav).eval()), V3A(drag));
    const LM3 A = dgrav + dm + ddr;
    const ld eA = 1e-9L * dgrav.norm() + 1e-6L * dm.norm() + 2 * ds.norm() + er * ddv.norm() * om(2) + 3e-3L * (fabsl(k) * vr.squaredNorm() * gc.norm()), eB = er * ddv.norm();
    for (int c = 0; c < 7; c++) {
      L3 pr, pv;
      for (int i = 0; i < 3; i++)
        pr(i) = Phi(i, c), pv(i) = Phi(i + 3, c);
      const V3 up = yp.segment<3>(6 + 6 * c), lo = yp.segment<3>(9 + 6 * c);
      VP_CHECK(near3(up, pv, 1e-18L + 1e-15L * pv.norm()), "column %d of the matrices: derivative of the position " V3F ", should be " V3F, c, V3A(up), V3A(pv));
      L3 want = A * pr + ddv * pv;
      if (c == 6)
        want += ddC;
      const ld tol = eA * pr.norm() + eB * pv.norm() + (c == 6 ? er * ddC.norm() : 0);
      VP_CHECK(near3(lo, want, tol), "column %d of the matrices (" V3F "; " V3F "): derivative of the velocity " V3F ", should be " V3F " +- %.3Lg; by gravity " V3F ", drag " V3F, c, V3A(pr), V3A(pv), V3A(lo), V3A(want),
               tol, V3A((dgrav * pr).eval()), V3A((ddr * pr + ddv * pv).eval()));
    }
    drawn |= area > 0;
  }
  g.nontrivial(drawn && ord > 0);
  unlink(fq.c_str()), unlink(ff.c_str());
}
