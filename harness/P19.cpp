// Analytic positions of the Sun and the Moon, and those read off an ephemeris.
#include "planetpos.hpp"
#include "vpbt.hpp"
using namespace vp;
typedef long double ld;
static const ld PI = 3.14159265358979323846264L, RAD = PI / 180, SEC = PI / 648000, AU = 149597870.7L;
struct V {
  ld x, y, z;
};
static ld norm(const V &a) { return sqrtl(a.x * a.x + a.y * a.y + a.z * a.z); }
static V ecl(ld lon, ld lat, ld r, ld eps) { // to the equator
  const ld x = r * cosl(lon) * cosl(lat), y = r * sinl(lon) * cosl(lat), z = r * sinl(lat);
  return {x, cosl(eps) * y - sinl(eps) * z, sinl(eps) * y + cosl(eps) * z};
}
static ld angle(const double *p, const V &v) {
  const ld cx = p[1] * v.z - p[2] * v.y, cy = p[2] * v.x - p[0] * v.z, cz = p[0] * v.y - p[1] * v.x;
  return atan2l(sqrtl(cx * cx + cy * cy + cz * cz), p[0] * v.x + p[1] * v.y + p[2] * v.z);
}
static ld length(const double *p) { return sqrtl((ld)p[0] * p[0] + (ld)p[1] * p[1] + (ld)p[2] * p[2]); }
// mean equator of date to that of J2000 (IAU 1976)
static V j2000(const V &v, ld t) {
  const ld ze = (2306.2181L * t + 0.30188L * t * t + 0.017998L * t * t * t) * SEC, z = (2306.2181L * t + 1.09468L * t * t + 0.018203L * t * t * t) * SEC,
           th = (2004.3109L * t - 0.42665L * t * t - 0.041833L * t * t * t) * SEC;
  auto rz = [](const V &a, ld g) { return V{a.x * cosl(g) + a.y * sinl(g), -a.x * sinl(g) + a.y * cosl(g), a.z}; };
  auto ry = [](const V &a, ld g) { return V{a.x * cosl(g) - a.z * sinl(g), a.y, a.x * sinl(g) + a.z * cosl(g)}; };
  return rz(ry(rz(v, z), -th), ze);
}
// the series, from the books
static V sun_mg(ld t) {
  const ld M = 2 * PI * (0.9931267L + 99.9973583L * t), L = 2 * PI * 0.7859444L + M + (6892 * sinl(M) + 72 * sinl(2 * M)) * SEC;
  return ecl(L, 0, (149.619L - 2.499L * cosl(M) - 0.021L * cosl(2 * M)) * 1e6L, 23.43929111L * RAD);
}
static V sun_vallado(ld t) {
  const ld M = (357.5291092L + 35999.05034L * t) * RAD;
  const ld L = (280.460L + 36000.771L * t + 1.914666471L * sinl(M) + 0.019994643L * sinl(2 * M)) * RAD;
  return ecl(L, 0, AU * (1.000140612L - 0.016708617L * cosl(M) - 0.000139589L * cosl(2 * M)), (23.439291L - 0.0130042L * t) * RAD);
}
static V sun_curtis(ld n) {
  const ld M = (357.529L + 0.98560023L * n) * RAD;
  const ld L = (280.459L + 0.98564736L * n + 1.915L * sinl(M) + 0.0200L * sinl(2 * M)) * RAD;
  return ecl(L, 0, AU * (1.00014L - 0.01671L * cosl(M) - 0.000140L * cosl(2 * M)), (23.439L - 3.56e-7L * n) * RAD);
}
struct Args {
  ld l, lp, F, D;
};
static Args args(ld t) { // IERS
  auto f = [&](ld a, ld b, ld c, ld d, ld e) { return fmodl(a + t * (b + t * (c + t * (d + t * e))), 1296000) * SEC; };
  return {f(485868.249036L, 1717915923.2178L, 31.8792L, 0.051635L, -0.00024470L), f(1287104.793048L, 129596581.0481L, -0.5532L, 0.000136L, -0.00001149L),
          f(335779.526232L, 1739527262.8478L, -12.7512L, -0.001037L, 0.00000417L), f(1072260.703692L, 1602961601.2090L, -6.3706L, 0.006593L, -0.00003169L)};
}
static V moon_mg(ld t) {
  const Args a = args(t);
  const ld l = a.l, lp = a.lp, F = a.F, D = a.D;
  const ld dl = 22640 * sinl(l) + 769 * sinl(2 * l) - 4586 * sinl(l - 2 * D) + 2370 * sinl(2 * D) - 668 * sinl(lp) - 412 * sinl(2 * F) - 212 * sinl(2 * l - 2 * D) -
                206 * sinl(l + lp - 2 * D) + 192 * sinl(l + 2 * D) - 165 * sinl(lp - 2 * D) + 148 * sinl(l - lp) - 125 * sinl(D) - 110 * sinl(l + lp) - 55 * sinl(2 * F - 2 * D);
  const ld L = 2 * PI * (0.606433L + 1336.851344L * t) + dl * SEC;
  const ld b = 18520 * sinl(F + (dl + 412 * sinl(2 * F) + 541 * sinl(lp)) * SEC) - 526 * sinl(F - 2 * D) + 44 * sinl(l + F - 2 * D) - 31 * sinl(-l + F - 2 * D) -
               25 * sinl(-2 * l + F) - 23 * sinl(lp + F - 2 * D) + 21 * sinl(-l + F) + 11 * sinl(-lp + F - 2 * D);
  const ld r = 385000 - 20905 * cosl(l) - 3699 * cosl(2 * D - l) - 2956 * cosl(2 * D) - 570 * cosl(2 * l) + 246 * cosl(2 * l - 2 * D) - 205 * cosl(lp - 2 * D) -
               171 * cosl(l + 2 * D) - 152 * cosl(l + lp - 2 * D);
  return ecl(L, b * SEC, r, 23.43929111L * RAD);
}
static V moon_vallado(ld t) {
  auto s = [&](ld a, ld b) { return sinl((a + b * t) * RAD); };
  auto c = [&](ld a, ld b) { return cosl((a + b * t) * RAD); };
  const ld lon = 218.32L + 481267.8813L * t + 6.29L * s(134.9L, 477198.85L) - 1.27L * s(259.2L, -413335.38L) + 0.66L * s(235.7L, 890534.23L) + 0.21L * s(269.9L, 954397.70L) -
                 0.19L * s(357.5L, 35999.05L) - 0.11L * s(186.6L, 966404.05L);
  const ld lat = 5.13L * s(93.3L, 483202.03L) + 0.28L * s(228.2L, 960400.87L) - 0.28L * s(318.3L, 6003.18L) - 0.17L * s(217.6L, -407332.20L);
  const ld par = 0.9508L + 0.0518L * c(134.9L, 477198.85L) + 0.0095L * c(259.2L, -413335.38L) + 0.0078L * c(235.7L, 890534.23L) + 0.0028L * c(269.9L, 954397.70L);
  const ld eps = 23.439291L - 0.0130042L * t - 1.64e-7L * t * t + 5.04e-7L * t * t * t;
  return ecl(lon * RAD, lat * RAD, 6378.1366L / sinl(par * RAD), eps * RAD);
}
// where they are, to a better accuracy (Meeus, Astronomical Algorithms, ch. 25 and 47), of date
static V sun_true(ld t) {
  const ld L0 = 280.46646L + t * (36000.76983L + 0.0003032L * t), M = (357.52911L + t * (35999.05029L - 0.0001537L * t)) * RAD, e = 0.016708634L - t * (0.000042037L + 0.0000001267L * t);
  const ld C = (1.914602L - t * (0.004817L + 0.000014L * t)) * sinl(M) + (0.019993L - 0.000101L * t) * sinl(2 * M) + 0.000289L * sinl(3 * M);
  return ecl((L0 + C) * RAD, 0, AU * 1.000001018L * (1 - e * e) / (1 + e * cosl(M + C * RAD)), (23.4392911L - 0.0130042L * t) * RAD);
}
static V moon_true(ld t) {
  const ld Lp = 218.3164477L + t * (481267.88123421L - 0.0015786L * t), D = (297.8501921L + t * (445267.1114034L - 0.0018819L * t)) * RAD, M = (357.5291092L + t * (35999.0502909L - 0.0001536L * t)) * RAD,
           m = (134.9633964L + t * (477198.8675055L + 0.0087414L * t)) * RAD, F = (93.2720950L + t * (483202.0175233L - 0.0036539L * t)) * RAD;
  struct Term {
    int D, M, m, F;
    ld l, r;
  };
  static const Term lr[] = {{0, 0, 1, 0, 6288774, -20905355}, {2, 0, -1, 0, 1274027, -3699111}, {2, 0, 0, 0, 658314, -2955968}, {0, 0, 2, 0, 213618, -569925}, {0, 1, 0, 0, -185116, 48888},
                            {0, 0, 0, 2, -114332, -3149},     {2, 0, -2, 0, 58793, 246158},     {2, -1, -1, 0, 57066, -152138}, {2, 0, 1, 0, 53322, -170733},   {2, -1, 0, 0, 45758, -204586},
                            {0, 1, -1, 0, -40923, -129620},   {1, 0, 0, 0, -34720, 108743},     {0, 1, 1, 0, -30383, 104755},   {2, 0, 0, -2, 15327, 10321},    {0, 0, 1, 2, -12528, 0},
                            {0, 0, 1, -2, 10980, 79661},      {4, 0, -1, 0, 10675, -34782},     {0, 0, 3, 0, 10034, -23210},    {4, 0, -2, 0, 8548, -21636},    {2, 1, -1, 0, -7888, 24208},
                            {2, 1, 0, 0, -6766, 30824},       {1, 0, -1, 0, -5163, -8379},      {1, 1, 0, 0, 4987, -16675},     {2, -1, 1, 0, 4036, -12831},    {2, 0, 2, 0, 3994, -10445},
                            {4, 0, 0, 0, 3861, -11650},       {2, 0, -3, 0, 3665, 14403}};
  struct TB {
    int D, M, m, F;
    ld b;
  };
  static const TB bs[] = {{0, 0, 0, 1, 5128122}, {0, 0, 1, 1, 280602}, {0, 0, 1, -1, 277693}, {2, 0, 0, -1, 173237}, {2, 0, -1, 1, 55413}, {2, 0, -1, -1, 46271}, {2, 0, 0, 1, 32573},
                          {0, 0, 2, 1, 17198},   {2, 0, 1, -1, 9266},  {0, 0, 2, -1, 8822},   {2, -1, 0, -1, 8216},  {2, 0, -2, -1, 4324}, {2, 0, 1, 1, 4200}};
  ld l = 0, r = 0, b = 0;
  for (const Term &k : lr) {
    const ld a = k.D * D + k.M * M + k.m * m + k.F * F;
    l += k.l * sinl(a), r += k.r * cosl(a);
  }
  for (const TB &k : bs)
    b += k.b * sinl(k.D * D + k.M * M + k.m * m + k.F * F);
  return ecl((Lp + l * 1e-6L) * RAD, b * 1e-6L * RAD, 385000.56L + r / 1000, (23.4392911L - 0.0130042L * t) * RAD);
}
using dt_t = dso::datetime<dso::nanoseconds>;
VP_PROP(positions, 60000, 3000000, "always") {
  dt_t d(dso::modified_julian_day(g.integer(33282, 69807)), dso::nanoseconds(g.integer(0, 86399999999999))); // 1950 to 2050
  const double t = d.jcenturies_sinceJ2000(), n = d.as_jd() - 2451545;
  const bool dates = g.boolean();
  g.note("%.9f centuries%s", t, dates ? " (as a date)" : "");
  struct S {
    const char *name;
    double p[3];
    V series, truth;
    ld tol, tol_r; // against the truth: [deg], relative (the perihelion is at rest in the first series)
  } s[5] = {{"Sun, Montenbruck", {}, sun_mg(t), j2000(sun_true(t), t), 0.03L + 0.33L * std::fabs(t), 3e-4L},
            {"Sun, Vallado", {}, sun_vallado(t), sun_true(t), 0.012L, 1.5e-4L},
            {"Sun, Curtis", {}, sun_curtis(n), sun_true(t), 0.012L, 1.5e-4L},
            {"Moon, Montenbruck", {}, moon_mg(t), j2000(moon_true(t), t), 0.12L, 2.5e-3L},
            {"Moon, Vallado", {}, moon_vallado(t), moon_true(t), 0.6L, 9e-3L}};
  int rc;
  if (dates)
    rc = dso::sun_vector_montenbruck(d, s[0].p) | dso::sun_vector_vallado(d, s[1].p) | dso::sun_vector_curtis(d, s[2].p) | dso::moon_vector_approx(d, s[3].p) | dso::moon_vector_vallado(d, s[4].p);
  else
    rc = dso::sun_vector_montenbruck(t, s[0].p) | dso::sun_vector_vallado(t, s[1].p) | dso::sun_vector_curtis(n, s[2].p) | dso::moon_vector_approx(t, s[3].p) | dso::moon_vector_vallado(t, s[4].p);
  VP_CHECK(rc == 0, "an error is reported");
  g.nontrivial();
  for (const S &k : s) {
    const ld a = angle(k.p, k.series), l = length(k.p), nl = norm(k.series);
    VP_CHECK(a < 1e-8L && std::fabs(l / nl - 1) < 1e-8L, "%s: %.3Lg arcsec and %.3Lg km from the published series", k.name, a / SEC, l - nl);
    const ld b = angle(k.p, k.truth), tl = norm(k.truth);
    VP_CHECK(b < k.tol * RAD && std::fabs(l / tl - 1) < k.tol_r, "%s: %.4Lf deg and %.3Lg of the distance off", k.name, b / RAD, l / tl - 1);
  }
}
// what an ephemeris says is passed on
static int want_target, want_observer, asked;
static double want_et;
static double where[3];
static void position(int target, double et, int observer, double *pos) {
  ++asked;
  want_target = target, want_observer = observer, want_et = et;
  for (int i = 0; i < 3; i++)
    pos[i] = where[i];
}
VP_PROP(ephemeris, 6000, 200000, "always") {
  auto &sp = vp_spice_state();
  sp = vp_spice();
  sp.position = position;
  dt_t d(dso::modified_julian_day(g.integer(33282, 69807)), dso::nanoseconds(g.integer(0, 86399999999999)));
  for (double &x : where)
    x = g.real(-1e8, 1e8);
  double p[3];
  const double et = ((double)d.mjd().as_underlying_type() - 51544.5) * 86400 + (double)d.sec().as_underlying_type() * 1e-9;
  const bool sun = g.boolean();
  VP_CHECK((sun ? dso::sun_vector_cspice(d, p) : dso::moon_vector_cspice(d, p)) == 0, "an error is reported");
  VP_CHECK(want_target == (sun ? 10 : 301) && want_observer == 399, "asked for body %d as seen from %d", want_target, want_observer);
  VP_CHECK(std::fabs(want_et - et) < 1e-3, "asked for ephemeris time %.6f, should be %.6f", want_et, et);
  VP_CHECK(p[0] == where[0] && p[1] == where[1] && p[2] == where[2], "not the position the ephemeris has");
  sp.gm_sun = g.real(1e11, 2e11), sp.gm_moon = g.real(1, 5e3);
  // each file once
  const char *name[3][3] = {{"naif0012.tls", "naif0012.tls.new", "dir/naif0012.tls"}, {"de421", "de421.bsp", "x/de421.bsp"}, {"earth.bpc", "earth.bpc.bpc", "y/earth.bpc"}};
  std::vector<std::string> model;
  for (int k = (int)g.integer(1, 8); k > 0; --k) {
    const int kind = (int)g.choose(3);
    const std::string f = name[kind][g.choose(3)];
    bool always = false;
    int rc;
    double a, b;
    if ((always = g.boolean(0.1)))
      rc = dso::cspice::load_kernel(f.c_str());
    else switch (kind) {
    case 0: rc = dso::cspice::load_if_unloaded_lsk(f.c_str()); break;
    case 1: rc = dso::cspice::load_if_unloaded_spk(f.c_str()); break;
    default:
      if (g.boolean()) {
        rc = dso::get_sun_moon_GM(f.c_str(), a, b);
        VP_CHECK(a == sp.gm_sun && b == sp.gm_moon, "gravitational parameters %g %g, the kernel has %g %g", a, b, sp.gm_sun, sp.gm_moon);
      } else
        rc = dso::cspice::load_if_unloaded_pck(f.c_str());
    }
    VP_CHECK(rc == 0, "an error is reported");
    bool has = false;
    for (auto &m : model)
      has |= m == f;
    if (!has || always)
      model.push_back(f);
    g.note("load %s", f.c_str());
    VP_CHECK(sp.kernels.size() == model.size(), "%zu files loaded, should be %zu", sp.kernels.size(), model.size());
    for (size_t i = 0; i < model.size(); i++)
      VP_CHECK(sp.kernels[i].first == model[i], "%s loaded, should be %s", sp.kernels[i].first.c_str(), model[i].c_str());
  }
  g.nontrivial();
}
