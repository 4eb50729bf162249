// Exponential atmosphere.
#include "atmosphere.hpp"
#include "vpbt.hpp"
using namespace vp;
using dso::air_density_models::exponential::density;
// Vallado, table 8-4: base altitude [km], nominal density [kg/m3], scale height [km]
struct Row {
  double h0, rho0, H;
};
static const Row T[28] = {{0, 1.225, 7.249},        {25, 3.899e-2, 6.349},     {30, 1.774e-2, 6.682},     {40, 3.972e-3, 7.554},   {50, 1.057e-3, 8.382},    {60, 3.206e-4, 7.714},
                          {70, 8.770e-5, 6.549},    {80, 1.905e-5, 5.799},     {90, 3.396e-6, 5.382},     {100, 5.297e-7, 5.877},  {110, 9.661e-8, 7.263},   {120, 2.438e-8, 9.473},
                          {130, 8.484e-9, 12.636},  {140, 3.845e-9, 16.149},   {150, 2.070e-9, 22.523},   {180, 5.464e-10, 29.740}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546},
                          {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298},  {400, 3.725e-12, 58.515},  {450, 1.585e-12, 60.828}, {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835},
                          {700, 3.614e-14, 88.667}, {800, 1.170e-14, 124.64},  {900, 5.245e-15, 181.05},  {1000, 3.019e-15, 268.00}};
static int row(double h) {
  int i = 27;
  while (i > 0 && h < T[i].h0)
    i--;
  return i;
}
static double altitude(Gen &g) {
  switch (g.weighted({5, 3, 2, 1})) {
  case 0: return g.real(1e-6, 1500);
  case 1: return std::fmax(1e-9, T[g.choose(28)].h0 + g.pick({0., 1e-9, -1e-9, 0.5, -0.5, -1e-3, 1., -1.}));
  case 2: return g.logreal(1e-3, 1e4);
  default: return (double)g.integer(1, 1500);
  }
}
VP_PROP(table, 60000, 3000000, "within a km of a limit of a layer") {
  const double h = altitude(g);
  const int i = row(h);
  g.nontrivial(h - T[i].h0 < 1 || (i < 27 && T[i + 1].h0 - h < 1));
  g.note("altitude %.12g km", h);
  const double want = T[i].rho0 * std::exp(-(h - T[i].h0) / T[i].H), got = density(h);
  VP_CHECK(std::fabs(got - want) <= 1e-12 * want, "density %.15g, should be %.15g", got, want);
}
VP_PROP(decay, 60000, 3000000, "in different layers") {
  // thinner above, and no steps beyond the rounding of the table
  const double a = altitude(g), b = g.boolean() ? a + g.logreal(1e-3, 2000) : altitude(g), lo = std::fmin(a, b), hi = std::fmax(a, b);
  if (hi > 1e4)
    return;
  g.note("altitudes %.12g and %.12g km", lo, hi);
  g.nontrivial(row(lo) != row(hi));
  const double dl = density(lo), dh = density(hi);
  VP_CHECK(dl > 0 && dh > 0 && std::isfinite(dl), "densities %g, %g", dl, dh);
  if (hi - lo > 0.2) // the table's digits leave a little more than half a percent at the limits
    VP_CHECK(dh < dl, "density %.15g at %.12g km, %.15g at %.12g km", dl, lo, dh, hi);
  else
    VP_CHECK(std::fabs(dh - dl) < 0.06 * dl, "density %.15g at %.12g km, %.15g at %.12g km", dl, lo, dh, hi);
}
