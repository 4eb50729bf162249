// Kepler's equation.
#include "astrodynamics.hpp"
#include "twobody.hpp"
#include "vpbt.hpp"
using namespace vp;
using ref::L;
namespace {
double gen_ecc(Gen &g, double top) {
  switch (g.weighted({6, 1, 1, 1, 2, 1})) {
  case 0: return g.real(0, top < 0.97 ? top : 0.97);
  case 1: return 0;
  case 2: return g.logreal(1e-17, 1e-3);
  case 3: return g.pick({0.8, std::nextafter(0.8, 0), std::nextafter(0.8, 1)});
  case 4: return std::fmin(top, 1 - g.logreal(1 - top, 0.3));
  default: return top;
  }
}
double gen_M(Gen &g) {
  const double pi = 3.141592653589793;
  double M;
  switch (g.weighted({6, 2, 2, 2})) {
  case 0: M = g.real(0, 2 * pi); break;
  case 1: M = g.pick({0, 1, 2}) * pi; break;
  case 2: M = g.pick({0, 1, 2}) * pi + g.sign() * g.logreal(1e-18, 1e-1); break;
  default: M = g.real(0, pi) * g.pick({0.5, 1. / 3}); break;
  }
  if (g.boolean(0.3))
    M += 2 * pi * (double)g.integer(-1000, 1000);
  if (g.boolean(0.2))
    M = -M;
  return M;
}
void check(double e, double M, double E, double tol, const char *what) {
  VP_CHECK(std::isfinite(E), "%s(e=%.17g, M=%.17g) = %g", what, e, M, E);
  const double slack = e < 0.9991 ? 1e-11 : 1e-4;
  VP_CHECK(E >= -slack && E <= 2 * 3.1415926535897936 + slack,
           "%s(e=%.17g, M=%.17g) = %.17g, outside [0, 2 pi]", what, e, M, E);
  const L res = fabsl(remainderl((L)E - (L)e * sinl(E) - (L)M, 6.283185307179586476925287e0));
  // M itself may be reduced with rounding; one revolution is 2 pi as a double
  const L lim = 4e-15L + tol;
  VP_CHECK(res <= lim, "%s(e=%.17g, M=%.17g) = %.17g: E - e sin E is off M by %Lg", what, e, M, E, res);
}
} // namespace
VP_PROP(default_tolerance, 400000, 8000000, "e > 0 and M no multiple of pi") {
  const double e = gen_ecc(g, 0.999), M = gen_M(g);
  const bool val = g.boolean();
  g.note("%s e %.17g M %.17g", val ? "kepler_vallado" : "kepler", e, M);
  int st = -5;
  const double E = val ? dso::kepler_vallado(e, M, st) : dso::kepler(e, M, st);
  VP_CHECK(st == 0, "status %d for the elliptic orbit e=%.17g M=%.17g", st, e, M);
  check(e, M, E, 0, val ? "kepler_vallado" : "kepler");
  const L Er = ref::kepler(e, fmodl((L)M, (L)6.283185307179586476925287e0));
  const L off = fabsl(remainderl((L)E - Er, (L)6.283185307179586476925287e0));
  VP_CHECK(off <= 1e-14L / fmaxl(1 - e * cosl(Er), 1e-6L) + 2e-15L,
           "E is %.17g, should be %.17Lg (e=%.17g M=%.17g)", E, Er, e, M);
  g.label(e < 0.8 ? "e<0.8" : e < 0.99 ? "0.8<=e<0.99" : "e>=0.99");
  g.nontrivial(e > 0 && std::fabs(std::sin(M)) > 1e-12);
}
VP_PROP(given_tolerance, 100000, 3000000, "a tolerance other than the default") {
  const double e = gen_ecc(g, 0.999), M = gen_M(g);
  const double tol = g.boolean(0.1) ? 0 : g.logreal(1e-17, 1e-1);
  const bool val = g.boolean();
  g.note("%s e %.17g M %.17g tol %.17g", val ? "kepler_vallado" : "kepler", e, M, tol);
  int st = -5;
  const double E = val ? dso::kepler_vallado(e, M, st, tol) : dso::kepler(e, M, st, tol);
  if (tol >= 2.2e-14)
    VP_CHECK(st == 0, "status %d for e=%.17g M=%.17g tolerance %g", st, e, M, tol);
  // the last step changes E by at most tol (vallado) or leaves a residual of
  // second order in tol (kepler): either way the residual is within 2 tol
  if (st == 0) {
    const L res = fabsl(remainderl((L)E - (L)e * sinl(E) - (L)M, 6.283185307179586476925287e0));
    VP_CHECK(res <= 2 * tol + 4e-15L, "tolerance %g e=%.17g M=%.17g: E=%.17g is off by %Lg", tol, e, M, E, res);
  }
  g.nontrivial(tol > 0 && e > 0);
}
VP_PROP(near_parabolic, 100000, 3000000, "e above 0.999") {
  const double e = 1 - g.logreal(1e-16, 1e-3), M = gen_M(g);
  const bool val = g.boolean();
  g.note("%s e %.17g M %.17g", val ? "kepler_vallado" : "kepler", e, M);
  int st = -5;
  const double E = val ? dso::kepler_vallado(e, M, st) : dso::kepler(e, M, st);
  if (st == 0)
    check(e, M, E, 5e-14, val ? "kepler_vallado" : "kepler");
  g.label(st ? "refused" : "solved");
  g.nontrivial(st == 0);
}
