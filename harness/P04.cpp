// De-normalisation: every coefficient times sqrt((2n+1)(2-d0m)(n-m)!/(n+m)!),
// once, at every degree, without overflow.
#include "harmonic_coeffs.hpp"
#include "vpbt.hpp"
using namespace vp;
using HC = dso::HarmonicCoeffs;

static long double factor(int n, int m) {
  long double f = (2.0L * n + 1) * (m ? 2 : 1);
  for (int i = n - m + 1; i <= n + m; i++)
    f /= i;
  return sqrtl(f);
}
static void one(Gen &g, int deg) {
  HC h(deg);
  std::vector<double> c, s;
  const bool unit = g.choose(2);
  uint64_t w = g.word();
  auto val = [&]() {
    if (unit)
      return 1e0;
    w = mix64(w);
    return ((w & 1) ? -1e0 : 1e0) * std::ldexp(1e0 + double(w >> 12) * 0x1p-52, -(int)(w % 40));
  };
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= n; m++) {
      c.push_back(h.C(n, m) = val());
      s.push_back(0e0);
      if (m)
        s.back() = h.S(n, m) = val();
    }
  int order = -1;
  if (g.weighted({2, 1}))
    order = (int)g.integer(0, deg + 2);
  g.note("degree %d, order argument %d, %s coefficients", deg, order, unit ? "unit" : "random");
  bool scaled = true;
#ifndef VARIANT_VAR
  h.GM() = 11;
  h.Re() = 12;
  if (g.weighted({5, 1})) {
    h.normalized() = false;
    scaled = false;
    g.label("already un-normalized");
  }
#endif
  const int err = h.denormalize(order);
  if (scaled && order > deg) {
    VP_CHECK(err != 0, "order %d accepted for degree %d", order, deg);
    scaled = false;
    g.label("order too large");
#ifndef VARIANT_VAR
    VP_CHECK(h.normalized(), "refused, yet flagged as de-normalized");
#endif
  } else {
    VP_CHECK(err == 0, "error %d", err);
#ifndef VARIANT_VAR
    VP_CHECK(!h.normalized(), "still flagged as normalized");
    VP_CHECK(h.GM() == 11 && h.Re() == 12, "constants changed");
    if (g.choose(2))
      VP_CHECK(h.denormalize(order) == 0, "a second call fails"); // must change nothing
#endif
  }
  const int mmax = order < 0 ? deg : order;
  size_t k = 0;
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= n; m++, k++) {
      const long double f = scaled && m <= mmax ? factor(n, m) : 1.0L;
      for (int q = 0; q < (m ? 2 : 1); q++) {
        const long double e = f * (q ? s[k] : c[k]);
        const double got = q ? h.S(n, m) : h.C(n, m);
        if (fabsl(e) > 1e-290L)
          VP_CHECK(fabsl(got - e) <= 1e-11L * fabsl(e), "%c(%d,%d) = %.17g, expected %.17Lg (degree %d)", q ? 'S' : 'C', n, m, got, e, deg);
        else
          VP_CHECK(std::fabs(got) < 1e-289, "%c(%d,%d) = %.17g, expected about 0", q ? 'S' : 'C', n, m, got);
      }
    }
  g.nontrivial(scaled && deg >= 2);
}
VP_PROP(small_degrees, 30000, 400000, "degree >= 2 and coefficients that are really scaled") {
  one(g, (int)g.integer(0, 30));
}
VP_PROP(large_degrees, 1500, 30000, "same, degree up to 220") {
  one(g, (int)g.integer(31, 220));
}

#ifndef VARIANT_VAR
// the factorials such factors are made of
#include "factorial.hpp"
template <int A, int B> static void fixed(int n, int m) {
  if (std::max(n, m) > 24 && n % 8)
    return;
  const double f = dso::factorialRatio<double, A, B>(), x = (double)expl(lgammal(A + 1.0L) - lgammal(B + 1.0L));
  VP_CHECK(near(f, x, 1e-12, 0), "%d!/%d! = %.17g at compile time, should be %.17g", A, B, f, x);
}
VP_PROP(factorials, 20000, 200000, "numerator and denominator differ by more than one") {
  const int n = (int)g.integer(0, 120), m = (int)g.integer(0, 120);
  const long double x = expl(lgammal(n + 1.0L) - lgammal(m + 1.0L));
  const double f = dso::factorialRatio<double>(n, m);
  g.note("%d! / %d!", n, m);
  long double y = 1; // exact to a few units of the last place
  for (int i = std::min(n, m) + 1; i <= std::max(n, m); i++)
    y *= i;
  if (n < m)
    y = 1 / y;
  VP_CHECK(fabsl(y / x - 1) < 1e-12L, "reference");
  VP_CHECK(near(f, y, 5e-14, 0), "%d!/%d! = %.17g, should be %.17Lg", n, m, f, y);
  static constexpr dso::FactorialLookUpTable<double, 150> tab;
  long double fn = 1;
  for (int i = 2; i <= n; i++)
    fn *= i;
  VP_CHECK(near(tab.factorial(n), fn, 5e-14, 0), "%d! = %.17g, should be %.17Lg", n, tab.factorial(n), fn);
  fixed<0, 0>(n, m), fixed<1, 0>(n, m), fixed<0, 1>(n, m), fixed<7, 3>(n, m), fixed<3, 7>(n, m), fixed<12, 12>(n, m), fixed<20, 2>(n, m), fixed<2, 20>(n, m);
  g.nontrivial(abs(n - m) > 1);
}
#endif
