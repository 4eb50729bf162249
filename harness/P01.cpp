// ICGEM files round trip: whatever a well-formed file states is what is read.
#include "icgem_gen.hpp"
#include "icgemio.hpp"
#include "harmonic_coeffs.hpp"
#ifndef VARIANT_VAR
#include "egravity.hpp"
#endif
using namespace vp;

static void check_case(Gen &g, int maxdeg, int nreq) {
  icg::Model M = icg::make(g, maxdeg);
  const std::string fn = scratch_file("gfc");
  write_file(fn, M.text);
  g.note("model of degree %d%s, %zu bytes:\n%s", M.deg, M.normalized ? "" : " (unnormalized)",
         M.text.size(), M.text.substr(0, 1200).c_str());
  if (M.deg1_missing)
    g.label("degree 1 missing");
  dso::Icgem ic(fn.c_str());
  VP_CHECK(ic.parse_header() == 0, "a well-formed header is refused");
  VP_CHECK(ic.degree() == M.deg, "maximum degree read as %d, not %d", ic.degree(), M.deg);
  VP_CHECK(ic.gm() == M.gm, "GM read as %.17g, not %.17g", ic.gm(), M.gm);
  VP_CHECK(ic.earth_radius() == M.re, "radius read as %.17g, not %.17g", ic.earth_radius(), M.re);
#ifndef VARIANT_VAR
  VP_CHECK(ic.is_normalized() == M.normalized, "normalisation flag is %d", ic.is_normalized());
#endif
  for (int r = 0; r < nreq; r++) {
    int l, k;
    switch (g.weighted({3, 3, 1, 1, 1})) {
    case 0:
      l = k = M.deg;
      break;
    case 1:
      l = (int)g.integer(1, M.deg);
      k = (int)g.integer(0, l);
      break;
    case 2:
      l = (int)g.integer(1, M.deg);
      k = 0;
      break;
    case 3:
      l = k = 0;
      break;
    default: // more than the model has
      l = M.deg + (int)g.integer(1, 3);
      k = (int)g.integer(0, l);
    }
    const int extra = g.weighted({3, 1}) ? (int)g.integer(1, 4) : 0;
    g.note("request degree %d order %d, container of degree %d", l, k, l + extra);
    dso::HarmonicCoeffs hc(l + extra);
    const double mark = -7.25;
    for (int n = 0; n <= l + extra; n++)
      for (int m = 0; m <= n; m++) {
        hc.C(n, m) = mark;
        if (m)
          hc.S(n, m) = mark;
      }
    const int err = ic.parse_data(l, k, &hc);
    if (l > M.deg) {
      VP_CHECK(err != 0, "degree %d of a model of degree %d was reported as read", l, M.deg);
      g.label("degree beyond the model");
      continue;
    }
    VP_CHECK(err == 0, "the data of a well-formed file are refused (%d)", err);
#ifndef VARIANT_VAR
    VP_CHECK(hc.GM() == M.gm && hc.Re() == M.re, "GM/Re of the coefficients: %.17g %.17g", hc.GM(), hc.Re());
    VP_CHECK(hc.normalized() == M.normalized, "normalisation of the coefficients");
#endif
    for (int n = 0; n <= l + extra; n++)
      for (int m = 0; m <= n; m++) {
        const bool want = n <= l && m <= k;
        const double c = want ? M.c[n][m].C : mark;
        const double s = want ? M.c[n][m].S : mark;
        VP_CHECK(hc.C(n, m) == c, "C(%d,%d) = %.17g, file (or untouched): %.17g", n, m, hc.C(n, m), c);
        if (m)
          VP_CHECK(hc.S(n, m) == s, "S(%d,%d) = %.17g, file (or untouched): %.17g", n, m, hc.S(n, m), s);
      }
    if (l >= 2)
      g.nontrivial();
    g.label(k < l ? "order < degree" : "full order");
  }
  unlink(fn.c_str());
}

VP_PROP(roundtrip, 16000, 200000, "at least one successful request of degree >= 2 whose every coefficient was compared") {
  check_case(g, 24, (int)g.integer(1, 3));
}
VP_PROP(roundtrip_large, 300, 6000, "same, models up to degree 120") {
  check_case(g, 120, 1);
}
VP_PROP(roundtrip_huge, 12, 300, "same, models up to degree 420") {
  check_case(g, 420, 1);
}

#ifndef VARIANT_VAR
// the one-call interface: header + data + (optional) de-normalisation
VP_PROP(one_call, 12000, 120000, "a successful call of degree >= 2") {
  icg::Model M = icg::make(g, 16);
  const std::string fn = scratch_file("gfc");
  write_file(fn, M.text);
  dso::HarmonicCoeffs hc;
  const size_t before = live_bytes();
  for (int r = 0, nr = (int)g.integer(1, 3); r < nr; r++) {
    const int l = (int)g.integer(0, M.deg + 1), k = (int)g.integer(0, l);
    const bool den = g.choose(2);
    g.note("degree %d order %d denormalize %d model degree %d normalized %d", l, k, den, M.deg, M.normalized);
    const int err = dso::parse_gravity_model(fn.c_str(), l, k, hc, den);
    if (l > M.deg) {
      VP_CHECK(err != 0, "a degree the model has not was reported as read");
      continue;
    }
    VP_CHECK(err == 0, "refused (%d)", err);
    VP_CHECK(hc.degree() == l, "container has degree %d", hc.degree());
    VP_CHECK(hc.GM() == M.gm && hc.Re() == M.re, "GM or Re differ");
    VP_CHECK(hc.normalized() == (M.normalized && !den), "normalisation flag %d", hc.normalized());
    for (int n = 0; n <= l; n++)
      for (int m = 0; m <= std::min(n, k); m++) {
        long double f = 1;
        if (den && M.normalized) {
          f = (2.0L * n + 1) * (m ? 2 : 1);
          for (int i = n - m + 1; i <= n + m; i++)
            f /= i;
          f = sqrtl(f);
        }
        const double c = (double)(M.c[n][m].C * f), s = (double)(M.c[n][m].S * f);
        VP_CHECK(near(hc.C(n, m), c, 1e-12), "C(%d,%d) = %.17g, expected %.17g", n, m, hc.C(n, m), c);
        if (m)
          VP_CHECK(near(hc.S(n, m), s, 1e-12), "S(%d,%d) = %.17g, expected %.17g", n, m, hc.S(n, m), s);
      }
    if (l >= 2)
      g.nontrivial();
  }
  (void)before;
  unlink(fn.c_str());
}
#endif
