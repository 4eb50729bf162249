// Satellite mass and centre of gravity histories, and the satellites' constants.
#include "cryosat2.hpp"
#include "jason3.hpp"
#include "vpbt.hpp"
using namespace vp;
using std::string;
using std::vector;
using dt_t = dso::datetime<dso::nanoseconds>;
static const int64_t NS = 1000000000LL;
struct Rec {
  long mjd;
  int64_t ms; // of day
  string v[4];
  string line;
};
static string number(Gen &g) {
  switch (g.weighted({6, 2, 1, 1})) {
  case 0: return fmt("%.4f", (double)g.integer(-99999, 99999) / 1e4);
  case 1: return fmt("%.3f", (double)g.integer(-99999, 99999) / 1e3);
  case 2: return fmt("%lld", (long long)g.integer(-9, 9));
  default: return fmt("%.6e", g.real(-10, 10));
  }
}
static string pad(Gen &g, int least) { return string(least + (g.boolean(0.6) ? g.choose(4) : 0), ' '); }
static string mkline(Gen &g, const Rec &r, int nfields = 6) {
  string l = pad(g, 0);
  const string f[6] = {fmt(g.boolean() ? "%.1f" : "%.5f", (double)r.mjd + 2400000.5), fmt("%.*f", 3, (double)r.ms / 1e3), r.v[0], r.v[1], r.v[2], r.v[3]};
  for (int i = 0; i < nfields; i++)
    l += (i ? pad(g, 1) : "") + f[i];
  return l + (g.boolean(0.2) ? pad(g, 1) : "");
}
static vector<Rec> records(Gen &g, int n) {
  vector<Rec> v;
  int64_t t = g.integer(55000, 59000) * 86400000LL + g.integer(0, 86399999);
  for (int i = 0; i < n; i++) {
    Rec r;
    r.mjd = (long)(t / 86400000), r.ms = t % 86400000;
    for (auto &x : r.v)
      x = number(g);
    r.line = mkline(g, r);
    v.push_back(r);
    switch (g.weighted({4, 3, 2})) {
    case 0: t += g.integer(1000, 86400000LL * 30); break;
    case 1: t += g.integer(10, 3600000); break;             // the same day, mostly
    default: t = (t / 86400000 + g.integer(1, 5)) * 86400000 + g.integer(0, t % 86400000); // earlier in a later day
    }
  }
  return v;
}
static string comment(Gen &g) {
  const string body[] = {"", " Mass history", "OMMENT 2457000.5 1.0 1 2 3 4", "// ", string(200, 'x')};
  return (g.boolean() ? "C" : "/") + body[g.choose(5)];
}
static dt_t when(Gen &g, const vector<Rec> &v) {
  if (v.empty())
    return dt_t(dso::modified_julian_day(57000), dso::nanoseconds(5));
  const Rec &r = v[g.choose(v.size())];
  int64_t s = r.ms * 1000000;
  long d = r.mjd;
  switch (g.weighted({3, 3, 2})) {
  case 0: s += g.boolean(0.15) ? 0 : g.sign() * (int64_t)g.logreal(1, 100e9); break;
  case 1: s += g.sign() * g.integer(1, 86400LL * 3) * NS + 1234567; break;
  default: d += g.integer(-40, 40), s = g.integer(0, 86400LL * NS - 1);
  }
  while (s < 0)
    s += 86400LL * NS, --d;
  d += s / (86400LL * NS), s %= 86400LL * NS;
  return dt_t(dso::modified_julian_day(d), dso::nanoseconds(s));
}
static bool before(const Rec &r, const dt_t &t) {
  if (r.mjd != t.mjd().as_underlying_type())
    return r.mjd < t.mjd().as_underlying_type();
  return r.ms * 1000000LL < t.sec().as_underlying_type();
}
static string text(Gen &g, const vector<Rec> &v) {
  string s;
  for (size_t i = 0; i < v.size(); i++) {
    while (g.boolean(0.2))
      s += comment(g) + "\n";
    s += v[i].line + "\n";
  }
  while (g.boolean(0.1))
    s += comment(g) + "\n";
  if (!s.empty() && g.boolean(0.15))
    s.pop_back();
  return s;
}
VP_PROP(history, 40000, 400000, "some, not all, records are before the epoch") {
  const vector<Rec> v = records(g, g.boolean(0.02) ? (int)g.integer(13, 400) : (int)g.integer(0, 12));
  const string t = text(g, v);
  const string fn = scratch_file("mass");
  write_file(fn, t);
  g.note("%s", t.c_str());
  for (int k = 0; k < 3; k++) {
    const dt_t q = when(g, v);
    size_t n = 0;
    while (n < v.size() && before(v[n], q))
      ++n;
    double want[4] = {0, 0, 0, 0};
    if (n)
      for (int i = 0; i < 4; i++)
        want[i] = strtod(v[n - 1].v[i].c_str(), nullptr);
    double got[4] = {9, 9, 9, 9};
    const int rc = dso::get_satellite_corrections(fn.c_str(), q, got);
    VP_CHECK(rc == 0, "a valid file of %zu records is refused (%d)", v.size(), rc);
    for (int i = 0; i < 4; i++)
      VP_CHECK(got[i] == want[i], "at MJD %ld + %ld ns value %d is %.17g, the last of the %zu records before has %.17g", q.mjd().as_underlying_type(), q.sec().as_underlying_type(), i, got[i], n, want[i]);
    auto sat = [&](auto info, double m0, const double *c0, const char *name) {
      using S = decltype(info);
      double m = 0;
      Eigen::Matrix<double, 3, 1> c;
      c << 0, 0, 0;
      VP_CHECK(S::mass_cog(q, fn.c_str(), m, c) == 0, "%s: mass_cog failed", name);
      VP_CHECK(near(m, m0 + want[0], 1e-15, 1e-12), "%s: mass %.15g, should be %.15g", name, m, m0 + want[0]);
      for (int i = 0; i < 3; i++)
        VP_CHECK(near(c(i), c0[i] + want[1 + i], 1e-15, 1e-12), "%s: cog(%d)=%.15g, should be %.15g", name, i, c(i), c0[i] + want[1 + i]);
    };
    const double j3[] = {1.0023, 0.0, -0.0021}, cs[] = {1.6312, 0.0112, 0.0137};
    sat(dso::SatelliteInfo<dso::SATELLITE::Jason3>(), 509.6, j3, "Jason-3");
    sat(dso::SatelliteInfo<dso::SATELLITE::Cryosat2>(), 724.6, cs, "Cryosat-2");
    g.nontrivial(n && n < v.size());
  }
}
VP_PROP(damaged, 20000, 250000, "a record the epoch needs was damaged") {
  vector<Rec> v = records(g, (int)g.integer(1, 8));
  const size_t k = g.choose(v.size());
  // how: too few fields, or one that is no number
  if (g.boolean()) {
    v[k].line = mkline(g, v[k], (int)g.integer(1, 5));
  } else {
    const char *junk[] = {"abc", "-", "*****", "x1.5", "."};
    Rec r = v[k];
    const int f = (int)g.integer(0, 3);
    r.v[f] = junk[g.choose(5)];
    v[k].line = mkline(g, r);
  }
  const string t = text(g, v);
  const string fn = scratch_file("mass");
  write_file(fn, t);
  g.note("%s", t.c_str());
  const dt_t q = when(g, v);
  double got[4];
  const int rc = dso::get_satellite_corrections(fn.c_str(), q, got);
  if (before(v[k], q)) {
    g.nontrivial();
    VP_CHECK(rc != 0, "the damaged record %zu before the epoch was not reported", k);
  }
}
VP_PROP(bytes, 4000, 150000, "always") {
  vector<Rec> v = records(g, (int)g.integer(0, 4));
  string t = text(g, v);
  for (int i = (int)g.integer(0, 5); i > 0 && !t.empty(); --i) {
    const size_t p = g.choose(t.size());
    if (g.boolean())
      t[p] = (char)g.choose(256);
    else if (g.boolean())
      t.erase(p, g.integer(1, 30));
    else
      t.insert(p, string(g.integer(1, 300), "0 .-\nC"[g.choose(6)]));
  }
  const string fn = scratch_file("mass");
  write_file(fn, t);
  double got[4];
  (void)dso::get_satellite_corrections(fn.c_str(), when(g, v), got);
  VP_CHECK(dso::get_satellite_corrections((fn + ".none").c_str(), when(g, v), got) != 0, "a file that is not there was not reported");
  g.nontrivial();
}
VP_PROP(constants, 40, 400, "always") {
  auto pco = [&](auto info, const double *a, const double *b, const char *name) {
    Eigen::Matrix<double, 3, 1> p, q;
    VP_CHECK(decltype(info)::pco(p, q) == 0, "%s: pco failed", name);
    for (int i = 0; i < 3; i++)
      VP_CHECK(p(i) == a[i] && q(i) == b[i], "%s: phase centers differ from the published ones", name);
  };
  const double j1[] = {2.4128, -0.1325, 0.9235}, j2[] = {2.4128, -0.1325, 0.7555}, c1[] = {1.848, -0.200, -0.751}, c2[] = {1.832, -0.200, -0.598};
  pco(dso::SatelliteInfo<dso::SATELLITE::Jason3>(), j1, j2, "Jason-3");
  pco(dso::SatelliteInfo<dso::SATELLITE::Cryosat2>(), c1, c2, "Cryosat-2");
  using M = dso::MacroModel<dso::SATELLITE::Jason3>;
  VP_CHECK(M::NumPlates == 8, "plates");
  const int i = (int)g.choose(M::NumPlates);
  const auto &c = M::mmcomponents[i], &o = M::mmcomponents[i ^ 1];
  double n = 0, opp = 0, s = 0, ir = 0;
  for (int k = 0; k < 3; k++)
    n += c.m_normal[k] * c.m_normal[k], opp += c.m_normal[k] * o.m_normal[k], s += c.m_optical_properties[k], ir += c.m_infrared_properties[k];
  VP_CHECK(n == 1 && opp == -1 && c.m_surf == o.m_surf && c.m_surf > 0, "plates %d and %d are not the two sides of a box or array", i, i ^ 1);
  VP_CHECK(std::fabs(s - 1) < 2.5e-3 && std::fabs(ir - 1) < 2.5e-3, "plate %d: the fractions reflected and absorbed sum to %g, %g", i, s, ir);
  g.nontrivial();
}
