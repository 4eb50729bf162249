// Space weather (flux and Ap) read off CSV files for the atmospheric model.
#include "atmosphere/nrlmsise00.hpp"
#include "var/celestrak.hpp"
#include "vpbt.hpp"
#include <optional>
using namespace vp;
using std::string;
using std::vector;
namespace ct = dso::utils::celestrak::details;
namespace ms = dso::nrlmsise00;
typedef dso::modified_julian_day MJD;
struct Day {
  long mjd;
  int ap[8], avg;
  int f[6]; // obs, adj, obs c81, obs l81, adj c81, adj l81: in tenths
  string flag, line;
};
static const char HEAD[] = "DATE,BSRN,ND,KP1,KP2,KP3,KP4,KP5,KP6,KP7,KP8,KP_SUM,AP1,AP2,AP3,AP4,AP5,AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,"
                           "F10.7_DATA_TYPE,F10.7_OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81";
static string date(long mjd) {
  int y, m, d;
  dso::vp_mjd2ymd(mjd, y, m, d);
  return fmt("%04d-%02d-%02d", y, m, d);
}
// columns of a line
static vector<string> columns(Gen &g, const Day &d) {
  vector<string> c{date(d.mjd), fmt("%d", (int)g.integer(1, 2600)), fmt("%d", (int)g.integer(1, 27))};
  int s = 0;
  const bool nokp = g.boolean(0.1); // as in some predictions
  for (int i = 0; i < 8; i++) {
    const int k = (int)g.integer(0, 90);
    s += k;
    c.push_back(nokp ? "" : fmt("%d", k));
  }
  c.push_back(nokp ? "" : fmt("%d", s));
  for (int i = 0; i < 8; i++)
    c.push_back(fmt("%d", d.ap[i]));
  c.push_back(fmt("%d", d.avg));
  c.push_back(nokp ? "" : fmt("%.1f", g.integer(0, 25) / 10.));
  c.push_back(nokp ? "" : fmt("%d", (int)g.integer(0, 9)));
  c.push_back(fmt("%d", (int)g.integer(0, 300)));
  for (int i = 0; i < 6; i++) {
    c.push_back(fmt("%d.%d", d.f[i] / 10, d.f[i] % 10));
    if (i == 1)
      c.push_back(d.flag);
  }
  return c;
}
static string join(const vector<string> &c) {
  string s;
  for (size_t i = 0; i < c.size(); i++)
    s += (i ? "," : "") + c[i];
  return s;
}
static vector<Day> days(Gen &g, int n, vector<vector<string>> *cols = nullptr) {
  vector<Day> v;
  const long d0 = g.boolean(0.4) ? g.pick({51544L, 58848L, 58908L, 59579L, 60309L, 60368L}) - g.integer(0, n) : g.integer(36112, 61000);
  for (int i = 0; i < n; i++) {
    Day d;
    d.mjd = d0 + i;
    for (int &a : d.ap)
      a = (int)g.integer(0, g.boolean(0.3) ? 400 : 50);
    d.avg = (int)g.integer(0, 280); // not the mean: to see where it goes
    for (int &f : d.f)
      f = (int)g.integer(600, 3500);
    d.flag = g.pick({"OBS", "INT", "PRD", "PRM"});
    vector<string> c = columns(g, d);
    d.line = join(c);
    if (cols)
      cols->push_back(c);
    v.push_back(d);
  }
  return v;
}
static string text(Gen &g, const vector<Day> &v) {
  const string nl = g.boolean(0.2) ? "\r\n" : "\n";
  string s = HEAD + nl;
  for (const Day &d : v)
    s += d.line + nl;
  if (g.boolean(0.3))
    s = s.substr(0, s.size() - nl.size());
  return s;
}
static const Day *day(const vector<Day> &v, long mjd) {
  for (const Day &d : v)
    if (d.mjd == mjd)
      return &d;
  return nullptr;
}
static bool same(const ct::CelestTrakSWFlux &x, const Day &d) {
  if (x.mjd_ != MJD(d.mjd) || std::memcmp(x.flag, d.flag.c_str(), 4))
    return false;
  for (int i = 0; i < 8; i++)
    if (x.ApIndexes[i] != d.ap[i])
      return false;
  auto eq = [](double a, int t) { return std::fabs(a - t / 10.) < 1e-9; };
  return x.ApDailyAverage == d.avg && eq(x.f107Obs, d.f[0]) && eq(x.f107Adj, d.f[1]) && eq(x.f107ObsC81, d.f[2]) && eq(x.f107ObsL81, d.f[3]) && eq(x.f107AdjC81, d.f[4]);
}
// the parameters of the model at an epoch
static void right(const ms::detail::InParamsCore &p, const vector<Day> &v, long mjd, double sec, const char *where) {
  const Day &d = *day(v, mjd), &y = *day(v, mjd - 1);
  int yy, m, dd;
  dso::vp_mjd2ymd(mjd, yy, m, dd);
  const int doy = (int)(mjd - dso::vp_ymd2mjd(yy, 1, 1) + 1);
  VP_CHECK(p.year == yy && p.doy == doy && std::fabs(p.sec - sec) < 2e-3, "%s: epoch %d/%d %.3f, asked for %d/%d %.3f", where, p.year, p.doy, p.sec, yy, doy, sec);
  VP_CHECK(std::fabs(p.f107A - d.f[2] / 10.) < 1e-9, "%s: f107A %.3f, should be %.1f", where, p.f107A, d.f[2] / 10.);
  VP_CHECK(std::fabs(p.f107 - y.f[0] / 10.) < 1e-9, "%s: f107 %.3f, should be %.1f (day before)", where, p.f107, y.f[0] / 10.);
  VP_CHECK(p.ap == d.avg && p.aparr.a[0] == d.avg, "%s: daily ap %.3f, %.3f, should be %d", where, p.ap, p.aparr.a[0], d.avg);
  const long k = (long)(sec / 10800); // 3-hour interval of the day
  auto ap = [&](long h) { // h intervals ago
    long t = mjd * 8 + k - h;
    return (double)day(v, t / 8)->ap[t % 8];
  };
  double want[7] = {(double)d.avg, ap(0), ap(1), ap(2), ap(3), 0, 0};
  for (int i = 4; i < 12; i++)
    want[5] += ap(i) / 8, want[6] += ap(i + 8) / 8;
  for (int i = 1; i < 7; i++)
    VP_CHECK(std::fabs(p.aparr.a[i] - want[i]) < 1e-9, "%s: ap[%d] %.6f, should be %.6f", where, i, p.aparr.a[i], want[i]);
  const double lst = p.sec / 3600 + p.glon / 15;
  VP_CHECK(std::fabs(std::remainder(p.lst - lst, 24)) < 1e-9, "%s: local time %.9f h at %.3f s, longitude %.6f", where, p.lst, p.sec, p.glon);
}
static double second(Gen &g) {
  switch (g.weighted({4, 2, 2})) {
  case 0: return g.integer(0, 86399999) / 1000.;
  case 1: return 10800. * g.integer(0, 7);
  default: return 10800. * g.integer(1, 8) - g.pick({0.001, 0.5, 1.0, 0.002});
  }
}
typedef ms::InParams<ms::detail::FluxDataFeedType::ST_CSV_SW> Feed;
static void place(Gen &g, Feed &f) {
  Eigen::Matrix<double, 3, 1> l;
  const double lon = g.real(-3.1, 3.1), lat = g.real(-1.5, 1.5), h = g.real(2e5, 2e6);
  l << lon, lat, h;
  f.set_spatial_from_cartesian(dso::ell2car<dso::ellipsoid::grs80>(l));
  VP_CHECK(std::fabs(f.params_.glon - lon * 180 / M_PI) < 1e-8 && std::fabs(f.params_.glat - lat * 180 / M_PI) < 1e-8 && std::fabs(f.params_.alt - h / 1e3) < 1e-6,
           "position %.9f, %.9f, %.6f: longitude %.9f, latitude %.9f, altitude %.9f", lon, lat, h, f.params_.glon, f.params_.glat, f.params_.alt);
  const double lst = f.params_.sec / 3600 + f.params_.glon / 15;
  VP_CHECK(std::fabs(std::remainder(f.params_.lst - lst, 24)) < 1e-9, "local time %.9f h at %.3f s, longitude %.6f", f.params_.lst, f.params_.sec, f.params_.glon);
}
// damage done to one day's line such that it cannot be used
static void spoil(Gen &g, Day &d, vector<string> c) {
  switch (g.weighted({3, 4, 2, 2})) {
  case 0: { // cut before the end of the last number needed
    size_t n = 0;
    for (int i = 0; i < 29; i++)
      n += c[i].size() + 1;
    d.line = d.line.substr(0, g.choose(n));
    break;
  }
  case 1: { // a number lost or no number
    static const int need[] = {12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 25, 27, 28, 29};
    const int i = need[g.choose(14)];
    c[i] = g.pick({string(), string("x"), "x" + c[i], c[i] + "x", string("-"), string(" ")});
    d.line = join(c);
    break;
  }
  case 2: { // no such date
    int y, m, dd;
    dso::vp_mjd2ymd(d.mjd, y, m, dd);
    c[0] = g.pick({fmt("%04d-%02d-%02d", y, 13, dd), fmt("%04d-%02d-%02d", y, m, 32), fmt("%04d-%02d-%02d", y, 2, 30), fmt("%04d-%02d-%02d", y, 0, dd), fmt("%04d-%02d-00", y, m),
                   fmt("xxxx-%02d-%02d", m, dd), string("20"), string()});
    d.line = join(c);
    break;
  }
  default: { // a column less
    const int i = (int)g.integer(1, 29);
    c.erase(c.begin() + i);
    // a line that is one column short has its numbers one column off
    c.resize(26 + g.choose(4));
    d.line = join(c);
    break;
  }
  }
}
VP_PROP(history, 12000, 400000, "two days apart, back in time and a refusal in one history") {
  const int n = (int)(g.boolean(0.01) ? g.integer(100, 1500) : g.integer(4, 14));
  vector<vector<string>> cols;
  vector<Day> v = days(g, n, &cols);
  int bad = -1;
  bool gap = false;
  vector<Day> w = v; // what the file has
  if (g.boolean(0.4)) {
    bad = (int)g.choose(n);
    gap = g.boolean(0.4);
    if (gap)
      w.erase(w.begin() + bad);
    else
      spoil(g, w[bad], cols[bad]);
    if (w.empty())
      return;
  }
  const string fn = scratch_file("sw");
  write_file(fn, text(g, w));
  g.note("file of %d days from %ld%s", n, v[0].mjd, bad < 0 ? "" : fmt(", day %d %s", bad, gap ? "missing" : ("damaged: " + w[bad].line).c_str()).c_str());
  // 0: must be refused, 1: must be delivered, 2: either
  auto fate = [&](long mjd) {
    if (mjd - 3 < v[0].mjd || mjd > v.back().mjd)
      return 0;
    const int i = (int)(mjd - v[0].mjd);
    if (bad < 0 || i < bad)
      return 1;
    if (i - 3 <= bad)
      return 0;
    return gap ? 1 : 2;
  };
  auto some = [&](long now) {
    switch (g.weighted({3, 2, 2, 1})) {
    case 0: return now + 1;
    case 1: return now;
    case 2: return v[0].mjd + g.integer(0, n - 1);
    default: return g.boolean() ? v[0].mjd - 1 - (long)g.choose(3) : v.back().mjd + 1 + (long)g.choose(3);
    }
  };
  long now = some(v[0].mjd + 3);
  double sec = second(g);
  std::optional<Feed> feed;
  bool back = false, far = false, refused = false;
  long last = 0;
  const int steps = (int)g.integer(1, 10);
  for (int s = 0; s < steps; s++) {
    int rc = 0;
    const int ft = fate(now);
    if (!feed) {
      try {
        feed.emplace(fn.c_str(), MJD(now), sec);
      } catch (std::exception &) {
        rc = 1;
      }
      g.note("open at %ld (day %ld) %.3f s: %s", now, now - v[0].mjd, sec, rc ? "refused" : "ok");
    } else {
      if (last)
        back |= now < last, far |= now > last + 1;
      // the time of day may be given past the end of the day
      const long less = g.boolean(0.2) ? 1 : 0;
      rc = feed->update_params((int)(now - less), sec + 86400. * less);
      g.note("update to %ld (day %ld) %.3f s: %d", now, now - v[0].mjd, sec, rc);
    }
    refused |= rc != 0;
    if (ft == 1)
      VP_CHECK(!rc, "day %ld refused though the file has it and the three before", now);
    if (ft == 0)
      VP_CHECK(rc, "day %ld delivered though the file cannot have it and the three before", now);
    if (!rc) {
      right(feed->params_, v, now, sec, fmt("day %ld, %.3f s", now, sec).c_str());
      last = now;
      if (g.boolean(0.3))
        place(g, *feed);
    }
    now = some(feed ? (g.boolean(0.8) && last ? last : now) : v[0].mjd + 3);
    if (g.boolean(0.8))
      sec = second(g);
  }
  g.nontrivial(back && far && refused);
}
VP_PROP(window, 12000, 400000, "a window of several days, two days before and after, found from a later position") {
  const int n = (int)g.integer(1, 12);
  vector<vector<string>> cols;
  vector<Day> v = days(g, n, &cols);
  const string fn = scratch_file("sw");
  write_file(fn, text(g, v));
  std::ifstream::pos_type pos = 0;
  bool nt = false;
  const int steps = (int)g.integer(1, 6);
  for (int s = 0; s < steps; s++) {
    const int b = (int)g.integer(0, 5), a = (int)g.integer(0, 5);
    const long mjd = v[0].mjd + g.integer(-2, n + 1);
    ct::CelestTrakSWFlux out[16];
    const bool nz = pos != std::ifstream::pos_type(0);
    const int rc = ct::parse_csv_for_date(MJD(mjd), fn.c_str(), out, pos, b, a);
    g.note("%d days, day %ld, %d before, %d after: %d", n, mjd - v[0].mjd, b, a, rc);
    const bool has = day(v, mjd - b) && day(v, mjd + a);
    VP_CHECK((rc == 0) == has, "returned %d, the file %s the days", rc, has ? "has" : "lacks");
    if (!rc) {
      for (int i = 0; i <= a + b; i++)
        VP_CHECK(same(out[i], *day(v, mjd - b + i)), "record %d of the window is not that of day %ld", i, mjd - b + i);
      nt |= b && a && nz;
    }
    // move on by a day, or several
    for (int k = (int)g.choose(3); !rc && k > 0; k--) {
      const long nx = out[a + b].mjd_.as_underlying_type() + 1;
      const int r2 = ct::get_next(MJD(nx), fn.c_str(), out, a + b + 1, pos);
      VP_CHECK((r2 == 0) == (day(v, nx) != nullptr), "next day %ld: returned %d", nx - v[0].mjd, r2);
      if (r2)
        break;
      for (int i = 0; i <= a + b; i++)
        VP_CHECK(same(out[i], *day(v, nx - a - b + i)), "after moving on record %d is not that of day %ld", i, nx - a - b + i);
    }
  }
  g.nontrivial(nt);
}
VP_PROP(bytes, 12000, 400000, "the damaged file is accepted for some day") {
  const int n = (int)g.integer(1, 6);
  vector<Day> v = days(g, n);
  string t = text(g, v);
  const int m = (int)g.integer(1, 8);
  for (int i = 0; i < m && !t.empty(); i++) {
    const size_t p = g.boolean(0.8) ? std::min(t.size() - 1, sizeof(HEAD) + g.choose(t.size())) : g.choose(t.size());
    switch (g.choose(5)) {
    case 0: t[p] = (char)g.pick({',', '-', '\n', '\0', '9', 'x', '.', 'e'}); break;
    case 1: t.erase(p, 1 + g.choose(20)); break;
    case 2: t.insert(p, string(g.pick({1, 3, 600}), (char)g.pick({',', '9', ' ', '\n'}))); break;
    case 3: t = t.substr(0, p); break;
    default: t[p] = (char)g.choose(256);
    }
  }
  const string fn = scratch_file("sw");
  write_file(fn, t);
  g.note("%s", t.c_str() + std::min(t.size(), sizeof(HEAD)));
  bool any = false;
  try {
    Feed f(fn.c_str(), MJD(v[0].mjd + g.integer(0, n)), second(g));
    any = true;
    for (int i = 0; i < 3; i++)
      f.update_params((int)(v[0].mjd + g.integer(0, n + 1)), second(g));
  } catch (std::runtime_error &) {
  }
  std::ifstream::pos_type pos = 0;
  ct::CelestTrakSWFlux out[8];
  for (int i = 0; i < 3; i++)
    any |= !ct::parse_csv_for_date(MJD(v[0].mjd + g.integer(-1, n)), fn.c_str(), out, pos, (int)g.choose(3), (int)g.choose(3));
  // lines on their own, in memory of their own
  const string l = v[0].line.substr(0, g.choose(v[0].line.size() + 1));
  vector<char> buf(l.begin(), l.end());
  buf.push_back(0);
  ct::CelestTrakSWFlux x;
  const int rc = ct::resolve_csv_line_records(buf.data(), x);
  if (!rc)
    VP_CHECK(same(x, v[0]), "a line cut after %zu of %zu characters was accepted with other values", l.size(), v[0].line.size());
  g.nontrivial(any);
}
VP_PROP(names, 300, 3000, "longer than any buffer") {
  // names of files that do not exist are refused, however long
  const size_t n = g.boolean() ? g.choose(300) : g.choose(5000);
  const string fn = scratch_file("no") + string(n, 'a');
  g.nontrivial(n > 256);
  g.note("name of %zu characters", fn.size());
  bool threw = false;
  try {
    Feed f(fn.c_str(), MJD(59000), 0);
  } catch (std::runtime_error &) {
    threw = true;
  }
  VP_CHECK(threw, "a feed was made of a file that does not exist");
}
