// Station coordinates at an epoch, and the beacon information table.
#include "beacon_tbl.hpp"
#include "doris_utils.hpp"
#include "sinex/sinex.hpp"
#include "vpbt.hpp"
#include <algorithm>
using namespace vp;
using std::string;
using std::vector;
typedef long double ld;
using us_t = dso::datetime<dso::microseconds>;
using ns_t = dso::datetime<dso::nanoseconds>;
static const int64_t DAY = 86400LL;
static string code(Gen &g) {
  string s;
  for (int i = 0; i < 4; i++)
    s += "ABDX"[g.choose(4)];
  return s;
}
struct Site {
  string id;
  us_t ep;
  double p[3], v[3];
  int lack; // component that is not there, or -1
  bool infile;
};
VP_PROP(coordinates, 20000, 250000, "sites found and sites missing") {
  const int n = (int)(g.boolean(0.03) ? g.integer(30, 140) : g.integer(1, 8));
  vector<Site> all;
  dso::vp_sinex_file f;
  const string fn = "x.snx";
  for (int i = 0; i < n; i++) {
    Site s;
    int tries = 0;
    do {
      s.id = code(g);
      if (++tries > 50)
        g.discard();
    } while (std::any_of(all.begin(), all.end(), [&](const Site &o) { return o.id == s.id; }));
    s.ep = us_t(dso::modified_julian_day(g.integer(40000, 60000)), dso::microseconds(g.integer(0, DAY * 1000000 - 1)));
    for (int k = 0; k < 3; k++)
      s.p[k] = g.real(-6.4e6, 6.4e6), s.v[k] = g.real(-.2, .2);
    s.lack = g.boolean(0.06) ? (int)g.choose(6) : -1;
    s.infile = !g.boolean(0.25);
    all.push_back(s);
  }
  const int extra = (int)g.integer(0, 3);
  struct Asked {
    const Site *s;
  };
  const char xyz[] = "XYZ";
  auto put = [&](const string &id, const string &type, const string &unit, us_t ep, double val) {
    dso::sinex::SolutionEstimate e;
    std::strncpy(e.m_site_code, id.c_str(), 4), std::strncpy(e.m_param_type, type.c_str(), 6), std::strncpy(e.m_units, unit.c_str(), 4);
    e.m_epoch = ep, e.m_estimate = val;
    f.estimates.push_back(e);
  };
  vector<dso::sinex::SolutionEstimate> rest;
  for (const Site &s : all) {
    if (!s.infile)
      continue;
    dso::sinex::SiteId id;
    std::strncpy(id.m_site_code, s.id.c_str(), 4);
    f.sites.push_back(id);
    const bool pairs = g.boolean(); // X VX Y VY, or positions first
    for (int k = 0; k < 6; k++) {
      const int c = pairs ? k / 2 : k % 3, vel = pairs ? k % 2 : k / 3;
      if (s.lack == vel * 3 + c)
        continue;
      put(s.id, string(vel ? "VEL" : "STA") + xyz[c], vel ? "m/y " : "m   ", s.ep, vel ? s.v[c] : s.p[c]);
    }
    if (g.boolean(0.2))
      put(s.id, g.boolean() ? "XGC" : "RBIAS", "m   ", s.ep, 1.5);
  }
  for (int i = 0; i < extra; i++) {
    string id;
    do
      id = code(g);
    while (std::any_of(all.begin(), all.end(), [&](const Site &o) { return o.id == id; }));
    dso::sinex::SiteId sid;
    std::strncpy(sid.m_site_code, id.c_str(), 4);
    f.sites.insert(f.sites.begin() + g.choose(f.sites.size() + 1), sid);
    for (int k = 0; k < 6; k++)
      put(id, string(k % 2 ? "VEL" : "STA") + xyz[k / 2], k % 2 ? "m/y " : "m   ", us_t(), 7);
    if (g.boolean())
      std::rotate(f.estimates.begin(), f.estimates.end() - 6, f.estimates.end());
  }
  f.bad_sites = g.boolean(0.03), f.bad_estimates = g.boolean(0.03);
  dso::vp_sinex_files.clear();
  dso::vp_sinex_files[fn] = f;
  const us_t t(dso::modified_julian_day(g.integer(40000, 62000)), dso::microseconds(g.integer(0, DAY * 1000000 - 1)));
  // ask for them, in some order
  vector<const Site *> ask;
  for (const Site &s : all)
    if (!g.boolean(0.15))
      ask.insert(ask.begin() + g.choose(ask.size() + 1), &s);
  vector<dso::BeaconStation> st(ask.size());
  for (size_t i = 0; i < ask.size(); i++)
    std::memcpy(st[i].m_station_id, ask[i]->id.data(), 4);
  const bool strict = g.boolean();
  vector<dso::BeaconCoordinates> got(g.choose(3));
  const int how = (int)g.choose(3);
  int rc;
  if (how == 0) {
    rc = dso::extrapolate_sinex_coordinates(fn.c_str(), st, t, got, strict);
  } else if (how == 1) {
    const ns_t tn(t.mjd(), dso::nanoseconds(t.sec().as_underlying_type() * 1000));
    rc = dso::extrapolate_sinex_coordinates(fn.c_str(), st, tn, got, strict);
  } else {
    vector<string> ids;
    vector<char *> p;
    for (auto *s : ask)
      ids.push_back(s->id);
    for (auto &s : ids)
      p.push_back(&s[0]);
    p.push_back(nullptr);
    got.assign(ask.size(), dso::BeaconCoordinates());
    int k = -1;
    rc = dso::extrapolate_sinex_coordinates(fn.c_str(), p.data(), (int)ask.size(), t, got.data(), k, strict);
    VP_CHECK(k >= 0 && k <= (int)ask.size(), "%d sites extrapolated of %zu", k, ask.size());
    got.resize(k);
  }
  int missing = 0, broken = 0;
  vector<const Site *> want;
  for (auto *s : ask) {
    if (!s->infile)
      ++missing;
    else if (s->lack >= 0)
      ++broken;
    else
      want.push_back(s);
  }
  g.note("%zu asked, %d missing, %d incomplete, strict %d -> rc %d, %zu delivered", ask.size(), missing, broken, strict, rc, got.size());
  g.nontrivial(missing && !want.empty());
  if (f.bad_sites || f.bad_estimates) {
    VP_CHECK(rc != 0, "an unreadable SINEX file was not reported");
    return;
  }
  if (strict && missing) {
    VP_CHECK(rc != 0, "%d missing sites not reported though asked for", missing);
    return;
  }
  if (rc) {
    VP_CHECK(broken, "all sites there are complete (%d are missing, which is no error), yet the result is an error %d", missing, rc);
    return;
  }
  VP_CHECK(got.size() == want.size(), "%zu sites delivered, %zu are there", got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) {
    const Site &s = *want[i];
    VP_CHECK(got[i].id == s.id, "site %zu is '%s', should be %s", i, got[i].id, s.id.c_str());
    const ld dt = ((ld)(t.mjd().as_underlying_type() - s.ep.mjd().as_underlying_type()) + (ld)(t.sec().as_underlying_type() - s.ep.sec().as_underlying_type()) / (DAY * 1e6L)) / 365.25L;
    const double c[3] = {got[i].x, got[i].y, got[i].z};
    for (int k = 0; k < 3; k++)
      VP_CHECK(std::fabs((double)(c[k] - (s.p[k] + s.v[k] * dt))) < 5e-9, "%s component %d at %.6Lf years from its epoch: %.9f, should be %.9Lf", s.id.c_str(), k, dt, c[k], s.p[k] + s.v[k] * dt);
  }
}
struct Row {
  string id;
  int64_t from, to; // s since MJD 0
  string h;
  string line;
};
static string date(int64_t s) {
  int y, m, d;
  dso::vp_mjd2ymd(s / DAY, y, m, d);
  return fmt("%04d-%02d-%02d %02d:%02d:%02d", y, m, d, (int)(s % DAY / 3600), (int)(s % 3600 / 60), (int)(s % 60));
}
static vector<Row> rows(Gen &g, int n) {
  vector<Row> v;
  for (int i = 0; i < n; i++) {
    Row r;
    r.id = code(g);
    r.from = g.integer(50000, 50010) * DAY + (g.boolean() ? 0 : g.integer(0, DAY - 1));
    if (!v.empty() && g.boolean(0.3))
      r.from = v.back().to; // the one that follows
    r.to = r.from + (g.boolean(0.1) ? 0 : g.integer(1, 6 * DAY));
    if (g.boolean(0.1)) { // in service for years
      if (g.boolean())
        r.from -= g.integer(0, 5000) * DAY;
      r.to = r.from + g.integer(1, 30000) * DAY;
    }
    r.h = fmt("%.*f", g.boolean(0.15) ? 0 : 3, g.real(-1, 10));
    r.line = r.id + " " + date(r.from) + " " + date(r.to) + string(g.integer(1, 3), ' ') + r.h + (g.boolean(0.3) ? " comment" : "");
    v.push_back(r);
  }
  return v;
}
static string text(Gen &g, const vector<Row> &v) {
  string s = "site from to height\n";
  for (auto &r : v)
    s += r.line + "\n";
  if (g.boolean(0.2))
    s.pop_back();
  return s;
}
static ns_t at(int64_t s, int64_t ns) {
  int64_t d = s / DAY, x = s % DAY * 1000000000 + ns;
  if (x < 0)
    --d, x += DAY * 1000000000;
  return ns_t(dso::modified_julian_day(d), dso::nanoseconds(x));
}
VP_PROP(table, 20000, 300000, "some, not all, entries hold at the epoch") {
  vector<Row> v = rows(g, (int)(g.boolean(0.05) ? g.integer(60, 300) : g.integer(0, 12)));
  int bad = -1;
  if (!v.empty() && g.boolean(0.15)) {
    bad = (int)g.choose(v.size());
    string &l = v[bad].line;
    switch (g.choose(3)) {
    case 0: l.resize(g.integer(1, 45)); break;
    case 1: l.replace(45, 3 + v[bad].h.size(), "  n.a. "); break;
    default: l.replace(g.boolean() ? 10 : 30, 2, "xx");
    }
  }
  // a name may be long
  string fn = scratch_file("tbl");
  if (g.boolean(0.2))
    for (int i = (int)g.integer(1, 200); i > 0; --i)
      fn.insert(fn.rfind('/'), "/.");
  const string t = text(g, v);
  write_file(fn, t);
  g.note("%s", t.c_str());
  dso::BeaconInformationTable tbl(fn.c_str());
  for (int k = 0; k < 3; k++) {
    int64_t s = g.integer(50000, 50015) * DAY, ns = 0;
    if (!v.empty() && g.boolean(0.8)) {
      const Row &r = v[g.choose(v.size())];
      s = g.boolean() ? r.from : r.to;
      ns = g.pick({0, 0, 1, -1});
    }
    const ns_t q = at(s, ns);
    if (g.boolean(0.3))
      errno = ERANGE; // as any earlier call may have left it
    vector<dso::BeaconInformationTableEntry> got;
    try {
      got = tbl.load_to_memmory(q);
    } catch (std::exception &e) {
      VP_CHECK(bad >= 0, "a valid table was refused: %s", e.what());
      return;
    }
    VP_CHECK(bad < 0, "the damaged line %d of the table was not reported", bad);
    vector<const Row *> want;
    for (auto &r : v)
      if (at(r.from, 0) <= q && q < at(r.to, 0))
        want.push_back(&r);
    VP_CHECK(got.size() == want.size(), "%zu entries delivered, %zu hold at the epoch", got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++) {
      VP_CHECK(string(got[i]._4charid, 4) == want[i]->id && got[i]._height == strtod(want[i]->h.c_str(), nullptr), "entry %zu: %.4s %.17g, should be %s %s", i, got[i]._4charid, got[i]._height, want[i]->id.c_str(), want[i]->h.c_str());
      VP_CHECK(got[i].from == at(want[i]->from, 0) && got[i].to == at(want[i]->to, 0), "entry %zu: interval", i);
    }
    g.nontrivial(!want.empty() && want.size() < v.size());
  }
}
VP_PROP(table_bytes, 4000, 100000, "always") {
  string t = text(g, rows(g, (int)g.integer(0, 4)));
  for (int i = (int)g.integer(0, 5); i > 0 && !t.empty(); --i) {
    const size_t p = g.choose(t.size());
    if (g.boolean())
      t[p] = (char)g.choose(256);
    else if (g.boolean())
      t.erase(p, g.integer(1, 30));
    else
      t.insert(p, string(g.integer(1, 300), "0 .-\nC"[g.choose(6)]));
  }
  const string fn = scratch_file("tbl");
  write_file(fn, t);
  dso::BeaconInformationTable tbl(fn.c_str()), none((fn + ".none").c_str());
  try {
    tbl.load_to_memmory(at(50002 * DAY, 0));
  } catch (std::exception &) {
  }
  bool thrown = false;
  try {
    none.load_to_memmory(at(50002 * DAY, 0));
  } catch (std::exception &) {
    thrown = true;
  }
  VP_CHECK(thrown, "a table that is not there was not reported");
  g.nontrivial();
}
