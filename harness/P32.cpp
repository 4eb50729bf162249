// The parser of IERS C04 files.
#include "eop.hpp"
#include "datetime/utcdates.hpp"
#include "vpbt.hpp"
using namespace vp;
using std::string;
using std::vector;
struct Day {
  long mjd;
  long v[6]; // x, y, UT1-UTC, LOD, dX, dY in the units of their last digit
  string line;
};
static const int DIG[6] = {6, 6, 7, 7, 6, 6};
static double val(const Day &d, int i) {
  const long a = std::labs(d.v[i]), p = DIG[i] == 6 ? 1000000 : 10000000;
  return strtod(fmt("%s%ld.%0*ld", d.v[i] < 0 ? "-" : "", a / p, DIG[i], a % p).c_str(), nullptr);
}
static string mkline(Gen &g, const Day &d) {
  int y, m, dd;
  dso::vp_mjd2ymd(d.mjd, y, m, dd);
  string l = fmt("%4d%4d%4d%7ld", y, m, dd, d.mjd);
  const int w[6] = {11, 11, 12, 12, 11, 11};
  for (int i = 0; i < 6; i++) {
    const long a = std::labs(d.v[i]), p = DIG[i] == 6 ? 1000000 : 10000000;
    l += fmt("%*s", w[i], fmt("%s%ld.%0*ld", d.v[i] < 0 ? "-" : "", a / p, DIG[i], a % p).c_str());
  }
  if (!g.boolean(0.1))
    l += fmt("%11.6f%11.6f%11.7f%11.7f%12.6f%12.6f", 0.03, 0.03, 0.002, 0.0014, 0.004774, 0.002);
  if (g.boolean(0.1)) // further columns, as later series have them
    while (l.size() < 240 && g.boolean(0.9))
      l += "    0.000000";
  return l;
}
static vector<Day> days(Gen &g, int n) {
  vector<Day> v;
  // any time, or across a leap second
  const long leap[] = {41499, 50630, 53736, 57204, 57754};
  const long d0 = g.boolean(0.4) ? leap[g.choose(5)] - g.integer(0, n) : g.integer(41317, 61000);
  for (int i = 0; i < n; i++) {
    Day d;
    d.mjd = d0 + i;
    for (int k = 0; k < 6; k++) {
      d.v[k] = g.integer(k == 2 ? -8999999 : -999999, k == 2 ? 8999999 : 999999);
      if (g.boolean(0.03))
        d.v[k] = 0;
    }
    d.line = mkline(g, d);
    v.push_back(d);
  }
  return v;
}
static string text(Gen &g, const vector<Day> &v) {
  string s;
  if (g.boolean(0.8))
    s += "                             EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER\n"
         "                                       EOP (IERS) 14 C04\n\n"
         "            FORMAT(3(I4),I7,2(F11.6),2(F12.7),2(F11.6),2(F11.6),2(F11.7),2(F12.6))\n"
         "##################################################################################\n"
         "\n      Date      MJD      x          y        UT1-UTC       LOD         dX        dY\n";
  for (const Day &d : v)
    s += d.line + "\n";
  if (g.boolean(0.2) && !s.empty())
    s.pop_back();
  return s;
}
static dso::modified_julian_day M(long m) { return dso::modified_julian_day(m); }
static int dat(long mjd) {
  int ex;
  return dso::dat(M(mjd), ex);
}
static int parse(const string &t, long a, long b, dso::EopLookUpTable &e) {
  const string fn = scratch_file("c04");
  write_file(fn, t);
  return dso::parse_iers_C04(fn.c_str(), M(a), M(b), e);
}
static void holds(const dso::EopLookUpTable &e, const vector<Day> &v, long a, long b) {
  VP_CHECK(e.size() == b - a, "size %d, [%ld, %ld) are %ld days", e.size(), a, b, b - a);
  for (long k = a; k < b; k++) {
    const Day &d = v[k - v[0].mjd];
    const int i = (int)(k - a);
    const double tt = (double)k + (dat(k) + 32.184) / 86400;
    VP_CHECK(std::fabs(*e.mjd(i) - tt) < 1e-10, "day %d is %.12f TT, should be %.12f", i, *e.mjd(i), tt);
    const double got[6] = {*e.xp(i), *e.yp(i), *e.dut(i), *e.lod(i), *e.dx(i), *e.dy(i)};
    const char *nm[6] = {"x", "y", "UT1-UTC", "LOD", "dX", "dY"};
    for (int c = 0; c < 6; c++)
      VP_CHECK(got[c] == val(d, c), "%s of MJD %ld is %.12g, the file has %.12g", nm[c], k, got[c], val(d, c));
  }
}
VP_PROP(days_asked, 12000, 400000, "some days of the file are asked for, not all") {
  const vector<Day> v = days(g, (int)(g.boolean(0.02) ? g.integer(31, g.boolean(0.1) ? 5000 : 800) : g.integer(1, 30)));
  const long lo = v[0].mjd, hi = v.back().mjd + 1;
  const string t = text(g, v);
  dso::EopLookUpTable e((int)g.integer(1, 40));
  for (int k = 0; k < 3; k++) { // the same table again
    long a = lo + g.integer(-2, (long)v.size()), b = a + g.integer(0, (long)v.size());
    if (g.boolean(0.6))
      a = std::max(a, lo), b = std::min(std::max(a, b), hi);
    if (a > hi)
      a = b = hi;
    g.note("[%ld, %ld) of a file with [%ld, %ld)", a, b, lo, hi);
    const int rc = parse(t, a, b, e);
    if (a >= lo && b <= hi) {
      VP_CHECK(rc == 0, "days that are in the file are refused (%d)", rc);
      holds(e, v, a, b);
      g.nontrivial(a < b && b - a < hi - lo);
    } else if (a < b)
      VP_CHECK(rc != 0, "days [%ld, %ld) reported found in a file with [%ld, %ld)", a, b, lo, hi);
  }
  dso::EopLookUpTable x;
  VP_CHECK(dso::parse_iers_C04((scratch_file("c04") + ".none").c_str(), M(lo), M(hi), x) != 0, "a file that is not there was not reported");
  VP_CHECK(parse(t, hi, lo, x) != 0, "an interval that ends before it starts was not reported");
}
VP_PROP(damaged, 12000, 400000, "the damage is inside the interval asked for") {
  const vector<Day> v = days(g, (int)g.integer(2, 20));
  vector<Day> w = v;
  const long lo = v[0].mjd;
  const long a = lo + g.integer(0, (long)v.size() - 1), b = a + g.integer(1, (long)v.size() - (a - lo));
  const size_t k = g.boolean(0.7) ? (size_t)(a - lo) + g.choose(b - a) : g.choose(v.size());
  const bool inside = v[k].mjd >= a && v[k].mjd < b;
  string how;
  switch (g.choose(6)) {
  case 0: how = "missing", w.erase(w.begin() + k); break;
  case 1: how = "twice", w.insert(w.begin() + k + 1, (size_t)g.integer(1, 12), w[k]); break;
  case 2: how = "cut", w[k].line.resize(g.integer(1, 70)); break;
  case 3: {
    how = "no number";
    const int c = (int)g.integer(0, 5);
    const int at[6] = {19, 30, 41, 53, 65, 76};
    w[k].line.replace(at[c], c == 2 || c == 3 ? 12 : 11, c == 2 || c == 3 ? "   abcdefghi" : "   abcdefgh");
    break;
  }
  case 4:
    how = "twice for another";
    if (k + 1 < w.size())
      w[k] = w[k + 1];
    else
      w[k] = w[k - 1];
    break;
  default: how = "overlong", w[k].line += string(g.integer(300, 600), g.boolean() ? ' ' : '1');
  }
  const string t = text(g, w);
  g.note("%s: day %zu, asked [%ld, %ld)\n%s", how.c_str(), k, a - lo, b - lo, t.c_str());
  dso::EopLookUpTable e((int)g.integer(1, 12));
  const int rc = parse(t, a, b, e);
  if (inside && how != "overlong" && how != "cut") {
    g.nontrivial();
    VP_CHECK(rc != 0, "day %zu of the interval is %s, and nothing was reported", k, how.c_str());
  } else if (rc == 0 && how == "cut" && inside) { // as much of the last number as is left is a number
    g.nontrivial();
    VP_CHECK(w[k].line.size() > 76, "a line of %zu characters was read as a whole", w[k].line.size());
  } else if (rc == 0 && !inside)
    holds(e, v, a, b);
}
VP_PROP(bytes, 6000, 250000, "always") {
  const vector<Day> v = days(g, (int)g.integer(0, 5));
  string t = text(g, v);
  for (int i = (int)g.integer(0, 6); i > 0 && !t.empty(); --i) {
    const size_t p = g.choose(t.size());
    switch (g.choose(4)) {
    case 0: t[p] = (char)g.choose(256); break;
    case 1: t.erase(p, g.integer(1, 60)); break;
    case 2: t.insert(p, string(g.integer(1, 400), "0 .-\n#"[g.choose(6)])); break;
    default: t.insert(p, t.substr(g.choose(t.size()), g.integer(1, 200)));
    }
  }
  const long a = v.empty() ? 57000 : v[0].mjd;
  dso::EopLookUpTable e;
  (void)parse(t, a, a + g.integer(0, 6), e);
  g.nontrivial();
}
