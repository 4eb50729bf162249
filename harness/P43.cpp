// script/fetch_iers_c04.py: the IERS Bulletin B files of the days asked for,
// merged into one.
#include "pychild.hpp"
using namespace vp;
using std::string;
using std::vector;
namespace {
const char *SCRIPT = "script/fetch_iers_c04.py";
long civil(long y, int m, int d) { // MJD
  y -= m <= 2;
  const long era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468 + 40587;
}
void ymd(long mjd, int &y, int &m, int &d) {
  const long z = mjd - 40587 + 719468, era = z / 146097, doe = z - era * 146097;
  const long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  d = (int)(doy - (153 * mp + 2) / 5 + 1), m = (int)(mp < 10 ? mp + 3 : mp - 9), y = (int)(yoe + era * 400 + (m <= 2));
}
const int COLS = 14; // x y UT1 dX dY and their errors; LOD, its error, OMEGA, its error
struct Day {
  long mjd;
  string v[COLS];
};
struct Bulletin {
  int nr;
  vector<Day> day;
  string text[3]; // up to section 1, between its data and those of section 3, the rest
};
// (the numbers of a bulletin are all drawn from one choice)
struct Numbers {
  uint64_t s;
  long to(long n) {
    s += 0x9e3779b97f4a7c15ULL;
    return (long)(((unsigned __int128)mix64(s) * (uint64_t)n) >> 64);
  }
  string real(double lim, int dec, bool neg) {
    long p = 1;
    for (int i = 0; i < dec; i++)
      p *= 10;
    const long a = to(20) == 0 ? 0 : to((long)(lim * p));
    return fmt("%s%ld.%0*ld", neg && to(2) ? "-" : "", a / p, dec, a % p);
  }
};
string datum(const Day &d) {
  int y, m, dd;
  ymd(d.mjd, y, m, dd);
  return fmt("%4d%4d%4d%7ld", y, m, dd, d.mjd);
}
string line1(const Day &d) {
  string s = "   " + datum(d);
  for (int i = 0; i < 10; i++)
    s += fmt("%*s", i == 2 ? 12 : 10, d.v[i].c_str());
  return s + "\n";
}
string line3(const Day &d) {
  string s = "   " + datum(d);
  for (int i = 10; i < COLS; i++)
    s += fmt("%*s", i >= 12 ? 18 : 12, d.v[i].c_str());
  return s + "\n";
}
Bulletin bulletin(Gen &g, int nr, long d0, int n, int ndec) {
  Bulletin b;
  b.nr = nr;
  Numbers q{g.word()};
  for (int i = 0; i < n; i++) {
    Day d;
    d.mjd = d0 + i;
    for (int k = 0; k < 10; k++)
      d.v[k] = q.real(k < 2 ? 600 : k == 2 ? 900 : k < 5 ? 2 : 1, k == 2 || k == 7 ? 4 : ndec, k < 5);
    d.v[10] = q.real(3, 4 + (int)q.to(3), true), d.v[11] = q.real(1, 4, false);
    d.v[12] = fmt("15.0410%05ld", q.to(100000)), d.v[13] = q.real(1, 9 + (int)q.to(4), false);
    b.day.push_back(d);
  }
  return b;
}
string HEADS[2] = {"1 - DAILY FINAL VALUES OF x, y, UT1-UTC, dX, dY", "3 - EARTH ANGULAR VELOCITY : DAILY FINAL VALUES OF LOD, OMEGA AT 0hUTC"};
string section1(Gen &g, const Bulletin &b, int skip = -1) {
  string s, h[3];
  h[0] = " " + HEADS[0] + "\n";
  h[1] = "      DATE     MJD       x       y      UT1-UTC    dX     dY      x err   y err   UT1 err  dX err  dY err\n";
  h[2] = "   (0 h UTC)            mas     mas       ms       mas    mas      mas     mas      ms      mas     mas\n";
  s = "\n                     INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE\n\n"
      "                              BULLETIN B " + std::to_string(b.nr) + "\n\n";
  for (int i = 0; i < 3; i++) {
    if (i != skip)
      s += h[i];
    if (i == 0)
      s += " Angular unit is milliarcsecond (mas), time unit is millisecond (ms).\n Upgraded solution from March 1 2017 - consistent with ITRF 2014.\n\n";
  }
  return s + "\n                   Final values\n   Mean formal error     0.030   0.030   0.0025   0.110   0.090\n\n";
}
string middle(Gen &g, const Bulletin &b, int skip = -1) {
  string s = "\n                   Preliminary extension\n";
  for (int i = 0; i < 3; i++) { // these are not final: of later days
    Day d = b.day.back();
    d.mjd += i + 1;
    s += line1(d);
  }
  s += "\n 2 - DAILY FINAL VALUES OF CELESTIAL POLE OFFSETS dPsi1980 & dEps1980\n\n";
  for (int i = 0; i < 2; i++)
    s += "   " + datum(b.day[i % b.day.size()]) + "   -90.123    -8.456\n";
  s += "\n";
  const string h[4] = {" " + HEADS[1] + "\n", "     LOD : Excess of the Length of day - 86400 s TAI\n", "     OMEGA : Earth angular velocity\n",
                       "      DATE     MJD         LOD     sigma       OMEGA         sigma\n"};
  for (int i = 0; i < 4; i++)
    if (i != skip)
      s += h[i];
  return s + "   (0 h UTC)              ms       ms        mas/ms          mas/ms\n\n";
}
string whole(Gen &g, const Bulletin &b) {
  string s = section1(g, b);
  for (auto &d : b.day)
    s += line1(d);
  s += middle(g, b);
  for (auto &d : b.day)
    s += line3(d);
  if (g.boolean(0.7))
    s += "\n 4 - INFORMATION ON TIME SCALES\n\n   UTC-TAI = -37 s\n";
  return s;
}
string dir() {
  const string d = scratch_file("c04");
  mkdir(d.c_str(), 0700), mkdir((d + "/remote").c_str(), 0700);
  return d;
}
string slurp(const string &f) {
  string s;
  if (FILE *h = fopen(f.c_str(), "r")) {
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, h)) > 0)
      s.append(b, n);
    fclose(h);
  }
  return s;
}
void clean(const string &d, const vector<Bulletin> &bs) {
  for (auto &b : bs) {
    const string n = "bulletinb." + std::to_string(b.nr);
    unlink((d + "/remote/" + n).c_str()), unlink((d + "/" + n).c_str());
  }
  unlink((d + "/out").c_str());
  rmdir((d + "/remote").c_str()), rmdir(d.c_str());
}
// the days of a merged file
vector<Day> days(const string &t) {
  vector<Day> v;
  size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p);
    if (e == string::npos)
      e = t.size();
    const string l = t.substr(p, e - p);
    p = e + 1;
    if (l.empty() || l[0] == '#' || l.find_first_not_of(' ') == string::npos)
      continue;
    vector<string> w;
    for (size_t i = 0; i < l.size();) {
      while (i < l.size() && l[i] == ' ')
        i++;
      size_t j = i;
      while (j < l.size() && l[j] != ' ')
        j++;
      if (j > i)
        w.push_back(l.substr(i, j - i));
      i = j;
    }
    VP_CHECK((int)w.size() == 4 + COLS, "a line of %zu columns: %s", w.size(), l.c_str());
    Day d;
    d.mjd = atol(w[3].c_str());
    VP_CHECK(civil(atol(w[0].c_str()), atoi(w[1].c_str()), atoi(w[2].c_str())) == d.mjd, "date and MJD of a line do not agree: %s", l.c_str());
    for (int i = 0; i < COLS; i++)
      d.v[i] = w[4 + i];
    v.push_back(d);
  }
  return v;
}
const Day *find(const vector<Bulletin> &bs, long mjd) {
  for (auto &b : bs)
    if (mjd >= b.day[0].mjd && mjd <= b.day.back().mjd)
      return &b.day[mjd - b.day[0].mjd];
  return nullptr;
}
void exact(const vector<Bulletin> &bs, const vector<Day> &out) {
  static const char *nm[COLS] = {"x", "y", "UT1-UTC", "dX", "dY", "x error", "y error", "UT1 error", "dX error", "dY error", "LOD", "LOD error", "OMEGA", "OMEGA error"};
  for (size_t i = 0; i < out.size(); i++) {
    const Day *d = find(bs, out[i].mjd);
    VP_CHECK(d, "MJD %ld is in no bulletin", out[i].mjd);
    VP_CHECK(!i || out[i].mjd == out[i - 1].mjd + 1, "MJD %ld comes after %ld", out[i].mjd, out[i - 1].mjd);
    for (int k = 0; k < COLS; k++)
      VP_CHECK(strtod(out[i].v[k].c_str(), nullptr) == strtod(d->v[k].c_str(), nullptr), "%s of MJD %ld is %s, the bulletin has %s", nm[k], d->mjd, out[i].v[k].c_str(), d->v[k].c_str());
  }
}
// consecutive bulletins around the days asked for, numbered so that the one
// the program tries first is near
struct Setup {
  vector<Bulletin> bs;
  long t;
  int n;
  size_t first, last; // the bulletins of the first and last day asked for
};
Setup setup(Gen &g) {
  Setup s;
  s.n = g.weighted({6, 3, 1}) == 0 ? (int)g.integer(0, 5) : (int)g.integer(0, g.boolean() ? 20 : g.boolean(0.9) ? 60 : 250);
  const int margin = 4, ndec = (int)g.integer(3, 4);
  long d0 = g.integer(54900, 60500);
  vector<std::pair<long, int>> b;
  // those before, those of the days asked for, those after
  const long span = 2L * s.n + 1;
  long d = d0;
  for (int i = 0; i < margin; i++)
    b.push_back({d, (int)g.integer(28, 32)}), d += b.back().second;
  const long start = d;
  while (d < start + span + 32)
    b.push_back({d, (int)g.integer(28, 32)}), d += b.back().second;
  const int len0 = b[margin].second;
  // the first day asked for is in bulletin `margin`; often at its ends
  long ts = start + (g.boolean(0.4) ? (g.boolean() ? 0 : len0 - 1) : g.integer(0, len0 - 1));
  // or the last day at the end of one
  if (g.boolean(0.2))
    for (auto &x : b) {
      const long e = x.first + (g.boolean() ? x.second - 1 : 0);
      if (e - span + 1 >= start && e - span + 1 < start + len0)
        ts = e - span + 1;
    }
  for (int i = 0; i < margin; i++)
    b.push_back({d, (int)g.integer(28, 32)}), d += b.back().second;
  s.t = ts + s.n;
  s.first = margin;
  const long te = ts + span - 1;
  for (size_t i = 0; i < b.size(); i++)
    if (b[i].first <= te)
      s.last = i;
  const int guess = 252 + (int)((ts - civil(2008, 12, 12)) / 31);
  const int nr0 = guess - (int)g.integer(1, (long)b.size() - 2);
  for (size_t i = 0; i < b.size(); i++)
    s.bs.push_back(bulletin(g, nr0 + (int)i, b[i].first, b[i].second, ndec));
  return s;
}
PyResult fetch(const string &d, const Setup &s, bool file) {
  int y, m, dd;
  ymd(s.t, y, m, dd);
  vector<string> a = {"run", SCRIPT, d, "-d", fmt("%d-%02d-%02d", y, m, dd), "-n", std::to_string(s.n)};
  if (file)
    a.push_back("-o"), a.push_back("out");
  return pyrun(a);
}
} // namespace

VP_PROP(fetched, 2500, 80000, "the days asked for are in two or more bulletins") {
  const Setup s = setup(g);
  const string d = dir();
  for (auto &b : s.bs)
    write_file(d + "/remote/bulletinb." + std::to_string(b.nr), whole(g, b));
  const bool file = g.boolean(0.7);
  // what an earlier run left
  if (g.boolean(0.2)) {
    const size_t k = s.first + g.choose(s.last - s.first + 1);
    Bulletin old = bulletin(g, s.bs[k].nr, s.bs[k].day[0].mjd, (int)s.bs[k].day.size() - (int)g.choose(20), 3);
    write_file(d + "/bulletinb." + std::to_string(old.nr), whole(g, old));
    g.label("an older copy of a bulletin");
  }
  if (g.boolean(0.2))
    write_file(d + "/out", "# of an earlier run\n2007   1   1   54101   +1.0000\n"), g.label("an older file");
  g.note("MJD %ld and %d days before and after; %zu bulletins from %d on, of MJD", s.t, s.n, s.bs.size(), s.bs[0].nr);
  for (auto &b : s.bs)
    g.note("  %ld - %ld", b.day[0].mjd, b.day.back().mjd);
  const PyResult r = fetch(d, s, file);
  const string t = file ? slurp(d + "/out") : r.out;
  clean(d, s.bs);
  VP_CHECK(r.rc == 0, "ended with %d: %s", r.rc, r.err.c_str());
  const vector<Day> o = days(t);
  exact(s.bs, o);
  VP_CHECK(!o.empty() && o[0].mjd <= s.t - s.n && o.back().mjd >= s.t + s.n, "asked for %ld to %ld, got %ld to %ld", s.t - s.n, s.t + s.n, o.empty() ? 0 : o[0].mjd, o.empty() ? 0 : o.back().mjd);
  g.nontrivial(s.first < s.last);
  g.label(fmt("%zu bulletins", s.last - s.first + 1));
}
VP_PROP(merged, 2500, 80000, "three or more files, not in order") {
  vector<Bulletin> bs;
  long d0 = g.integer(54900, 60500);
  const int n = (int)g.integer(1, 6);
  for (int i = 0; i < n; i++)
    bs.push_back(bulletin(g, 95 + i * (int)g.integer(1, 3), d0, (int)g.integer(2, 32), 3)), d0 += (long)bs.back().day.size();
  for (int i = 0; i < n; i++)
    bs[i].nr = 97 + i; // (99 and 100: not in the order of their names)
  const string d = dir();
  for (auto &b : bs)
    write_file(d + "/bulletinb." + std::to_string(b.nr), whole(g, b));
  vector<int> p(n);
  for (int i = 0; i < n; i++)
    p[i] = i;
  for (int i = n - 1; i > 0; i--)
    std::swap(p[i], p[i - g.choose(i + 1)]);
  string a = "('out', {";
  bool sorted = true;
  for (int i = 0; i < n; i++) {
    int y, m, dd, y2, m2, d2;
    const Bulletin &b = bs[p[i]];
    ymd(b.day[0].mjd, y, m, dd), ymd(b.day.back().mjd, y2, m2, d2);
    a += fmt("'bulletinb.%d': {'t0': datetime.datetime(%d, %d, %d), 'tn': datetime.datetime(%d, %d, %d)}, ", b.nr, y, m, dd, y2, m2, d2);
    sorted = sorted && (!i || p[i] > p[i - 1]);
  }
  g.note("merge_c04_files%s})", a.c_str());
  const PyResult r = pyrun({"call", SCRIPT, d, "merge_c04_files", a + "})"});
  const string t = slurp(d + "/out");
  clean(d, bs);
  if (r.rc == 77)
    g.discard();
  VP_CHECK(r.rc == 0, "ended with %d: %s", r.rc, r.err.c_str());
  const vector<Day> o = days(t);
  exact(bs, o);
  VP_CHECK(!o.empty() && o[0].mjd == bs[0].day[0].mjd && o.back().mjd == bs.back().day.back().mjd, "files of %ld to %ld gave %zu days", bs[0].day[0].mjd, bs.back().day.back().mjd, o.size());
  g.nontrivial(n >= 3 && !sorted);
}
VP_PROP(damaged, 2500, 80000, "the damage is in a bulletin that is needed") {
  const Setup s = setup(g);
  const string d = dir();
  const size_t k = s.first + g.choose(s.last - s.first + 1);
  Bulletin b = s.bs[k];
  string t, how;
  int skip1 = -1, skip3 = -1;
  const int kind = (int)g.choose(8);
  size_t j = g.choose(b.day.size()), cut = string::npos;
  switch (kind) {
  case 0: how = "is not there"; break;
  case 1: skip1 = (int)g.choose(3), how = fmt("heading %d of section 1 missing", skip1); break;
  case 2: skip3 = (int)g.choose(4), how = fmt("heading %d of section 3 missing", skip3); break;
  case 3: how = fmt("MJD %ld missing in section 3", b.day[j].mjd); break;
  case 4: how = fmt("a number of MJD %ld is none", b.day[j].mjd); b.day[j].v[g.choose(COLS)] = g.pick<const char *>({"****", "x", "1,5", "0.1.2", "--"}); break;
  case 5: how = fmt("a number of MJD %ld is missing", b.day[j].mjd); b.day[j].v[g.choose(COLS)] = ""; break;
  case 6: how = "ends early"; break;
  case 7: how = "days in no order"; std::swap(b.day[j], b.day[j ? j - 1 : 1]); break;
  }
  t = section1(g, b, skip1);
  for (auto &x : b.day)
    t += line1(x);
  t += middle(g, b, skip3);
  for (size_t i = 0; i < b.day.size(); i++)
    if (kind != 3 || i != j)
      t += line3(b.day[i]);
  if (kind == 6) { // after any line but the last
    vector<size_t> nl;
    for (size_t i = 0; i + 1 < t.size(); i++)
      if (t[i] == '\n')
        nl.push_back(i + 1);
    cut = nl[g.choose(nl.size())];
    how += fmt(", after %zu of %zu bytes", cut, t.size());
    t = t.substr(0, cut);
  }
  for (auto &x : s.bs)
    if (x.nr != b.nr)
      write_file(d + "/remote/bulletinb." + std::to_string(x.nr), whole(g, x));
    else if (kind)
      write_file(d + "/remote/bulletinb." + std::to_string(x.nr), t);
  g.note("bulletin %d (MJD %ld - %ld) %s; MJD %ld and %d days before and after", b.nr, s.bs[k].day[0].mjd, s.bs[k].day.back().mjd, how.c_str(), s.t, s.n);
  const PyResult r = fetch(d, s, true);
  clean(d, s.bs);
  VP_CHECK(r.rc != 124, "no end: %s", r.err.c_str());
  VP_CHECK(r.rc != 0, "a bulletin that is needed %s, and the program reported success", how.c_str());
  g.nontrivial();
  g.label(how.substr(0, 8));
}
