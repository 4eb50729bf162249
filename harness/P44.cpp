// script/ids_logs2station_info.py: the antennas of a network, from the site
// logs of the IDS.
#include "pychild.hpp"
#include <algorithm>
using namespace vp;
using std::string;
using std::vector;
namespace {
const char *SCRIPT = "script/ids_logs2station_info.py";
struct Antenna {
  string id, height; // as it is in the log
  double h;
  int from[3], to[3]; // d m y; year 0: still there
  string note; // in place of the date of removal
};
string upper(Gen &g, int n) {
  string s;
  for (int i = 0; i < n; i++)
    s += "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[g.choose(26)];
  return s;
}
string number(Gen &g, double &h) {
  const int dec = g.weighted({6, 1, 1}) == 0 ? 3 : (int)g.integer(0, 6);
  const long top = g.weighted({5, 3, 1}) == 0 ? 9 : 99;
  long p = 1;
  for (int i = 0; i < dec; i++)
    p *= 10;
  const long a = g.integer(0, (top + 1) * p - 1);
  string s = g.boolean(0.05) ? "-" : "";
  if (dec && a < p && g.boolean(0.2))
    s += fmt(".%0*ld", dec, a), g.label("no digit before the point");
  else
    s += dec ? fmt("%ld.%0*ld", a / p, dec, a % p) : fmt("%ld%s", a, g.boolean(0.1) ? "." : "");
  h = strtod(s.c_str(), nullptr);
  return s;
}
void date(Gen &g, int *d) {
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  d[2] = (int)g.integer(1986, 2022), d[1] = (int)g.integer(1, 12);
  const int n = len[d[1] - 1] + (d[1] == 2 && d[2] % 4 == 0);
  d[0] = g.boolean(0.2) ? n : (int)g.integer(1, n);
}
string words(Gen &g, bool colon) {
  static const char *w[] = {"concrete", "pillar", "2 mm", "north", "Ghz", "PC", "roof of the building", "m", "2.1", "steel mast", "DORIS", "antenna", "12/03/1991", "(see photo)", "3. DORIS beacons"};
  string s = w[g.choose(15)];
  for (int i = (int)g.integer(0, 3); i > 0; i--)
    s += string(colon && g.boolean(0.3) ? " : " : " ") + w[g.choose(15)];
  return s;
}
string field(const string &k, const string &v, int w = 25) { return "  " + k + string(std::max(0, w - (int)k.size()), ' ') + ": " + v + "\n"; }
string block2(Gen &g, const vector<Antenna> &as, size_t without = 99, int what = -1) {
  string s;
  for (size_t i = 0; i < as.size(); i++) {
    const Antenna &a = as[i];
    vector<string> f;
    const string id = field("Four character ID", a.id + string(g.choose(3), ' '));
    const string h = field("Height above ground mark", a.height);
    const string from = field("Date installed (dd/mm/yy)", fmt("%02d/%02d/%04d", a.from[0], a.from[1], a.from[2]));
    const string to = field("Date removed (dd/mm/yy)", !a.note.empty() ? a.note : a.to[2] ? fmt("%02d/%02d/%04d", a.to[0], a.to[1], a.to[2]) : "");
    const string must[] = {id, h, from, to};
    for (int k = 0; k < 4; k++)
      if (i != without || k != what)
        f.push_back(must[k]);
    if (g.boolean(0.8))
      f.push_back(field("Antenna model", g.boolean() ? "STAREC B" : "ALCATEL"));
    if (g.boolean(0.8))
      f.push_back(field("IERS DOMES number", fmt("%05ldS%03ld", g.integer(10000, 99999), g.integer(1, 20))));
    if (g.boolean(0.5))
      f.push_back(field("Antenna support type", words(g, false)));
    if (g.boolean(0.5)) {
      string n = field("Notes", words(g, true));
      for (int k = (int)g.integer(0, 2); k > 0; k--)
        n += string(g.boolean(0.2) ? 2 + g.choose(4) : 27 + g.choose(3), ' ') + words(g, false) + "\n";
      f.push_back(n);
    }
    if (g.boolean(0.3)) // in another order
      for (size_t k = f.size() - 1; k > 0; k--)
        std::swap(f[k], f[k - g.choose(k + 1)]);
    s += "2." + std::to_string(i + 1) + (g.boolean(0.3) ? " " : "") + "\n" + (g.boolean(0.7) ? "\n" : "");
    for (auto &x : f) {
      s += x;
      if (g.boolean(0.02))
        s += string(g.choose(20), ' ') + "\n";
    }
    s += string(g.boolean(0.05) ? g.choose(40) : 0, ' ') + "\n";
  }
  return s;
}
string before(Gen &g, const string &name) {
  return "                    " + name + " DORIS site description form\n\n0. Form\n\n" + field("Prepared by (full name)", words(g, false)) + field("Date prepared", "12/10/2020") +
         "\n1. Site location information\n\n" + field("Site name", name) + field("Four character ID", "NONE") + field("Height above ground mark", "77.7 m") + field("Date installed (dd/mm/yy)", "01/01/2000") +
         field("Date removed (dd/mm/yy)", "") + "\n2. DORIS antenna and reference point information\n\n";
}
string after(Gen &g) {
  static const char *h[] = {"3. DORIS beacons information", "4. ITRF coordinates and velocities of the current DORIS ref. point (YEMB)", "5. IERS colocation information", "6. Tide Gauge colocation information", "7. Local site ties",
                            "8. Meteorological Instrumentation", "9. DORIS network contacts"};
  string s;
  for (int i = (int)g.choose(8); i > 0; i--)
    s += string(h[7 - i]) + "\n\n" + field("Four character ID", "ELSE") + field("Height above ground mark", "66.6 m") + field("Date installed (dd/mm/yy)", "02/02/2002") + field("Date removed (dd/mm/yy)", "") + "\n";
  return s;
}
string line(const Antenna &a) { return a.id + fmt(" %04d-%02d-%02d 00:00:00 ", a.from[2], a.from[1], a.from[0]) + (a.to[2] ? fmt("%04d-%02d-%02d 00:00:00", a.to[2], a.to[1], a.to[0]) : string("9999-12-31 23:59:59")); }
vector<Antenna> antennas(Gen &g) {
  vector<Antenna> v;
  const int n = g.boolean(0.1) ? (int)g.integer(9, 12) : (int)g.integer(1, 5);
  const string stem = upper(g, 3);
  for (int i = 0; i < n; i++) {
    Antenna a;
    a.id = stem + "ABCDEFGHIJKLMN"[i];
    a.height = number(g, a.h);
    switch (g.weighted({6, 2, 1, 1, 1})) {
    case 0: a.height += " m"; break;
    case 1: a.height += "m"; break;
    case 2: a.height += " meters"; break;
    case 3: break;
    case 4: a.height += " m (approximately)"; break;
    }
    date(g, a.from);
    date(g, a.to);
    if (i == n - 1 ? g.boolean(0.8) : g.boolean(0.1))
      a.to[2] = 0;
    v.push_back(a);
  }
  return v;
}
struct Lines {
  vector<string> v;
};
vector<string> split(const string &t) {
  vector<string> v;
  for (size_t p = 0; p < t.size();) {
    size_t e = t.find('\n', p);
    if (e == string::npos)
      e = t.size();
    v.push_back(t.substr(p, e - p));
    p = e + 1;
  }
  return v;
}
string slurp(const string &f) {
  string s;
  if (FILE *h = fopen(f.c_str(), "r")) {
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, h)) > 0)
      s.append(b, n);
    fclose(h);
  }
  return s;
}
string dir() {
  const string d = scratch_file("logs");
  mkdir(d.c_str(), 0700), mkdir((d + "/in").c_str(), 0700);
  return d;
}
void clean(const string &d, const vector<string> &files) {
  for (auto &f : files)
    unlink((d + "/in/" + f).c_str());
  unlink((d + "/out").c_str());
  rmdir((d + "/in").c_str()), rmdir(d.c_str());
}
} // namespace

VP_PROP(stations, 5000, 150000, "two or more logs, one with more than one antenna") {
  const string d = dir();
  vector<string> files;
  vector<vector<Antenna>> sites;
  size_t most = 0;
  for (int i = g.boolean(0.01) ? (int)g.integer(5, 40) : (int)g.integer(1, 4); i > 0; i--) {
    const string name = upper(g, (int)g.integer(4, 10)) + std::to_string(i);
    sites.push_back(antennas(g));
    most = std::max(most, sites.back().size());
    string t = before(g, name) + block2(g, sites.back()) + after(g);
    if (g.boolean(0.2))
      while (!t.empty() && t.back() == '\n')
        t.pop_back();
    files.push_back(name + (g.boolean() ? ".LOG" : ".log"));
    write_file(d + "/in/" + files.back(), t);
    g.note("%s:\n%s", files.back().c_str(), t.c_str());
  }
  if (g.boolean(0.3)) {
    files.push_back(g.pick<const char *>({"README.txt", "CATALOG", "oldlog", "site.LOG~", "a.log.bak", "log"}));
    write_file(d + "/in/" + files.back(), before(g, "NOLOG") + block2(g, antennas(g)) + after(g));
  }
  const bool file = g.boolean();
  if (g.boolean(0.3)) // of an earlier run
    write_file(d + "/out", "Site From                To                  Height   \nOLDA 1990-01-01 00:00:00 1991-01-01 00:00:00  1.000000\n");
  vector<string> a = {"run", SCRIPT, d, "-l", g.boolean() ? "in" : d + "/in"};
  if (file)
    a.push_back("-o"), a.push_back("out");
  const PyResult r = pyrun(a);
  const string t = file ? slurp(d + "/out") : r.out;
  clean(d, files);
  VP_CHECK(r.rc == 0, "ended with %d: %s", r.rc, r.err.c_str());
  const vector<string> l = split(t);
  size_t n = 0, p = 1;
  for (auto &s : sites)
    n += s.size();
  VP_CHECK(l.size() == n + 1, "%zu lines for %zu antennas:\n%s", l.size(), n, t.c_str());
  // the logs in some order, the antennas of each in that of the log
  vector<bool> used(sites.size());
  while (p < l.size()) {
    size_t i = 0;
    while (i < sites.size() && (used[i] || l[p].compare(0, 3, sites[i][0].id, 0, 3) != 0))
      i++;
    // (two logs with the same first antenna: whichever fits)
    bool ok = false;
    for (size_t k = i; k < sites.size() && !ok; k++)
      if (!used[k] && p + sites[k].size() <= l.size()) {
        ok = true;
        for (size_t j = 0; j < sites[k].size() && ok; j++)
          ok = l[p + j].compare(0, 44, line(sites[k][j])) == 0 && near(strtod(l[p + j].c_str() + 44, nullptr), sites[k][j].h, 0, 0.51e-6);
        if (ok)
          used[k] = true, p += sites[k].size();
      }
    VP_CHECK(ok, "line %zu is of no antenna, or not of the next one: %s", p, t.c_str());
  }
  g.nontrivial(sites.size() > 1 && most > 1);
}
VP_PROP(damaged, 3000, 100000, "one thing is wrong in one log") {
  const string d = dir();
  vector<Antenna> as = antennas(g);
  const size_t k = g.choose(as.size());
  string t, how;
  switch (g.choose(4)) {
  case 0: {
    static const char *w[] = {"identifier", "height", "date of installation", "date of removal"};
    const int f = (int)g.choose(4);
    how = fmt("no %s of antenna %zu", w[f], k + 1), t = before(g, "SITE") + block2(g, as, k, f) + after(g);
    break;
  }
  case 1:
    how = fmt("no such date, antenna %zu", k + 1);
    as[k].from[0] = 32;
    if (g.boolean())
      as[k].from[0] = 30, as[k].from[1] = 2;
    t = before(g, "SITE") + block2(g, as) + after(g);
    break;
  case 2:
    how = fmt("no such date of removal, antenna %zu", k + 1);
    as[k].to[1] = 13, as[k].to[2] = 2001;
    if (g.boolean())
      as[k].note = g.pick<const char *>({"12-10-2001", "unknown", "2001", "in 2001", "10/2001", "12/10/", "-", "12 October 2001"});
    t = before(g, "SITE") + block2(g, as) + after(g);
    break;
  default:
    how = "no block 2";
    t = before(g, "SITE");
    t = t.substr(0, t.find("\n2. ") + 1) + after(g);
  }
  write_file(d + "/in/site.log", t);
  g.note("%s:\n%s", how.c_str(), t.c_str());
  const PyResult r = pyrun({"run", SCRIPT, d, "-l", "in", "-o", "out"});
  const PyResult q = pyrun({"run", SCRIPT, d, "-l", "nowhere"});
  clean(d, {"site.log"});
  VP_CHECK(r.rc != 124, "no end");
  VP_CHECK(r.rc != 0, "%s, and the program reported success", how.c_str());
  VP_CHECK(q.rc != 0 && q.rc != 124, "a directory that is not there: %d", q.rc);
  g.nontrivial();
  g.label(how.substr(0, 12));
}
