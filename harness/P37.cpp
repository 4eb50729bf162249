// Jason-3 attitude quaternions.
#include "jason3_quaternions.hpp"
#include "datetime/utcdates.hpp"
#include "vpbt.hpp"
using namespace vp;
using std::string;
using std::vector;
typedef long double ld;
struct Rec {
  long mjd;   // UTC
  int64_t ms; // of the UTC day
  string q[4];
  double v[4];
  ld tai;
};
static ld tai_of(long mjd, int64_t ms) {
  return (ld)mjd + ((ld)ms / 1e3L + (ld)dso::dat(dso::modified_julian_day(mjd))) / 86400.0L;
}
static void attitude(Gen &g, const double *prev, double *q) {
  if (!prev || g.boolean(0.1)) {
    double n = 0;
    do {
      n = 0;
      for (int i = 0; i < 4; i++)
        q[i] = g.real(-1, 1), n += q[i] * q[i];
    } while (n < 1e-2);
    for (int i = 0; i < 4; i++)
      q[i] /= std::sqrt(n);
    return;
  }
  double w[4], n = 0;
  const double s = g.pick({0., 1e-6, 1e-3, 0.1, 0.5});
  for (int i = 0; i < 4; i++)
    w[i] = prev[i] + s * g.real(-1, 1), n += w[i] * w[i];
  const double f = g.boolean(0.25) ? -1 : 1; // the same attitude
  for (int i = 0; i < 4; i++)
    q[i] = f * w[i] / std::sqrt(n);
}
static vector<Rec> records(Gen &g, int n) {
  vector<Rec> v;
  // now and then across a leap second
  long m0 = g.boolean(0.15) ? g.pick({57203L, 57753L, 56108L}) : g.integer(57000, 59500);
  int64_t t = m0 * 86400000LL + (g.boolean(0.3) ? 86400000 - g.integer(1, 120000) : g.integer(0, 86399999));
  for (int i = 0; i < n; i++) {
    Rec r;
    r.mjd = (long)(t / 86400000), r.ms = t % 86400000;
    r.tai = tai_of(r.mjd, r.ms);
    double q[4];
    attitude(g, i ? v.back().v : nullptr, q);
    for (int k = 0; k < 4; k++)
      r.q[k] = fmt("%.*f", g.boolean(0.2) ? 12 : 9, q[k]), r.v[k] = strtod(r.q[k].c_str(), nullptr);
    v.push_back(r);
    t += g.weighted({3, 1}) == 0 ? g.integer(500, 32000) : g.integer(32000, 7200000);
  }
  return v;
}
static string col(Gen &g, int w) {
  string s(w, ' ');
  for (auto &c : s)
    c = "_AZ09 ."[g.choose(7)];
  return s;
}
static string line(Gen &g, const Rec &r) {
  int y, m, d;
  dso::vp_mjd2ymd(r.mjd, y, m, d);
  const char a = g.pick({'/', '-'}), b = g.pick({' ', 'T', ':'});
  string s = fmt("%04d%c%02d%c%02d%c%02d:%02d:%02d.%03d", y, a, m, a, d, b, (int)(r.ms / 3600000), (int)(r.ms / 60000 % 60), (int)(r.ms / 1000 % 60), (int)(r.ms % 1000));
  s += "\t" + col(g, 10) + "\t" + r.q[0] + "\t";
  for (int i = 1; i < 4; i++)
    s += col(g, 4) + "\t" + col(g, 10) + "\t" + r.q[i] + "\t";
  if (g.boolean(0.3))
    s += col(g, 6);
  return s;
}
static string text(Gen &g, const vector<Rec> &v, vector<string> *lines = nullptr) {
  string s;
  const bool comments = g.boolean();
  for (size_t i = 0; i < v.size(); i++) {
    while (comments && g.boolean(0.15))
      s += "#" + (g.boolean() ? string() : col(g, 100)) + "\n";
    const string l = lines ? (*lines)[i] : line(g, v[i]);
    s += l + "\n";
  }
  if (g.boolean(0.2))
    s.pop_back();
  return s;
}
static void slerp(const double *a, const double *b, ld u, ld *q) {
  ld na = 0, nb = 0, c = 0;
  for (int i = 0; i < 4; i++)
    na += (ld)a[i] * a[i], nb += (ld)b[i] * b[i], c += (ld)a[i] * b[i];
  c /= sqrtl(na * nb);
  const ld sg = c < 0 ? -1 : 1;
  // angle from chord: accurate when small
  ld ch = 0;
  for (int i = 0; i < 4; i++) {
    const ld d = a[i] / sqrtl(na) - sg * b[i] / sqrtl(nb);
    ch += d * d;
  }
  const ld th = 2 * asinl(sqrtl(ch) / 2);
  const ld wa = th < 1e-12L ? 1 - u : sinl((1 - u) * th) / sinl(th), wb = th < 1e-12L ? u : sinl(u * th) / sinl(th);
  ld n = 0;
  for (int i = 0; i < 4; i++)
    q[i] = wa * a[i] / sqrtl(na) + sg * wb * b[i] / sqrtl(nb), n += q[i] * q[i];
  for (int i = 0; i < 4; i++)
    q[i] /= sqrtl(n);
}
// at TAI t the interpolation between records i, i+1
static void expect(const vector<Rec> &v, size_t i, double t, const Eigen::Quaterniond &q) {
  const ld u = ((ld)t - v[i].tai) / (v[i + 1].tai - v[i].tai);
  ld w[4];
  slerp(v[i].v, v[i + 1].v, u, w);
  const double got[4] = {q.w(), q.x(), q.y(), q.z()};
  ld dp = 0, dm = 0, c = 0;
  for (int k = 0; k < 4; k++)
    dp += (got[k] - w[k]) * (got[k] - w[k]), dm += (got[k] + w[k]) * (got[k] + w[k]), c += (ld)v[i].v[k] * v[i + 1].v[k];
  // a day count has some 7e-12 days of resolution; turned into an angle
  const ld tol = 2e-8L + 4 * 2e-11L / (v[i + 1].tai - v[i].tai);
  if (std::fabs((double)c) < 1e-6)
    return; // half a turn apart: either way round
  VP_CHECK(sqrtl(std::min(dp, dm)) < tol, "%.9Lg of the way from record %zu to the next the attitude is (%.9f %.9f %.9f %.9f), should be (%.9Lf %.9Lf %.9Lf %.9Lf)", u, i, got[0], got[1], got[2], got[3], w[0], w[1], w[2], w[3]);
}
VP_PROP(interpolation, 24000, 200000, "epochs in more than one place, and some that cannot be had") {
  const vector<Rec> v = records(g, (int)(g.boolean(0.02) ? g.integer(100, 700) : g.integer(5, 24)));
  const string t = text(g, v);
  const string fn = scratch_file("quat");
  write_file(fn, t);
  g.note("%s", t.c_str());
  dso::JasonQuaternionHunter h(fn.c_str());
  vector<double> at; // the epochs as read
  {
    dso::JasonBodyQuaternionFile f(fn.c_str());
    dso::JasonBodyQuaternion r;
    for (size_t k = 0; k < v.size(); k++) {
      VP_CHECK(f.get_next(r) == 0, "record %zu of %zu not read", k, v.size());
      at.push_back(r.tai_mjd);
    }
  }
  // epochs delivered so far keep the reader this far in the file at most
  size_t furthest = 0;
  bool past = false;
  int good = 0, bad = 0;
  const int n = (int)g.integer(1, 14);
  size_t i = 0;
  for (int s = 0; s < n; s++) {
    Eigen::Quaterniond q(9, 9, 9, 9);
    const int kind = g.weighted({10, 2, 1, 1, 2});
    if (kind == 0 && !past) {
      // forward, staying or skipping
      i = std::min(i + (g.boolean(0.5) ? 0 : g.integer(1, g.boolean(0.7) ? 2 : g.boolean(0.7) ? 12 : v.size())), v.size() - 2);
      const ld u = g.realb(0.0, 0.999, {0.001, 0.5});
      double tt = (double)(v[i].tai + (v[i + 1].tai - v[i].tai) * u);
      if ((ld)tt < v[i].tai + 3e-11L)
        tt = (double)(v[i].tai + 3e-11L);
      if ((ld)tt > v[i + 1].tai - 3e-11L)
        continue;
      g.note("forward to %.15f in interval %zu", tt, i);
      // within the reach of what has been read, epochs may go back; the check
      // does that below
      const int rc = h.get_at(tt, q);
      VP_CHECK(rc == 0, "epoch %.15f between records %zu and %zu of %zu refused (%d)", tt, i, i + 1, v.size(), rc);
      expect(v, i, tt, q);
      furthest = std::max(furthest, i);
      ++good;
    } else if (kind == 1 && !past) {
      // a little back: delivered right, or refused
      const size_t k = furthest ? furthest - g.integer(0, std::min<size_t>(furthest, 6)) : 0;
      const double tt = (double)(v[k].tai + (v[k + 1].tai - v[k].tai) * 0.37L);
      g.note("back to %.15f in interval %zu", tt, k);
      if (h.get_at(tt, q) == 0)
        expect(v, k, tt, q), ++good;
      else {
        VP_CHECK(k < furthest, "an epoch in the interval just used was refused");
        ++bad;
      }
    } else if (kind == 2) {
      const double tt = (double)v[0].tai - g.logreal(1e-9, 10);
      g.note("before the file: %.15f", tt);
      VP_CHECK(h.get_at(tt, q) != 0, "an epoch before the first record was delivered");
      ++bad;
    } else if (kind == 3) {
      const double tt = (double)v.back().tai + g.logreal(1e-9, 10);
      g.note("after the file: %.15f", tt);
      VP_CHECK(h.get_at(tt, q) != 0, "an epoch after the last record was delivered");
      past = true; // the reader is at the end now
      ++bad;
    } else if (kind == 4 && !past) {
      // right at a record, the first one too
      i = std::min(i + (g.boolean(0.5) ? 0 : g.integer(1, g.boolean(0.7) ? 2 : g.boolean(0.7) ? 12 : v.size())), v.size() - 2);
      g.note("right at record %zu, %.15f", i, at[i]);
      const int rc = h.get_at(at[i], q);
      VP_CHECK(rc == 0, "the epoch of record %zu of %zu refused (%d)", i, v.size(), rc);
      expect(v, i, at[i], q);
      furthest = std::max(furthest, i);
      ++good;
    } else if (past) {
      // only the end of the file is left: right or refused
      const size_t k = v.size() - 2 - g.integer(0, std::min<size_t>(v.size() - 2, 6));
      const double tt = (double)(v[k].tai + (v[k + 1].tai - v[k].tai) * 0.61L);
      g.note("after the end, %.15f in interval %zu", tt, k);
      if (h.get_at(tt, q) == 0)
        expect(v, k, tt, q), ++good;
      else {
        VP_CHECK(k + 2 < v.size(), "an epoch in the last interval was refused");
        ++bad;
      }
    }
  }
  g.nontrivial(good > 1 && bad);
}
VP_PROP(records_read, 3000, 80000, "more than one record") {
  const vector<Rec> v = records(g, (int)g.integer(1, 12));
  const string fn = scratch_file("quat");
  write_file(fn, text(g, v));
  dso::JasonBodyQuaternionFile f(fn.c_str());
  size_t at = 0;
  auto one = [&](const dso::JasonBodyQuaternion &r) {
    const Rec &w = v[at];
    VP_CHECK(std::fabs((double)((ld)r.tai_mjd - w.tai)) < 3e-11, "record %zu: epoch %.15f, should be %.15Lf", at, r.tai_mjd, w.tai);
    VP_CHECK(r.quaternion.w() == w.v[0] && r.quaternion.x() == w.v[1] && r.quaternion.y() == w.v[2] && r.quaternion.z() == w.v[3], "record %zu: (%.9f %.9f %.9f %.9f) for (%.9f %.9f %.9f %.9f)", at, r.quaternion.w(), r.quaternion.x(), r.quaternion.y(), r.quaternion.z(), w.v[0], w.v[1], w.v[2], w.v[3]);
    ++at;
  };
  while (at < v.size()) {
    const int k = (int)g.integer(1, (int64_t)(v.size() - at));
    if (k == 1 && g.boolean()) {
      dso::JasonBodyQuaternion r;
      VP_CHECK(f.get_next(r) == 0, "record %zu of %zu not read", at, v.size());
      one(r);
    } else {
      dso::JasonBodyQuaternion r[12];
      VP_CHECK(f.get_next(r, k) == 0, "records %zu to %zu of %zu not read", at, at + k - 1, v.size());
      for (int i = 0; i < k; i++)
        one(r[i]);
    }
  }
  dso::JasonBodyQuaternion r[2];
  VP_CHECK((g.boolean() ? f.get_next(r[0]) : f.get_next(r, g.integer(1, 2))) != 0, "a record after the last");
  g.nontrivial(v.size() > 1);
}
VP_PROP(damaged, 20000, 150000, "the damaged record was needed") {
  const vector<Rec> v = records(g, (int)g.integer(5, 12));
  vector<string> l;
  for (const Rec &r : v)
    l.push_back(line(g, r));
  const size_t k = g.choose(v.size());
  string &s = l[k];
  bool wrong = true;
  switch (g.choose(4)) {
  case 0: { // cut before the end of the last component
    size_t tabs = 0, end = 0;
    for (size_t i = 0; i < s.size(); i++)
      if (s[i] == '\t' && ++tabs == 11)
        end = i;
    s.resize(g.integer(1, (int64_t)end - 1));
    break;
  }
  case 1: { // a component that is no number
    size_t tabs = 0, i = 0;
    const size_t want = (size_t)(2 + 3 * g.choose(4));
    while (i < s.size() && !(s[i] == '\t' && ++tabs == want))
      ++i;
    s[i + 1] = "x*\t "[g.choose(4)];
    break;
  }
  case 2: s = g.boolean() ? "" : col(g, 40); break;
  default: // whatever bytes
    for (int n = (int)g.integer(1, 6); n > 0; --n)
      s[g.choose(s.size())] = (char)g.choose(256);
    wrong = false;
  }
  const string fn = scratch_file("quat");
  const string t = text(g, v, &l);
  write_file(fn, t);
  g.note("%s", t.c_str());
  dso::JasonBodyQuaternion r[12];
  if (g.boolean()) {
    dso::JasonBodyQuaternionFile f(fn.c_str());
    const int rc = f.get_next(r, (int)v.size());
    if (wrong) {
      VP_CHECK(rc != 0, "record %zu is damaged, reading all %zu gave no error", k, v.size());
      g.nontrivial();
    }
    return;
  }
  try {
    dso::JasonQuaternionHunter h(fn.c_str());
    if (wrong)
      VP_CHECK(k >= 5 || !(dso::NumQuaternionsInBuffer > (int)k), "record %zu is damaged, and no error given", k);
    if (!wrong || !k)
      return;
    // epochs before it are to be had, those that need it are not
    size_t last = 0;
    for (size_t i = 0; i + 1 < v.size(); i += 1 + (g.boolean() ? 0 : g.choose(4))) {
      Eigen::Quaterniond q(9, 9, 9, 9);
      const double tt = (double)((v[i].tai + v[i + 1].tai) / 2);
      const int rc = h.get_at(tt, q);
      if (i + 1 < k) {
        last = i;
        VP_CHECK(rc == 0, "record %zu is damaged, interval %zu refused", k, i);
        expect(v, i, tt, q);
      } else {
        if (i == k || i + 1 == k)
          VP_CHECK(rc != 0, "record %zu is damaged, interval %zu delivered", k, i);
        else if (rc == 0)
          expect(v, i, tt, q);
        g.nontrivial();
        // and from here on: refused, or right as the other records have it
        vector<Rec> w = v;
        w.erase(w.begin() + k);
        bool moved = false;
        for (int n = (int)g.integer(0, 6); n > 0; --n) {
          size_t a = k > 3 ? k - 3 : 0;
          a = std::min(a + g.choose(6), w.size() - 2);
          const double u = (double)(w[a].tai + (w[a + 1].tai - w[a].tai) * (ld)g.pick({0.1, 0.4, 0.6, 0.9}));
          g.note("then %.15f", u);
          moved |= a + 1 >= k;
          if (h.get_at(u, q) == 0)
            expect(w, a, u, q);
          else
            VP_CHECK(moved || i > k || a + 2 != k || last + 5 < k, "record %zu is damaged, the interval just before it refused", k);
        }
        break;
      }
    }
  } catch (std::exception &) {
    if (wrong)
      VP_CHECK(k < 5, "a file whose damage is at record %zu cannot be opened", k);
  }
}
