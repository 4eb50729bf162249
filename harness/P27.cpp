// Relative frequency offset of the receiver, fitted to RINEX files.
#include "rnxgen.hpp"
using namespace vp;
using namespace rnx;
typedef long double ld;
using dt_t = dso::datetime<dso::nanoseconds>;
static const ld NS = 1e9L;
static void mk(Gen &g, File &f, long mjd, int fi, bool smooth, double a, double b, int64_t dense) {
  // epochs spread over the day, one F value per epoch
  const int64_t day = 86400LL * 1000000000LL;
  int64_t t = dense ? 0 : g.integer(0, day / 4);
  for (auto &x : f.ep) {
    t += dense ? g.integer(dense / 2, dense) : g.integer(day / 100, day / 20);
    x.mjd = mjd + t / day, x.ns = t % day;
    Val v;
    v.kind = g.weighted({10, 1, 1});
    if (v.kind == 0) {
      const double val = smooth ? a + b * (double)t / 86400e9 : 0;
      v.milli = (smooth ? (int64_t)std::llround(val * 1e3) : 0) + g.sign() * g.integer(1, 99999);
    } else {
      v.milli = 0;
    }
    v.f1 = v.f2 = ' ';
    for (auto &bc : x.b)
      bc.v[fi] = v;
  }
}
static bool setup(Gen &g, vector<File> &fs, int nfiles, int ne, int64_t dense = 0) {
  const double a = g.real(-500, 500), b = g.real(-100, 100);
  const bool smooth = g.boolean();
  for (int k = 0; k < nfiles; k++) {
    File f = gen(g, ne, 4);
    int fi = -1;
    for (size_t i = 0; i < f.codes.size(); i++)
      if (f.codes[i].t == 'F')
        fi = (int)i;
    if (fi < 0) {
      g.label("no F in the file");
      fs.push_back(f);
      return false;
    }
    mk(g, f, (k ? fs[0] : f).refdate.mjd + k, fi, smooth, a, b, dense);
    fs.push_back(f);
  }
  return true;
}
// F value of a block, if it has one
static bool fval(const File &f, const Epoch &x, ld &v) {
  for (size_t i = 0; i < f.codes.size(); i++)
    if (f.codes[i].t == 'F') {
      if (x.b.empty() || x.b[0].v[i].kind || x.b[0].v[i].milli == 0)
        return false;
      v = (ld)x.b[0].v[i].milli / 1e3L / f.factor[i];
      return true;
    }
  return false;
}
VP_PROP(least_squares, 9000, 60000, "two or more files, groups left over") {
  vector<File> fs;
  // many values close together, now and then
  const int64_t dense = g.boolean(0.15) ? (int64_t)g.logreal(2e7, 3e9) : 0;
  const int nf = dense ? 1 : (int)g.integer(1, 3);
  if (!setup(g, fs, nf, dense ? 90 : 24, dense))
    g.discard();
  vector<string> names;
  vector<const char *> ptr;
  for (int k = 0; k < nf; k++) {
    names.push_back(scratch_file(fmt("rnx%d", k).c_str()));
    const string t = lines(fs[k], g).text();
    write_file(names.back(), t);
    g.note("file %d\n%s", k, t.c_str());
  }
  for (auto &s : names)
    ptr.push_back(s.c_str());
  const bool tai = g.boolean();
  const int every = g.pick({1, 2, 3, 4, 5, 8, 40});
  const int order = (int)g.integer(1, 3);
  dt_t start = dt_t::min(), end = dt_t::max();
  const long mjd0 = fs[0].refdate.mjd;
  auto rnd = [&](double lo, double hi) {
    return dt_t(dso::modified_julian_day(mjd0), dso::nanoseconds((long)(g.real(lo, hi) * 86400) * 1000000000L));
  };
  const int lim = g.weighted({4, 1, 1, 2});
  // whole seconds, or right at an epoch
  auto right_at = [&](dt_t &d) {
    const File &f = fs[g.choose(fs.size())];
    if (f.ep.empty())
      return;
    const Epoch &x = f.ep[g.choose(f.ep.size())];
    int64_t s = x.ns + (f.clk == 1 ? 0 : x.off), m = x.mjd;
    while (s < 0)
      s += 86400000000000LL, --m;
    m += s / 86400000000000LL, s %= 86400000000000LL;
    d = dt_t(dso::modified_julian_day(m), dso::nanoseconds(s));
  };
  if (lim & 1) {
    start = rnd(0, dense ? 3e-4 : nf * 0.4);
    if (g.boolean(0.4))
      right_at(start);
  }
  if (lim & 2) {
    end = dense ? rnd(1e-3, 1.5e-3) : rnd(nf * 0.5, nf + .5);
    if (g.boolean(0.4))
      right_at(end);
  }
  // data points
  vector<ld> T, F, W;
  int left = 0;
  auto key = [](long mjd, int64_t ns) { return (__int128)mjd * 86400 * 1000000000LL + ns; };
  auto kd = [&](const dt_t &d) { return key(d.mjd().as_underlying_type(), d.sec().as_underlying_type()); };
  const __int128 ref = key(mjd0, 0);
  for (const auto &f : fs) {
    vector<ld> v;
    __int128 t0 = 0, t1 = 0;
    auto flush = [&] {
      ld s = 0;
      for (ld x : v)
        s += x;
      F.push_back(s / v.size());
      T.push_back((ld)(double)(t0 - ref + (t1 - t0) / 2) / NS);
      v.clear();
    };
    for (const auto &x : f.ep) {
      const __int128 prop = key(x.mjd, x.ns), l1 = prop + (f.clk == 1 ? 0 : x.off);
      if (l1 >= kd(end))
        break;
      ld val;
      if (l1 < kd(start) || !fval(f, x, val))
        continue;
      t1 = tai ? l1 : prop;
      if (v.empty())
        t0 = t1;
      v.push_back(val);
      if ((int)v.size() == every)
        flush();
    }
    if (!v.empty())
      flush(), ++left;
  }
  dso::PolynomialModel<dt_t> fit(order);
  int err = -1;
  captured([&] { err = dso::fit_relative_frequency_offset(ptr, fit, tai, every, start, end); });
  const int n = (int)T.size(), M = order + 1;
  g.label(fmt("order %d", order));
  if (n < M) {
    VP_CHECK(err != 0, "%d points determine a polynomial of order %d", n, order);
    return;
  }
  VP_CHECK(err == 0, "the fit fails (%d) on %d points", err, n);
  VP_CHECK(kd(fit.xref) == ref, "reference epoch is not that of the first file");
  VP_CHECK(fit.order() == order, "order %d", fit.order());
  // orthogonality of the residuals to 1, t, t^2 with t scaled about the centre
  ld lo = T[0], hi = T[0], far = 0, fm = 0;
  for (int i = 0; i < n; i++)
    lo = std::min(lo, T[i]), hi = std::max(hi, T[i]), far = std::max(far, std::fabs(T[i])), fm = std::max(fm, std::fabs(F[i]));
  const ld span = (hi - lo) / 2, mid = (hi + lo) / 2;
  if (n < M + 1 || span < (dense ? 0.1L : 8000))
    g.discard();
  // how well the normal equations in t (not centred) determine it
  const ld cond = std::pow(far / span, 2.0L * order) * (order == 3 ? 20000 : order == 2 ? 500 : 20) * n;
  if (cond > 1e9L)
    g.discard();
  ld S[4]{}, sum = 0;
  for (int i = 0; i < n; i++) {
    const ld y = (ld)fit.cf[0] + T[i] * (fit.cf[1] + (order > 1 ? T[i] * (fit.cf[2] + (order > 2 ? T[i] * fit.cf[3] : 0)) : 0));
    const ld r = F[i] - y, u = (T[i] - mid) / span;
    sum += std::fabs(r);
    for (int k = 0; k < M; k++)
      S[k] += r * std::pow(u, (ld)k);
  }
  const ld tol = n * (fm + sum / n) * cond * 1e-15L + n * fm * 1e-12L;
  for (int k = 0; k < M; k++)
    VP_CHECK(std::fabs(S[k]) <= tol, "fit of %d points (%s, groups of %d): residuals not orthogonal to t^%d: %.3Lg (tolerance %.3Lg, values up to %.6Lg)", n, tai ? "TAI" : "proper time", every, k, S[k], tol,
             fm);
  g.nontrivial(nf > 1 && left);
}
VP_PROP(kalman, 2500, 60000, "at least five values in several files") {
  vector<File> fs;
  const int nf = (int)g.integer(1, 3);
  if (!setup(g, fs, nf, 12))
    g.discard();
  vector<string> names;
  for (int k = 0; k < nf; k++) {
    names.push_back(scratch_file(fmt("rnx%d", k).c_str()));
    const string t = lines(fs[k], g).text();
    write_file(names.back(), t);
    g.note("file %d\n%s", k, t.c_str());
  }
  vector<char *> ptr;
  for (auto &s : names)
    ptr.push_back(&s[0]);
  const double sx = g.logreal(1e-2, 1e2), sv = g.logreal(1e-2, 1e2), sz = g.logreal(1e-1, 1e2);
  int err = -1;
  const string out = captured([&] { err = dso::fit_relative_frequency_offset(ptr.data(), nf, sx, sv, sz); });
  // start from the first value
  bool have = false;
  long m0 = 0;
  int64_t n0 = 0;
  ld x0 = 0;
  for (const auto &x : fs[0].ep)
    if (!have && fval(fs[0], x, x0))
      have = true, m0 = x.mjd, n0 = x.ns;
  if (!have) {
    VP_CHECK(err != 0, "a fit to a first file without values succeeds");
    return;
  }
  VP_CHECK(err == 0, "the fit fails (%d)", err);
  // information form: prior x = (x0, 3)
  const ld w = 1 / ((ld)sz * sz);
  ld A = 1 / ((ld)sx * sx), B = 0, C = 1 / ((ld)sv * sv), p = A * x0, q = C * 3;
  size_t pos = 0;
  int cnt = 0;
  ld xa = x0, xb = 3, fm = std::fabs(x0) + 3;
  for (const auto &f : fs)
    for (const auto &x : f.ep) {
      ld z;
      if (!fval(f, x, z))
        continue;
      const ld t = ((ld)(x.mjd - m0) * 86400 * NS + (ld)(x.ns - n0)) / (86400 * NS);
      A += w, B += w * t, C += w * t * t, p += w * z, q += w * t * z;
      const ld D = A * C - B * B;
      xa = (C * p - B * q) / D, xb = (A * q - B * p) / D;
      const ld pa = C / D, pb = A / D;
      fm = std::max(fm, std::fabs(z));
      double mjd, o, a, b, ea, eb;
      while (!out.compare(pos, 1, "["))
        pos = out.find('\n', pos) + 1;
      const size_t e = out.find('\n', pos);
      VP_CHECK(sscanf(out.c_str() + pos, "%lf %lf %lf +/- %lf %lf +/- %lf", &mjd, &o, &a, &ea, &b, &eb) == 6, "value %d: \"%s\"", cnt, out.substr(pos, e - pos).c_str());
      pos = e + 1, ++cnt;
      const ld tol = 1e-7L * (1 + fm) * (1 + (ld)sx / sz + (ld)sv / sz) + 2e-8L;
      VP_CHECK(std::fabs(o - z) < 1e-7, "value %d read %.8f, written %.8Lf", cnt, o, z);
      VP_CHECK(std::fabs(a - xa) < tol && std::fabs(b - xb) < tol, "after %d values: %.8f + %.8f t, the estimate from all of them is %.8Lf + %.8Lf t", cnt, a, b, xa, xb);
      VP_CHECK(near(ea, (double)std::sqrt(pa), 1e-6, 2e-9) && near(eb, (double)std::sqrt(pb), 1e-6, 2e-9), "after %d values: uncertainties %.10f %.10f, true %.10Lf %.10Lf", cnt, ea, eb, std::sqrt(pa),
               std::sqrt(pb));
    }
  const size_t i = out.rfind("Model:");
  double a, b;
  VP_CHECK(i != string::npos && sscanf(out.c_str() + i, "Model: %lf + %lf * x", &a, &b) == 2, "no model printed");
  VP_CHECK(std::fabs(a - xa) < 1e-4 + 1e-6 * std::fabs(a) && std::fabs(b - xb) < 1e-4 + 1e-6 * std::fabs(b), "model %.4f + %.4f x, the estimate from all values is %.4Lf + %.4Lf x", a, b, xa, xb);
  g.nontrivial(cnt > 4 && nf > 1);
}
// what cannot be fitted is reported
VP_PROP(refused, 600, 10000, "always") {
  vector<File> fs;
  const bool ok = setup(g, fs, 1, 6);
  // a value that is not the same for all of a block
  bool differ = false;
  if (ok && g.boolean(0.3))
    for (auto &x : fs[0].ep)
      if (x.b.size() > 1 && !differ) {
        ld v;
        if (!fval(fs[0], x, v))
          continue;
        for (size_t i = 0; i < fs[0].codes.size(); i++)
          if (fs[0].codes[i].t == 'F')
            x.b[1 + g.choose(x.b.size() - 1)].v[i].milli += g.sign(), differ = true;
      }
  const string fn = scratch_file("rnx");
  string t = lines(fs[0], g).text();
  const int how = differ ? 4 : ok ? 1 + (int)g.choose(3) : 0;
  bool bad = true;
  switch (how) {
  case 0: break; // no F
  case 1: t.resize(t.size() < 100 ? 0 : 100); break;
  case 2: unlink(fn.c_str()); break;
  case 3: t += "> 2020 xx\n"; break;
  default: break;
  }
  if (how != 2)
    write_file(fn, t);
  dso::PolynomialModel<dt_t> fit(1);
  int e1 = -1, e2 = -1;
  captured([&] {
    e1 = dso::fit_relative_frequency_offset(fn.c_str(), fit);
    char *p = (char *)fn.c_str();
    e2 = dso::fit_relative_frequency_offset(&p, 1);
  });
  unlink(fn.c_str());
  g.label(how == 0 ? "no F" : how == 1 ? "cut header" : how == 2 ? "no such file" : how == 4 ? "two values in a block" : "bad epoch");
  VP_CHECK(bad && (e1 != 0 || how == 4) && e2 != 0, "a fit to an unusable file (%d) succeeds: %d %d", how, e1, e2);
  g.nontrivial();
}
