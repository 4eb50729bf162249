// RKF45 integrator: accuracy, cost and protocol against closed-form solutions
// and a transcription of the published algorithm.
#include "rkf45.hpp"
#include "odegen.hpp"
using namespace vp;
using namespace odegen;
namespace {
void rhs(double t, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, void *par) {
  ((System *)par)->f(t, y.data(), yp.data());
}
double weighted(const double *got, const std::vector<L> &ex, double rel, double abs) {
  double e = 0;
  for (size_t i = 0; i < ex.size(); i++) {
    if (!std::isfinite(got[i]))
      return INFINITY;
    e = std::fmax(e, (double)(fabsl(got[i] - ex[i]) / (rel * fabsl(ex[i]) + abs)));
  }
  return e;
}
void run(Gen &g, bool rough) {
  const double t0 = g.weighted({3, 1}) ? 0e0 : g.real(-20, 20);
  System s = make(g, t0, rough);
  System sr = s;
  const bool tiny = g.boolean(0.05); // the relative tolerance is below what the method accepts
  const double rel = tiny ? g.real(0, 1e-12) : std::pow(10.0, g.real(-11, -3)), abs = (tiny ? 1e-11 : rel) * g.pick({1.0, 1.0, 0.1, 10.0, 1e-4});
  const double used = std::fmax(rel, 1e-12 + 2 * std::numeric_limits<double>::epsilon());
  g.note("t0 %.17g rel %.3g abs %.3g", t0, rel, abs);
  dso::RKF45 rk(rhs, s.n, rel, abs, &s);
  // another integrator at work in between
  System s2;
  s2.n = 2;
  const double w2 = g.real(-2, 2), rel2 = g.logreal(1e-9, 1e-5);
  s2.p.push_back({2, "circle", [=](double, const double *y, double *d) { d[0] = -w2 * y[1], d[1] = w2 * y[0]; },
                  [=](L t, L *y) { y[0] = cosl(w2 * t), y[1] = sinl(w2 * t); }});
  dso::RKF45 rk2(rhs, 2, rel2, rel2, &s2);
  Eigen::VectorXd z2(2);
  z2 << 1, 0;
  double t2 = 0;
  const double dir2 = g.sign();
  oderef::RKF ref([&](double t, const double *y, double *d) { sr.f(t, y, d); }, s.n, used, abs);
  double t = t0, tr = t0, worst = 1;
  Vec yr = s.start(t0);
  Eigen::VectorXd y = Eigen::Map<Eigen::VectorXd>(yr.data(), s.n);
  const int calls = (int)g.integer(1, 6);
  double dir = g.sign(), last = 0;
  bool first = true, same = true;
  std::vector<L> ex;
  for (int c = 0; c < calls; c++) {
    if (g.boolean(0.1)) {
      const double to = t2 + dir2 * g.real(0.01, 2);
      rk2.solve(t2, to, z2);
      VP_CHECK(rk2.flag() == 2 && t2 == to, "another integrator: flag %d", rk2.flag());
      std::vector<L> ex2;
      s2.exact(t2, ex2);
      const double e2 = weighted(z2.data(), ex2, rel2, rel2);
      VP_CHECK(e2 < 300, "another integrator, in between: at t = %.17g the error is %.3g times its tolerance", t2, e2);
      g.label("two integrators");
    }
    if (c && g.boolean(0.1))
      dir = -dir;
    const double step = g.pick({1.0, 0.1, 3.0, 1e-3}) * g.real(0.2, 3);
    double tout = t + dir * step;
    if (g.boolean(0.03))
      tout = std::nextafter(t, t + dir), g.label("next number");
    if (std::fabs(tout - t0) > 15)
      tout = t - dir * step, dir = -dir;
    if (c && (tout - t) * last < 0) {
      yr = s.start(t);
      y = Eigen::Map<Eigen::VectorXd>(yr.data(), s.n);
      worst = 1;
      g.label("turned round");
    }
    last = tout - t;
    g.note("to %.17g", tout);
    int again = 0;
    for (; again < 40; again++) {
      const double tb = t;
      const long n0 = s.nfe;
      s.lo = INFINITY, s.hi = -INFINITY;
      const Eigen::VectorXd before = y;
      rk.solve(t, tout, y);
      const int fl = rk.flag();
      VP_CHECK(fl == 2 || fl == 3 || fl == 4 || fl == 6, "flag %d", fl);
      VP_CHECK((fl == 2) == (t == tout), "flag %d at t = %.17g, going to %.17g", fl, t, tout);
      const double slack = 1e-13 * (1 + std::fabs(tout));
      VP_CHECK(s.nfe == n0 || (std::fmin(tb, tout) - slack <= s.lo && s.hi <= std::fmax(tb, tout) + slack),
               "from %.17g to %.17g the right-hand side was evaluated over [%.17g, %.17g]", tb, tout, s.lo, s.hi);
      VP_CHECK((t - tb) * (tout - tb) >= 0, "from %.17g to %.17g the call ended at %.17g", tb, tout, t);
      if (fl == 3) {
        VP_CHECK(tiny && first, "flag 3 with relative tolerance %g", rel);
        VP_CHECK(t == tb && y == before && s.nfe == n0, "flag 3, and the call moved");
        g.label("tolerance refused");
      }
      first = false;
      if (fl == 4) {
        VP_CHECK(s.nfe - n0 > 3000 && s.nfe - n0 < 3020, "flag 4 after %ld evaluations", s.nfe - n0);
        g.label("many steps");
      }
      if (fl == 2 || fl == 6)
        break;
    }
    ref.flag = 0;
    for (int i = 0; i < 40 && ref.flag != 2 && ref.flag != 6; i++)
      ref.solve(tr, tout, yr);
    if (rk.flag() == 6) { // the tolerance is out of reach, at a jump
      VP_CHECK(ref.flag == 6 || !s.smooth || rel < 1e-9, "flag 6 at t = %.17g on a smooth problem", t);
      g.label("out of reach");
      break;
    }
    VP_CHECK(t == tout, "t = %.17g after %d calls, going to %.17g (flag %d)", t, again, tout, rk.flag());
    if (tr != tout)
      break;
    s.exact(t, ex);
    const double e = weighted(y.data(), ex, used, abs), er = weighted(yr.data(), ex, used, abs);
    worst = std::fmax(worst, er);
    VP_CHECK(e <= 3 * worst + 3e-15 * s.nfe / std::fmin(used, abs), "at t = %.17g the error is %.3g times the tolerance; %.3g with the published algorithm", t, e, er);
    VP_CHECK(s.nfe <= 1.2 * sr.nfe + 60, "at t = %.17g: %ld derivative evaluations, the published algorithm needs %ld", t, s.nfe, sr.nfe);
    if (s.nfe != sr.nfe || sr.nfe > 1000)
      same = false;
    if (same && rel >= 1e-9 && abs >= 1e-12) {
      for (int i = 0; i < s.n; i++) {
        const double d = std::fabs(y(i) - yr[i]) / (used * std::fabs(yr[i]) + abs);
        VP_CHECK(d < 0.1, "at t = %.17g y(%d) is %.3g tolerances from the published algorithm in as many evaluations (%ld)", t, i, d, s.nfe);
      }
      g.label("compared step for step");
    }
  }
  g.nontrivial(sr.nfe > 30);
  g.label(s.smooth ? "smooth" : "with a jump");
}
} // namespace
VP_PROP(smooth, 15000, 200000, "more than 30 derivative evaluations") { run(g, false); }
VP_PROP(rough, 8000, 100000, "same, with jumps of the derivative") { run(g, true); }

VP_PROP(refused, 2000, 20000, "every case") {
  System s = make(g, 0, false);
  double rel = g.logreal(1e-10, 1e-3), abs = rel;
  (g.boolean() ? rel : abs) *= -1;
  const double t0 = g.real(-5, 5), tout = t0 + g.real(-5, 5);
  g.note("rel %g abs %g from %.17g to %.17g", rel, abs, t0, tout);
  dso::RKF45 rk(rhs, s.n, rel, abs, &s);
  Vec y0 = s.start(t0);
  Eigen::VectorXd y = Eigen::Map<Eigen::VectorXd>(y0.data(), s.n);
  const Eigen::VectorXd b = y;
  for (int i = 0; i < 3; i++) {
    double t = t0;
    rk.solve(t, tout, y);
    VP_CHECK(rk.flag() == 8 && t == t0 && y == b && s.nfe == 0, "flag %d, t from %.17g to %.17g, %ld evaluations", rk.flag(), t0, t, s.nfe);
  }
  g.nontrivial(true);
}

// relative errors only: a component that stays zero cannot be controlled
VP_PROP(zero, 1000, 10000, "every case") {
  System s;
  s.n = 2;
  const double c = g.boolean() ? 0 : g.real(0.5, 2);
  s.p.push_back({2, "zero", [=](double, const double *y, double *d) { d[0] = -y[0], d[1] = c; }, nullptr});
  dso::RKF45 rk(rhs, 2, g.logreal(1e-9, 1e-4), 0, &s);
  Eigen::VectorXd y(2);
  y << 1, 0;
  double t = 0;
  rk.solve(t, g.real(0.1, 3), y);
  g.note("slope of the second component %g", c);
  if (c == 0)
    VP_CHECK(rk.flag() == 5 && t == 0 && y(0) == 1 && y(1) == 0, "flag %d at t = %g", rk.flag(), t);
  else
    VP_CHECK(rk.flag() == 2 && near(y(1), c * t, 1e-9, 1e-12), "flag %d at t = %g, y %g", rk.flag(), t, y(1));
  const long n = s.nfe;
  if (c == 0) {
    rk.solve(t, 4, y);
    VP_CHECK(s.nfe == n && t == 0, "the second call went on");
  }
  g.nontrivial(true);
}
