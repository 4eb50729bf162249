// Shampine-Gordon integrator: accuracy and cost against closed-form solutions
// and a transcription of the published algorithm (P09), protocol (P10).
#include "sgode.hpp"
#include "odegen.hpp"
using namespace vp;
using namespace odegen;
namespace {
#ifdef VARIANT_SRC
// src/integrators: the right-hand side gets the orbit integration parameters
void rhs(double t, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, dso::IntegrationParameters &par) noexcept {
  ((System *)par.user)->f(t, y.data(), yp.data());
}
struct Solver : dso::IntegrationParameters, dso::SGOde {
  Solver(System &s, double rel, double abs) : dso::IntegrationParameters{&s}, dso::SGOde(rhs, s.n, rel, abs, this) {}
};
std::unique_ptr<Solver> solver(System &s, double rel, double abs) { return std::unique_ptr<Solver>(new Solver(s, rel, abs)); }
#else
void rhs(double t, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, void *par) {
  ((System *)par)->f(t, y.data(), yp.data());
}
std::unique_ptr<dso::SGOde> solver(System &s, double rel, double abs) { return std::unique_ptr<dso::SGOde>(new dso::SGOde(rhs, s.n, rel, abs, &s)); }
#endif
double weighted(const Vec &got, const std::vector<L> &ex, double rel, double abs) {
  double e = 0;
  for (size_t i = 0; i < got.size(); i++) {
    if (!std::isfinite(got[i]))
      return INFINITY;
    e = std::fmax(e, (double)(fabsl(got[i] - ex[i]) / (rel * fabsl(ex[i]) + abs)));
  }
  return e;
}
Vec tovec(const Eigen::VectorXd &y) { return Vec(y.data(), y.data() + y.size()); }

#if CHECK == 9
void run(Gen &g, bool rough, bool tight) {
  const double t0 = g.weighted({3, 1}) ? 0e0 : g.real(-20, 20);
  System s = make(g, t0, rough);
  System sr = s;
  double rel = std::pow(10.0, tight ? g.real(-14.5, -12) : g.real(-11.5, -4));
  double abs = g.weighted({3, 1}) ? rel : rel * g.logreal(1e-2, 1e2);
  abs = std::fmin(abs, 1e-3);
  if (tight && abs < rel)
    abs = rel;
  g.note("t0 %.17g rel %.3g abs %.3g", t0, rel, abs);
  auto sg = solver(s, rel, abs);
  oderef::SG ref([&](double t, const double *y, double *d) { sr.f(t, y, d); }, sr.n, rel, abs);
  double t = t0, tr = t0;
  Vec yr = s.start(t0);
  Eigen::VectorXd y = Eigen::Map<Eigen::VectorXd>(yr.data(), s.n), yo(s.n);
  const int calls = (int)g.integer(1, 8);
  double dir = g.sign(), worst = 0, last = 0;
  bool multi = false, same = true;
  std::vector<L> ex;
  for (int c = 0; c < calls; c++) {
    if (c && g.boolean(0.1)) {
      dir = -dir;
    }
    double step = g.pick({1.0, 0.1, 3.0, 1e-3}) * g.real(0.2, 3);
    double tout = t + dir * step;
    if (std::fabs(tout - t0) > 15)
      tout = t - dir * step, dir = -dir;
    if (c && (tout - t) * last < 0) { // turned round: from the exact state, so that errors do not pile up
      yr = s.start(t);
      y = Eigen::Map<Eigen::VectorXd>(yr.data(), s.n);
      g.label("turned round");
    }
    last = tout - t;
    g.note("to %.17g", tout);
    const bool bounded = g.boolean(0.15), yderiv = t != tout;
    // a call may end early with flag 3 to 5; the caller goes on
    for (int again = 0; again < 30; again++) {
      if (bounded) {
        if (sg->iflag > 0)
          sg->iflag = -sg->iflag;
        if (ref.iflag > 0)
          ref.iflag = -ref.iflag;
        g.label("bounded call");
      }
      if (std::abs(ref.iflag) != 6 && tr != tout)
        ref.de(tr, tout, yr);
      if (t == tout)
        break;
      const int r = sg->de(t, tout, y, yo);
      const int fl = std::abs(sg->flag());
      VP_CHECK(fl >= 2 && fl <= 5, "flag %d, return %d", sg->flag(), r);
      VP_CHECK((fl == 2) == (r == 0), "flag %d and return value %d", sg->flag(), r);
      VP_CHECK((fl == 2) == (t == tout), "flag %d at t = %.17g, going to %.17g", sg->flag(), t, tout);
      for (int i = 0; i < s.n; i++)
        VP_CHECK(std::isfinite(yo(i)), "y(%d) = %g at t = %.17g", i, yo(i), t);
      y = yo;
      if (fl == 2)
        break;
      multi = true;
      g.label(fl == 3 ? "tolerances raised" : fl == 4 ? "many steps" : "stiff");
    }
    VP_CHECK(t == tout, "t = %.17g after 30 calls, going to %.17g (flag %d)", t, tout, sg->flag());
    for (int again = 0; again < 30 && tr != tout; again++) {
      if (bounded && ref.iflag > 0)
        ref.iflag = -ref.iflag;
      ref.de(tr, tout, yr);
    }
    s.exact(t, ex);
    const double e = weighted(tovec(y), ex, sg->relerr, sg->abserr), er = weighted(yr, ex, ref.relerr, ref.abserr);
    worst = std::fmax(worst, er);
    const double bound = 30 * std::fmax(worst, 1) + 5e-15 * s.nfe / std::fmin(sg->relerr, sg->abserr); // rounding
    VP_CHECK(e <= bound, "at t = %.17g the error is %.3g times the tolerance; %.3g with the published algorithm", t, e, er);
    VP_CHECK(s.nfe <= (tight ? 3 : 1.5) * sr.nfe + 60, "at t = %.17g: %ld derivative evaluations, the published algorithm needs %ld", t, s.nfe, sr.nfe);
    // the same steps: the same result, up to rounding
    // (measured: below 2e-4 of the tolerance on this range; rounding grows with the number of steps)
    if (s.nfe != sr.nfe || sr.nfe > 200)
      same = false;
    if (same && rel >= 1e-9 && abs >= 1e-9) {
      for (int i = 0; i < s.n; i++) {
        const double d = std::fabs(y(i) - yr[i]) / (sg->relerr * std::fabs(yr[i]) + sg->abserr);
        VP_CHECK(d < 0.1, "at t = %.17g y(%d) is %.3g tolerances from the published algorithm in as many evaluations (%ld)", t, i, d, s.nfe);
      }
      if (!bounded && yderiv)
        for (int i = 0; i < s.n; i++) {
          const double d = std::fabs(sg->ypout(i) - ref.ypout[i]) / (1 + std::fabs(ref.ypout[i]));
          VP_CHECK(d < 1e-3 * std::cbrt(rel) + 1e-10, "at t = %.17g the derivative y'(%d) is %.17g; %.17g with the published algorithm", t, i, sg->ypout(i), ref.ypout[i]);
        }
      g.label("compared step for step");
    }
  }
  g.nontrivial(sr.nfe > 30);
  g.label(s.smooth ? "smooth" : "with a jump");
  if (multi)
    g.label("resumed");
}
VP_PROP(smooth, 15000, 200000, "more than 30 derivative evaluations") { run(g, false, false); }
VP_PROP(rough, 8000, 100000, "same, with jumps of the derivative") { run(g, true, false); }
VP_PROP(tight, 4000, 40000, "same, with tolerances near the rounding level") { run(g, false, true); }
#endif

#if CHECK == 10
// a history of calls, right and wrong ones
VP_PROP(protocol, 12000, 150000, "a call that ends early, one that is refused, or a bounded one") {
  const double t0 = g.weighted({3, 1}) ? 0e0 : g.real(-20, 20);
  System s = make(g, t0, false);
  double rel = std::pow(10.0, g.weighted({4, 1}) ? g.real(-11, -4) : g.real(-17, -13)), abs = rel * g.pick({1.0, 1.0, 0.01});
  const double ask = rel;
  System sr = s;
  oderef::SG ref([&](double t, const double *y, double *d) { sr.f(t, y, d); }, s.n, rel, abs);
  auto sg = solver(s, rel, abs);
  double t = t0, tr = t0, worst = 0;
  // another integrator at work in between
  System s2;
  s2.n = 2;
  const double w2 = g.real(-2, 2), rel2 = g.logreal(1e-9, 1e-5);
  s2.p.push_back({2, "circle", [=](double, const double *y, double *d) { d[0] = -w2 * y[1], d[1] = w2 * y[0]; },
                  [=](L t, L *y) { y[0] = cosl(w2 * t), y[1] = sinl(w2 * t); }});
  auto sg2 = solver(s2, rel2, rel2);
  Eigen::VectorXd z2(2), o2(2);
  z2 << 1, 0;
  double t2 = 0;
  const double dir2 = g.sign();
  const auto other = [&] {
    const double to = t2 + dir2 * g.real(0.01, 2);
    const int r = sg2->de(t2, to, z2, o2);
    VP_CHECK(r == 0 && t2 == to && sg2->flag() == 2, "another integrator: return %d flag %d", r, sg2->flag());
    z2 = o2;
    std::vector<L> ex2;
    s2.exact(t2, ex2);
    const double e2 = weighted(tovec(z2), ex2, rel2, rel2);
    VP_CHECK(e2 < 300, "another integrator, in between: at t = %.17g the error is %.3g times its tolerance", t2, e2);
    g.label("two integrators");
  };
  Vec yr = s.start(t0);
  Vec y0 = s.start(t0);
  Eigen::VectorXd y = Eigen::Map<Eigen::VectorXd>(y0.data(), s.n), yo = y;
  const int calls = (int)g.integer(1, 10);
  g.note("t0 %.17g rel %.3g abs %.3g", t0, rel, abs);
  bool interesting = false;
  double far = t0; // how far the solver has got
  double dir = 0;
  bool wasbounded = false;
  std::vector<L> ex;
  for (int c = 0; c < calls; c++) {
    if (g.boolean(0.15))
      other();
    const int op = g.weighted({6, 2, 1, 1, 1, 2});
    if (op >= 2 && op <= 4) { // refused
      const double orel = sg->relerr, oabs = sg->abserr;
      const int ofl = sg->iflag;
      double tout = t, tt = t;
      const bool moved = op == 2 && std::abs(ofl) >= 2 && std::abs(ofl) <= 5 && g.boolean();
      if (op != 2 || moved)
        tout = t + g.real(0.1, 2) * g.sign();
      if (moved) { // the integrator stands somewhere else
        tt = g.boolean(0.3) ? std::nextafter(t, t + 1) : t + g.sign() * g.logreal(1e-9, 3);
        if (tt == t || tt == tout)
          continue;
      }
      const double tb = tt;
      if (op == 3) {
        if (g.boolean())
          sg->relerr = -orel;
        else
          sg->abserr = -oabs;
        g.note("negative tolerance %g %g", sg->relerr, sg->abserr);
      } else if (op == 4) {
        if (g.boolean())
          sg->relerr = sg->abserr = 0, g.note("zero tolerances");
        else
          sg->iflag = 0, g.note("flag 0");
      } else if (moved)
        g.note("from %.17g, not where the last call ended", tt);
      else
        g.note("nowhere to go: t = tout");
      const long n0 = s.nfe;
      Eigen::VectorXd z = y;
      const int r = sg->de(tt, tout, y, z);
      VP_CHECK(r != 0, "the call returned 0");
      VP_CHECK(sg->flag() == 6, "flag %d", sg->flag());
      VP_CHECK(tt == tb && s.nfe == n0 && z == y, "the call was refused and yet moved: t %.17g to %.17g, %ld evaluations", tb, tt, s.nfe - n0);
      if (g.boolean(0.3)) { // the flag left as it is: still refused
        sg->relerr = orel;
        sg->abserr = oabs;
        tt = t;
        VP_CHECK(sg->de(tt, t + g.real(0.1, 2) * g.sign(), y, z) != 0, "the call with flag 6 returned 0");
        VP_CHECK(sg->flag() == 6 && tt == t && s.nfe == n0 && z == y, "the call with flag 6 left flag %d and moved from %.17g to %.17g", sg->flag(), t, tt);
        g.label("flag 6 not cleared");
      }
      // the caller corrects the input and goes on
      sg->relerr = orel;
      sg->abserr = oabs;
      sg->iflag = g.boolean() && c && std::abs(ofl) < 6 && ofl ? ofl : 1;
      if (sg->iflag == 1)
        dir = 0, ref.iflag = 1;
      interesting = true;
      g.label(op == 2 ? moved ? "moved" : "no interval" : op == 3 ? "negative tolerance" : "zero");
      continue;
    }
    double step = op == 5 ? g.real(10, 28) : g.pick({1.0, 0.1, 3.0, 1e-3}) * g.real(0.2, 3);
    double tout = t + g.sign() * step;
    if (std::fabs(tout - t0) > 15)
      tout = t0 + (t > t0 ? -1 : 1) * g.real(1, 14);
    const double way = tout > t ? 1 : -1;
    const bool bounded = g.boolean(0.3);
    // after a bounded call the integrator starts anew, too: that is where problems change
    const bool fresh = sg->iflag == 1 || dir != way || wasbounded;
    if (fresh) { // nothing of the past is used: from the exact state, maybe of another problem
      if (g.boolean(0.4))
        s.off = sr.off = g.real(-5, 5), g.note("the problem jumps by %.17g", s.off), g.label(wasbounded ? "another problem after a bounded call" : "another problem");
      y0 = s.start(t);
      y = Eigen::Map<Eigen::VectorXd>(y0.data(), s.n);
      far = t;
      tr = t;
      yr = y0;
      worst = 0;
      ref.iflag = 1;
      ref.relerr = sg->relerr, ref.abserr = sg->abserr;
    }
    g.note("%sto %.17g", bounded ? "bounded, " : "", tout);
    dir = way;
    wasbounded = bounded;
    int again = 0;
    for (; again < 40; again++) {
      if (bounded && sg->iflag > 0)
        sg->iflag = -sg->iflag;
      const double tb = t, orel = sg->relerr, oabs = sg->abserr;
      const long n0 = s.nfe;
      s.lo = INFINITY, s.hi = -INFINITY;
      const int r = sg->de(t, tout, y, yo);
      const int fl = std::abs(sg->flag());
      const long n = s.nfe - n0;
      VP_CHECK(fl >= 2 && fl <= 5, "flag %d, return %d", sg->flag(), r);
      VP_CHECK((fl == 2) == (r == 0), "flag %d and return value %d", sg->flag(), r);
      VP_CHECK((fl == 2) == (t == tout), "flag %d at t = %.17g, going to %.17g", sg->flag(), t, tout);
      VP_CHECK(fl == 2 ? sg->flag() == 2 : (sg->flag() < 0) == bounded, "flag %d at the end of a call %s", sg->flag(), bounded ? "bounded at its end" : "not bounded");
      VP_CHECK((t - tb) * way >= 0 && (tb != t || fl == 3 || fl == 2), "from %.17g the call went back to %.17g", tb, t);
      const double slack = 1e-13 * (1 + std::fabs(tout));
      if (s.nfe > n0) {
        const double reach = way > 0 ? s.hi : s.lo;
        const double lim = bounded ? tout : tb + 10 * (tout - tb);
        far = way > 0 ? std::fmax(far, reach) : std::fmin(far, reach);
        VP_CHECK((reach - lim) * way <= slack, "the right-hand side was evaluated at %.17g, %s %.17g", reach, bounded ? "beyond the bound" : "more than ten intervals from", bounded ? tout : tb);
        VP_CHECK(((way > 0 ? s.lo : s.hi) - tb) * way >= -slack, "the right-hand side was evaluated at %.17g, before %.17g", way > 0 ? s.lo : s.hi, tb);
      }
      for (int i = 0; i < s.n; i++)
        VP_CHECK(std::isfinite(yo(i)), "y(%d) = %g at t = %.17g", i, yo(i), t);
      // what comes back is the solution at the time it claims
      s.exact(t, ex);
      const double e = weighted(tovec(yo), ex, sg->relerr, sg->abserr);
      VP_CHECK(e < 2e6 || e * std::fmax(sg->relerr, sg->abserr) < 1e-3, "flag %d: at t = %.17g the error is %.3g times the tolerance", sg->flag(), t, e);
      if (fl == 3) {
        VP_CHECK(sg->relerr > orel && sg->abserr >= oabs, "flag 3 and the tolerances went from %g, %g to %g, %g", orel, oabs, sg->relerr, sg->abserr);
        VP_CHECK(near(sg->relerr * oabs, sg->abserr * orel, 1e-12, 0), "flag 3: the ratio of the tolerances changed: %g, %g to %g, %g", orel, oabs, sg->relerr, sg->abserr);
        VP_CHECK(ask < 1e-12, "flag 3 at tolerance %g", ask);
        g.label("tolerances raised");
      } else
        VP_CHECK(sg->relerr == orel && sg->abserr == oabs, "the tolerances went from %g, %g to %g, %g with flag %d", orel, oabs, sg->relerr, sg->abserr, fl);
      if (fl == 4 || fl == 5) {
        VP_CHECK(n >= 500, "gave up after %ld evaluations", n);
        g.label(fl == 4 ? "many steps" : "stiff");
      }
      VP_CHECK(n <= 6000, "%ld evaluations in one call", n);
      y = yo;
      if (fl == 2)
        break;
      interesting = true;
    }
    VP_CHECK(again < 40 || ask < 1e-12, "t = %.17g after 40 calls, going to %.17g (flag %d)", t, tout, sg->flag());
    if (again == 40) { // near the rounding level: little steps, or the tolerances grow with the solution
      g.label("left early");
      break;
    }
    for (int i = 0; i < 60 && tr != tout; i++) {
      if (bounded && ref.iflag > 0)
        ref.iflag = -ref.iflag;
      ref.de(tr, tout, yr);
    }
    if (tr != tout)
      break;
    s.exact(t, ex);
    const double e = weighted(tovec(y), ex, sg->relerr, sg->abserr);
    worst = std::fmax(worst, weighted(yr, ex, ref.relerr, ref.abserr));
    VP_CHECK(e <= 100 * std::fmax(worst, 1) + 5e-15 * s.nfe / std::fmin(sg->relerr, sg->abserr), "at t = %.17g the error is %.3g times the tolerance; %.3g with the published algorithm", t, e, worst);
    if (bounded)
      interesting = true, g.label("bounded call");
  }
  g.nontrivial(interesting);
}

// a stiff decay, or a fast oscillation: more than 500 steps
VP_PROP(steps, 120, 2000, "at least one call that ended for the number of steps") {
  const bool stiff = g.boolean();
  const double l = stiff ? -g.logreal(3e3, 3e4) : 0, w = stiff ? 0 : g.real(60, 400) * g.sign();
  const double rel = std::pow(10.0, g.real(-9, -5));
  System s;
  s.n = 2;
  s.p.push_back({2, "fast", [=](double, const double *y, double *d) { d[0] = l * y[0] - w * y[1], d[1] = w * y[0] + l * y[1]; },
                 [=](L t, L *y) { const L e = expl(l * t); y[0] = e * cosl(w * t), y[1] = e * sinl(w * t); }});
  auto sg = solver(s, rel, rel);
  double t = 0;
  const double tout = stiff ? g.real(1, 3) : g.real(5, 30);
  g.note("decay %.17g frequency %.17g tolerance %.3g to %.17g", l, w, rel, tout);
  Eigen::VectorXd y(2), yo(2);
  y << 1, 0;
  int ends = 0;
  long given = 0;
  bool saidstiff = false;
  for (int i = 0; i < 400; i++) {
    const double tb = t;
    const long n0 = s.nfe;
    const int r = sg->de(t, tout, y, yo);
    const int fl = sg->flag();
    VP_CHECK((fl == 2) == (r == 0) && (fl == 2) == (t == tout) && (fl == 2 || fl == 4 || fl == 5), "flag %d return %d t %.17g of %.17g", fl, r, t, tout);
    y = yo;
    if (fl == 2)
      break;
    VP_CHECK(t > tb && t < tout, "flag %d: t went from %.17g to %.17g", fl, tb, t);
    VP_CHECK(s.nfe - n0 >= 500 && s.nfe - n0 <= 3000, "gave up after %ld evaluations", s.nfe - n0);
    given++;
    saidstiff |= fl == 5;
    std::vector<L> ex;
    s.exact(t, ex);
    const double e = weighted(tovec(y), ex, rel, rel);
    VP_CHECK(e < 2000 + s.nfe, "flag %d: at t = %.17g the error is %.3g times the tolerance", fl, t, e);
    ends++;
  }
  if (stiff && ends > 5)
    VP_CHECK(saidstiff, "%d calls ended early on decay %g over %g and none reported a stiff problem", ends, l, tout);
  if (!stiff)
    VP_CHECK(!saidstiff, "an oscillation of frequency %g at tolerance %g is reported as stiff", w, rel);
  g.label(stiff ? "stiff" : "oscillation");
  g.nontrivial(given > 0);
}
#endif
} // namespace
