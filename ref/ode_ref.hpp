// Reference integrators, transcribed from the published Fortran (Shampine and
// Gordon, DE/STEP/INTRP; Shampine and Watts, RKF45), and test problems with
// closed-form solutions.
#pragma once
#include <cmath>
#include <functional>
#include <limits>
#include <vector>
namespace oderef {
typedef std::vector<double> Vec;
typedef std::function<void(double, const double *, double *)> Fun;
inline double sgn(double a, double b) { return std::copysign(std::fabs(a), b); }

struct SG {
  Fun f;
  int n, iflag = 1;
  double relerr, abserr;
  Vec ypout;
  SG(Fun f_, int n_, double r, double a) : f(f_), n(n_), relerr(r), abserr(a) {
    for (auto &p : phi)
      p.assign(n, 0);
    yy.assign(n, 0), wt = p = yp = ypout = yy;
  }
  // 1-based arrays, as in the book
  Vec phi[17], yy, wt, p, yp;
  double psi[14], alpha[14], beta[14], sig[15], v[14], w[14], g[15];
  double x = 0, h = 0, hold = 0, told = 0, delsgn = 0;
  bool start = true, phase1 = false, nornd = false;
  int isnold = 1, kold = 0, k = 0, ns = 0;
  static constexpr double u = std::numeric_limits<double>::epsilon(), twou = 2 * u, fouru = 4 * u;

  void intrp(double xout, Vec &y) {
    double gg[14], ww[14], rho[14];
    const double hi = xout - x;
    const int ki = kold + 1, kip1 = ki + 1;
    gg[1] = rho[1] = 1;
    for (int i = 1; i <= ki; i++)
      ww[i] = 1.0 / i;
    double term = 0;
    for (int j = 2; j <= ki; j++) {
      const double ps = psi[j - 1], gamma = (hi + term) / ps, eta = hi / ps;
      for (int i = 1; i <= kip1 - j; i++)
        ww[i] = gamma * ww[i] - eta * ww[i + 1];
      gg[j] = ww[1];
      rho[j] = gamma * rho[j - 1];
      term = ps;
    }
    for (int l = 0; l < n; l++) {
      double a = 0, b = 0;
      for (int j = 1; j <= ki; j++) {
        const int i = kip1 - j;
        a += gg[i] * phi[i][l];
        b += rho[i] * phi[i][l];
      }
      y[l] = yy[l] + hi * a;
      ypout[l] = b;
    }
  }
  void step(double &eps, bool &crash) {
    static const double two[] = {0, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192};
    static const double gstr[] = {0, 0.5, 0.0833, 0.0417, 0.0264, 0.0188, 0.0143, 0.0114, 0.00936, 0.00789, 0.00679, 0.00592, 0.00524, 0.00468};
    crash = true;
    if (std::fabs(h) < fouru * std::fabs(x)) {
      h = sgn(fouru * std::fabs(x), h);
      return;
    }
    const double p5eps = 0.5 * eps;
    double round = 0;
    for (int l = 0; l < n; l++)
      round += (yy[l] / wt[l]) * (yy[l] / wt[l]);
    round = twou * std::sqrt(round);
    if (p5eps < round) {
      eps = 2 * round * (1 + fouru);
      return;
    }
    crash = false;
    g[1] = 1;
    g[2] = 0.5;
    sig[1] = 1;
    double absh;
    if (start) {
      f(x, yy.data(), yp.data());
      double sum = 0;
      for (int l = 0; l < n; l++) {
        phi[1][l] = yp[l];
        phi[2][l] = 0;
        sum += (yp[l] / wt[l]) * (yp[l] / wt[l]);
      }
      sum = std::sqrt(sum);
      absh = std::fabs(h);
      if (eps < 16 * sum * h * h)
        absh = 0.25 * std::sqrt(eps / sum);
      h = sgn(std::fmax(absh, fouru * std::fabs(x)), h);
      hold = 0;
      k = 1;
      kold = 0;
      start = false;
      phase1 = nornd = true;
      if (p5eps <= 100 * round) {
        nornd = false;
        phi[15].assign(n, 0);
      }
    }
    int ifail = 0, kp1, kp2, km1, km2, knew;
    double erk, erkm1, erkm2;
    for (;;) {
      kp1 = k + 1, kp2 = k + 2, km1 = k - 1, km2 = k - 2;
      if (h != hold)
        ns = 0;
      if (ns <= kold)
        ns++;
      const int nsp1 = ns + 1;
      if (k >= ns) {
        beta[ns] = 1;
        alpha[ns] = 1.0 / ns;
        double t1 = h * ns;
        sig[nsp1] = 1;
        for (int i = nsp1; i <= k; i++) {
          const double t2 = psi[i - 1];
          psi[i - 1] = t1;
          beta[i] = beta[i - 1] * psi[i - 1] / t2;
          t1 = t2 + h;
          alpha[i] = h / t1;
          sig[i + 1] = i * alpha[i] * sig[i];
        }
        psi[k] = t1;
        if (ns <= 1) {
          for (int q = 1; q <= k; q++)
            w[q] = v[q] = 1.0 / (q * (q + 1));
        } else {
          if (k > kold) {
            v[k] = 1.0 / (k * kp1);
            for (int j = 1; j <= ns - 2; j++)
              v[k - j] -= alpha[j + 1] * v[k - j + 1];
          }
          for (int q = 1; q <= kp1 - ns; q++) {
            v[q] -= alpha[ns] * v[q + 1];
            w[q] = v[q];
          }
          g[nsp1] = w[1];
        }
        for (int i = ns + 2; i <= kp1; i++) {
          for (int q = 1; q <= kp2 - i; q++)
            w[q] -= alpha[i - 1] * w[q + 1];
          g[i] = w[1];
        }
      }
      for (int i = nsp1; i <= k; i++)
        for (int l = 0; l < n; l++)
          phi[i][l] *= beta[i];
      for (int l = 0; l < n; l++) {
        phi[kp2][l] = phi[kp1][l];
        phi[kp1][l] = 0;
        p[l] = 0;
      }
      for (int i = k; i >= 1; i--)
        for (int l = 0; l < n; l++) {
          p[l] += g[i] * phi[i][l];
          phi[i][l] += phi[i + 1][l];
        }
      for (int l = 0; l < n; l++) {
        if (!nornd) {
          const double tau = h * p[l] - phi[15][l];
          p[l] = yy[l] + tau;
          phi[16][l] = (p[l] - yy[l]) - tau;
        } else
          p[l] = yy[l] + h * p[l];
      }
      const double xold = x;
      x += h;
      absh = std::fabs(h);
      f(x, p.data(), yp.data());
      erk = erkm1 = erkm2 = 0;
      for (int l = 0; l < n; l++) {
        const double t3 = 1 / wt[l], t4 = yp[l] - phi[1][l];
        if (km2 > 0)
          erkm2 += std::pow((phi[km1][l] + t4) * t3, 2);
        if (km2 >= 0)
          erkm1 += std::pow((phi[k][l] + t4) * t3, 2);
        erk += std::pow(t4 * t3, 2);
      }
      if (km2 > 0)
        erkm2 = absh * sig[km1] * gstr[km2] * std::sqrt(erkm2);
      if (km2 >= 0)
        erkm1 = absh * sig[k] * gstr[km1] * std::sqrt(erkm1);
      const double t5 = absh * std::sqrt(erk), err = t5 * (g[k] - g[kp1]);
      erk = t5 * sig[kp1] * gstr[k];
      knew = k;
      if (km2 > 0) {
        if (std::fmax(erkm1, erkm2) <= erk)
          knew = km1;
      } else if (km2 == 0) {
        if (erkm1 <= 0.5 * erk)
          knew = km1;
      }
      if (err <= eps)
        break;
      phase1 = false;
      x = xold;
      for (int i = 1; i <= k; i++)
        for (int l = 0; l < n; l++)
          phi[i][l] = (phi[i][l] - phi[i + 1][l]) / beta[i];
      for (int i = 2; i <= k; i++)
        psi[i - 1] = psi[i] - h;
      ifail++;
      double t2 = 0.5;
      if (ifail > 3 && p5eps < 0.25 * erk)
        t2 = std::sqrt(p5eps / erk);
      if (ifail >= 3)
        knew = 1;
      h = t2 * h;
      k = knew;
      if (std::fabs(h) < fouru * std::fabs(x)) {
        crash = true;
        h = sgn(fouru * std::fabs(x), h);
        eps += eps;
        return;
      }
    }
    kold = k;
    hold = h;
    const double t1 = h * g[kp1];
    for (int l = 0; l < n; l++) {
      if (!nornd) {
        const double rho = t1 * (yp[l] - phi[1][l]) - phi[16][l];
        yy[l] = p[l] + rho;
        phi[15][l] = (yy[l] - p[l]) - rho;
      } else
        yy[l] = p[l] + t1 * (yp[l] - phi[1][l]);
    }
    f(x, yy.data(), yp.data());
    for (int l = 0; l < n; l++) {
      phi[kp1][l] = yp[l] - phi[1][l];
      phi[kp2][l] = phi[kp1][l] - phi[kp2][l];
    }
    for (int i = 1; i <= k; i++)
      for (int l = 0; l < n; l++)
        phi[i][l] += phi[kp1][l];
    if (knew == km1 || k == 12)
      phase1 = false;
    int dk = 0;
    double erkp1 = 0;
    if (phase1)
      dk = 1;
    else if (knew == km1)
      dk = -1;
    else if (kp1 <= ns) {
      for (int l = 0; l < n; l++)
        erkp1 += std::pow(phi[kp2][l] / wt[l], 2);
      erkp1 = absh * gstr[kp1] * std::sqrt(erkp1);
      if (k > 1) {
        if (erkm1 <= std::fmin(erk, erkp1))
          dk = -1;
        else if (!(erkp1 >= erk || k == 12))
          dk = 1;
      } else if (erkp1 < 0.5 * erk)
        dk = 1;
    }
    if (dk == 1)
      k = kp1, erk = erkp1;
    else if (dk == -1)
      k = km1, erk = erkm1;
    double hnew = h + h;
    if (!phase1 && p5eps < erk * two[k + 1]) {
      hnew = h;
      if (p5eps < erk) {
        const double r = std::pow(p5eps / erk, 1.0 / (k + 1));
        hnew = absh * std::fmax(0.5, std::fmin(0.9, r));
        hnew = sgn(std::fmax(hnew, fouru * std::fabs(x)), h);
      }
    }
    h = hnew;
  }
  // y in and out
  void de(double &t, double tout, Vec &y) {
    double eps = std::fmax(relerr, abserr);
    int isn = iflag < 0 ? -1 : 1, af = std::abs(iflag);
    if (n < 1 || t == tout || relerr < 0 || abserr < 0 || eps <= 0 || af == 0 || af > 5 || (af != 1 && t != told)) {
      iflag = 6;
      return;
    }
    iflag = af;
    const double del = tout - t, absdel = std::fabs(del);
    const double tend = isn < 0 ? tout : t + 10 * del;
    int nostep = 0, kle4 = 0;
    bool stiff = false;
    const double releps = relerr / eps, abseps = abserr / eps;
    if (iflag == 1 || isnold < 0 || delsgn * del <= 0) {
      start = true;
      x = t;
      yy = y;
      delsgn = del < 0 ? -1 : 1;
      h = sgn(std::fmax(std::fabs(tout - x), fouru * std::fabs(x)), tout - x);
    }
    for (;;) {
      if (std::fabs(x - t) >= absdel) {
        intrp(tout, y);
        iflag = 2;
        t = told = tout;
        isnold = isn;
        return;
      }
      if (isn < 0 && std::fabs(tout - x) < fouru * std::fabs(x)) {
        h = tout - x;
        f(x, yy.data(), yp.data());
        for (int l = 0; l < n; l++)
          y[l] = yy[l] + h * yp[l];
        iflag = 2;
        t = told = tout;
        isnold = isn;
        return;
      }
      if (nostep >= 500) {
        iflag = isn * (stiff ? 5 : 4);
        y = yy;
        t = told = x;
        isnold = 1;
        return;
      }
      h = sgn(std::fmin(std::fabs(h), std::fabs(tend - x)), h);
      for (int l = 0; l < n; l++)
        wt[l] = releps * std::fabs(yy[l]) + abseps;
      bool crash;
      step(eps, crash);
      if (crash) {
        iflag = isn * 3;
        relerr = eps * releps;
        abserr = eps * abseps;
        y = yy;
        t = told = x;
        isnold = 1;
        return;
      }
      nostep++;
      kle4++;
      if (kold > 4)
        kle4 = 0;
      if (kle4 >= 50)
        stiff = true;
    }
  }
};

// RKF45; each call starts afresh (no step size is carried over)
struct RKF {
  Fun f;
  int n;
  double relerr, abserr;
  int flag = 0;
  RKF(Fun f_, int n_, double r, double a) : f(f_), n(n_), relerr(r), abserr(a) {}
  void solve(double &t, double tout, Vec &y) {
    const double u26 = 26 * std::numeric_limits<double>::epsilon();
    Vec yp(n), f1(n), f2(n), f3(n), f4(n), f5(n), s(n);
    f(t, y.data(), yp.data());
    int nfe = 1;
    double dt = tout - t, h = std::fabs(dt), toln = 0;
    for (int i = 0; i < n; i++) {
      const double tol = relerr * std::fabs(y[i]) + abserr;
      if (tol <= 0)
        continue;
      toln = tol;
      if (std::fabs(yp[i]) * std::pow(h, 5) > tol)
        h = std::pow(tol / std::fabs(yp[i]), 0.2);
    }
    if (toln <= 0)
      h = 0;
    h = std::fmax(h, u26 * std::fmax(std::fabs(t), std::fabs(dt)));
    h = sgn(h, dt);
    if (std::fabs(dt) <= u26 * std::fabs(t)) {
      for (int i = 0; i < n; i++)
        y[i] += dt * yp[i];
      t = tout;
      flag = 2;
      return;
    }
    bool output = false;
    const double scale = 2 / relerr, ae = scale * abserr;
    for (;;) {
      bool hfaild = false;
      const double hmin = u26 * std::fabs(t);
      dt = tout - t;
      if (std::fabs(dt) < 2 * std::fabs(h)) {
        if (std::fabs(dt) > std::fabs(h))
          h = 0.5 * dt;
        else {
          output = true;
          h = dt;
        }
      }
      double esttol;
      for (;;) {
        if (nfe > 3000) {
          flag = 4;
          return;
        }
        for (int i = 0; i < n; i++)
          s[i] = y[i] + h / 4 * yp[i];
        f(t + h / 4, s.data(), f1.data());
        for (int i = 0; i < n; i++)
          s[i] = y[i] + 3 * h / 32 * (yp[i] + 3 * f1[i]);
        f(t + 3 * h / 8, s.data(), f2.data());
        for (int i = 0; i < n; i++)
          s[i] = y[i] + h / 2197 * (1932 * yp[i] + (7296 * f2[i] - 7200 * f1[i]));
        f(t + 12 * h / 13, s.data(), f3.data());
        for (int i = 0; i < n; i++)
          s[i] = y[i] + h / 4104 * ((8341 * yp[i] - 845 * f3[i]) + (29440 * f2[i] - 32832 * f1[i]));
        f(t + h, s.data(), f4.data());
        for (int i = 0; i < n; i++)
          s[i] = y[i] + h / 20520 * ((-6080 * yp[i] + (9295 * f3[i] - 5643 * f4[i])) + (41040 * f1[i] - 28352 * f2[i]));
        f(t + h / 2, s.data(), f5.data());
        nfe += 5;
        double eeoet = 0;
        for (int i = 0; i < n; i++) {
          s[i] = y[i] + h / 7618050 * ((902880 * yp[i] + (3855735 * f3[i] - 1371249 * f4[i])) + (3953664 * f2[i] + 277020 * f5[i]));
          const double et = std::fabs(y[i]) + std::fabs(s[i]) + ae;
          if (et <= 0) {
            flag = 5;
            return;
          }
          const double ee = std::fabs((-2090 * yp[i] + (21970 * f3[i] - 15048 * f4[i])) + (22528 * f2[i] - 27360 * f5[i]));
          eeoet = std::fmax(eeoet, ee / et);
        }
        esttol = std::fabs(h) * eeoet * scale / 752400;
        if (esttol <= 1)
          break;
        hfaild = true;
        output = false;
        double q = 0.1;
        if (esttol < 59049)
          q = 0.9 / std::pow(esttol, 0.2);
        h *= q;
        if (std::fabs(h) <= hmin) {
          flag = 6;
          return;
        }
      }
      t += h;
      y = s;
      f(t, y.data(), yp.data());
      nfe++;
      double q = 5;
      if (esttol > 1.889568e-4)
        q = 0.9 / std::pow(esttol, 0.2);
      if (hfaild)
        q = std::fmin(q, 1);
      h = sgn(std::fmax(q * std::fabs(h), hmin), h);
      if (output) {
        t = tout;
        flag = 2;
        return;
      }
    }
  }
};

// ---- problems with known solutions --------------------------------------
typedef long double L;
struct Problem {
  int n;
  const char *name;
  std::function<void(double, const double *, double *)> f;
  std::function<void(L, L *)> y; // exact solution
};
} // namespace oderef
