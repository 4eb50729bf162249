// NRLMSISE-00, written after the published C version (switches 1 to 23,
// everything recomputed at every call, all species), with the constants of the
// Fortran version the repository's reference results come from.
#ifndef VP_REF_MSISE_HPP
#define VP_REF_MSISE_HPP
#include <cmath>
namespace msise {
#include "msise_tables.inc"
struct Input {
  int doy;
  double sec, alt, lat, lon, lst, f107a, f107, ap, apa[7];
  double sw[25], swc[25]; // by number
};
struct Output {
  double d[9], t[2];
};
static const double RG = 1.380648813 * 6.0221407818 * 100, DG = 3.141592653589793238462643e0 / 180, DR = 1.72142e-2;
class Model {
  const Input &in;
  double gs, re;
  double P[5][9]; // P[m][n]
  double dfa = 0, apdf = 0, apt = 0;
  double tn1[5], tgn1[2], tn2[4], tgn2[2], tn3[5], tgn3[2], zn1[5] = {120, 110, 100, 90, 72.5};
  double zn2[4] = {72.5, 55, 45, 32.5}, zn3[5] = {32.5, 20, 15, 10, 0};
  double dm28 = 0;
  static double sq(double x) { return x * x; }
  static double ccor(double alt, double r, double h1, double zh) {
    const double e = (alt - zh) / h1;
    return e > 70 ? 1 : e < -70 ? std::exp(r) : std::exp(r / (1 + std::exp(e)));
  }
  static double ccor2(double alt, double r, double h1, double zh, double h2) {
    const double e1 = (alt - zh) / h1, e2 = (alt - zh) / h2;
    if (e1 > 70 || e2 > 70)
      return 1;
    if (e1 < -70 && e2 < -70)
      return std::exp(r);
    return std::exp(r / (1 + 0.5 * (std::exp(e1) + std::exp(e2))));
  }
  double scalh(double alt, double xm, double temp) const { return RG * temp / (gs / sq(1 + alt / re) * xm); }
  static double dnet(double dd, double dm, double zhm, double xmm, double xm) {
    const double a = zhm / (xmm - xm);
    if (!(dm > 0 && dd > 0)) {
      if (dd == 0 && dm == 0)
        dd = 1;
      return dm == 0 ? dd : dd == 0 ? dm : 0;
    }
    const double y = a * std::log(dm / dd);
    return y < -10 ? dd : y > 10 ? dm : dd * std::pow(1 + std::exp(y), 1 / a);
  }
  double zeta(double z, double zl) const { return (z - zl) * (re + zl) / (re + z); }
  // clamped cubic spline through (x, y), its value and integral from x[0]
  struct Spline {
    int n;
    double x[10], y[10], m[10]; // second derivatives
    void make(double d1, double d2) {
      // tridiagonal system
      double a[10], b[10], c[10], r[10];
      b[0] = (x[1] - x[0]) / 3, c[0] = (x[1] - x[0]) / 6, r[0] = (y[1] - y[0]) / (x[1] - x[0]) - d1, a[0] = 0;
      for (int i = 1; i < n - 1; i++) {
        a[i] = (x[i] - x[i - 1]) / 6, b[i] = (x[i + 1] - x[i - 1]) / 3, c[i] = (x[i + 1] - x[i]) / 6;
        r[i] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]) - (y[i] - y[i - 1]) / (x[i] - x[i - 1]);
      }
      const int e = n - 1;
      a[e] = (x[e] - x[e - 1]) / 6, b[e] = (x[e] - x[e - 1]) / 3, c[e] = 0, r[e] = d2 - (y[e] - y[e - 1]) / (x[e] - x[e - 1]);
      for (int i = 1; i < n; i++) {
        const double w = a[i] / b[i - 1];
        b[i] -= w * c[i - 1], r[i] -= w * r[i - 1];
      }
      m[e] = r[e] / b[e];
      for (int i = e - 1; i >= 0; i--)
        m[i] = (r[i] - c[i] * m[i + 1]) / b[i];
    }
    double value(double t) const {
      int k = 0;
      while (k < n - 2 && t >= x[k + 1])
        k++;
      const double h = x[k + 1] - x[k], A = (x[k + 1] - t) / h, B = (t - x[k]) / h;
      return A * y[k] + B * y[k + 1] + ((A * A * A - A) * m[k] + (B * B * B - B) * m[k + 1]) * h * h / 6;
    }
    double integral(double t) const {
      double s = 0;
      for (int k = 0; k < n - 1; k++) {
        if (k && !(t > x[k]))
          break;
        const double h = x[k + 1] - x[k], u = (k < n - 2 ? std::fmin(t, x[k + 1]) : t), A = (x[k + 1] - u) / h, B = (u - x[k]) / h;
        s += h * ((1 - A * A) * y[k] / 2 + B * B * y[k + 1] / 2 + ((-(1 + A * A * A * A) / 4 + A * A / 2) * m[k] + (B * B * B * B / 4 - B * B / 2) * m[k + 1]) * h * h / 6);
      }
      return s;
    }
  };
  Spline nodes(const double *zn, const double *tn, const double *tgn, int n, double &zgdif) const {
    Spline s;
    s.n = n;
    const double z1 = zn[0], z2 = zn[n - 1];
    zgdif = zeta(z2, z1);
    for (int k = 0; k < n; k++)
      s.x[k] = zeta(zn[k], z1) / zgdif, s.y[k] = 1 / tn[k];
    s.make(-tgn[0] / sq(tn[0]) * zgdif, -tgn[1] / sq(tn[n - 1]) * zgdif * sq((re + z2) / (re + z1)));
    return s;
  }
  double densu(double alt, double dlb, double tinf, double tlb, double xm, double alpha, double &tz, double zlb, double s2) {
    const double za = zn1[0], z = alt > za ? alt : za, zg2 = zeta(z, zlb);
    const double tt = tinf - (tinf - tlb) * std::exp(-s2 * zg2), ta = tt;
    tz = tt;
    double dens = tz, zgdif = 0, x = 0;
    Spline s{};
    if (alt < za) {
      tgn1[0] = (tinf - ta) * s2 * sq((re + zlb) / (re + za));
      tn1[0] = ta;
      const double zz = alt > zn1[4] ? alt : zn1[4];
      s = nodes(zn1, tn1, tgn1, 5, zgdif);
      x = zeta(zz, zn1[0]) / zgdif;
      tz = 1 / s.value(x);
      dens = tz;
    }
    if (xm == 0)
      return dens;
    double glb = gs / sq(1 + zlb / re);
    const double gamma = xm * glb / (s2 * RG * tinf);
    double expl = std::exp(-s2 * gamma * zg2);
    if (expl > 50 || tt <= 0)
      expl = 50;
    dens = dlb * std::pow(tlb / tt, 1 + alpha + gamma) * expl;
    if (alt >= za)
      return dens;
    glb = gs / sq(1 + zn1[0] / re);
    expl = xm * glb * zgdif / RG * s.integral(x);
    if (expl > 50 || tz <= 0)
      expl = 50;
    return dens * std::pow(tn1[0] / tz, 1 + alpha) * std::exp(-expl);
  }
  double densm(double alt, double d0, double xm, double &tz) const {
    double dens = d0;
    if (alt > zn2[0])
      return xm == 0 ? tz : d0;
    auto layer = [&](const double *zn, const double *tn, const double *tgn, int n, double z) {
      double zgdif;
      const Spline s = nodes(zn, tn, tgn, n, zgdif);
      const double x = zeta(z, zn[0]) / zgdif;
      tz = 1 / s.value(x);
      if (xm != 0) {
        double e = xm * gs / sq(1 + zn[0] / re) * zgdif / RG * s.integral(x);
        if (e > 50)
          e = 50;
        dens *= tn[0] / tz * std::exp(-e);
      }
    };
    layer(zn2, tn2, tgn2, 4, alt > zn2[3] ? alt : zn2[3]);
    if (alt <= zn3[0])
      layer(zn3, tn3, tgn3, 5, alt);
    return xm == 0 ? tz : dens;
  }
  void legendre() {
    const double c = std::sin(DG * in.lat), s = std::cos(DG * in.lat);
    for (auto &r : P)
      for (double &v : r)
        v = 0;
    // recursion in degree, without the Condon-Shortley phase
    for (int m = 0; m < 5; m++) {
      double mm = 1;
      for (int k = 1; k <= m; k++)
        mm *= (2 * k - 1) * s;
      P[m][m] = mm;
      if (m < 8)
        P[m][m + 1] = c * (2 * m + 1) * mm;
      for (int n = m + 2; n < 9; n++)
        P[m][n] = (c * (2 * n - 1) * P[m][n - 1] - (n + m - 1) * P[m][n - 2]) / (n - m);
    }
  }
  static double g0(double a, const double *p, double p24) {
    return a - 4 + (p[25] - 1) * (a - 4 + (std::exp(-p24 * (a - 4)) - 1) / p24);
  }
  static double sg0(double ex, const double *p, double p24, const double *ap) {
    const double sum = 1 + (1 - std::pow(ex, 19)) / (1 - ex) * std::sqrt(ex);
    auto g = [&](int i) { return g0(ap[i], p, p24); };
    return (g(1) + (g(2) * ex + g(3) * ex * ex + g(4) * ex * ex * ex + (g(5) * std::pow(ex, 4) + g(6) * std::pow(ex, 12)) * (1 - std::pow(ex, 8)) / (1 - ex))) / sum;
  }
  double globe7(const double *p) {
    const double *sw = in.sw, *swc = in.swc, hr = 0.2618, sr = 7.2722e-5;
    double t[15] = {0};
    const double lst = in.lst, day = in.doy, lon = DG * in.lon;
    const double cd14 = std::cos(DR * (day - p[13])), cd18 = std::cos(2 * DR * (day - p[17])), cd32 = std::cos(DR * (day - p[31])), cd39 = std::cos(2 * DR * (day - p[38]));
    const double df = in.f107 - in.f107a;
    dfa = in.f107a - 150;
    t[1] = p[19] * df * (1 + p[59] * dfa) + p[20] * df * df + p[21] * dfa + p[29] * dfa * dfa;
    const double f1 = 1 + (p[47] * dfa + p[19] * df + p[20] * df * df) * swc[1], f2 = 1 + (p[49] * dfa + p[19] * df + p[20] * df * df) * swc[1];
    t[2] = p[1] * P[0][2] + p[2] * P[0][4] + p[22] * P[0][6] + p[14] * P[0][2] * dfa * swc[1] + p[26] * P[0][1];
    t[3] = p[18] * cd32;
    t[4] = (p[15] + p[16] * P[0][2]) * cd18;
    t[5] = f1 * (p[9] * P[0][1] + p[10] * P[0][3]) * cd14;
    t[6] = p[37] * P[0][1] * cd39;
    if (sw[7] != 0)
      t[7] = f2 * ((p[3] * P[1][1] + p[4] * P[1][3] + p[27] * P[1][5] + p[11] * P[1][2] * cd14 * swc[5]) * std::cos(hr * lst) +
                   (p[6] * P[1][1] + p[7] * P[1][3] + p[28] * P[1][5] + p[12] * P[1][2] * cd14 * swc[5]) * std::sin(hr * lst));
    if (sw[8] != 0)
      t[8] = f2 * ((p[5] * P[2][2] + p[41] * P[2][4] + (p[23] * P[2][3] + p[35] * P[2][5]) * cd14 * swc[5]) * std::cos(2 * hr * lst) +
                   (p[8] * P[2][2] + p[42] * P[2][4] + (p[33] * P[2][3] + p[36] * P[2][5]) * cd14 * swc[5]) * std::sin(2 * hr * lst));
    if (sw[14] != 0)
      t[14] = f2 * ((p[39] * P[3][3] + (p[93] * P[3][4] + p[46] * P[3][6]) * cd14 * swc[5]) * std::sin(3 * hr * lst) +
                    (p[40] * P[3][3] + (p[94] * P[3][4] + p[48] * P[3][6]) * cd14 * swc[5]) * std::cos(3 * hr * lst));
    if (sw[9] < 0) {
      if (p[51] != 0) {
        double e = std::exp(-10800 * std::fabs(p[51]) / (1 + p[138] * (45 - std::fabs(in.lat))));
        if (e > 0.99999)
          e = 0.99999;
        apt = sg0(e, p, p[24] < 1e-4 ? 1e-4 : p[24], in.apa);
        t[9] = apt * (p[50] + p[96] * P[0][2] + p[54] * P[0][4] + (p[125] * P[0][1] + p[126] * P[0][3] + p[127] * P[0][5]) * cd14 * swc[5] +
                      (p[128] * P[1][1] + p[129] * P[1][3] + p[130] * P[1][5]) * swc[7] * std::cos(hr * (lst - p[131])));
      }
    } else {
      const double a = in.ap - 4, p44 = p[43] < 0 ? 1e-5 : p[43];
      apdf = a + (p[44] - 1) * (a + (std::exp(-p44 * a) - 1) / p44);
      if (sw[9] != 0)
        t[9] = apdf * (p[32] + p[45] * P[0][2] + p[34] * P[0][4] + (p[100] * P[0][1] + p[101] * P[0][3] + p[102] * P[0][5]) * cd14 * swc[5] +
                       (p[121] * P[1][1] + p[122] * P[1][3] + p[123] * P[1][5]) * swc[7] * std::cos(hr * (lst - p[124])));
    }
    if (sw[10] != 0) {
      if (sw[11] != 0)
        t[11] = (1 + p[80] * dfa * swc[1]) *
                ((p[64] * P[1][2] + p[65] * P[1][4] + p[66] * P[1][6] + p[103] * P[1][1] + p[104] * P[1][3] + p[105] * P[1][5] +
                  swc[5] * (p[109] * P[1][1] + p[110] * P[1][3] + p[111] * P[1][5]) * cd14) * std::cos(lon) +
                 (p[90] * P[1][2] + p[91] * P[1][4] + p[92] * P[1][6] + p[106] * P[1][1] + p[107] * P[1][3] + p[108] * P[1][5] +
                  swc[5] * (p[112] * P[1][1] + p[113] * P[1][3] + p[114] * P[1][5]) * cd14) * std::sin(lon));
      if (sw[12] != 0)
        t[12] = (1 + p[95] * P[0][1]) * (1 + p[81] * dfa * swc[1]) * (1 + p[119] * P[0][1] * swc[5] * cd14) *
                    (p[68] * P[0][1] + p[69] * P[0][3] + p[70] * P[0][5]) * std::cos(sr * (in.sec - p[71])) +
                swc[11] * (p[76] * P[2][3] + p[77] * P[2][5] + p[78] * P[2][7]) * std::cos(sr * (in.sec - p[79]) + 2 * lon) * (1 + p[137] * dfa * swc[1]);
      if (sw[13] != 0) {
        if (sw[9] < 0) {
          if (p[51] != 0)
            t[13] = apt * swc[11] * (1 + p[132] * P[0][1]) * (p[52] * P[1][2] + p[98] * P[1][4] + p[67] * P[1][6]) * std::cos(DG * (in.lon - p[97])) +
                    apt * swc[11] * swc[5] * (p[133] * P[1][1] + p[134] * P[1][3] + p[135] * P[1][5]) * cd14 * std::cos(DG * (in.lon - p[136])) +
                    apt * swc[12] * (p[55] * P[0][1] + p[56] * P[0][3] + p[57] * P[0][5]) * std::cos(sr * (in.sec - p[58]));
        } else {
          t[13] = apdf * swc[11] * (1 + p[120] * P[0][1]) * (p[60] * P[1][2] + p[61] * P[1][4] + p[62] * P[1][6]) * std::cos(DG * (in.lon - p[63])) +
                  apdf * swc[11] * swc[5] * (p[115] * P[1][1] + p[116] * P[1][3] + p[117] * P[1][5]) * cd14 * std::cos(DG * (in.lon - p[118])) +
                  apdf * swc[12] * (p[83] * P[0][1] + p[84] * P[0][3] + p[85] * P[0][5]) * std::cos(sr * (in.sec - p[75]));
        }
      }
    }
    double r = p[30];
    for (int i = 1; i <= 14; i++)
      r += std::fabs(sw[i]) * t[i];
    return r;
  }
  double glob7s(const double *p) const {
    const double *sw = in.sw, *swc = in.swc, hr = 0.2618;
    double t[15] = {0};
    const double day = in.doy, lon = DG * in.lon, lst = in.lst;
    const double cd14 = std::cos(DR * (day - p[13])), cd18 = std::cos(2 * DR * (day - p[17])), cd32 = std::cos(DR * (day - p[31])), cd39 = std::cos(2 * DR * (day - p[38]));
    t[1] = p[21] * dfa;
    t[2] = p[1] * P[0][2] + p[2] * P[0][4] + p[22] * P[0][6] + p[26] * P[0][1] + p[14] * P[0][3] + p[59] * P[0][5];
    t[3] = (p[18] + p[47] * P[0][2] + p[29] * P[0][4]) * cd32;
    t[4] = (p[15] + p[16] * P[0][2] + p[30] * P[0][4]) * cd18;
    t[5] = (p[9] * P[0][1] + p[10] * P[0][3] + p[20] * P[0][5]) * cd14;
    t[6] = p[37] * P[0][1] * cd39;
    if (sw[7] != 0)
      t[7] = (p[3] * P[1][1] + p[4] * P[1][3] + p[11] * P[1][2] * cd14 * swc[5]) * std::cos(hr * lst) + (p[6] * P[1][1] + p[7] * P[1][3] + p[12] * P[1][2] * cd14 * swc[5]) * std::sin(hr * lst);
    if (sw[8] != 0)
      t[8] = (p[5] * P[2][2] + p[41] * P[2][4] + (p[23] * P[2][3] + p[35] * P[2][5]) * cd14 * swc[5]) * std::cos(2 * hr * lst) +
             (p[8] * P[2][2] + p[42] * P[2][4] + (p[33] * P[2][3] + p[36] * P[2][5]) * cd14 * swc[5]) * std::sin(2 * hr * lst);
    if (sw[14] != 0)
      t[14] = p[39] * P[3][3] * std::sin(3 * hr * lst) + p[40] * P[3][3] * std::cos(3 * hr * lst);
    if (sw[9] > 0)
      t[9] = apdf * (p[32] + p[45] * P[0][2] * swc[2]);
    else if (sw[9] < 0)
      t[9] = p[50] * apt + p[96] * P[0][2] * apt * swc[2];
    if (sw[10] != 0 && sw[11] != 0)
      t[11] = (1 + P[0][1] * (p[80] * swc[5] * std::cos(DR * (day - p[81])) + p[85] * swc[6] * std::cos(2 * DR * (day - p[86]))) + p[83] * swc[3] * std::cos(DR * (day - p[84])) +
               p[87] * swc[4] * std::cos(2 * DR * (day - p[88]))) *
              ((p[64] * P[1][2] + p[65] * P[1][4] + p[66] * P[1][6] + p[74] * P[1][1] + p[75] * P[1][3] + p[76] * P[1][5]) * std::cos(lon) +
               (p[90] * P[1][2] + p[91] * P[1][4] + p[92] * P[1][6] + p[77] * P[1][1] + p[78] * P[1][3] + p[79] * P[1][5]) * std::sin(lon));
    double r = 0;
    for (int i = 1; i <= 14; i++)
      r += std::fabs(sw[i]) * t[i];
    return r;
  }
  void gts7(double z, Output &o) {
    static const double alpha[9] = {-0.38, 0, 0, 0, 0.17, 0, -0.38, 0, 0}, altl[8] = {200, 300, 160, 250, 240, 450, 320, 450};
    const double *sw = in.sw;
    double *d = o.d, tz;
    zn1[0] = PDL[1][15];
    const double tinf = z > zn1[0] ? PTM[0] * PT[0] * (1 + sw[16] * globe7(PT)) : PTM[0] * PT[0];
    o.t[0] = tinf;
    const double xg = z > zn1[4] ? PTM[3] * PS[0] * (1 + sw[19] * globe7(PS)) : PTM[3] * PS[0];
    const double tlb = PTM[1] * (1 + sw[17] * globe7(PD[3])) * PD[3][0], s = xg / (tinf - tlb);
    const bool low = z < 300;
    auto v = [&](int i, double f) { return low ? f * glob7s(PTL[i]) : 0; };
    tn1[1] = PTM[6] * PTL[0][0] / (1 - v(0, sw[18]));
    tn1[2] = PTM[2] * PTL[1][0] / (1 - v(1, sw[18]));
    tn1[3] = PTM[7] * PTL[2][0] / (1 - v(2, sw[18]));
    tn1[4] = PTM[4] * PTL[3][0] / (1 - v(3, sw[18] * sw[20]));
    tgn1[1] = PTM[8] * PMA[8][0] * (1 + (low ? sw[18] * sw[20] * glob7s(PMA[8]) : 0)) * sq(tn1[4]) / sq(PTM[4] * PTL[3][0]);
    const double g28 = sw[21] * globe7(PD[2]);
    const double zhf = PDL[1][24] * (1 + sw[5] * PDL[0][24] * std::sin(DG * in.lat) * std::cos(DR * (in.doy - PT[13])));
    const double xmm = PDM[2][4], zlb = PTM[5];
    // nitrogen
    const double db28 = PDM[2][0] * std::exp(g28) * PD[2][0];
    d[2] = densu(z, db28, tinf, tlb, 28, alpha[2], tz, zlb, s);
    const double zhm28 = PDM[2][3] * PDL[1][5];
    const double b28 = densu(PDM[2][2] * zhf, db28, tinf, tlb, 28 - xmm, alpha[2] - 1, tz, zlb, s);
    dm28 = 0;
    if (sw[15] != 0 && z <= altl[2]) {
      dm28 = densu(z, b28, tinf, tlb, xmm, alpha[2], tz, zlb, s);
      d[2] = dnet(d[2], dm28, zhm28, xmm, 28);
    }
    // another species: index of the result, of the lower boundary, of the density terms
    double b = 0;
    auto species = [&](int i, int k, int q, double m) {
      const double db = PDM[k][0] * std::exp(sw[21] * globe7(PD[q])) * PD[q][0];
      d[i] = densu(z, db, tinf, tlb, m, alpha[i], tz, zlb, s);
      if (sw[15] == 0 || z > altl[i])
        return false;
      b = densu(PDM[k][2], db, tinf, tlb, m - xmm, alpha[i] - 1, tz, zlb, s);
      d[i] = dnet(d[i], densu(z, b, tinf, tlb, xmm, 0, tz, zlb, s), zhm28, xmm, m);
      return true;
    };
    const double fa = 1 + sw[1] * PDL[0][23] * (in.f107a - 150);
    if (species(0, 0, 0, 4)) // helium
      d[0] *= ccor(z, std::log(b28 * PDM[0][1] / b), PDM[0][5] * PDL[1][1], PDM[0][4] * PDL[1][0]);
    if (species(1, 1, 1, 16)) { // oxygen
      d[1] *= ccor2(z, PDM[1][1] * PDL[1][16] * fa, PDM[1][5] * PDL[1][3], PDM[1][4] * PDL[1][2], PDM[1][5] * PDL[1][4]);
      d[1] *= ccor(z, PDM[1][3] * PDL[1][14], PDM[1][7] * PDL[1][13], PDM[1][6] * PDL[1][12]);
    }
    if (species(3, 3, 4, 32)) // molecular oxygen
      d[3] *= ccor(z, std::log(b28 * PDM[3][1] / b), PDM[3][5] * PDL[1][7], PDM[3][4] * PDL[1][6]);
    if (sw[15] != 0)
      d[3] *= ccor2(z, PDM[3][3] * PDL[1][23] * fa, PDM[3][7] * PDL[1][22], PDM[3][6] * PDL[1][21], PDM[3][7] * PDL[0][22]);
    if (species(4, 4, 5, 40)) // argon
      d[4] *= ccor(z, std::log(b28 * PDM[4][1] / b), PDM[4][5] * PDL[1][9], PDM[4][4] * PDL[1][8]);
    if (species(6, 5, 6, 1)) { // hydrogen
      d[6] *= ccor(z, std::log(b28 * PDM[5][1] * std::fabs(PDL[1][17]) / b), PDM[5][5] * PDL[1][11], PDM[5][4] * PDL[1][10]);
      d[6] *= ccor(z, PDM[5][3] * PDL[1][20], PDM[5][7] * PDL[1][19], PDM[5][6] * PDL[1][18]);
    }
    if (species(7, 6, 7, 14)) { // nitrogen
      d[7] *= ccor(z, std::log(b28 * PDM[6][1] * std::fabs(PDL[0][2]) / b), PDM[6][5] * PDL[0][1], PDM[6][4] * PDL[0][0]);
      d[7] *= ccor(z, PDM[6][3] * PDL[0][5], PDM[6][7] * PDL[0][4], PDM[6][6] * PDL[0][3]);
    }
    // anomalous oxygen
    const double db16h = PDM[7][0] * std::exp(sw[21] * globe7(PD[8])) * PD[8][0], tho = PDM[7][9] * PDL[0][6];
    const double dd = densu(z, db16h, tho, tho, 16, alpha[8], tz, zlb, s), zsht = PDM[7][5], zmho = PDM[7][4];
    d[8] = dd * std::exp(-zsht / scalh(zmho, 16, tho) * (std::exp(-(z - zmho) / zsht) - 1));
    densu(z, 1, tinf, tlb, 0, 0, o.t[1], zlb, s);
  }

public:
  explicit Model(const Input &i) : in(i) {}
  // drag: with the anomalous oxygen in the total; m: in metres and kilograms
  Output run(bool drag, bool m) {
    const double c2 = std::cos(2 * DG * (in.sw[2] == 0 ? 45 : in.lat));
    gs = 980.665 * (1 - 0.0026373 * c2);
    re = 2 * gs / (3.085462e-6 + 2.27e-9 * c2) * 1e-5;
    legendre();
    Output h{}, o{};
    gts7(in.alt > zn2[0] ? in.alt : zn2[0], h);
    const double *sw = in.sw;
    if (in.alt >= zn2[0]) {
      o = h;
    } else {
      o.t[0] = h.t[0];
      tgn2[0] = tgn1[1];
      tn2[0] = tn1[4];
      tn2[1] = PMA[0][0] * PAVGM[0] / (1 - sw[20] * glob7s(PMA[0]));
      tn2[2] = PMA[1][0] * PAVGM[1] / (1 - sw[20] * glob7s(PMA[1]));
      tn2[3] = PMA[2][0] * PAVGM[2] / (1 - sw[20] * sw[22] * glob7s(PMA[2]));
      tgn2[1] = PAVGM[8] * PMA[9][0] * (1 + sw[20] * sw[22] * glob7s(PMA[9])) * sq(tn2[3]) / sq(PMA[2][0] * PAVGM[2]);
      tn3[0] = tn2[3];
      tgn3[0] = tgn2[1];
      for (int k = 1; k < 5; k++)
        tn3[k] = PMA[2 + k][0] * PAVGM[2 + k] / (1 - sw[22] * glob7s(PMA[2 + k]));
      tgn3[1] = PMA[7][0] * PAVGM[7] * (1 + sw[22] * glob7s(PMA[7])) * sq(tn3[4]) / sq(PMA[6][0] * PAVGM[6]);
      const double zmix = 62.5, f = in.alt > zmix ? 1 - (zn2[0] - in.alt) / (zn2[0] - zmix) : 0;
      double tz;
      o.d[2] = densm(in.alt, dm28, PDM[2][4], tz) * (1 + (h.d[2] / dm28 - 1) * f);
      o.t[1] = tz;
      auto mixed = [&](int i, int k) { o.d[i] = o.d[2] * PDM[k][1] * (1 + (h.d[i] / (h.d[2] * PDM[k][1]) - 1) * f); };
      mixed(0, 0), mixed(3, 3), mixed(4, 4);
    }
    const double *d = o.d;
    o.d[5] = 1.66e-24 * (4 * d[0] + 16 * d[1] + 28 * d[2] + 32 * d[3] + 40 * d[4] + d[6] + 14 * d[7] + (drag ? 16 * d[8] : 0));
    if (m) {
      for (int i = 0; i < 9; i++)
        o.d[i] *= i == 5 ? 1e3 : 1e6;
    }
    return o;
  }
};
} // namespace msise
#endif
