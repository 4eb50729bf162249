// Reference for a spherical-harmonic potential, independent of the
// Cunningham recursions: each term GM/r (R/r)^n P_n^(m)(z/r) [C Re + S Im]
// ((x+iy)/r)^m is built as a second-order jet (value, gradient, Hessian) in
// long double.
#pragma once
#include <cmath>
#include <vector>
namespace ref {
typedef long double L;
struct Jet {
  L v = 0, g[3] = {0, 0, 0}, h[6] = {0, 0, 0, 0, 0, 0}; // xx xy xz yy yz zz
};
constexpr int HI[6] = {0, 0, 0, 1, 1, 2}, HJ[6] = {0, 1, 2, 1, 2, 2};
inline Jet cst(L a) {
  Jet j;
  j.v = a;
  return j;
}
inline Jet var(L a, int k) {
  Jet j;
  j.v = a;
  j.g[k] = 1;
  return j;
}
inline Jet operator+(const Jet &a, const Jet &b) {
  Jet r;
  r.v = a.v + b.v;
  for (int i = 0; i < 3; i++)
    r.g[i] = a.g[i] + b.g[i];
  for (int i = 0; i < 6; i++)
    r.h[i] = a.h[i] + b.h[i];
  return r;
}
inline Jet operator*(L s, const Jet &a) {
  Jet r;
  r.v = s * a.v;
  for (int i = 0; i < 3; i++)
    r.g[i] = s * a.g[i];
  for (int i = 0; i < 6; i++)
    r.h[i] = s * a.h[i];
  return r;
}
inline Jet operator-(const Jet &a, const Jet &b) { return a + (-1.0L) * b; }
inline Jet operator*(const Jet &a, const Jet &b) {
  Jet r;
  r.v = a.v * b.v;
  for (int i = 0; i < 3; i++)
    r.g[i] = a.g[i] * b.v + a.v * b.g[i];
  for (int i = 0; i < 6; i++)
    r.h[i] = a.h[i] * b.v + a.v * b.h[i] + a.g[HI[i]] * b.g[HJ[i]] + a.g[HJ[i]] * b.g[HI[i]];
  return r;
}
// f(a) given f, f', f'' at a.v
inline Jet chain(const Jet &a, L f, L f1, L f2) {
  Jet r;
  r.v = f;
  for (int i = 0; i < 3; i++)
    r.g[i] = f1 * a.g[i];
  for (int i = 0; i < 6; i++)
    r.h[i] = f1 * a.h[i] + f2 * a.g[HI[i]] * a.g[HJ[i]];
  return r;
}
inline Jet inv(const Jet &a) { return chain(a, 1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v)); }
inline Jet sqrt(const Jet &a) {
  const L s = sqrtl(a.v);
  return chain(a, s, 0.5L / s, -0.25L / (s * a.v));
}

// basis functions of degree <= N, order <= M at (x,y,z):
//   V(n,m) + i W(n,m) = (R/r)^(n+1) P_nm(sin phi) e^(i m lambda)
struct Basis {
  int N, M;
  std::vector<Jet> V, W;
  size_t at(int n, int m) const { return (size_t)n * (M + 1) + m; }
  Basis(L x, L y, L z, L R, int n_, int m_) : N(n_), M(m_) {
    V.resize((size_t)(N + 1) * (M + 1));
    W.resize(V.size());
    const Jet X = var(x, 0), Y = var(y, 1), Z = var(z, 2);
    const Jet ir = inv(ref::sqrt(X * X + Y * Y + Z * Z));
    const Jet s = X * ir, t = Y * ir, u = Z * ir, q = R * ir;
    std::vector<Jet> A(M + 1), B(M + 1), Q(N + 2);
    A[0] = cst(1);
    for (int m = 1; m <= M; m++) {
      A[m] = s * A[m - 1] - t * B[m - 1];
      B[m] = s * B[m - 1] + t * A[m - 1];
    }
    Q[0] = cst(1);
    for (int n = 1; n <= N + 1; n++)
      Q[n] = q * Q[n - 1];
    for (int m = 0; m <= M; m++) {
      L d = 1; // (2m-1)!!
      for (int k = 2 * m - 1; k > 1; k -= 2)
        d *= k;
      Jet p1, p0; // P_{n-1}^(m), P_{n-2}^(m)
      for (int n = m; n <= N; n++) {
        Jet p = n == m ? cst(d) : (1.0L / (n - m)) * ((L)(2 * n - 1) * (u * p1) - (L)(n + m - 1) * p0);
        p0 = p1;
        p1 = p;
        const Jet k = Q[n + 1] * p;
        V[at(n, m)] = k * A[m];
        W[at(n, m)] = k * B[m];
      }
    }
  }
};
// sqrt((2n+1)(2-d0m)(n-m)!/(n+m)!)
inline L norm_factor(int n, int m) {
  L f = (2.0L * n + 1) * (m ? 2 : 1);
  for (int i = n - m + 1; i <= n + m; i++)
    f /= i;
  return sqrtl(f);
}
} // namespace ref
