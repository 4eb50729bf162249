// Stand-in for the matvec library (not installed here): plain 3-vectors and
// 3x3 row-major matrices, written from the way the repository uses them.
#ifndef VP_SHIM_MATVEC_HPP
#define VP_SHIM_MATVEC_HPP
#include <cmath>
#include <cstddef>
namespace dso {
struct Vector3 {
  double data[3] = {0e0, 0e0, 0e0};
  constexpr Vector3() noexcept = default;
  constexpr Vector3(double x, double y, double z) noexcept : data{x, y, z} {}
  constexpr Vector3(const double (&d)[3]) noexcept : data{d[0], d[1], d[2]} {}
  static Vector3 ptr2vec(const double *p) noexcept {
    return Vector3(p[0], p[1], p[2]);
  }
  static Vector3 to_vec3(const double *p) noexcept { return ptr2vec(p); }
  double x() const noexcept { return data[0]; }
  double y() const noexcept { return data[1]; }
  double z() const noexcept { return data[2]; }
  double &x() noexcept { return data[0]; }
  double &y() noexcept { return data[1]; }
  double &z() noexcept { return data[2]; }
  double operator()(int i) const noexcept { return data[i]; }
  double &operator()(int i) noexcept { return data[i]; }
  double operator[](int i) const noexcept { return data[i]; }
  double &operator[](int i) noexcept { return data[i]; }
  double norm_squared() const noexcept { return dot_product(*this); }
  double squaredNorm() const noexcept { return dot_product(*this); }
  double norm() const noexcept { return std::sqrt(dot_product(*this)); }
  double dot_product(const Vector3 &v) const noexcept {
    return data[0] * v.data[0] + data[1] * v.data[1] + data[2] * v.data[2];
  }
  double dot(const Vector3 &v) const noexcept { return dot_product(v); }
  Vector3 cross_product(const Vector3 &v) const noexcept {
    return Vector3(data[1] * v.data[2] - data[2] * v.data[1],
                   data[2] * v.data[0] - data[0] * v.data[2],
                   data[0] * v.data[1] - data[1] * v.data[0]);
  }
  Vector3 cross(const Vector3 &v) const noexcept { return cross_product(v); }
  Vector3 normalize() const noexcept {
    const double n = norm();
    return Vector3(data[0] / n, data[1] / n, data[2] / n);
  }
  Vector3 &operator+=(const Vector3 &v) noexcept {
    for (int i = 0; i < 3; i++)
      data[i] += v.data[i];
    return *this;
  }
  Vector3 &operator-=(const Vector3 &v) noexcept {
    for (int i = 0; i < 3; i++)
      data[i] -= v.data[i];
    return *this;
  }
  Vector3 &operator*=(double s) noexcept {
    for (int i = 0; i < 3; i++)
      data[i] *= s;
    return *this;
  }
  Vector3 &operator/=(double s) noexcept {
    for (int i = 0; i < 3; i++)
      data[i] /= s;
    return *this;
  }
};
inline Vector3 operator+(Vector3 a, const Vector3 &b) noexcept { return a += b; }
inline Vector3 operator-(Vector3 a, const Vector3 &b) noexcept { return a -= b; }
inline Vector3 operator-(const Vector3 &a) noexcept {
  return Vector3(-a.data[0], -a.data[1], -a.data[2]);
}
inline Vector3 operator*(Vector3 a, double s) noexcept { return a *= s; }
inline Vector3 operator*(double s, Vector3 a) noexcept { return a *= s; }
inline Vector3 operator/(Vector3 a, double s) noexcept { return a /= s; }

struct Mat3x3 {
  double data[9] = {1e0, 0e0, 0e0, 0e0, 1e0, 0e0, 0e0, 0e0, 1e0};
  constexpr Mat3x3() noexcept = default;
  constexpr Mat3x3(double a, double b, double c, double d, double e, double f,
                   double g, double h, double i) noexcept
      : data{a, b, c, d, e, f, g, h, i} {}
  constexpr Mat3x3(const double (&d)[9]) noexcept
      : data{d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]} {}
  double operator()(int i, int j) const noexcept { return data[3 * i + j]; }
  double &operator()(int i, int j) noexcept { return data[3 * i + j]; }
  static Mat3x3 Identity() noexcept { return Mat3x3(); }
  // same sense as SOFA's iauRx/Ry/Rz
  static Mat3x3 RotX(double a) noexcept {
    const double c = std::cos(a), s = std::sin(a);
    return Mat3x3(1e0, 0e0, 0e0, 0e0, c, s, 0e0, -s, c);
  }
  static Mat3x3 RotY(double a) noexcept {
    const double c = std::cos(a), s = std::sin(a);
    return Mat3x3(c, 0e0, -s, 0e0, 1e0, 0e0, s, 0e0, c);
  }
  static Mat3x3 RotZ(double a) noexcept {
    const double c = std::cos(a), s = std::sin(a);
    return Mat3x3(c, s, 0e0, -s, c, 0e0, 0e0, 0e0, 1e0);
  }
  Mat3x3 operator*(const Mat3x3 &b) const noexcept {
    Mat3x3 r;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        double s = 0e0;
        for (int k = 0; k < 3; k++)
          s += (*this)(i, k) * b(k, j);
        r(i, j) = s;
      }
    return r;
  }
  Mat3x3 &operator*=(const Mat3x3 &b) noexcept { return *this = *this * b; }
  Vector3 operator*(const Vector3 &v) const noexcept {
    Vector3 r;
    for (int i = 0; i < 3; i++)
      r.data[i] = (*this)(i, 0) * v.data[0] + (*this)(i, 1) * v.data[1] +
                  (*this)(i, 2) * v.data[2];
    return r;
  }
  Mat3x3 transpose() const noexcept {
    return Mat3x3(data[0], data[3], data[6], data[1], data[4], data[7], data[2],
                  data[5], data[8]);
  }
  Mat3x3 &transpose_inplace() noexcept { return *this = transpose(); }
  Mat3x3 &rotx(double a) noexcept { return *this = RotX(a) * *this; }
  Mat3x3 &roty(double a) noexcept { return *this = RotY(a) * *this; }
  Mat3x3 &rotz(double a) noexcept { return *this = RotZ(a) * *this; }
};
} // namespace dso
#endif
