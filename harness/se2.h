// Independent SE(2) reference in long double and value alphabets.
#pragma once
#include "mc.h"
#include <vector>
#include <Eigen/Dense>
typedef long double LD;
static const LD PI_L = 3.14159265358979323846264338327950288L;
struct RPose {
  LD x, y, t;
};
struct RMat {  // rigid transform [c -s x; s c y]
  LD c, s, x, y;
};
inline RMat rmat(LD x, LD y, LD t)
{
  return {cosl(t), sinl(t), x, y};
}
inline RMat rmat(const RPose &p)
{
  return rmat(p.x, p.y, p.t);
}
inline RMat rmul(const RMat &a, const RMat &b)
{
  return {a.c * b.c - a.s * b.s, a.s * b.c + a.c * b.s, a.c * b.x - a.s * b.y + a.x,
          a.s * b.x + a.c * b.y + a.y};
}
inline RMat rinv(const RMat &a)
{
  return {a.c, -a.s, -(a.c * a.x + a.s * a.y), -(-a.s * a.x + a.c * a.y)};
}
inline RPose rpose(const RMat &a)
{
  return {a.x, a.y, atan2l(a.s, a.c)};
}
inline LD rnorm(LD a)
{
  return atan2l(sinl(a), cosl(a));
}
inline LD adiff(LD a, LD b)
{
  return fabsl(rnorm(a - b));
}

// angles: every multiple of pi/step_div within +-turns, each also nudged, and
// values far from the principal range
inline std::vector<double> angle_set(int step_div, double turns, bool nudge)
{
  std::vector<double> v;
  int n = (int)(turns * 2 * step_div);
  for (int i = -n; i <= n; ++i) {
    double a = (double)(PI_L * i / step_div);
    v.push_back(a);
    if (nudge) {
      v.push_back(a + 1e-12);
      v.push_back(a - 1e-12);
      v.push_back(a + 1e-5);
      v.push_back(a - 1e-5);
    }
  }
  if (nudge)
    for (double b : {1e-300, 1e-17, 0.1, 0.3, 0.77, 1.0, 1.3, 2.0, 3.0, 7.0, 31.5, 100.0, 1000.5, 12345.75, 1e6}) {
      v.push_back(b);
      v.push_back(-b);
    }
  return v;
}

// rigid motion of the plane
struct Rigid {
  Eigen::Vector2d t = Eigen::Vector2d::Zero();
  double a = 0;
  Rigid()
  {
  }
  explicit Rigid(const Eigen::Vector3d &p) : t(p.head(2)), a(p(2))
  {
  }
  Eigen::Matrix2d rotation() const
  {
    Eigen::Matrix2d r;
    r << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
    return r;
  }
  Rigid inverse() const
  {
    Rigid r;
    r.a = -a;
    r.t = -(rotation().transpose() * t);
    return r;
  }
  Rigid operator*(const Rigid &o) const
  {
    Rigid r;
    r.a = a + o.a;
    r.t = rotation() * o.t + t;
    return r;
  }
  Eigen::Vector2d operator*(const Eigen::Vector2d &p) const
  {
    return rotation() * p + t;
  }
  Eigen::Vector3d vec() const
  {
    return Eigen::Vector3d(t(0), t(1), (double)rnorm(a));
  }
};
