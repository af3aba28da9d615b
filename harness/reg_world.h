// Scenes, exact derivatives and reference scores for the registrations.
#pragma once
#include "ndt_world.h"
#include <ndt_gslam/registration/ndt_reg_tools.h>

// value, gradient and Hessian of a function of three parameters (forward mode)
struct Jet {
  double v = 0, g[3] = {0, 0, 0}, h[3][3] = {{0}};
  Jet()
  {
  }
  Jet(double x) : v(x)
  {
  }
  static Jet var(double x, int i)
  {
    Jet j(x);
    j.g[i] = 1;
    return j;
  }
  // f(a) given f, f', f''
  static Jet chain(const Jet &a, double f, double f1, double f2)
  {
    Jet r(f);
    for (int i = 0; i < 3; ++i) {
      r.g[i] = f1 * a.g[i];
      for (int k = 0; k < 3; ++k)
        r.h[i][k] = f1 * a.h[i][k] + f2 * a.g[i] * a.g[k];
    }
    return r;
  }
};
inline Jet operator+(const Jet &a, const Jet &b)
{
  Jet r(a.v + b.v);
  for (int i = 0; i < 3; ++i) {
    r.g[i] = a.g[i] + b.g[i];
    for (int k = 0; k < 3; ++k)
      r.h[i][k] = a.h[i][k] + b.h[i][k];
  }
  return r;
}
inline Jet operator*(const Jet &a, const Jet &b)
{
  Jet r(a.v * b.v);
  for (int i = 0; i < 3; ++i) {
    r.g[i] = a.g[i] * b.v + a.v * b.g[i];
    for (int k = 0; k < 3; ++k)
      r.h[i][k] = a.h[i][k] * b.v + a.v * b.h[i][k] + a.g[i] * b.g[k] + a.g[k] * b.g[i];
  }
  return r;
}
inline Jet operator-(const Jet &a)
{
  return Jet(-1) * a;
}
inline Jet operator-(const Jet &a, const Jet &b)
{
  return a + (-b);
}
inline Jet jexp(const Jet &a)
{
  double e = std::exp(a.v);
  return Jet::chain(a, e, e, e);
}
inline Jet jsin(const Jet &a)
{
  return Jet::chain(a, std::sin(a.v), std::cos(a.v), -std::sin(a.v));
}
inline Jet jcos(const Jet &a)
{
  return Jet::chain(a, std::cos(a.v), -std::sin(a.v), -std::cos(a.v));
}
inline Jet jinv(const Jet &a)
{
  return Jet::chain(a, 1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v));
}
struct JMat {
  Jet m[3][3];
};
struct JVec {
  Jet v[3];
};
inline JMat operator*(const JMat &a, const JMat &b)
{
  JMat r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      for (int k = 0; k < 3; ++k)
        r.m[i][j] = r.m[i][j] + a.m[i][k] * b.m[k][j];
  return r;
}
inline JMat operator+(const JMat &a, const JMat &b)
{
  JMat r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r.m[i][j] = a.m[i][j] + b.m[i][j];
  return r;
}
inline JMat transposed(const JMat &a)
{
  JMat r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r.m[i][j] = a.m[j][i];
  return r;
}
inline JVec operator*(const JMat &a, const JVec &b)
{
  JVec r;
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < 3; ++k)
      r.v[i] = r.v[i] + a.m[i][k] * b.v[k];
  return r;
}
inline JMat constant(const Eigen::Matrix3d &e)
{
  JMat r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r.m[i][j] = Jet(e(i, j));
  return r;
}
// x^T A^-1 x by cofactors
inline Jet mahalanobis(const JMat &a, const JVec &x)
{
  auto cof = [&](int i, int j) {
    int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3;
    return a.m[i1][j1] * a.m[i2][j2] - a.m[i1][j2] * a.m[i2][j1];
  };
  Jet det = a.m[0][0] * cof(0, 0) + a.m[0][1] * cof(0, 1) + a.m[0][2] * cof(0, 2);
  Jet s;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      s = s + x.v[i] * cof(j, i) * x.v[j];
  return s * jinv(det);
}
struct JPose {
  Jet x, y, c, s;
  JPose(const V3 &p) : x(Jet::var(p(0), 0)), y(Jet::var(p(1), 1))
  {
    Jet t = Jet::var(p(2), 2);
    c = jcos(t), s = jsin(t);
  }
  JVec operator*(const V3 &p) const
  {
    JVec r;
    r.v[0] = c * Jet(p(0)) - s * Jet(p(1)) + x;
    r.v[1] = s * Jet(p(0)) + c * Jet(p(1)) + y;
    r.v[2] = Jet(p(2));
    return r;
  }
  JMat rotation() const
  {
    JMat r;
    r.m[0][0] = c, r.m[0][1] = -s, r.m[1][0] = s, r.m[1][1] = c, r.m[2][2] = Jet(1);
    return r;
  }
};
inline JVec operator-(const JVec &a, const V3 &b)
{
  JVec r = a;
  for (int i = 0; i < 3; ++i)
    r.v[i] = r.v[i] - Jet(b(i));
  return r;
}

// the k cells nearest to a point; Unsure when it is not clear which they are
inline std::vector<const NCell *> nearest(const std::vector<const NCell *> &cells, const V2 &p, size_t k)
{
  std::vector<std::pair<double, const NCell *>> d;
  for (auto *q : cells)
    d.push_back({(q->getMean().head(2) - p).norm(), q});
  std::sort(d.begin(), d.end());
  std::vector<const NCell *> r;
  for (size_t i = 0; i < d.size() && i < k; ++i)
    r.push_back(d[i].second);
  if (d.size() > k && d[k].first - d[k - 1].first < 1e-5)
    throw Unsure();
  return r;
}
// ------------------------------------------------------------------ scenes
inline void wall(Cloud &c, double x0, double y0, double x1, double y1, double gap = 0.03)
{
  int n = (int)std::ceil(std::hypot(x1 - x0, y1 - y0) / gap);
  for (int i = 0; i <= n; ++i) {
    double u = (double)i / n, w = std::fmod(0.7548776662 * (i + 1), 1.0) - 0.5, v = std::fmod(0.6180339887 * (i + 1), 1.0) - 0.5;
    c.push_back(pcl::PointXYZ((float)(x0 + u * (x1 - x0) + 0.02 * v), (float)(y0 + u * (y1 - y0) + 0.02 * w), (float)(0.01 * w)));
  }
}
static const int ROOMS = 5;
// 0 corner, 1 room with a pillar, 2 corridor (open ended), 3 spots, 4 room with
// a door and an alcove
inline Cloud room(int i)
{
  Cloud c;
  switch (i) {
  case 0:
    wall(c, 2.07, -1.3, 2.07, 1.53);
    wall(c, -1.1, 1.53, 2.07, 1.53);
    wall(c, 0.4, -1.12, 2.07, -1.3);
    break;
  case 1:
    wall(c, -1.57, -1.13, 2.33, -1.13);
    wall(c, 2.33, -1.13, 2.33, 1.57);
    wall(c, 2.33, 1.57, -1.57, 1.57);
    wall(c, -1.57, 1.57, -1.57, -1.13);
    wall(c, 0.62, 0.4, 0.97, 0.4);
    wall(c, 0.62, 0.4, 0.62, 0.72);
    break;
  case 2:
    wall(c, -2.03, 0.93, 2.51, 0.93);
    wall(c, -2.03, -0.87, 2.51, -0.87);
    break;
  case 3:
    cluster(c, 1.3, 0.37, 12, 0, 0.12);
    cluster(c, -0.62, 1.12, 12, 3, 0.12);
    cluster(c, 0.37, -1.38, 12, 5, 0.12);
    cluster(c, -1.4, -0.62, 12, 8, 0.12);
    break;
  case 4:
    wall(c, -1.2, -1.42, 0.3, -1.42);
    wall(c, 1.1, -1.42, 2.1, -1.42);
    wall(c, 2.1, -1.42, 1.7, 1.2);
    wall(c, 1.7, 1.2, 0.5, 1.35);
    wall(c, 0.5, 1.35, 0.5, 1.9);
    wall(c, 0.5, 1.9, -1.2, 1.9);
    break;
  }
  return c;
}
// what a sensor that stands at `at` sees of a cloud given in the world
inline Cloud seen(const Cloud &w, const Rigid &at)
{
  Cloud c;
  Rigid inv = at.inverse();
  for (auto &p : w.points) {
    V2 q = inv * V2(p.x, p.y);
    c.push_back(pcl::PointXYZ((float)q(0), (float)q(1), p.z));
  }
  return c;
}
inline Eigen::Matrix4f mat4(const Rigid &r)
{
  Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
  m.block<2, 2>(0, 0) = r.rotation().cast<float>();
  m(0, 3) = (float)r.t(0), m(1, 3) = (float)r.t(1);
  return m;
}
inline Rigid rigid4(const Eigen::Matrix4f &m)
{
  Rigid r;
  r.t = V2(m(0, 3), m(1, 3));
  r.a = std::atan2(m(1, 0), m(0, 0));
  return r;
}
