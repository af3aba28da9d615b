// Stand-in for the tf header of the same name. As there, a transform that is
// not told what it is holds whatever the memory held.
#pragma once
#include <geometry_msgs/Pose.h>
#include <ros/ros.h>
#include <stdexcept>
namespace tf
{
typedef double tfScalar;
struct Vector3 {
  double m[3];
  Vector3()
  {
  }
  Vector3(double a, double b, double c) : m{a, b, c}
  {
  }
  double x() const
  {
    return m[0];
  }
  double y() const
  {
    return m[1];
  }
  double z() const
  {
    return m[2];
  }
};
struct Quaternion {
  double m[4];
  Quaternion()
  {
  }
  Quaternion(double a, double b, double c, double d) : m{a, b, c, d}
  {
  }
  double x() const
  {
    return m[0];
  }
  double y() const
  {
    return m[1];
  }
  double z() const
  {
    return m[2];
  }
  double w() const
  {
    return m[3];
  }
  double length2() const
  {
    return m[0] * m[0] + m[1] * m[1] + m[2] * m[2] + m[3] * m[3];
  }
};
inline Quaternion createQuaternionFromYaw(double a)
{
  return Quaternion(0, 0, std::sin(a / 2), std::cos(a / 2));
}
struct Matrix3x3 {
  double m[3][3];
  Matrix3x3()
  {
  }
  explicit Matrix3x3(const Quaternion &q)
  {
    setRotation(q);
  }
  void setRotation(const Quaternion &q)
  {
    double s = 2 / q.length2();
    double x = q.x(), y = q.y(), z = q.z(), w = q.w();
    double r[3][3] = {{1 - s * (y * y + z * z), s * (x * y - w * z), s * (x * z + w * y)}, {s * (x * y + w * z), 1 - s * (x * x + z * z), s * (y * z - w * x)}, {s * (x * z - w * y), s * (y * z + w * x), 1 - s * (x * x + y * y)}};
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        m[i][j] = r[i][j];
  }
};
class Transform
{
public:
  Matrix3x3 b;
  Vector3 o;
  Transform()
  {
  }
  explicit Transform(const Quaternion &q, const Vector3 &c = Vector3(0, 0, 0)) : b(q), o(c)
  {
  }
  explicit Transform(const Matrix3x3 &r, const Vector3 &c = Vector3(0, 0, 0)) : b(r), o(c)
  {
  }
  void setIdentity()
  {
    *this = Transform(Quaternion(0, 0, 0, 1));
  }
  static const Transform &getIdentity()
  {
    static const Transform t(Quaternion(0, 0, 0, 1));
    return t;
  }
  void setOrigin(const Vector3 &v)
  {
    o = v;
  }
  void setRotation(const Quaternion &q)
  {
    b.setRotation(q);
  }
  void setBasis(const Matrix3x3 &m)
  {
    b = m;
  }
  const Vector3 &getOrigin() const
  {
    return o;
  }
  const Matrix3x3 &getBasis() const
  {
    return b;
  }
  Vector3 operator*(const Vector3 &v) const
  {
    Vector3 r = o;
    for (int i = 0; i < 3; ++i)
      for (int k = 0; k < 3; ++k)
        r.m[i] += b.m[i][k] * v.m[k];
    return r;
  }
  Vector3 operator()(const Vector3 &v) const
  {
    return *this * v;
  }
  Transform operator*(const Transform &t) const
  {
    Transform r;
    r.o = *this * t.o;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        r.b.m[i][j] = 0;
        for (int k = 0; k < 3; ++k)
          r.b.m[i][j] += b.m[i][k] * t.b.m[k][j];
      }
    return r;
  }
  Transform &operator*=(const Transform &t)
  {
    return *this = *this * t;
  }
  Transform inverse() const
  {
    Transform r;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        r.b.m[i][j] = b.m[j][i];
    for (int i = 0; i < 3; ++i) {
      r.o.m[i] = 0;
      for (int k = 0; k < 3; ++k)
        r.o.m[i] -= r.b.m[i][k] * o.m[k];
    }
    return r;
  }
  Transform inverseTimes(const Transform &t) const
  {
    return inverse() * t;
  }
};
typedef Transform Pose;
struct StampedTransform : Transform {
  ros::Time stamp_;
  std::string frame_id_, child_frame_id_;
  StampedTransform()
  {
  }
  StampedTransform(const Transform &t, const ros::Time &s, const std::string &f, const std::string &c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c)
  {
  }
};
struct TransformException : std::runtime_error {
  explicit TransformException(const std::string &s) : std::runtime_error(s)
  {
  }
};
struct LookupException : TransformException {
  explicit LookupException(const std::string &s) : TransformException(s)
  {
  }
};
struct ExtrapolationException : TransformException {
  explicit ExtrapolationException(const std::string &s) : TransformException(s)
  {
  }
};
inline void poseMsgToTF(const geometry_msgs::Pose &p, Transform &t)
{
  t = Transform(Quaternion(p.orientation.x, p.orientation.y, p.orientation.z, p.orientation.w), Vector3(p.position.x, p.position.y, p.position.z));
}
}
