#include "se2.h"
#include <ndt_gslam/utils/covariance_wrapper.h>
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
static M3 covOf(int k)
{
  M3 m = M3::Identity();
  switch (k) {
  case 0: return M3::Zero();
  case 1: return m;
  case 2: m << 4, 1, 0.5, 1, 3, -0.25, 0.5, -0.25, 0.5; return m;
  case 3: return V3(1e-6, 2e-6, 1e-8).asDiagonal();
  case 4: return V3(0, 0, 0.3).asDiagonal();
  default: { V3 u(1, -2, 0.5); return u * u.transpose() * 100; }  // singular
  }
}
static M3 ref(const M3 &C, const M3 &O, double x, double y, double a)
{
  // first order propagation of a pose followed by a relative motion: the
  // composed position is p + R(a) t
  M3 J1 = M3::Identity(), J2 = M3::Identity();
  double px = cos(a) * x - sin(a) * y, py = sin(a) * x + cos(a) * y;
  J1(0, 2) = -py;
  J1(1, 2) = px;
  J2.block<2, 2>(0, 0) = Eigen::Rotation2Dd(a).toRotationMatrix();
  return J1 * C * J1.transpose() + J2 * O * J2.transpose();
}
static void look(mc::Ctx &c, const M3 &m, const M3 &e, const char *what)
{
  double s = 1e-10 * (1 + e.norm());
  c.check((m - e).norm() <= s * 10, "%s: covariance off by %g (norm %g)", what, (m - e).norm(), e.norm());
  c.check((m - m.transpose()).norm() <= s * 10, "%s: covariance not symmetric", what);
  Eigen::SelfAdjointEigenSolver<M3> es(m);
  c.check(es.eigenvalues()(0) >= -s * 100, "%s: covariance has negative eigenvalue %g", what, es.eigenvalues()(0));
}
static const std::vector<double> T = {0, 1, -0.3, 25, -1000};
MC_BODY(single)
{
  static const std::vector<double> A = angle_set(8, 1, true);
  double x = c.pick(T), y = c.pick(T), a = c.pick(A);
  auto tr = eigt::getTransFromPose<double>(V3(x, y, a));
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 6; ++j) {
      slamuk::CovarianceWrapper w(covOf(i));
      w.addToCovar(covOf(j), tr);
      c.step();
      look(c, w.covar_, ref(covOf(i), covOf(j), x, y, a), "concatenation");
      if (x == 0 && y == 0 && a == 0)
        look(c, w.covar_, covOf(i) + covOf(j), "concatenation without motion");
      // uncertainty in heading never shrinks
      c.near(w.covar_(2, 2), covOf(i)(2, 2) + covOf(j)(2, 2), 1e-9 * (1 + w.covar_.norm()), "heading variance");
    }
  c.state(mc::Hash().addd(x).addd(y).addd(a));
}
MC_BODY(chains)
{
  static const std::vector<V3> P = {V3(0, 0, 0), V3(1, 0, 0.3), V3(-2, 5, 3), V3(0, 0.1, -M_PI / 2), V3(30, -30, 1e-3)};
  bool def = c.flip("default");
  slamuk::CovarianceWrapper w = def ? slamuk::CovarianceWrapper() : slamuk::CovarianceWrapper(covOf(3));
  M3 r = def ? M3(M3::Identity()) : covOf(3);
  look(c, w.covar_, r, "initial");
  int n = c.thorough() ? 6 : 4;
  for (int i = 0; i < n; ++i) {
    const V3 &p = c.pick(P);
    int k = c.choose(i % 2 ? 3 : 5);
    if (k == 4) {
      w = slamuk::CovarianceWrapper();
      r = M3::Identity();
    } else {
      r = ref(r, covOf(k), p(0), p(1), p(2));
      w.addToCovar(covOf(k), eigt::getTransFromPose<double>(p));
    }
    c.step();
    if (c.fresh()) {
      look(c, w.covar_, r, "chain");
      c.state(mc::Hash().addd(r(0, 0)).addd(r(1, 1)).addd(r(0, 2)));
    }
  }
}
