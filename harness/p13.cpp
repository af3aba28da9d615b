#include "mc.h"
#include <ndt_gslam/utils/covariance_inverse.h>
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;

static const std::vector<double> EV = {0, 1, 0.5, 0.02, 0.011, 0.0099, 0.01, 1e-6, 1e-12, 3, 100, 1e5, -0.3, -2, -100};
static M3 rot(int i)
{
  static const double A[][3] = {{0, 0, 0}, {0.3, 0, 0}, {0, 0.7, 0}, {0, 0, -1.2}, {1.1, -0.4, 2.2}, {M_PI / 4, M_PI / 4, 0}, {M_PI / 2, 0, 0}, {-2.8, 3.0, 0.01}};
  return (Eigen::AngleAxisd(A[i][0], V3::UnitZ()) * Eigen::AngleAxisd(A[i][1], V3::UnitY()) * Eigen::AngleAxisd(A[i][2], V3::UnitX())).toRotationMatrix();
}
template <class T>
static void one(mc::Ctx &c, const V3 &ev, const M3 &R, double tol)
{
  typedef Eigen::Matrix<T, 3, 3> M;
  M3 cd = R * ev.asDiagonal() * R.transpose();
  cd = ((cd + cd.transpose()) / 2).eval();
  M cov = cd.cast<T>(), cov0 = cov;
  M adj = M::Constant((T)-7), inv = M::Constant((T)-9);
  double scale = ev.cwiseAbs().maxCoeff();
  double mx = ev.maxCoeff();
  if (std::fabs(ev.sum()) <= 1e-5 * scale && scale > 0)
    return;  // rounding decides whether the matrix counts as positive
  c.scribble();
  bool ok = slamuk::covarInverse<T>(cov, adj, inv);
  c.step();
  c.check(cov == cov0, "the input changed");
  c.check(ok == (ev.sum() > 0), "eigenvalues (%g,%g,%g): returned %d", ev(0), ev(1), ev(2), (int)ok);
  if (!ok)
    return;
  V3 le;
  bool lifted = false, edge = false;
  for (int i = 0; i < 3; ++i) {
    le(i) = std::max(ev(i), mx / 100);
    lifted |= mx > ev(i) * 100 * (1 + 1e-4);
    edge |= std::fabs(mx - ev(i) * 100) <= mx * 1e-4;
  }
  M3 ea = R * le.asDiagonal() * R.transpose();
  M3 ei = R * le.cwiseInverse().asDiagonal() * R.transpose();
  double da = (adj.template cast<double>() - ea).norm();
  c.check(da <= tol * mx + (edge ? 1e-4 * mx : 0), "adjusted covariance off by %g for eigenvalues (%g,%g,%g)", da, ev(0), ev(1), ev(2));
  double di = (inv.template cast<double>() - ei).norm();
  c.check(di <= (tol * 200 + (edge ? 1e-2 : 0)) * 100 / mx, "inverse off by %g for eigenvalues (%g,%g,%g)", di, ev(0), ev(1), ev(2));
  M3 prod = adj.template cast<double>() * inv.template cast<double>();
  c.check((prod - M3::Identity()).norm() < tol * 1e4 + (edge ? 0.01 : 0), "inverse does not belong to the adjusted covariance (off by %g)", (prod - M3::Identity()).norm());
  if (!lifted && !edge)
    c.check(adj == cov, "well conditioned covariance was changed");
}
MC_BODY(eigenvalue_grid)
{
  V3 ev(c.pick(EV), c.pick(EV), c.pick(EV));
  int nr = c.thorough() ? 8 : 8;
  for (double s : {1.0, 1e-4, 37.0, 1e6})
    for (int r = 0; r < nr; ++r) {
      one<double>(c, ev * s, rot(r), 1e-9);
      // single precision holds the determinant of neither tiny nor huge matrices
      if (ev.cwiseAbs().maxCoeff() < 1e4 && ev.cwiseAbs().maxCoeff() * s > 1e-8)
        one<float>(c, ev * s, rot(r), 3e-5);
    }
  c.state(mc::Hash().addd(ev(0)).addd(ev(1)).addd(ev(2)));
}
// every small integer symmetric matrix
MC_BODY(integer_matrices)
{
  int n = c.thorough() ? 7 : 5, h = n / 2;
  double a = c.choose(n + 3) - h, b = c.choose(n + 3) - h, d = c.choose(n + 3) - h;
  double e = c.choose(n) - h, f = c.choose(n) - h, g = c.choose(n) - h;
  M3 m;
  m << a, e, f, e, b, g, f, g, d;
  Eigen::SelfAdjointEigenSolver<M3> s(m);
  M3 adj, inv;
  bool ok = slamuk::covarInverse<double>(m, adj, inv);
  c.step();
  double tr = a + b + d;
  if (tr == 0)
    return;
  c.check(ok == (tr > 0), "trace %g: returned %d", tr, (int)ok);
  c.state(mc::Hash().addd(a).addd(b).addd(d).addd(e).addd(f).addd(g));
  if (!ok)
    return;
  V3 ev = s.eigenvalues();
  double mx = ev(2);
  V3 le = ev.cwiseMax(mx / 100);
  M3 ea = s.eigenvectors() * le.asDiagonal() * s.eigenvectors().transpose();
  c.check((adj - ea).norm() < 1e-9 * mx + 1e-12, "adjusted covariance off by %g", (adj - ea).norm());
  c.check((adj * inv - M3::Identity()).norm() < 1e-8, "inverse off by %g", (adj * inv - M3::Identity()).norm());
  c.check((adj - adj.transpose()).norm() < 1e-9 * mx, "adjusted covariance not symmetric");
}
// in place: the adjusted covariance may be the input itself
MC_BODY(repeated)
{
  V3 ev(c.pick(EV), c.pick(EV), c.pick(EV));
  if (ev.sum() <= 1e-3)
    throw mc::Prune();
  M3 R = rot(c.choose(8));
  M3 cov = R * ev.asDiagonal() * R.transpose();
  M3 a1, i1, a2, i2;
  slamuk::covarInverse<double>(cov, a1, i1);
  bool ok = slamuk::covarInverse<double>(a1, a2, i2);
  c.step();
  c.check(ok, "an adjusted covariance is rejected");
  c.check((a1 - a2).norm() <= 1e-7 * a1.norm() && (i1 - i2).norm() <= 1e-6 * i1.norm(), "adjusting twice differs from adjusting once");
  c.state(mc::Hash().addd(ev(0)).addd(ev(1)).addd(ev(2)));
}
