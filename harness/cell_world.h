// NDT cell histories next to an independent one-step reference.
#pragma once
#include "mc.h"
#include <limits>
#include <ndt_gslam/ndt/ndt_cell.h>

typedef slamuk::NDTCell Cell;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

struct Obs {  // what can be observed of a cell, plus the points not used yet
  V3 mean;
  M3 cov, icov;
  double occ;
  size_t n;
  bool gauss;
  std::vector<V3> pending;
};
inline Obs observe(const Cell &k, const std::vector<V3> &pending)
{
  Obs o;
  o.mean = k.getMean();
  o.cov = k.getCov();
  o.icov = k.getICov();
  o.occ = k.getOccupancyRaw();
  o.n = k.points();
  o.gauss = k.hasGaussian();
  o.pending = pending;
  return o;
}
static const double LOGL = 0.405465108;
inline double clampOcc(double o)
{
  return o > 1 ? 1 : o < -1 ? -1 : o;
}
// covariance with eigenvalues lifted to a hundredth of the largest
inline bool regularise(M3 &cov, M3 &icov)
{
  Eigen::SelfAdjointEigenSolver<M3> s(cov);
  V3 e = s.eigenvalues();
  bool ok = e(0) >= 0 && e(2) > 0;
  for (int i = 0; i < 2; ++i)
    e(i) = std::max(e(i), 0.01 * e(2));
  cov = s.eigenvectors() * e.asDiagonal() * s.eigenvectors().transpose();
  icov = s.eigenvectors() * e.cwiseInverse().asDiagonal() * s.eigenvectors().transpose();
  return ok;
}
inline void pool(const V3 &m1, const M3 &c1, double n1, const V3 &m2, const M3 &c2, double n2, V3 &m, M3 &c)
{
  double n = n1 + n2;
  m = (n1 * m1 + n2 * m2) / n;
  V3 d = m1 - m2;
  c = ((n1 - 1) * c1 + (n2 - 1) * c2 + n1 * n2 / n * d * d.transpose()) / (n - 1);
}
inline void pointStats(const std::vector<V3> &p, V3 &m, M3 &c)
{
  double n = p.size();
  m = V3::Zero();
  for (auto &q : p)
    m += q / n;
  M3 s = M3::Identity();  // weak isotropic prior
  for (auto &q : p)
    s += (q - m) * (q - m).transpose();
  c = s / n * ((n - 1) / n);
}

struct CellW {
  mc::Ctx &c;
  Cell k;
  std::vector<V3> pending;
  explicit CellW(mc::Ctx &ctx) : c(ctx)
  {
  }
  Obs obs() const
  {
    return observe(k, pending);
  }
  double tolOf(const Obs &a) const
  {
    double s = 1 + a.mean.squaredNorm() + a.cov.norm();
    for (auto &p : pending)
      s = std::max(s, 1 + p.squaredNorm());
    return 1e-9 * s;
  }
  void cmp(const Obs &e, double tol, const char *what)
  {
    c.check(k.hasGaussian() == e.gauss, "%s: has distribution = %d, expected %d", what, (int)k.hasGaussian(), (int)e.gauss);
    c.check(k.points() == e.n, "%s: %zu points, expected %zu", what, k.points(), e.n);
    c.near(k.getOccupancyRaw(), e.occ, 2e-6, what);
    if (!e.gauss)
      return;
    double dm = (k.getMean() - e.mean).norm();
    c.check(dm <= tol, "%s: mean off by %g", what, dm);
    double dc = (k.getCov() - e.cov).norm();
    c.check(dc <= tol * 4, "%s: covariance off by %g (norm %g)", what, dc, e.cov.norm());
  }
  // state nobody asked to change
  void same(const Obs &e, const char *what)
  {
    c.check(k.hasGaussian() == e.gauss && k.points() == e.n && k.getOccupancyRaw() == (float)e.occ && k.getMean() == e.mean && k.getCov() == e.cov && k.getICov() == e.icov, "%s: cell changed", what);
  }
  void addPoint(const V3 &p)
  {
    Obs b = obs();
    k.addPoint(p);
    pending.push_back(p);
    same(b, "adding a point before computing");
  }
  void compute()
  {
    c.say("compute with %zu pending points", pending.size());
    Obs b = obs();
    double tol = tolOf(b);
    c.scribble();
    k.computeGaussian();
    c.step();
    Obs e = b;
    e.occ = clampOcc((float)b.occ + (float)(pending.size() * (float)LOGL));
    if (std::fabs(e.occ) < 1e-6) {
      // on the edge between free and occupied rounding decides
      if (k.hasGaussian() && pending.size() >= 6)
        pending.clear();
      return;
    }
    if (e.occ <= 0) {
      c.check(!k.hasGaussian(), "compute: free cell has a distribution");
      c.near(k.getOccupancyRaw(), e.occ, 2e-6, "compute");
      return;
    }
    if (pending.size() < 6) {
      if (!b.gauss)
        e.n = pending.size();
      cmp(e, tol, "compute with few points");
      return;
    }
    V3 m;
    M3 cv;
    pointStats(pending, m, cv);
    if (!b.gauss) {
      e.mean = m;
      e.cov = cv;
      e.n = pending.size();
    } else {
      pool(b.mean, b.cov, (double)b.n, m, cv, (double)pending.size(), e.mean, e.cov);
      e.n = b.n + pending.size();
      if (e.n > 1000000000)
        e.n = 1000000000;
    }
    M3 ic;
    e.gauss = regularise(e.cov, ic);
    pending.clear();
    cmp(e, tol, "compute");
  }
  void fuse(const CellW &o)
  {
    Obs b = obs(), q = o.obs();
    c.say("fuse with cell of %zu points%s", q.n, q.gauss ? "" : " without distribution");
    double tol = std::max(tolOf(b), o.tolOf(q));
    c.scribble();
    Cell &ret = (k += o.k);
    c.step();
    c.check(&ret == &k, "fusing does not return the cell");
    if (&o != this)
      const_cast<CellW &>(o).same(q, "operand of a fusion");
    if (q.n <= 2 || !q.gauss) {
      same(b, "fusing a cell without distribution");
      return;
    }
    if (!b.gauss) {
      Obs e = q;
      cmp(e, tol, "fusing into an empty cell");
      pending = o.pending;
      return;
    }
    Obs e = b;
    pool(b.mean, b.cov, (double)b.n, q.mean, q.cov, (double)q.n, e.mean, e.cov);
    e.n = std::min<size_t>(b.n + q.n, 1000000000);
    e.occ = clampOcc((float)b.occ + (float)q.n * (float)LOGL);
    if (std::fabs(e.occ) < 1e-6)
      return;
    if (e.occ < 0)
      e.gauss = false;
    else {
      M3 ic;
      e.gauss = regularise(e.cov, ic);
    }
    cmp(e, tol, "fusion");
  }
  // exact mirror of the measurement model
  void ray(const V3 &s, const V3 &t, size_t n)
  {
    Obs b = obs();
    c.say("ray (%g,%g)->(%g,%g) weight %zu", s(0), s(1), t(0), t(1), n);
    c.scribble();
    k.updateOccupancy(s, t, n);
    c.step();
    Obs e = b;
    double d1 = (b.mean - t).cwiseAbs().sum();
    if (!b.gauss)
      e.occ = clampOcc(b.occ - 0.2 * (double)n);
    else if (std::fabs(d1 - 0.01) < 1e-9)
      return;
    else if (d1 < 0.01)
      e.occ = clampOcc(b.occ + 1);
    else {
      V3 pt = t;
      double lik = 1;
      if (s != t) {
        V3 l = (t - s).normalized();
        double sig = l.dot(b.icov * l);
        double tt = -(b.icov * l).dot(t - b.mean) / sig;
        pt = t + l * tt;
        V3 q = pt - b.mean;
        lik = std::exp(-0.5 * q.dot(b.icov * q));
      }
      double l2 = (pt - t).norm();
      lik *= 1 - std::exp(-0.5 * l2 * l2 / (0.01 * 0.01));
      double p = 0.1 * lik + 0.5;
      double lo = std::log((1 - p) / p);
      e.occ = clampOcc(b.occ + (double)n * lo);
      c.check(k.getOccupancyRaw() <= (float)b.occ, "a ray passing through raised the occupancy from %g to %g", b.occ, k.getOccupancyRaw());
      if (n * 1e-9 > 1e-6)
        return;
    }
    c.near(k.getOccupancyRaw(), e.occ, 5e-6 + 1e-7 * std::min<double>(n, 1e4), "occupancy after a ray");
    double after = k.getOccupancyRaw();
    e.gauss = b.gauss && (after > 0 || d1 < 0.01);
    c.check(k.hasGaussian() == e.gauss, "after a ray (occupancy %g): has distribution = %d, expected %d", after, (int)k.hasGaussian(), (int)e.gauss);
    c.check(k.points() == b.n && k.getMean() == b.mean && k.getCov() == b.cov && k.getICov() == b.icov, "ray changed the distribution itself");
  }
  void transform(double x, double y, double z, double yaw, double pitch = 0)
  {
    Obs b = obs();
    c.say("transform %g %g %g yaw %g pitch %g", x, y, z, yaw, pitch);
    Eigen::Matrix3d R = (Eigen::AngleAxisd(yaw, V3::UnitZ()) * Eigen::AngleAxisd(pitch, V3::UnitY())).toRotationMatrix();
    Cell::Transform T = Cell::Transform::Identity();
    T.linear() = R;
    T.translation() = V3(x, y, z);
    double tol = tolOf(b) + 1e-9 * (1 + x * x + y * y + z * z);
    c.scribble();
    k.transform(T);
    c.step();
    if (!b.gauss) {
      same(b, "transforming a cell without distribution");
      return;
    }
    Obs e = b;
    e.mean = R * b.mean + V3(x, y, z);
    e.cov = R * b.cov * R.transpose();
    cmp(e, tol, "transform");
  }
  void invariants()
  {
    double o = k.getOccupancyRaw();
    c.check(o >= -1 && o <= 1, "occupancy %g outside of [-1,1]", o);
    int io = k.getOccupancy();
    c.check(io >= -1 && io <= 100, "integer occupancy %d", io);
    c.check(o < 0 ? io == -1 : std::fabs(io - o * 100) <= 1.0001 && io >= 0, "integer occupancy %d for %g", io, o);
    c.check(k.points() <= 1000000000, "%zu points exceed the cap", k.points());
    auto m = k.serialize();
    c.check((m.mean_ == k.getMean()) && (m.cov_ == k.getCov()) && m.occupancy_ == o && m.points_ == (long)k.points(), "message differs from the cell");
    if (!k.hasGaussian())
      return;
    M3 cv = k.getCov(), ic = k.getICov();
    V3 mean = k.getMean();
    for (int i = 0; i < 3; ++i) {
      c.check(std::isfinite(mean(i)), "mean not finite");
      for (int j = 0; j < 3; ++j)
        c.check(std::isfinite(cv(i, j)) && std::isfinite(ic(i, j)), "covariance not finite");
    }
    double sc = cv.norm();
    c.check((cv - cv.transpose()).norm() <= 1e-9 * sc, "covariance not symmetric");
    Eigen::SelfAdjointEigenSolver<M3> s(cv);
    c.check(s.eigenvalues()(0) > 0, "covariance not positive definite");
    c.check(s.eigenvalues()(0) * 100 >= s.eigenvalues()(2) * (1 - 1e-6), "covariance condition above 100: %g / %g", s.eigenvalues()(2), s.eigenvalues()(0));
    c.check((cv * ic - M3::Identity()).norm() < 1e-6, "inverse covariance is not the inverse (off by %g)", (cv * ic - M3::Identity()).norm());
    c.check(k.points() >= 2, "distribution of %zu points", k.points());
  }
  uint64_t hash() const
  {
    mc::Hash h;
    h.add(k.points()).addd(k.getOccupancyRaw()).add(k.hasGaussian()).add(pending.size());
    if (k.hasGaussian())
      for (int i = 0; i < 3; ++i) {
        h.addd(k.getMean()(i));
        for (int j = 0; j <= i; ++j)
          h.addd(k.getCov()(i, j));
      }
    for (auto &p : pending)
      h.addd(p(0)).addd(p(1)).addd(p(2));
    return h.h;
  }
};

// deterministic point sets: shape x size x placement
static const int SHAPES = 6;
inline std::vector<V3> pointSet(int shape, int n, double ox, double oy, double scale, double oz = 0)
{
  std::vector<V3> v;
  for (int i = 0; i < n; ++i) {
    double u = std::fmod(0.6180339887 * (i + 1), 1.0) - 0.5, w = std::fmod(0.7548776662 * (i + 1), 1.0) - 0.5;
    V3 p(0, 0, 0);
    switch (shape) {
    case 0: p = V3(u, w, 0); break;                        // blob
    case 1: p = V3(u, 0, 0); break;                        // wall along x
    case 2: p = V3(u, 2 * u + 0.001 * w, 0); break;        // slanted wall
    case 3: p = V3(0, 0, 0); break;                        // one spot
    case 4: p = i % 2 ? V3(0.5, w * 0.1, 0) : V3(-0.5, w * 0.1, 0); break;  // two clusters
    case 5: p = V3(u, w, std::fmod(0.3 * i, 1.0) - 0.5); break;             // spatial
    }
    v.push_back(p * scale + V3(ox, oy, oz));
  }
  return v;
}
