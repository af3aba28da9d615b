#include "se2.h"
#include <ndt_gslam/utils/eigen_tools.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>

typedef eigt::pose2d_t<double> V3;
typedef eigt::transform2d_t<double> T2;

static double tolOf(LD a, LD b)
{
  return 1e-10 * (1 + (double)(fabsl(a) + fabsl(b)));
}
static void cmpMat(mc::Ctx &c, const T2 &m, const RMat &r, double tol, const char *what)
{
  c.near(m(0, 0), (double)r.c, 1e-10 + tol * 1e-3, what);
  c.near(m(0, 1), (double)-r.s, 1e-10 + tol * 1e-3, what);
  c.near(m(1, 0), (double)r.s, 1e-10 + tol * 1e-3, what);
  c.near(m(1, 1), (double)r.c, 1e-10 + tol * 1e-3, what);
  c.near(m(0, 2), (double)r.x, tol, what);
  c.near(m(1, 2), (double)r.y, tol, what);
}
static void cmpPose(mc::Ctx &c, const V3 &p, const RPose &r, double tol, const char *what)
{
  c.near(p(0), (double)r.x, tol, what);
  c.near(p(1), (double)r.y, tol, what);
  c.check(p(2) >= -M_PI - 1e-12 && p(2) <= M_PI + 1e-12, "%s: angle %.17g out of range", what, p(2));
  c.check(adiff(p(2), r.t) < 1e-9, "%s: angle %.12g, expected %.12g", what, p(2), (double)r.t);
}
// rigid part of a homogeneous matrix
template <class M>
static void cmpHom(mc::Ctx &c, const M &m, const RMat &r, double tol, const char *what, double rt = 1e-9)
{
  const int n = m.rows();
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      LD e = i == j ? 1 : 0;
      if (i < 2 && j < 2)
        e = i == j ? r.c : (i ? r.s : -r.s);
      else if (j == n - 1 && i == 0)
        e = r.x;
      else if (j == n - 1 && i == 1)
        e = r.y;
      c.near((double)m(i, j), (double)e, (i < 2 && j == n - 1) ? tol : rt, what);
    }
}

static const std::vector<double> TR = {0, 1e-7, -0.25, 1, -3.7, 12.5, 99, -1000.5, 1e6};
static const std::vector<double> TRS = {0, 0.5, -3.7, 120.25};

MC_BODY(angles)
{
  static const std::vector<double> A = angle_set(16, 6, true);
  double a = c.pick(A, "angle");
  double n = eigt::normalizeAngle(a);
  c.step();
  c.check(n >= -M_PI && n <= M_PI, "normalizeAngle(%.17g)=%.17g leaves [-pi,pi]", a, n);
  c.check(adiff(n, a) < 1e-12 + 1e-15 * fabs(a), "normalizeAngle(%.17g)=%.17g is another direction", a, n);
  float nf = eigt::normalizeAngle<float>((float)a);
  c.check(nf >= -3.1415928f && nf <= 3.1415928f, "float normalizeAngle(%g)=%g leaves range", a, nf);
  c.check(adiff(nf, (float)a) < 1e-6, "float normalizeAngle(%g)=%g is another direction", a, nf);
  for (double b : A) {
    V3 f(1, 2, a), t(-4, 9, b);
    double d = eigt::getAngleDiffrence(f, t);
    c.check(d >= -M_PI && d <= M_PI, "difference %g->%g = %g leaves range", a, b, d);
    c.check(adiff(d, (LD)b - (LD)a) < 1e-11 + 1e-15 * (fabs(a) + fabs(b)), "difference %.17g->%.17g = %.17g", a, b, d);
    c.step();
  }
  c.state(mc::Hash().addd(a));
}

MC_BODY(single_pose)
{
  static const std::vector<double> A = angle_set(16, 3, true);
  double x = c.pick(TR, "x"), y = c.pick(TR, "y");
  double a = c.pick(A, "angle");
  V3 p(x, y, a);
  RPose r{x, y, a};
  RMat m = rmat(r);
  double tol = tolOf(x, y);
  T2 t = eigt::getTransFromPose(p);
  c.step();
  cmpMat(c, t, m, tol, "pose to transform");
  cmpPose(c, eigt::getPoseFromTransform(t), r, tol, "pose->transform->pose");
  c.check(adiff(eigt::getAngle(t), a) < 1e-10, "angle of transform");
  c.near(eigt::getDisplacement(t), (double)sqrtl((LD)x * x + (LD)y * y), tol, "displacement");
  Eigen::Matrix4d m4 = eigt::convertFromTransform(t);
  cmpHom(c, m4, m, tol, "transform to 4x4");
  cmpMat(c, eigt::convertToTransform<double>(m4), m, tol, "transform->4x4->transform");
  Eigen::Matrix4d v4 = eigt::vecToMat3d<double>(p);
  Eigen::Matrix3d v3 = eigt::vecToMat2d<double>(p);
  cmpHom(c, v4, m, tol, "pose to 4x4");
  cmpHom(c, v3, m, tol, "pose to 3x3");
  cmpPose(c, eigt::matToVec2d<double>(v4), r, tol, "pose->4x4->pose");
  cmpPose(c, eigt::matToVec2d<double>(v3), r, tol, "pose->3x3->pose");
  // mixed precision
  Eigen::Matrix4f w4 = eigt::vecToMat3d<double, float>(p);
  Eigen::Matrix3f w3 = eigt::vecToMat2d<double, float>(p);
  double ft = 1e-6 * (1 + fabs(x) + fabs(y));
  cmpHom(c, w4, rmat(x, y, (float)a), ft, "pose to float 4x4", 1e-6);
  cmpHom(c, w3, rmat(x, y, (float)a), ft, "pose to float 3x3", 1e-6);
  V3 back4 = eigt::matToVec2d<float, double>(w4), back3 = eigt::matToVec2d<float, double>(w3);
  for (const V3 *b : {&back4, &back3}) {
    c.near((*b)(0), x, ft, "float matrix to pose x");
    c.near((*b)(1), y, ft, "float matrix to pose y");
    c.check(adiff((*b)(2), (float)a) < 2e-6, "float matrix to pose angle %g vs %g", (*b)(2), a);
  }
  // policy wrappers are the same maps
  cmpMat(c, Slam2d_Policy::vecToTransMat(p), m, tol, "policy pose to transform");
  cmpPose(c, Slam2d_Policy::transMatToVec(t), r, tol, "policy transform to pose");
  // float instantiation
  if (fabs(x) < 1e4 && fabs(y) < 1e4) {
    eigt::pose2d_t<float> pf((float)x, (float)y, (float)a);
    auto tf = eigt::getTransFromPose<float>(pf);
    auto bf = eigt::getPoseFromTransform<float>(tf);
    c.near(bf(0), x, ft * 2, "float round trip x");
    c.near(bf(1), y, ft * 2, "float round trip y");
    c.check(adiff(bf(2), (float)a) < 2e-6, "float round trip angle");
  }
  c.state(mc::Hash().addd(x).addd(y).addd(a));
}

static void pairChecks(mc::Ctx &c, const V3 &p, const V3 &q)
{
  RPose rp{p(0), p(1), p(2)}, rq{q(0), q(1), q(2)};
  RMat mp = rmat(rp), mq = rmat(rq);
  double tol = tolOf(fabsl(rp.x) + fabsl(rp.y), fabsl(rq.x) + fabsl(rq.y));
  RMat fr = rmul(rinv(mq), mp);
  T2 bf = eigt::transBtwFrames(p, q);
  c.step();
  cmpMat(c, bf, fr, tol, "transform between frames");
  // mapping the origin frame p into q and back
  T2 tq = eigt::getTransFromPose(q), tp = eigt::getTransFromPose(p);
  T2 again = tq * bf;
  cmpMat(c, again, mp, tol * 4, "target frame times transform between frames");
  T2 rev = eigt::transBtwFrames(q, p);
  T2 id = bf * rev;
  cmpMat(c, id, RMat{1, 0, 0, 0}, tol * 4, "frames there and back");
  // component-wise difference and increment are inverse
  T2 bp = eigt::transBtwPoses(p, q);
  c.step();
  cmpMat(c, bp, rmat(rq.x - rp.x, rq.y - rp.y, rq.t - rp.t), tol, "transform between poses");
  cmpPose(c, eigt::transformPose(p, bp), rq, tol, "pose moved by the transform between poses");
  // composition
  V3 cc = eigt::transformConcat(p, tq);
  c.step();
  cmpPose(c, cc, rpose(rmul(mp, mq)), tol, "composition");
  cmpPose(c, eigt::transformConcat(p, T2(tp.inverse() * tq)), rq, tol * 4, "composition with the relative transform");
  cmpPose(c, eigt::transformConcat(p, T2(tp.inverse())), RPose{0, 0, 0}, tol * 4, "composition with the inverse");
  V3 tr = eigt::transformPose(p, tq);
  cmpPose(c, tr, RPose{rp.x + rq.x, rp.y + rq.y, rp.t + rq.t}, tol, "transformPose");
}
MC_BODY(pose_pairs)
{
  static const std::vector<double> A = angle_set(4, 1, false), AN = {1e-9, 0.3, -2.9, 3.14159, 9.5, -700.25};
  static std::vector<double> AA;
  if (AA.empty()) {
    AA = A;
    AA.insert(AA.end(), AN.begin(), AN.end());
  }
  const std::vector<double> &T = TRS;
  V3 p(c.pick(T), c.pick(T), c.pick(AA));
  for (double x : c.thorough() ? TR : T)
    for (double y : c.thorough() ? TR : T)
      for (double a : AA)
        pairChecks(c, p, V3(x, y, a));
  c.state(mc::Hash().addd(p(0)).addd(p(1)).addd(p(2)));
}
// far translations with every nudged angle
MC_BODY(pose_pairs_far)
{
  static const std::vector<double> A = angle_set(8, 1, true);
  V3 p(c.pick(TR), c.pick(TR), c.pick(A));
  static const std::vector<V3> Q = {V3(0, 0, 0), V3(1, 0, M_PI / 2), V3(-7.25, 1e6, -3), V3(0, -1e-7, M_PI), V3(1e5, -1e5, 0.7)};
  for (auto &q : Q) {
    pairChecks(c, p, q);
    pairChecks(c, q, p);
  }
  pairChecks(c, p, p);
  c.state(mc::Hash().addd(p(0)).addd(p(1)).addd(p(2)));
}
// long chains: accumulating a path forwards and undoing it step by step
MC_BODY(chains)
{
  static const std::vector<V3> S = {V3(1, 0, 0), V3(0.5, -0.25, M_PI / 2), V3(-2, 3, 3.0), V3(0, 0, -M_PI), V3(10, -7, -0.1), V3(0, 0.125, 1e-6)};
  int n = c.thorough() ? 8 : 6;
  V3 cur(0, 0, 0);
  RMat ref = rmat(0, 0, 0);
  std::vector<V3> steps;
  for (int i = 0; i < n; ++i) {
    V3 s = c.pick(S, "step");
    steps.push_back(s);
    if (!c.fresh() && i + 1 < n) {
      cur = eigt::transformConcat(cur, eigt::getTransFromPose(s));
      ref = rmul(ref, rmat(s(0), s(1), s(2)));
      continue;
    }
    cur = eigt::transformConcat(cur, eigt::getTransFromPose(s));
    ref = rmul(ref, rmat(s(0), s(1), s(2)));
    c.step();
    cmpPose(c, cur, rpose(ref), 1e-8, "path");
    c.state(mc::Hash().addd(cur(0)).addd(cur(1)).addd(cur(2)));
  }
  for (int i = n - 1; i >= 0; --i)
    cur = eigt::transformConcat(cur, T2(eigt::getTransFromPose(steps[i]).inverse()));
  cmpPose(c, cur, RPose{0, 0, 0}, 1e-7, "path undone");
  // associativity
  T2 all = T2::Identity();
  for (auto &s : steps)
    all = all * eigt::getTransFromPose(s);
  cmpPose(c, eigt::transformConcat(V3(0, 0, 0), all), rpose(ref), 1e-8, "path composed as matrices");
}
