#include "se2.h"
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
typedef Slam2d_Policy P;
typedef P::Pose V3;

static RPose refErr(const RPose &i, const RPose &j, const RPose &z)
{
  return rpose(rmul(rinv(rmat(z)), rmul(rinv(rmat(i)), rmat(j))));
}
static void one(mc::Ctx &c, const V3 &xi, const V3 &xj, const V3 &z)
{
  RPose i{xi(0), xi(1), xi(2)}, j{xj(0), xj(1), xj(2)}, t{z(0), z(1), z(2)};
  LD scale = 1 + fabsl(i.x) + fabsl(i.y) + fabsl(j.x) + fabsl(j.y) + fabsl(t.x) + fabsl(t.y);
  double tol = (double)(1e-10L * scale);
  RPose r = refErr(i, j, t);
  V3 e = P::calcError(xi, xj, z);
  c.step();
  c.near(e(0), (double)r.x, tol, "error x");
  c.near(e(1), (double)r.y, tol, "error y");
  c.check(adiff(e(2), r.t) < 1e-9 && fabs(e(2)) <= M_PI + 1e-12, "error angle %g, expected %g", e(2), (double)r.t);
  // Jacobians against central differences of the reference (long double)
  auto J = P::calcJacobianBlocks(xi, xj, z);
  c.step();
  const LD h = 1e-6L * (scale > 1e3L ? 100 : 1);
  for (int k = 0; k < 3; ++k)
    for (int side = 0; side < 2; ++side) {
      RPose a = i, b = j, a2 = i, b2 = j;
      RPose &p = side ? b : a, &p2 = side ? b2 : a2;
      (k == 0 ? p.x : k == 1 ? p.y : p.t) += h;
      (k == 0 ? p2.x : k == 1 ? p2.y : p2.t) -= h;
      RPose f = refErr(a, b, t), g = refErr(a2, b2, t);
      LD d[3] = {(f.x - g.x) / (2 * h), (f.y - g.y) / (2 * h), rnorm(f.t - g.t) / (2 * h)};
      const auto &M = side ? J.second : J.first;
      for (int q = 0; q < 3; ++q)
        c.near(M(q, k), (double)d[q], (double)(1e-6L * scale), side ? "derivative w.r.t. second pose" : "derivative w.r.t. first pose");
    }
}

static const std::vector<double> T = {0, 1, -2.5, 40.25}, TF = {0, -1000.5, 1e-6, 1e5, 7};
static std::vector<double> angs()
{
  std::vector<double> v = angle_set(4, 1, false);
  for (double a : {0.3, -1e-9, 3.0, -3.1, 8.0, -50.5})
    v.push_back(a);
  return v;
}
MC_BODY(error_and_jacobian)
{
  static const std::vector<double> A = angs();
  static const std::vector<double> AS = {0, 0.7, M_PI / 2, M_PI, -2.9, 6.5};
  V3 xi(c.pick(T), c.pick(T), c.pick(A));
  V3 z(c.pick(T), c.pick(c.thorough() ? T : std::vector<double>{0, -2.5}), c.pick(AS));
  for (double x : {0.0, -1.5, 30.0})
    for (double y : {0.0, 2.25})
      for (double a : AS)
        one(c, xi, V3(x, y, a), z);
  c.state(mc::Hash().addd(xi(0)).addd(xi(1)).addd(xi(2)).addd(z(0)).addd(z(1)).addd(z(2)));
}
MC_BODY(zero_error)
{
  // measurement equal to the relative pose: error vanishes, wherever the pair is
  static const std::vector<double> A = angle_set(8, 1.5, true);
  V3 xi(c.pick(TF), c.pick(TF), c.pick(A));
  static const std::vector<V3> Z = {V3(0, 0, 0), V3(1, 0, 0), V3(-2, 5, M_PI), V3(0.1, 0.2, -3), V3(30, -4, 1.5), V3(0, 1e-3, -M_PI / 2)};
  for (auto &z : Z) {
    RMat m = rmul(rmat(xi(0), xi(1), xi(2)), rmat(z(0), z(1), z(2)));
    RPose j = rpose(m);
    V3 xj((double)j.x, (double)j.y, (double)j.t);
    V3 e = P::calcError(xi, xj, z);
    c.step();
    double tol = 1e-9 * (1 + fabs(xi(0)) + fabs(xi(1)));
    c.near(e(0), 0, tol, "error of a perfect measurement");
    c.near(e(1), 0, tol, "error of a perfect measurement");
    c.near(e(2), 0, 1e-9, "error of a perfect measurement");
    one(c, xi, xj, z);
    one(c, xj, xi, z);
  }
  c.state(mc::Hash().addd(xi(0)).addd(xi(1)).addd(xi(2)));
}
MC_BODY(pose_addition)
{
  static const std::vector<double> A = angle_set(8, 2, true);
  double a = c.pick(A, "angle");
  for (double b : A)
    for (double x : TF) {
      V3 p(x, 3, a), q(-1, x / 2, b);
      V3 s = P::addPoses(p, q);
      c.step();
      c.near(s(0), x - 1, 1e-9 * (1 + fabs(x)), "sum x");
      c.near(s(1), 3 + x / 2, 1e-9 * (1 + fabs(x)), "sum y");
      c.check(adiff(s(2), (LD)a + b) < 1e-9, "sum angle");
      c.check(fabs(s(2)) <= M_PI + 1e-12, "sum angle out of range");
      V3 r = P::addPoses(s, V3(-q));
      c.near(r(0), x, 1e-8 * (1 + fabs(x)), "undone sum x");
      c.check(adiff(r(2), a) < 1e-9, "undone sum angle");
    }
  c.state(mc::Hash().addd(a));
}
// the same error and derivatives through graph edges, with poses changing
// after the edge was created and orientation of every edge
MC_BODY(graph_edges)
{
  typedef slamuk::Graph<P, int> G;
  static const std::vector<V3> S = {V3(0, 0, 0), V3(1, 2, 0.5), V3(-3, 0.25, M_PI), V3(10, -20, -3.0)};
  G g;
  V3 pose[2] = {c.pick(S), c.pick(S)};
  size_t a = g.addNode(G::N(pose[0], 0)), b = g.addNode(G::N(pose[1], 1));
  V3 z = c.pick(S, "measurement");
  bool rev = c.flip("reverse");
  size_t e = g.addEdge(rev ? G::E(&g.getNode(b), &g.getNode(a), z, P::InformMatrix::Identity())
                           : G::E(&g.getNode(a), &g.getNode(b), z, P::InformMatrix::Identity()));
  for (int k = 0; k < (c.thorough() ? 4 : 3); ++k) {
    const V3 &f = rev ? pose[1] : pose[0], &t = rev ? pose[0] : pose[1];
    V3 er = g.getEdge(e).getError();
    RPose r = refErr({f(0), f(1), f(2)}, {t(0), t(1), t(2)}, {z(0), z(1), z(2)});
    c.step();
    c.near(er(0), (double)r.x, 1e-9, "edge error x");
    c.near(er(1), (double)r.y, 1e-9, "edge error y");
    c.check(adiff(er(2), r.t) < 1e-9, "edge error angle");
    const V3 &held0 = g.getNode(a).getPose(), &held1 = g.getNode(b).getPose();
    c.check((held0 - pose[0]).norm() < 1e-9 && (held1 - pose[1]).norm() < 1e-9, "node pose");
    auto TM = g.getEdge(e).getTransMatrix();
    RMat zm = rmat(z(0), z(1), z(2));
    c.near(TM(0, 2), (double)zm.x, 1e-12, "edge transform matrix");
    c.near(TM(1, 2), (double)zm.y, 1e-12, "edge transform matrix");
    c.near(TM(0, 0), (double)zm.c, 1e-12, "edge transform matrix");
    c.near(TM(1, 0), (double)zm.s, 1e-12, "edge transform matrix");
    c.near(TM(0, 1), -(double)zm.s, 1e-12, "edge transform matrix");
    c.near(TM(1, 1), (double)zm.c, 1e-12, "edge transform matrix");
    auto J = g.getEdge(e).getJacobianBlocks();
    auto K = P::calcJacobianBlocks(V3(f), V3(t), V3(z));
    c.check((J.first - K.first).norm() < 1e-12 && (J.second - K.second).norm() < 1e-12, "edge derivatives");
    int op = c.choose(1 + 2 * (int)S.size(), "op");
    if (op == 0) {
      V3 d(-2, 0.25, 2.5);
      g.getNode(a).addToPose(V3(d));
      pose[0] = V3(pose[0](0) + d(0), pose[0](1) + d(1), (double)rnorm((LD)pose[0](2) + d(2)));
    } else if ((op - 1) / 4 == 0) {
      pose[0] = S[(op - 1) % 4];
      g.getNode(a).setPose(pose[0]);
    } else {
      pose[1] = S[(op - 1) % 4];
      if (c.flip("add")) {
        V3 d(0.5, -1, 3.0);
        g.getNode(b).setPose(pose[1]);
        g.getNode(b).addToPose(d);
        pose[1] = V3(pose[1](0) + d(0), pose[1](1) + d(1), (double)rnorm((LD)pose[1](2) + d(2)));
      } else
        g.getNode(b).setPose(pose[1]);
    }
    c.state(mc::Hash().addd(pose[0](0)).addd(pose[1](0)).addd(z(0)).add(rev));
  }
}
