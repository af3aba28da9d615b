#include "se2.h"
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se2Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_switchPrior.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
#include <g2o/core/jacobian_workspace.h>
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

static RPose refErr(const RPose &i, const RPose &j, const RPose &z)
{
  return rpose(rmul(rinv(rmat(z)), rmul(rinv(rmat(i)), rmat(j))));
}
static M3 info(int k)
{
  M3 m;
  m << 4 + k, 0.5 + 0.0625 * k, -0.25 - 0.125 * k, 0.5 + 0.0625 * k, 3 + 0.5 * k, 0.125 * k, -0.25 - 0.125 * k, 0.125 * k, 10 - k;
  return m;
}
struct Rig {
  g2o::VertexSE2 a, b;
  VertexSwitchLinear s;
  EdgeSE2Switchable e;
  Rig()
  {
    a.setId(0);
    b.setId(1);
    s.setId(2);
    e.setVertex(0, &a);
    e.setVertex(1, &b);
    e.setVertex(2, &s);
  }
};
static void one(mc::Ctx &c, Rig &r, const V3 &xi, const V3 &xj, const V3 &z, double s)
{
  r.a.setEstimate(g2o::SE2(xi(0), xi(1), xi(2)));
  r.b.setEstimate(g2o::SE2(xj(0), xj(1), xj(2)));
  r.s.setEstimate(s);
  RPose i{xi(0), xi(1), xi(2)}, j{xj(0), xj(1), xj(2)}, t{z(0), z(1), z(2)};
  LD scale = 1 + fabsl(i.x) + fabsl(i.y) + fabsl(j.x) + fabsl(j.y) + fabsl(t.x) + fabsl(t.y);
  RPose e0 = refErr(i, j, t);
  r.e.computeError();
  c.step();
  bool wrap = fabsl(fabsl(e0.t) - PI_L) < 1e-6L;
  c.near(r.e.error()(0), (double)(s * e0.x), (double)(1e-9L * scale), "error x");
  c.near(r.e.error()(1), (double)(s * e0.y), (double)(1e-9L * scale), "error y");
  if (wrap)
    c.near(std::fabs(r.e.error()(2)), std::fabs(s) * M_PI, 1e-5, "error angle");
  else
    c.near(r.e.error()(2), (double)(s * e0.t), 1e-9, "error angle");
  V3 er = r.e.error();
  c.near(r.e.chi2(), er.dot(r.e.information() * er), 1e-9 * (1 + r.e.chi2()), "weighted error");
  g2o::JacobianWorkspace ws;
  ws.updateSize(&r.e);
  ws.allocate();
  static_cast<g2o::OptimizableGraph::Edge &>(r.e).linearizeOplus(ws);
  c.step();
  Eigen::Map<Eigen::Matrix<double, 3, 3>> J0(ws.workspaceForVertex(0)), J1(ws.workspaceForVertex(1));
  Eigen::Map<Eigen::Matrix<double, 3, 1>> J2(ws.workspaceForVertex(2));
  const LD h = 1e-6L * (scale > 1e3L ? 100 : 1);
  for (int k = 0; k < 3; ++k)
    for (int side = 0; side < 2; ++side) {
      RPose p[2] = {i, j}, q[2] = {i, j};
      (k == 0 ? p[side].x : k == 1 ? p[side].y : p[side].t) += h;
      (k == 0 ? q[side].x : k == 1 ? q[side].y : q[side].t) -= h;
      RPose f = refErr(p[0], p[1], t), g = refErr(q[0], q[1], t);
      LD d[3] = {s * (f.x - g.x) / (2 * h), s * (f.y - g.y) / (2 * h), s * rnorm(f.t - g.t) / (2 * h)};
      for (int m = 0; m < 3; ++m)
        c.near(side ? J1(m, k) : J0(m, k), (double)d[m], (double)(1e-6L * scale), side ? "derivative w.r.t. second pose" : "derivative w.r.t. first pose");
    }
  c.near(J2(0), (double)e0.x, (double)(1e-9L * scale), "derivative w.r.t. switch");
  c.near(J2(1), (double)e0.y, (double)(1e-9L * scale), "derivative w.r.t. switch");
  if (!wrap)
    c.near(J2(2), (double)e0.t, 1e-9, "derivative w.r.t. switch");
}
static const std::vector<double> AS = {0, 0.7, M_PI / 2, 3.1, -2.9, -0.01};
MC_BODY(error_and_derivatives)
{
  static const std::vector<double> T = {0, 1.5, -20};
  Rig r;
  r.e.setInformation(info(1));
  V3 z(c.pick(T), c.pick(T), c.pick(AS));
  r.e.setMeasurement(g2o::SE2(z(0), z(1), z(2)));
  V3 xi(c.pick(T), c.pick(std::vector<double>{0, 1000.25}), c.pick(AS));
  for (double x : {0.0, -1.0, 33.0})
    for (double a : AS)
      for (double s : {0.0, 1.0, 0.3})
        one(c, r, xi, V3(x, 0.5 - x, a), z, s);
  c.state(mc::Hash().addd(z(0)).addd(z(1)).addd(z(2)).addd(xi(0)).addd(xi(1)).addd(xi(2)));
}
// the measurement can be replaced at any time, directly or from a stream, and
// interleaved with evaluations
MC_BODY(measurement_histories)
{
  static const std::vector<V3> Z = {V3(1, 2, 0.5), V3(-3, 0.25, -3), V3(0, 0, 0), V3(0.5, -7, 1.5)};
  Rig r;
  V3 z(0, 0, 0);
  M3 inf = info(0);
  r.e.setInformation(inf);
  r.e.setMeasurement(g2o::SE2(0, 0, 0));
  int d = c.thorough() ? 5 : 4;
  for (int i = 0; i < d; ++i) {
    int k = c.choose(10, "op");
    if (k < 4) {
      z = Z[k];
      c.say("set measurement %d", k);
      r.e.setMeasurement(g2o::SE2(z(0), z(1), z(2)));
    } else if (k < 7) {
      z = Z[k - 4];
      inf = info(k);
      std::stringstream s;
      s << z(0) << " " << z(1) << " " << z(2);
      for (int a = 0; a < 3; ++a)
        for (int b = a; b < 3; ++b)
          s << " " << inf(a, b);
      s << " ";
      c.say("read measurement %d", k - 4);
      c.check(r.e.read(s), "read fails");
    } else if (k == 7) {
      std::stringstream s;
      c.check(r.e.write(s), "write fails");
      Rig o;
      c.check(o.e.read(s), "read of written edge fails");
      c.check((o.e.measurement().toVector() - r.e.measurement().toVector()).norm() < 1e-4, "measurement written and read back differs");
      c.check((o.e.information() - inf).norm() < 1e-4, "information written and read back differs");
      c.check(o.e.information() == o.e.information().transpose(), "information read is not symmetric");
      o.a.setEstimate(g2o::SE2(1, 1, 1));
      o.b.setEstimate(g2o::SE2(-1, 2, 0));
      one(c, o, V3(1, 1, 1), V3(-1, 2, 0), o.e.measurement().toVector(), 0.75);
    } else
      one(c, r, V3(k, 1, 0.2), V3(0, -k, 2), z, 0.5);
    c.step();
    c.check((r.e.measurement().toVector() - z).norm() < 1e-5, "measurement lost");
    c.check((r.e.information() - inf).norm() < 1e-5, "information lost");
    one(c, r, V3(0.5, 1, -1), V3(2, -1, 1.25), z, 0.9);
    c.state(mc::Hash().addd(z(0)).addd(z(2)).addd(inf(0, 0)));
  }
}
MC_BODY(prior)
{
  static const std::vector<double> S = {0, 1, 0.5, 0.001, 0.75}, I = {1, 20, 0.25};
  VertexSwitchLinear v;
  v.setId(0);
  EdgeSwitchPrior e;
  e.setVertex(0, &v);
  double m = c.pick(S), s = c.pick(S), inf = c.pick(I);
  bool io = c.flip("from stream");
  if (io) {
    std::stringstream o;
    o << m << " " << inf << " ";
    c.check(e.read(o), "read fails");
  } else {
    e.setMeasurement(m);
    e.setInformation(EdgeSwitchPrior::InformationType::Constant(inf));
  }
  double up = c.pick(std::vector<double>{0, 0.25, -0.5, 3});
  v.setEstimate(s);
  bool pushed = c.flip("push");
  if (pushed)
    v.push();
  v.oplus(&up);
  double x = std::min(1.0, std::max(0.0, s + up));
  e.computeError();
  c.step();
  c.near(e.error()(0), m - x, 1e-12, "prior error");
  c.near(e.chi2(), inf * (m - x) * (m - x), 1e-9 * (1 + e.chi2()), "prior weighted error");
  if (pushed) {
    v.pop();
    e.computeError();
    c.near(e.error()(0), m - s, 1e-12, "prior error after restoring");
  }
  g2o::JacobianWorkspace ws;
  ws.updateSize(&e);
  ws.allocate();
  static_cast<g2o::OptimizableGraph::Edge &>(e).linearizeOplus(ws);
  c.near(ws.workspaceForVertex(0)[0], -1, 0, "prior derivative");
  std::stringstream o;
  e.write(o);
  o << " ";
  EdgeSwitchPrior f;
  f.setVertex(0, &v);
  c.check(f.read(o), "read of written prior fails");
  c.near(f.measurement(), m, 1e-5, "prior measurement");
  c.near(f.information()(0, 0), inf, 1e-4, "prior information");
  c.state(mc::Hash().addd(m).addd(s).addd(inf).addd(up));
}
