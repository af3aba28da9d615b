#include "se2.h"
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se3_mixture.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se3Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
#include <g2o/core/jacobian_workspace.h>
#include <g2o/core/sparse_optimizer.h>
G2O_USE_TYPE_GROUP(slam3d);
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<LD, 3, 3> L33;
typedef Eigen::Matrix<LD, 3, 1> L3;
static struct Quiet {
  Quiet()
  {
    std::cerr.rdbuf(nullptr);
  }
} quiet;

// ------------------------------------------------ rigid motions, once more
struct Mot {
  L33 R = L33::Identity();
  L3 t = L3::Zero();
};
static Mot mul(const Mot &a, const Mot &b)
{
  Mot r;
  r.R = a.R * b.R;
  r.t = a.R * b.t + a.t;
  return r;
}
static Mot inv(const Mot &a)
{
  Mot r;
  r.R = a.R.transpose();
  r.t = -(r.R * a.t);
  return r;
}
static Mot turned(LD x, LD y, LD z, LD ax, LD ay, LD az, LD angle)
{
  Mot m;
  m.t = L3(x, y, z);
  L3 k(ax, ay, az);
  k /= sqrtl(k.dot(k));
  L33 K;
  K << 0, -k(2), k(1), k(2), 0, -k(0), -k(1), k(0), 0;
  m.R = L33::Identity() + sinl(angle) * K + (1 - cosl(angle)) * K * K;
  return m;
}
// translation and vector part of the quaternion
static Mot small(int k, LD d)
{
  Mot m;
  if (k < 3)
    m.t(k) = d;
  else {
    L3 q = L3::Zero();
    q(k - 3) = 1;
    m = turned(0, 0, 0, q(0), q(1), q(2), 2 * asinl(d));
  }
  return m;
}
struct Vec {
  LD v[6];
  LD w;
};
static Vec vec(const Mot &m)
{
  Vec r;
  for (int i = 0; i < 3; ++i)
    r.v[i] = m.t(i);
  LD tr = m.R(0, 0) + m.R(1, 1) + m.R(2, 2);
  LD q[4];
  LD best[4] = {tr, m.R(0, 0), m.R(1, 1), m.R(2, 2)};
  int b = std::max_element(best, best + 4) - best;
  if (b == 0) {
    LD s = sqrtl(tr + 1) * 2;
    q[3] = s / 4;
    q[0] = (m.R(2, 1) - m.R(1, 2)) / s, q[1] = (m.R(0, 2) - m.R(2, 0)) / s, q[2] = (m.R(1, 0) - m.R(0, 1)) / s;
  } else {
    int i = b - 1, j = (i + 1) % 3, k = (i + 2) % 3;
    LD s = sqrtl(1 + m.R(i, i) - m.R(j, j) - m.R(k, k)) * 2;
    q[i] = s / 4;
    q[j] = (m.R(i, j) + m.R(j, i)) / s, q[k] = (m.R(i, k) + m.R(k, i)) / s;
    q[3] = (m.R(k, j) - m.R(j, k)) / s;
  }
  LD f = q[3] < 0 ? -1 : 1;
  for (int i = 0; i < 3; ++i)
    r.v[3 + i] = f * q[i];
  r.w = f * q[3];
  return r;
}
static g2o::Isometry3 iso(const Mot &m)
{
  g2o::Isometry3 i = g2o::Isometry3::Identity();
  i.linear() = m.R.cast<double>();
  i.translation() = m.t.cast<double>();
  return i;
}
static double apart(const g2o::Isometry3 &a, const g2o::Isometry3 &b)
{
  return (a.matrix() - b.matrix()).cwiseAbs().maxCoeff();
}
static const std::vector<Mot> &motions()
{
  static std::vector<Mot> v = {turned(0, 0, 0, 0, 0, 1, 0), turned(1, 0, 0, 0, 0, 1, 0.5L), turned(-2, 3, 0.5L, 1, 2, -1, 2.9L), turned(9, 1.25L, -4, 1, 0, 0, -1.4L), turned(0.5L, -0.25L, 30, 0, 1, 0, 3.1L), turned(0.1L, 0.2L, 0.3L, 1, 1, 1, 0.01L), turned(-40, 2, 1, -1, 0.5L, 0.25L, 1.7L), turned(0, 0, 1000.25L, 0, 0, 1, -2), turned(-1, -1, -1, 0, 1, -1, 2.2L), turned(3, 0, 0, 1, 0, 1, -0.6L), turned(0, 7, 0, 1, -1, 0, 1e-6L), turned(5, -5, 5, -1, -1, 2, -2.7L)};
  return v;
}
static M6 info(int k)
{
  M6 m = M6::Zero();
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 6; ++j)
      m(i, j) = i == j ? 8 + i + k : 0.0625 * (1 + std::min(i, j)) * (1 + k % 3) / (1 + std::max(i, j));
  return m;
}

// ----------------------------------------------------- switchable constraint
struct Rig {
  g2o::VertexSE3 a, b;
  VertexSwitchLinear s;
  std::unique_ptr<EdgeSE3Switchable> p;
  EdgeSE3Switchable &e;
  Rig() : p(new EdgeSE3Switchable), e(*p)
  {
    a.setId(0);
    b.setId(1);
    s.setId(2);
    e.setVertex(0, &a);
    e.setVertex(1, &b);
    e.setVertex(2, &s);
  }
};
static void one(mc::Ctx &c, Rig &r, const Mot &xi, const Mot &xj, const Mot &z, double s)
{
  r.a.setEstimate(iso(xi));
  r.b.setEstimate(iso(xj));
  r.s.setEstimate(s);
  auto err = [](const Mot &i, const Mot &j, const Mot &m) { return vec(mul(inv(m), mul(inv(i), j))); };
  LD scale = 1 + xi.t.cwiseAbs().sum() + xj.t.cwiseAbs().sum() + z.t.cwiseAbs().sum();
  Vec e0 = err(xi, xj, z);
  if (e0.w < 1e-4L)
    return;  // half a turn has two shortest ways
  r.e.computeError();
  c.step();
  for (int k = 0; k < 6; ++k)
    c.near(r.e.error()(k), (double)(s * e0.v[k]), (double)(1e-9L * scale), "error of the switched constraint");
  V6 er = r.e.error();
  c.near(r.e.chi2(), er.dot(r.e.information() * er), 1e-9 * (1 + r.e.chi2()), "weighted error");
  g2o::JacobianWorkspace ws;
  ws.updateSize(&r.e);
  ws.allocate();
  static_cast<g2o::OptimizableGraph::Edge &>(r.e).linearizeOplus(ws);
  c.step();
  Eigen::Map<M6> J0(ws.workspaceForVertex(0)), J1(ws.workspaceForVertex(1));
  Eigen::Map<V6> J2(ws.workspaceForVertex(2));
  const LD h = 1e-6L;
  for (int k = 0; k < 6; ++k) {
    Vec p0 = err(mul(xi, small(k, h)), xj, z), n0 = err(mul(xi, small(k, -h)), xj, z);
    Vec p1 = err(xi, mul(xj, small(k, h)), z), n1 = err(xi, mul(xj, small(k, -h)), z);
    for (int m = 0; m < 6; ++m) {
      c.near(J0(m, k), (double)(s * (p0.v[m] - n0.v[m]) / (2 * h)), (double)(1e-6L * scale), "derivative w.r.t. first pose");
      c.near(J1(m, k), (double)(s * (p1.v[m] - n1.v[m]) / (2 * h)), (double)(1e-6L * scale), "derivative w.r.t. second pose");
    }
    c.near(J2(k), (double)e0.v[k], (double)(1e-9L * scale), "derivative w.r.t. switch");
  }
}
MC_BODY(error_and_derivatives)
{
  auto &M = motions();
  Rig r;
  r.e.setInformation(info(1));
  int iz = c.choose(M.size(), "measurement"), ii = c.choose(M.size(), "first pose");
  bool again = c.flip("used before");
  if (again) {
    r.e.setMeasurement(iso(M[(iz + 1) % M.size()]));
    one(c, r, M[1], M[2], M[(iz + 1) % M.size()], 0.5);
  }
  r.e.setMeasurement(iso(M[iz]));
  for (auto &xj : M)
    for (double s : {0.0, 1.0, 0.3, 0.999})
      one(c, r, M[ii], xj, M[iz], s);
  c.state(mc::Hash().add(iz).add(ii).add(again));
}
static void say7(std::ostream &s, const Mot &m, double f)
{
  Vec v = vec(m);
  s << std::setprecision(17);
  for (int i = 0; i < 3; ++i)
    s << (double)v.v[i] << " ";
  for (int i = 3; i < 6; ++i)
    s << f * (double)v.v[i] << " ";
  s << f * (double)v.w << " ";
}
MC_BODY(measurement_histories)
{
  auto &M = motions();
  Rig r;
  Mot z;
  M6 inf = info(0);
  r.e.setInformation(inf);
  r.e.setMeasurement(iso(z));
  int d = c.thorough() ? 5 : 4;
  for (int i = 0; i < d; ++i) {
    int k = c.choose(10, "op");
    if (k < 4) {
      z = M[k];
      c.say("set measurement %d", k);
      r.e.setMeasurement(iso(z));
    } else if (k < 7) {
      z = M[k - 3];
      inf = info(k);
      std::stringstream s;
      // a quaternion that lost its length, or points the other way
      say7(s, z, k == 4 ? 1 : k == 5 ? 1.001 : -0.998);
      for (int a = 0; a < 6; ++a)
        for (int b = a; b < 6; ++b)
          s << " " << inf(a, b);
      s << " ";
      c.say("read measurement %d", k - 3);
      c.check(r.e.read(s), "read fails");
    } else if (k == 7) {
      std::stringstream s;
      c.check(r.e.write(s), "write fails");
      Rig o;
      c.check(o.e.read(s), "read of written edge fails");
      c.check(apart(o.e.measurement(), r.e.measurement()) < 1e-4, "measurement written and read back differs");
      c.check((o.e.information() - inf).norm() < 1e-4, "information written and read back differs");
      c.check(o.e.information() == o.e.information().transpose(), "information read is not symmetric");
      o.a.setEstimate(iso(M[1]));
      o.b.setEstimate(iso(M[2]));
      o.s.setEstimate(1);
      o.e.computeError();
      r.a.setEstimate(iso(M[1]));
      r.b.setEstimate(iso(M[2]));
      r.s.setEstimate(1);
      r.e.computeError();
      c.check((o.e.error() - r.e.error()).norm() < 1e-3, "error after writing and reading differs");
    } else
      one(c, r, M[k - 7], M[(k + 3) % M.size()], z, 0.5);
    c.step();
    c.check(apart(r.e.measurement(), iso(z)) < 1e-9, "measurement lost");
    c.check((r.e.information() - inf).norm() < 1e-5, "information lost");
    one(c, r, M[2], M[5], z, 0.9);
    c.state(mc::Hash().addd((double)z.t(0)).addd((double)z.R(0, 1)).addd(inf(0, 0)));
  }
}

// -------------------------------------------------------------------- mixture
static const std::vector<double> WEIGHTS = {1, 0.5, 0.001, 1e-9};
static const std::vector<double> INFO = {1, 50, 0.01};
typedef g2o::EdgeSE3 E;
typedef EdgeSE3Mixture Mix;
struct Graph {
  mc::Ctx &c;
  g2o::SparseOptimizer opt;
  std::vector<g2o::VertexSE3 *> v;
  std::vector<E *> comp;
  std::vector<double> w;
  std::vector<std::unique_ptr<E>> own;
  Graph(mc::Ctx &ctx, int n) : c(ctx)
  {
    for (int i = 0; i < n; ++i) {
      auto *x = new g2o::VertexSE3;
      x->setId(i + 3);
      opt.addVertex(x);
      v.push_back(x);
    }
  }
  void pose(int i, int k)
  {
    v[i]->setEstimate(iso(motions()[k]));
  }
  void add(int from, int to, const Mot &z, double inf, double weight)
  {
    own.emplace_back(new E);
    E *e = own.back().get();
    e->setVertex(0, v[from]);
    e->setVertex(1, v[to]);
    e->setMeasurement(iso(z));
    M6 m = M6::Identity() * inf;
    m(0, 1) = m(1, 0) = 0.25 * inf;
    m(2, 4) = m(4, 2) = -0.125 * inf;
    e->setInformation(m);
    comp.push_back(e);
    w.push_back(weight);
  }
  static void copy(E &k, E *e)
  {
    k.setVertex(0, e->vertex(0));
    k.setVertex(1, e->vertex(1));
    k.setMeasurement(e->measurement());
    k.setInformation(e->information());
    k.computeError();
  }
  double nll(E *e, double weight)
  {
    E k;
    copy(k, e);
    V6 er = k.error();
    return -std::log(weight) + 0.5 * std::log(1.0 / e->information().determinant()) + 0.5 * er.dot(e->information() * er);
  }
  void checkMix(Mix &m, std::vector<E *> &cs, std::vector<double> &ws, const char *what)
  {
    int best = m.getBestComponent();
    c.check(m.numberComponents == (int)cs.size(), "%s: %d components, expected %zu", what, m.numberComponents, cs.size());
    c.check(best >= 0 && best < (int)cs.size(), "%s: best component %d of %zu", what, best, cs.size());
    double mn = 1e300;
    for (size_t i = 0; i < cs.size(); ++i)
      mn = std::min(mn, nll(cs[i], ws[i]));
    double nb = nll(cs[best], ws[best]);
    c.check(nb <= mn + 1e-9 * (1 + std::fabs(mn)), "%s: component %d (-log likelihood %g) chosen, best has %g", what, best, nb, mn);
    E *b = cs[best];
    c.check(m.vertex(0) == b->vertex(0) && m.vertex(1) == b->vertex(1), "%s: mixture is not attached to the vertices of its best component", what);
    c.check(apart(m.measurement(), b->measurement()) < 1e-9, "%s: mixture measurement differs from its best component", what);
    c.check(m.information() == b->information(), "%s: mixture information differs from its best component", what);
    E k;
    copy(k, b);
    c.check((m.error() - k.error()).norm() < 1e-7, "%s: mixture error differs from its best component by %g", what, (m.error() - k.error()).norm());
    c.check(std::fabs(m.chi2() - k.chi2()) <= 1e-7 * (1 + k.chi2()), "%s: mixture weighted error", what);
  }
  void checkJac(Mix &m, std::vector<E *> &cs)
  {
    m.computeError();
    int best = m.getBestComponent();
    g2o::JacobianWorkspace wa, wb;
    wa.updateSize(&m);
    wa.allocate();
    static_cast<g2o::OptimizableGraph::Edge &>(m).linearizeOplus(wa);
    E k;
    copy(k, cs[best]);
    wb.updateSize(&k);
    wb.allocate();
    static_cast<g2o::OptimizableGraph::Edge &>(k).linearizeOplus(wb);
    for (int s = 0; s < 2; ++s)
      for (int i = 0; i < 36; ++i)
        c.near(wa.workspaceForVertex(s)[i], wb.workspaceForVertex(s)[i], 1e-7, "derivative of the mixture");
  }
  void roundTrip(Mix &m)
  {
    std::stringstream s;
    c.check(m.write(s), "write fails");
    Mix r;
    r.setVertex(0, v[0]);
    r.setVertex(1, v[1]);
    c.check(r.read(s), "written mixture cannot be read");
    c.check(r.numberComponents == m.numberComponents, "%d components written, %d read", m.numberComponents, r.numberComponents);
    std::vector<E *> cs;
    for (int i = 0; i < r.numberComponents; ++i) {
      E *a = m.getComponent(i), *b = r.getComponent(i);
      cs.push_back(b);
      c.check(a->vertex(0) == b->vertex(0) && a->vertex(1) == b->vertex(1), "component %d read back connects other vertices", i);
      c.check(apart(a->measurement(), b->measurement()) < 2e-4, "component %d read back has another measurement", i);
      c.check((a->information() - b->information()).norm() <= 1e-4 * a->information().norm(), "component %d read back has another information", i);
    }
    checkMix(r, cs, w, "read back");
    // reading a second time replaces, never appends
    std::stringstream s2;
    m.write(s2);
    c.check(r.read(s2), "second read fails");
    cs.clear();
    for (int i = 0; i < r.numberComponents; ++i)
      cs.push_back(r.getComponent(i));
    checkMix(r, cs, w, "read twice");
    c.step();
  }
};
MC_BODY(mixtures)
{
  Graph r(c, 3);
  for (int i = 0; i < 3; ++i)
    r.pose(i, i);
  int n = 1 + c.choose(3, "components");
  mc::Hash h;
  for (int i = 0; i < n; ++i) {
    // last components over a smaller alphabet
    int pairs[3][2] = {{0, 1}, {1, 2}, {0, 2}};
    int p = c.choose(i == 0 ? 2 : 3), z = c.choose(i == 2 ? 2 : 4), q = c.choose(i == 2 && !c.thorough() ? 2 : 3), k = c.choose(i == 2 && !c.thorough() ? 2 : 4);
    if (n == 3 && i == 0 && (z > 1 || q > 1) && !c.thorough())
      throw mc::Prune();
    r.add(pairs[p][0], pairs[p][1], motions()[z], INFO[q], WEIGHTS[k]);
    h.add(p * 64 + z * 16 + q * 4 + k);
  }
  c.scribble();
  Mix m(r.comp, r.w);
  c.step();
  r.checkMix(m, r.comp, r.w, "constructed");
  for (int a = 0; a < 4; ++a) {
    r.pose(1, a + 1);
    r.pose(0, (a + 2) % 4);
    m.computeError();
    c.step();
    r.checkMix(m, r.comp, r.w, "after moving vertices");
    c.state(mc::Hash(h).add(a));
  }
  r.checkJac(m, r.comp);
  r.roundTrip(m);
}
MC_BODY(mixture_histories)
{
  auto &M = motions();
  Graph r(c, 3);
  for (int i = 0; i < 3; ++i)
    r.pose(i, i);
  std::vector<E *> sets[2];
  std::vector<double> ws[2];
  r.add(0, 1, M[1], 50, 1);
  r.add(0, 1, M[1], 0.01, 0.01);
  sets[0] = r.comp;
  ws[0] = r.w;
  r.comp.clear();
  r.w.clear();
  r.add(0, 2, M[2], 1, 0.5);
  r.add(1, 2, M[0], 1, 0.25);
  r.add(2, 1, M[3], 50, 0.25);
  sets[1] = r.comp;
  ws[1] = r.w;
  int cur = c.choose(2);
  c.scribble();
  std::unique_ptr<Mix> pm(new Mix);
  Mix &m = *pm;
  c.check(m.numberComponents == 0, "new mixture has components");
  c.check(m.getBestComponent() == -1, "new mixture has chosen component %d", m.getBestComponent());
  m.initializeComponents(sets[cur], ws[cur]);
  r.checkMix(m, sets[cur], ws[cur], "initialised");
  int d = c.thorough() ? 6 : 4;
  for (int i = 0; i < d; ++i) {
    int k = c.choose(9, "op");
    if (k < 4) {
      r.pose(1, k);
      m.computeError();
    } else if (k < 6) {
      r.pose(2, k - 3);
      m.computeBestEdge();
    } else if (k == 6) {
      r.checkJac(m, sets[cur]);
    } else if (k == 7) {
      cur ^= 1;
      m.initializeComponents(sets[cur], ws[cur]);
    } else {
      r.w = ws[cur];
      r.roundTrip(m);
    }
    c.step();
    if (c.fresh()) {
      r.checkMix(m, sets[cur], ws[cur], "after operation");
      c.state(mc::Hash().add(cur).add(m.getBestComponent()).addd(m.chi2()).add(k));
    }
  }
}
MC_BODY(many)
{
  int n = c.pick(std::vector<int>{1, 2, 3, 4, 7, 16, 33, 100});
  int b = c.choose(n < 8 ? n : 8);
  if (n >= 8)
    b = b * (n - 1) / 7;
  Graph r(c, 2);
  Mot place = turned(1, 2, -1, 1, 2, 3, 0.75L);
  r.v[1]->setEstimate(iso(place));
  for (int i = 0; i < n; ++i)
    r.add(0, 1, i == b ? place : turned(3 + i, -5, 2, 0, 1, 1, 1), 10, 1.0 / (i + 1));
  Mix m(r.comp, r.w);
  c.step();
  r.checkMix(m, r.comp, r.w, "constructed");
  c.check(m.getBestComponent() == b, "component %d chosen instead of the perfect one %d", m.getBestComponent(), b);
  r.roundTrip(m);
  for (int i = 0; i < n; ++i)
    c.check(m.getComponent(i) == r.comp[i], "component %d", i);
  c.state(mc::Hash().add(n).add(b));
}
