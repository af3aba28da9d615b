#include "se2.h"
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_mixture.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.h>
#include <g2o/core/factory.h>
#include <g2o/core/jacobian_workspace.h>
#include <g2o/core/sparse_optimizer.h>
#include <g2o/types/slam2d/vertex_point_xy.h>
G2O_USE_TYPE_GROUP(slam2d);
typedef Eigen::Vector3d V3;
static struct Quiet {
  Quiet()
  {
    std::cerr.rdbuf(nullptr);
  }
} quiet;

static const std::vector<V3> POSES = {V3(0, 0, 0), V3(1, 0, 0.5), V3(-2, 3, -3), V3(10, 1, 1.5)};
static const std::vector<V3> MEAS = {V3(0, 0, 0), V3(1, 0, 0.5), V3(-2, 3.5, 2.75), V3(9, 1.25, 1)};
static const std::vector<double> WEIGHTS = {1, 0.5, 0.001, 1e-9};
static const std::vector<double> INFO = {1, 50, 0.01};

template <int D>
struct Kind;
template <>
struct Kind<3> {
  typedef EdgeSE2Mixture Mix;
  typedef g2o::EdgeSE2 E;
  static void meas(E *e, const V3 &z)
  {
    e->setMeasurement(g2o::SE2(z(0), z(1), z(2)));
  }
  static bool same(const E &a, const E &b, double tol)
  {
    return (a.measurement().toVector() - b.measurement().toVector()).norm() <= tol;
  }
  static const char *tag()
  {
    return "EDGE_SE2";
  }
};
template <>
struct Kind<2> {
  typedef EdgeSE2PointXYMixture Mix;
  typedef g2o::EdgeSE2PointXY E;
  static void meas(E *e, const V3 &z)
  {
    e->setMeasurement(Eigen::Vector2d(z(0), z(1)));
  }
  static bool same(const E &a, const E &b, double tol)
  {
    return (a.measurement() - b.measurement()).norm() <= tol;
  }
  static const char *tag()
  {
    return "EDGE_SE2_XY";
  }
};
template <int D>
struct Rig {
  typedef typename Kind<D>::E E;
  typedef typename Kind<D>::Mix Mix;
  mc::Ctx &c;
  g2o::SparseOptimizer opt;
  std::vector<g2o::VertexSE2 *> v;
  std::vector<g2o::VertexPointXY *> l;
  std::vector<E *> comp;
  std::vector<double> w;
  std::vector<std::unique_ptr<E>> own;
  int nv;
  Rig(mc::Ctx &ctx, int n) : c(ctx), nv(n)
  {
    for (int i = 0; i < n; ++i) {
      auto *x = new g2o::VertexSE2;
      x->setId(i + 3);
      opt.addVertex(x);
      v.push_back(x);
      auto *y = new g2o::VertexPointXY;
      y->setId(i + 40);
      opt.addVertex(y);
      l.push_back(y);
    }
  }
  g2o::OptimizableGraph::Vertex *second(int i)
  {
    return D == 3 ? (g2o::OptimizableGraph::Vertex *)v[i] : (g2o::OptimizableGraph::Vertex *)l[i];
  }
  void pose(int i, const V3 &p)
  {
    v[i]->setEstimate(g2o::SE2(p(0), p(1), p(2)));
    l[i]->setEstimate(Eigen::Vector2d(p(0) + 0.5, p(1) - 1));
  }
  E *add(int from, int to, const V3 &z, double inf, double weight)
  {
    own.emplace_back(new E);
    E *e = own.back().get();
    e->setVertex(0, v[from]);
    e->setVertex(1, second(to));
    Kind<D>::meas(e, z);
    Eigen::Matrix<double, D, D> m = Eigen::Matrix<double, D, D>::Identity() * inf;
    m(0, 1) = m(1, 0) = 0.25 * inf;
    e->setInformation(m);
    comp.push_back(e);
    w.push_back(weight);
    return e;
  }
  double nll(E *e, double weight)
  {
    // own copy of the component so that nothing cached is reused
    E k;
    k.setVertex(0, e->vertex(0));
    k.setVertex(1, e->vertex(1));
    k.setMeasurement(e->measurement());
    k.setInformation(e->information());
    k.computeError();
    Eigen::Matrix<double, D, 1> er = k.error();
    double chi = er.dot(e->information() * er);
    return -std::log(weight) + 0.5 * std::log(1.0 / e->information().determinant()) + 0.5 * chi;
  }
  // the mixture shows the most likely component
  void checkMix(Mix &m, std::vector<E *> &cs, std::vector<double> &ws, const char *what)
  {
    int best = m.getBestComponent();
    c.check(m.numberComponents == (int)cs.size(), "%s: %d components, expected %zu", what, m.numberComponents, cs.size());
    c.check(best >= 0 && best < (int)cs.size(), "%s: best component %d of %zu", what, best, cs.size());
    double mn = 1e300;
    for (size_t i = 0; i < cs.size(); ++i)
      mn = std::min(mn, nll(cs[i], ws[i]));
    double nb = nll(cs[best], ws[best]);
    c.check(nb <= mn + 1e-9 * (1 + std::fabs(mn)), "%s: component %d (-log likelihood %g) chosen, best has %g", what, best, nb, mn);
    E *b = cs[best];
    c.check(m.vertex(0) == b->vertex(0) && m.vertex(1) == b->vertex(1), "%s: mixture is not attached to the vertices of its best component", what);
    c.check(Kind<D>::same(m, *b, 1e-12), "%s: mixture measurement differs from its best component", what);
    c.check(m.information() == b->information(), "%s: mixture information differs from its best component", what);
    E k;
    k.setVertex(0, b->vertex(0));
    k.setVertex(1, b->vertex(1));
    k.setMeasurement(b->measurement());
    k.setInformation(b->information());
    k.computeError();
    c.check((m.error() - k.error()).norm() < 1e-9, "%s: mixture error differs from its best component by %g", what, (m.error() - k.error()).norm());
    c.check(std::fabs(m.chi2() - k.chi2()) <= 1e-9 * (1 + k.chi2()), "%s: mixture weighted error", what);
  }
  void checkJac(Mix &m, std::vector<E *> &cs)
  {
    m.computeError();
    int best = m.getBestComponent();
    g2o::JacobianWorkspace wa, wb;
    wa.updateSize(&m);
    wa.allocate();
    static_cast<g2o::OptimizableGraph::Edge &>(m).linearizeOplus(wa);
    E k;
    k.setVertex(0, cs[best]->vertex(0));
    k.setVertex(1, cs[best]->vertex(1));
    k.setMeasurement(cs[best]->measurement());
    k.setInformation(cs[best]->information());
    k.computeError();
    wb.updateSize(&k);
    wb.allocate();
    static_cast<g2o::OptimizableGraph::Edge &>(k).linearizeOplus(wb);
    for (int i = 0; i < D * 3; ++i)
      c.near(wa.workspaceForVertex(0)[i], wb.workspaceForVertex(0)[i], 1e-9, "derivative w.r.t. first vertex");
    for (int i = 0; i < D * (D == 3 ? 3 : 2); ++i)
      c.near(wa.workspaceForVertex(1)[i], wb.workspaceForVertex(1)[i], 1e-9, "derivative w.r.t. second vertex");
  }
  void roundTrip(Mix &m)
  {
    std::stringstream s;
    c.check(m.write(s), "write fails");
    Mix r;
    r.setVertex(0, v[0]);
    r.setVertex(1, second(0));
    bool ok = r.read(s);
    c.check(ok, "written mixture cannot be read");
    c.check(r.numberComponents == m.numberComponents, "%d components written, %d read", m.numberComponents, r.numberComponents);
    std::vector<E *> cs;
    for (int i = 0; i < r.numberComponents; ++i) {
      E *a = m.getComponent(i), *b = r.getComponent(i);
      cs.push_back(b);
      c.check(a->vertex(0) == b->vertex(0) && a->vertex(1) == b->vertex(1), "component %d read back connects other vertices", i);
      c.check(Kind<D>::same(*a, *b, 1e-4), "component %d read back has another measurement", i);
      c.check((a->information() - b->information()).norm() <= 1e-4 * a->information().norm(), "component %d read back has another information", i);
    }
    checkMix(r, cs, w, "read back");
    // reading a second time replaces, never appends
    std::stringstream s2;
    m.write(s2);
    c.check(r.read(s2), "second read fails");
    cs.clear();
    for (int i = 0; i < r.numberComponents; ++i)
      cs.push_back(r.getComponent(i));
    checkMix(r, cs, w, "read twice");
    c.step();
  }
};
// every pair/triple of component configurations against every placement
template <int D>
static void configs(mc::Ctx &c)
{
  Rig<D> r(c, 3);
  for (int i = 0; i < 3; ++i)
    r.pose(i, POSES[i]);
  int n = 1 + c.choose(3, "components");
  mc::Hash h;
  for (int i = 0; i < n; ++i) {
    // last components over a smaller alphabet
    int pairs[3][2] = {{0, 1}, {1, 2}, {0, 2}};
    int p = c.choose(i == 0 ? 2 : 3), z = c.choose(i == 2 ? 2 : 4), q = c.choose(i == 2 && !c.thorough() ? 2 : 3), k = c.choose(i == 2 && !c.thorough() ? 2 : 4);
    if (n == 3 && i == 0 && (z > 1 || q > 1) && !c.thorough())
      throw mc::Prune();
    r.add(pairs[p][0], pairs[p][1], MEAS[z], INFO[q], WEIGHTS[k]);
    h.add(p * 64 + z * 16 + q * 4 + k);
  }
  typename Rig<D>::Mix m(r.comp, r.w);
  c.step();
  r.checkMix(m, r.comp, r.w, "constructed");
  for (int a = 0; a < 4; ++a) {
    r.pose(1, POSES[a]);
    r.pose(0, POSES[(a + 1) % 4]);
    m.computeError();
    c.step();
    r.checkMix(m, r.comp, r.w, "after moving vertices");
    c.state(mc::Hash(h).add(a));
  }
  r.checkJac(m, r.comp);
  r.roundTrip(m);
}
MC_BODY(pose_mixtures) { configs<3>(c); }
MC_BODY(landmark_mixtures) { configs<2>(c); }
// histories: moving vertices, linearizing, re-initialising, streaming
template <int D>
static void histories(mc::Ctx &c)
{
  Rig<D> r(c, 3);
  for (int i = 0; i < 3; ++i)
    r.pose(i, POSES[i]);
  std::vector<typename Rig<D>::E *> sets[2];
  std::vector<double> ws[2];
  r.add(0, 1, MEAS[1], 50, 1);
  r.add(0, 1, MEAS[1], 0.01, 0.01);
  sets[0] = r.comp;
  ws[0] = r.w;
  r.comp.clear();
  r.w.clear();
  r.add(0, 2, MEAS[2], 1, 0.5);
  r.add(1, 2, MEAS[0], 1, 0.25);
  r.add(2, 1, MEAS[3], 50, 0.25);
  sets[1] = r.comp;
  ws[1] = r.w;
  int cur = c.choose(2);
  typename Rig<D>::Mix m;
  c.check(m.numberComponents == 0, "new mixture has components");
  m.initializeComponents(sets[cur], ws[cur]);
  r.checkMix(m, sets[cur], ws[cur], "initialised");
  int d = c.thorough() ? 6 : 4;
  for (int i = 0; i < d; ++i) {
    int k = c.choose(9, "op");
    if (k < 4) {
      r.pose(1, POSES[k]);
      m.computeError();
    } else if (k < 6) {
      r.pose(2, POSES[k - 3]);
      m.computeBestEdge();
    } else if (k == 6) {
      r.checkJac(m, sets[cur]);
    } else if (k == 7) {
      cur ^= 1;
      m.initializeComponents(sets[cur], ws[cur]);
    } else {
      r.w = ws[cur];
      r.roundTrip(m);
    }
    c.step();
    if (c.fresh()) {
      r.checkMix(m, sets[cur], ws[cur], "after operation");
      c.state(mc::Hash().add(cur).add(m.getBestComponent()).addd(m.chi2()).add(k));
    }
  }
}
MC_BODY(pose_histories) { histories<3>(c); }
MC_BODY(landmark_histories) { histories<2>(c); }
// many components: the best one sits anywhere
template <int D>
static void many(mc::Ctx &c)
{
  int n = c.pick(std::vector<int>{1, 2, 3, 4, 7, 16, 33, 100});
  int b = c.choose(n < 8 ? n : 8);
  if (n >= 8)
    b = b * (n - 1) / 7;
  Rig<D> r(c, 2);
  r.pose(0, V3(0, 0, 0));
  r.pose(1, V3(1, 2, 0.3));
  for (int i = 0; i < n; ++i)
    r.add(0, 1, i == b ? V3(1.5 * (D == 2) + 1 * (D == 3), D == 2 ? 1 : 2, 0.3) : V3(3 + i, -5, 1), 10, 1.0 / (i + 1));
  typename Rig<D>::Mix m(r.comp, r.w);
  c.step();
  r.checkMix(m, r.comp, r.w, "constructed");
  c.check(m.getBestComponent() == b, "component %d chosen instead of the perfect one %d", m.getBestComponent(), b);
  r.roundTrip(m);
  for (int i = 0; i < n; ++i)
    c.check(m.getComponent(i) == r.comp[i], "component %d", i);
  c.state(mc::Hash().add(n).add(b));
}
MC_BODY(many_pose) { many<3>(c); }
MC_BODY(many_landmark) { many<2>(c); }
