// Graphs with robust constraints written to a file and read back.
#include "mc.h"
#include <ndt_gslam/slam_optimizer/max_mixture/types_g2o_mixture.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se2Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_switchPrior.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
#include <g2o/core/factory.h>
#include <g2o/core/sparse_optimizer.h>
#include <g2o/types/slam2d/vertex_point_xy.h>
#undef registerType
G2O_USE_TYPE_GROUP(slam2d);
G2O_USE_TYPE_GROUP(slam3d);
typedef g2o::OptimizableGraph::Vertex Vx;
typedef g2o::OptimizableGraph::Edge Ed;
static struct Quiet {
  Quiet()
  {
    std::cerr.rdbuf(nullptr);
  }
} quiet;

struct File {
  mc::Ctx &c;
  g2o::SparseOptimizer opt;
  std::vector<g2o::VertexSE2 *> p;
  std::vector<g2o::VertexSE3 *> s;
  g2o::VertexPointXY *xy;
  std::vector<VertexSwitchLinear *> w;
  int n = 0;
  File(mc::Ctx &ctx, int far) : c(ctx)
  {
    for (int i = 0; i < 3; ++i) {
      p.push_back(new g2o::VertexSE2);
      p[i]->setId(i * 7);
      p[i]->setEstimate(g2o::SE2(i * 1.5 + far, i - 1.25, i == 2 ? -2.5 : 0.5 * i));
      opt.addVertex(p[i]);
    }
    p[0]->setFixed(true);
    xy = new g2o::VertexPointXY;
    xy->setId(3);
    xy->setEstimate(Eigen::Vector2d(0.5, -2));
    opt.addVertex(xy);
    for (int i = 0; i < 3; ++i) {
      s.push_back(new g2o::VertexSE3);
      s[i]->setId(40 + i);
      g2o::Isometry3 t = g2o::Isometry3::Identity();
      t.linear() = Eigen::AngleAxisd(0.5 + i, Eigen::Vector3d(1, i, -1).normalized()).toRotationMatrix();
      t.translation() << i, 2 * i, 0.5 - i + far;
      s[i]->setEstimate(t);
      opt.addVertex(s[i]);
    }
  }
  template <int D>
  static Eigen::Matrix<double, D, D> info(double f)
  {
    Eigen::Matrix<double, D, D> m;
    for (int i = 0; i < D; ++i)
      for (int j = 0; j < D; ++j)
        m(i, j) = f * (i == j ? 4 + i : 0.25 / (1 + std::max(i, j)));
    return m;
  }
  g2o::EdgeSE2 *odo(int a, int b, double f, g2o::EdgeSE2 *e = new g2o::EdgeSE2)
  {
    e->setVertex(0, p[a]);
    e->setVertex(1, p[b]);
    e->setMeasurement(g2o::SE2(1.5 * f, 0.75, -0.5));
    e->setInformation(info<3>(f));
    return e;
  }
  g2o::EdgeSE2PointXY *seen(int a, double f)
  {
    auto *e = new g2o::EdgeSE2PointXY;
    e->setVertex(0, p[a]);
    e->setVertex(1, xy);
    e->setMeasurement(Eigen::Vector2d(f, -1.5));
    e->setInformation(info<2>(f));
    return e;
  }
  g2o::EdgeSE3 *space(int a, int b, double f)
  {
    auto *e = new g2o::EdgeSE3;
    e->setVertex(0, s[a]);
    e->setVertex(1, s[b]);
    g2o::Isometry3 t = g2o::Isometry3::Identity();
    t.linear() = Eigen::AngleAxisd(0.25 * f, Eigen::Vector3d(0, 1, 0)).toRotationMatrix();
    t.translation() << f, 1, -0.5;
    e->setMeasurement(t);
    e->setInformation(info<6>(f));
    return e;
  }
  void add(int kind)
  {
    ++n;
    double f = 1 + 0.5 * n;
    switch (kind) {
      case 0:
        opt.addEdge(odo(0, 1, f));
        break;
      case 1: {
        auto *v = new VertexSwitchLinear;
        v->setId(100 + n);
        v->setEstimate(1.0 / (1 << n));
        opt.addVertex(v);
        w.push_back(v);
        auto *e = new EdgeSE2Switchable;
        e->setVertex(0, p[2]);
        e->setVertex(1, p[0]);
        e->setVertex(2, v);
        e->setMeasurement(g2o::SE2(f, -0.5, 2.5));
        e->setInformation(info<3>(f));
        opt.addEdge(e);
        auto *q = new EdgeSwitchPrior;
        q->setVertex(0, v);
        q->setMeasurement(0.75);
        q->setInformation(EdgeSwitchPrior::InformationType::Constant(f));
        opt.addEdge(q);
        break;
      }
      case 2: {
        std::vector<g2o::EdgeSE2 *> e = {odo(0, 1, 0.01), odo(0, 1, f), odo(1, 2, 0.5)};
        std::vector<double> k = {1, 0.25, 0.125};
        opt.addEdge(new EdgeSE2Mixture(e, k));
        break;
      }
      case 3: {
        std::vector<g2o::EdgeSE2PointXY *> e = {seen(0, f), seen(2, 0.5)};
        std::vector<double> k = {0.5, 0.5};
        opt.addEdge(new EdgeSE2PointXYMixture(e, k));
        break;
      }
      case 4: {
        std::vector<g2o::EdgeSE3 *> e = {space(0, 1, f), space(1, 2, 0.5), space(0, 1, 0.25)};
        std::vector<double> k = {1, 0.5, 0.25};
        opt.addEdge(new EdgeSE3Mixture(e, k));
        break;
      }
      case 5: {
        std::vector<g2o::EdgeSE2 *> e = {odo(2, 1, f)};
        std::vector<double> k = {1};
        opt.addEdge(new EdgeSE2Mixture(e, k));
        break;
      }
    }
  }
};
static std::string name(const g2o::HyperGraph::HyperGraphElement *e)
{
  return typeid(*e).name();
}
static std::vector<Ed *> edges(g2o::SparseOptimizer &o)
{
  std::vector<Ed *> v;
  for (auto *e : o.edges())
    v.push_back(static_cast<Ed *>(e));
  std::sort(v.begin(), v.end(), [](Ed *a, Ed *b) { return a->internalId() < b->internalId(); });
  return v;
}
static double off(const double *a, const double *b, int n)
{
  double d = 0;
  for (int i = 0; i < n; ++i)
    d = std::max(d, std::fabs(a[i] - b[i]) / (1 + std::fabs(a[i])));
  return std::isfinite(d) ? d : INFINITY;
}
template <typename M>
static void mixture(mc::Ctx &c, Ed *a, Ed *b)
{
  auto *x = dynamic_cast<M *>(a), *y = dynamic_cast<M *>(b);
  if (!x || !y)
    return;
  c.check(x->numberComponents == y->numberComponents, "mixture of %d components read as %d", x->numberComponents, y->numberComponents);
  for (int i = 0; i < x->numberComponents; ++i) {
    auto *p = x->getComponent(i), *q = y->getComponent(i);
    c.check(off(p->informationData(), q->informationData(), p->dimension() * p->dimension()) < 1e-4, "information of component %d differs", i);
    double m[7] = {0}, k[7] = {0};
    p->getMeasurementData(m);
    q->getMeasurementData(k);
    c.check(off(m, k, 7) < 1e-4, "measurement of component %d differs", i);
    for (int j = 0; j < 2; ++j)
      c.check(p->vertex(j)->id() == q->vertex(j)->id(), "component %d is between other vertices", i);
  }
  x->computeError();
  y->computeError();
  c.check(x->getBestComponent() == y->getBestComponent(), "component %d was the best one, now %d", x->getBestComponent(), y->getBestComponent());
}
static void same(mc::Ctx &c, g2o::SparseOptimizer &a, g2o::SparseOptimizer &b)
{
  c.check(a.vertices().size() == b.vertices().size(), "%zu vertices saved, %zu loaded", a.vertices().size(), b.vertices().size());
  for (auto &k : a.vertices()) {
    auto *x = static_cast<Vx *>(k.second);
    Vx *y = b.vertex(k.first);
    c.check(y != nullptr, "vertex %d is lost", k.first);
    c.check(name(x) == name(y), "vertex %d became another kind", k.first);
    c.check(x->fixed() == y->fixed(), "vertex %d fixed: %d", k.first, (int)y->fixed());
    double p[7] = {0}, q[7] = {0};
    if (auto *w = dynamic_cast<VertexSwitchLinear *>(x)) {
      p[0] = w->estimate();
      q[0] = static_cast<VertexSwitchLinear *>(y)->estimate();
      q[1] = static_cast<VertexSwitchLinear *>(y)->x() - q[0];
    } else {
      x->getEstimateData(p);
      y->getEstimateData(q);
    }
    c.check(off(p, q, 7) < 1e-4, "vertex %d is elsewhere", k.first);
  }
  auto e = edges(a), f = edges(b);
  c.check(e.size() == f.size(), "%zu edges saved, %zu loaded", e.size(), f.size());
  std::vector<bool> used(f.size());
  for (auto *x : e) {
    // the same edge, whatever its place in the file
    size_t at = f.size();
    std::string why = "no edge of this kind";
    for (size_t i = 0; i < f.size() && at == f.size(); ++i) {
      if (used[i] || name(f[i]) != name(x))
        continue;
      why = "other vertices, information or measurement";
      bool v = f[i]->vertices().size() == x->vertices().size();
      for (size_t j = 0; v && j < x->vertices().size(); ++j)
        v = x->vertex(j)->id() == f[i]->vertex(j)->id();
      if (!v || off(x->informationData(), f[i]->informationData(), x->dimension() * x->dimension()) > 1e-4)
        continue;
      x->computeError();
      f[i]->computeError();
      if (off(x->errorData(), f[i]->errorData(), x->dimension()) > 1e-3)
        continue;
      at = i;
    }
    c.check(at < f.size(), "edge %s saved, but not loaded: %s", name(x).c_str(), why.c_str());
    used[at] = true;
    mixture<EdgeSE2Mixture>(c, x, f[at]);
    mixture<EdgeSE2PointXYMixture>(c, x, f[at]);
    mixture<EdgeSE3Mixture>(c, x, f[at]);
    c.near(f[at]->chi2(), x->chi2(), 1e-3 * (1 + x->chi2()), "weighted error");
  }
}
MC_BODY(graphs)
{
  c.scribble();
  File f(c, c.choose(2, "far") * 100);
  // g2o saves the vertices that edges are attached to
  f.opt.addEdge(f.odo(0, 1, 1));
  f.opt.addEdge(f.odo(1, 2, 1));
  f.opt.addEdge(f.seen(1, 1));
  f.opt.addEdge(f.space(0, 1, 1));
  f.opt.addEdge(f.space(1, 2, 1));
  int d = c.thorough() ? 6 : 5;
  for (int i = 0; i < d; ++i) {
    int k = c.choose(7, "edge");
    if (k == 6)
      break;
    c.say("edge of kind %d", k);
    f.add(k);
  }
  std::stringstream one;
  c.check(f.opt.save(one), "saving fails");
  c.step();
  g2o::SparseOptimizer g;
  std::stringstream in(one.str());
  c.check(g.load(in), "loading fails");
  c.step();
  same(c, f.opt, g);
  // and once more: what was read is written the same way
  std::stringstream two;
  c.check(g.save(two), "saving again fails");
  g2o::SparseOptimizer h;
  c.check(h.load(two), "loading again fails");
  same(c, g, h);
  // into a graph that held others
  std::stringstream again(one.str());
  h.clear();
  c.check(h.load(again), "loading fails");
  same(c, f.opt, h);
  c.state(mc::Hash().adds(one.str()));
}
// every kind can be made by its name, and its name is one word
MC_BODY(names)
{
  auto *f = g2o::Factory::instance();
  static const std::pair<const char *, std::string> kinds[] = {{"EDGE_SE2_MIXTURE", typeid(EdgeSE2Mixture).name()}, {"EDGE_SE2_XY_MIXTURE", typeid(EdgeSE2PointXYMixture).name()}, {"EDGE_SE3:QUAT_MIXTURE", typeid(EdgeSE3Mixture).name()}, {"EDGE_SWITCH_PRIOR", typeid(EdgeSwitchPrior).name()}, {"EDGE_SE2_SWITCHABLE", typeid(EdgeSE2Switchable).name()}, {"VERTEX_SWITCH", typeid(VertexSwitchLinear).name()}};
  auto &k = kinds[c.choose(6, "kind")];
  c.check(f->knowsTag(k.first), "%s is unknown", k.first);
  std::unique_ptr<g2o::HyperGraph::HyperGraphElement> e(f->construct(k.first));
  c.step();
  c.check(e && name(e.get()) == k.second, "%s makes something else", k.first);
  c.check(f->tag(e.get()) == k.first, "%s is saved as '%s'", k.first, f->tag(e.get()).c_str());
  c.state(mc::Hash().adds(k.first));
}
