// Loop detector over every small pose graph, with a matcher that records what
// it is asked and answers from a table.
#include "mc.h"
#include "se2.h"
#include <iostream>
#include <set>
#include <ndt_gslam/slam_optimizer/loop_detector.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>

struct Scan {
  int id = -1;
  double getRadius() const
  {
    return 1.5 + id;
  }
  Eigen::Vector2d getCentroid() const
  {
    return Eigen::Vector2d(0.1 * id, 0.2);
  }
};
typedef slamuk::Graph<Slam2d_Policy, Scan> G;
typedef slamuk::LoopDetector<Slam2d_Policy, Scan> Det;
typedef slamuk::Edge<Slam2d_Policy, Scan> Ed;
typedef slamuk::Node<Slam2d_Policy, Scan> Nd;
typedef Eigen::Vector3d V3;

struct Call {
  int source, target;
  Eigen::Matrix3d guess;
};
struct Matcher : slamuk::IScanmatcher2d<Scan> {
  int mode = 0;
  std::vector<Call> calls;
  static Eigen::Matrix3d inform(int s, int t)
  {
    Eigen::Matrix3d m = Eigen::Matrix3d::Identity() * (10 + s);
    m(2, 2) = 100 + t;
    m(0, 1) = m(1, 0) = 0.5;
    return m;
  }
  static Rigid answer(int s, int t)
  {
    return Rigid(V3(0.1 * s, -0.2 * t, 0.3 * s - 0.5 * t));
  }
  bool accepts(int s) const
  {
    return mode == 0 || (mode == 1 && s % 2 == 0) || (mode == 2 && s % 3 == 1);
  }
  slamuk::MatchResult match(const Scan &source, const Scan &target, const Eigen::Matrix3d &guess = Eigen::Matrix3d::Identity()) override
  {
    calls.push_back({source.id, target.id, guess});
    slamuk::MatchResult r;
    r.success_ = accepts(source.id);
    r.score_ = 1;
    r.inform_ = inform(source.id, target.id);
    Rigid a = answer(source.id, target.id);
    r.transform_.linear() = a.rotation();
    r.transform_.translation() = a.t;
    return r;
  }
  void setScoreThreshold(float) override
  {
  }
};
struct RE {
  int from, to;
  double len;
};
struct World {
  mc::Ctx &c;
  G g;
  Matcher m;
  Det d;
  std::vector<V3> pose;
  std::map<size_t, RE> edges;
  double mn = 20, mx = 15;
  explicit World(mc::Ctx &ctx) : c(ctx), d(&g, &m)
  {
  }
  void node(const V3 &p)
  {
    Scan s;
    s.id = (int)pose.size();
    g.addNode(Nd(p, s));
    pose.push_back(p);
  }
  void edge(int a, int b, const V3 &t)
  {
    Eigen::Matrix3d inf = Eigen::Matrix3d::Identity() * (3 + a);
    inf(2, 2) = 20 + 5 * b;
    size_t id = g.addEdge(Ed(&g.getNode(a), &g.getNode(b), t, inf));
    g.getEdge(id).setState(Ed::State::ACTIVE);
    g.getEdge(id).setType(Ed::Type::ODOM);
    edges[id] = {a, b, t.head(2).norm()};
  }
  void limits(double a, double b)
  {
    d.setMinLoopDistance((float)a);
    d.setMaxLoopDistance((float)b);
    mn = (float)a;
    mx = (float)b;
  }
  // shortest and longest way from the start against the direction of edges
  void walk(int at, double len, std::vector<char> &on, std::vector<double> &lo, std::vector<double> &hi)
  {
    lo[at] = std::min(lo[at], len);
    hi[at] = std::max(hi[at], len);
    on[at] = 1;
    for (auto &e : edges)
      if (e.second.to == at && !on[e.second.from])
        walk(e.second.from, len + e.second.len, on, lo, hi);
    on[at] = 0;
  }
  std::vector<slamuk::LoopClosure<Slam2d_Policy>> search(int start, bool simple = false)
  {
    c.say("search from node %d", start);
    size_t n = pose.size();
    std::vector<double> lo(n, 1e300), hi(n, -1);
    if (!simple) {
      std::vector<char> on(n, 0);
      walk(start, 0, on, lo, hi);
    } else  // a chain
      for (int i = start; i >= 0; --i) {
        lo[i] = hi[i] = i == start ? 0 : lo[i + 1];
        if (i < start)
          for (auto &e : edges)
            if (e.second.from == i && e.second.to == i + 1)
              lo[i] = hi[i] = lo[i + 1] + e.second.len;
      }
    m.calls.clear();
    auto res = d.genLoopClosures(start);
    c.step();
    size_t must = 0, may = 0;
    std::map<int, int> tried;
    for (auto &k : m.calls) {
      c.check(k.target == start, "node %d was matched against %d instead of the start", k.source, k.target);
      c.check(k.source >= 0 && k.source < (int)n && k.source != start, "the start was matched with itself");
      ++tried[k.source];
      double rel = pose[k.source](2) - pose[start](2);
      Eigen::Matrix3d e = Eigen::Matrix3d::Identity();
      e.block<2, 2>(0, 0) = Rigid(V3(0, 0, rel)).rotation();
      c.check((k.guess - e).norm() < 1e-9, "guess for node %d is not the difference of headings", k.source);
    }
    for (size_t i = 0; i < n; ++i) {
      if ((int)i == start)
        continue;
      double l2 = (pose[i].head(2) - pose[start].head(2)).norm();
      bool close = l2 < mx;
      bool yes = close && hi[i] >= 0 && lo[i] >= mn, maybe = close && hi[i] >= mn;
      must += yes;
      may += maybe;
      int t = tried.count((int)i) ? tried[(int)i] : 0;
      c.check(t <= 1, "node %zu was matched %d times", i, t);
      if (!maybe)
        c.check(t == 0, "node %zu at %g with a path of %g was matched (limits: path %g, distance %g)", i, l2, hi[i], mn, mx);
      if (yes && n <= 50)
        c.check(t == 1, "node %zu at %g with a path of %g was not matched (limits: path %g, distance %g)", i, l2, lo[i], mn, mx);
    }
    size_t lim = 50;
    c.check(m.calls.size() <= lim, "%zu matches", m.calls.size());
    if (must == may)
      c.check(m.calls.size() == std::min(must, lim), "%zu matches for %zu candidates", m.calls.size(), must);
    size_t good = 0;
    for (auto &k : m.calls)
      good += m.accepts(k.source);
    c.check(res.size() == good, "%zu loop closures from %zu accepted matches", res.size(), good);
    std::set<size_t> seen;
    for (auto &r : res) {
      int s = (int)r.vertices_.second;
      c.check(r.vertices_.first == (size_t)start && tried.count(s) && m.accepts(s) && seen.insert(s).second, "loop closure %zu -> %d", r.vertices_.first, s);
      c.check((r.information_ - Matcher::inform(s, start)).norm() == 0, "information of the loop closure to %d", s);
      Rigid a = Matcher::answer(s, start);
      c.check((r.t_.translation() - a.t).norm() + (r.t_.linear() - a.rotation()).norm() < 1e-12, "motion of the loop closure to %d", s);
    }
    for (auto it = g.beginNode(); it != g.endNode(); ++it)
      c.check(!(*it).isVisited(), "a node stays marked as visited");
    for (auto it = g.beginEdge(); it != g.endEdge(); ++it)
      c.check(!(*it).isUsed(), "an edge stays marked as used");
    c.check(g.edgeCount() == edges.size() && g.nodeCount() == n, "search changed the graph");
    return res;
  }
  std::vector<size_t> add(const std::vector<slamuk::LoopClosure<Slam2d_Policy>> &l)
  {
    c.say("add %zu loop closures", l.size());
    auto ids = d.addToGraph(l);
    c.step();
    c.check(ids.size() == l.size() && g.edgeCount() == edges.size() + l.size(), "%zu edges added for %zu loop closures", ids.size(), l.size());
    for (size_t i = 0; i < ids.size(); ++i) {
      auto &e = g.getEdge(ids[i]);
      c.check(!edges.count(ids[i]), "an edge was replaced");
      c.check(e.getFrom()->getId() == l[i].vertices_.first && e.getTo()->getId() == l[i].vertices_.second, "ends of loop edge %zu", i);
      c.check(e.getType() == Ed::Type::LOOP && e.getState() == Ed::State::TEMP, "kind of loop edge %zu", i);
      Rigid a = Matcher::answer((int)l[i].vertices_.second, (int)l[i].vertices_.first);
      c.check((e.getTransform().head(2) - a.t).norm() < 1e-9 && std::fabs(std::remainder(e.getTransform()(2) - a.a, 2 * M_PI)) < 1e-9, "motion of loop edge %zu", i);
      c.check((e.getInformationMatrix() - l[i].information_).norm() == 0, "information of loop edge %zu", i);
      edges[ids[i]] = {(int)l[i].vertices_.first, (int)l[i].vertices_.second, a.t.norm()};
    }
    return ids;
  }
  void drop(const std::vector<size_t> &ids)
  {
    c.say("remove %zu edges", ids.size());
    d.removeFromGraph(ids);
    c.step();
    for (size_t id : ids)
      edges.erase(id);
    c.check(g.edgeCount() == edges.size(), "%zu edges are left, expected %zu", g.edgeCount(), edges.size());
  }
  uint64_t hash()
  {
    mc::Hash h;
    for (auto &p : pose)
      h.addd(p(0)).addd(p(1)).addd(p(2));
    for (auto &e : edges)
      h.add(e.first).add(e.second.from).add(e.second.to).addd(e.second.len);
    h.addd(mn).addd(mx).add(m.mode);
    return h.h;
  }
};
static const std::vector<std::vector<V3>> SHAPES = {
    {V3(0, 0, 0), V3(4, 0, 0.5), V3(8, 1, 1.5), V3(7, 6, 3), V3(1, 5, -2), V3(-0.5, 0.5, 0.2)},
    {V3(0, 0, 3), V3(0.1, 0.2, -3), V3(20, 0, 1), V3(21, 1, -1), V3(0.2, 0.1, 2), V3(3, 3, 0)},
};
static const std::vector<double> LEN = {2, 7, 12.5, 1, 25};

// every graph: each pair of nodes has no edge, one forwards or one backwards
static void all_graphs(mc::Ctx &c, int n)
{
  c.scribble();
  World w(c);
  auto &sh = c.pick(SHAPES, "places");
  for (int i = 0; i < n; ++i)
    w.node(sh[i]);
  bool few = n > 4 && !c.thorough();
  int kind = few ? 1 : c.choose(c.thorough() ? 4 : 2, "lengths");
  int k = 0;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j, ++k) {
      double len = LEN[(k * (kind + 1) + kind) % LEN.size()];
      V3 t(len * std::cos(0.7 * k), len * std::sin(0.7 * k), 0.4 * k - 1);
      switch (c.choose(3, "edge")) {
      case 1: w.edge(i, j, t); break;
      case 2: w.edge(j, i, t); break;
      }
    }
  static const std::vector<std::pair<double, double>> LIM = {{5.5, 9}, {0.5, 1.5}, {20.5, 30}, {10.2, 0.05}};
  w.limits(LIM[c.choose(few ? 2 : 4, "limits")].first, 0);
  auto &l = LIM[c.choose(few ? 1 : 2, "distance")];
  w.limits(w.mn, l.second);
  w.m.mode = c.choose(n > 4 ? 1 : 3, "matcher");
  c.state(w.hash());
  for (int s = n - 1; s >= 0; --s)
    w.search(s);
}
MC_BODY(graphs3)
{
  all_graphs(c, 3);
}
MC_BODY(graphs4)
{
  all_graphs(c, 4);
}
MC_BODY(graphs5)
{
  all_graphs(c, 5);
}
// the defaults, and more candidates than are tried at once
MC_BODY(chains)
{
  c.scribble();
  World w(c);
  int n = c.pick(std::vector<int>{1, 2, 7, 49, 50, 51, 52, 53, 60, 75}, "nodes");
  double r = c.pick(std::vector<double>{0.5, 2, 40}, "radius");
  double len = c.pick(std::vector<double>{0.75, 7, 30}, "length");
  bool loops = c.flip("defaults");
  if (!loops)
    w.limits(c.pick(std::vector<double>{0.1, 5, 100}, "min"), c.pick(std::vector<double>{0.3, 3, 100}, "max"));
  for (int i = 0; i < n; ++i) {
    w.node(V3(r * std::cos(0.3 * i), r * std::sin(0.3 * i), 0.3 * i));
    if (i)
      w.edge(i - 1, i, V3(len, 0, 0.3));
  }
  w.m.mode = c.choose(3, "matcher");
  c.state(w.hash());
  w.search(n - 1, true);
  w.search(n / 2, true);
  w.search(0, true);
}
// searching, adding and removing
MC_BODY(histories)
{
  c.scribble();
  World w(c);
  int n = 4;
  auto &sh = c.pick(SHAPES, "places");
  for (int i = 0; i < n; ++i) {
    w.node(sh[i]);
    if (i)
      w.edge(i - 1, i, V3(LEN[i], 0.1, 0.4));
  }
  w.limits(c.pick(std::vector<double>{2.5, 6}, "min"), c.pick(std::vector<double>{9, 25}, "max"));
  std::vector<std::vector<size_t>> added;
  for (int d = 0; d < (c.thorough() ? 5 : 4); ++d) {
    switch (c.choose(5, "op")) {
    case 0:
      w.node(sh[n % 6]);
      w.edge(n - 1, n, V3(LEN[n % 5], 0.1, 0.4));
      ++n;
      w.search(n - 1);
      break;
    case 1:
    case 2: {
      auto l = w.search(n - 1);
      added.push_back(w.add(l));
      break;
    }
    case 3:
      if (added.empty())
        return;
      w.drop(added.back());
      added.pop_back();
      w.search(n - 1);
      break;
    case 4: {
      auto l = w.search(1);
      added.push_back(w.add(l));
      w.m.mode = (w.m.mode + 1) % 3;
      break;
    }
    }
    c.state(w.hash());
  }
}
