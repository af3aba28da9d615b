// Slam back end: bookkeeping, loop closing, optimised poses, exports.
#include "mc.h"
#include "se2.h"
#include "g2o_raw.h"
#include <sstream>
#include <ndt_gslam/slam_optimizer/slam2d.h>
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
struct Scan {
  int id = -1;
  int updates = 0;
  V3 at = V3(77, 77, 77);
  double getRadius() const
  {
    return 2;
  }
  Eigen::Vector2d getCentroid() const
  {
    return Eigen::Vector2d::Zero();
  }
  void updatePosition(const V3 &p)
  {
    at = p;
    ++updates;
  }
};
static const std::vector<V3> TRUTH = {V3(0.5, -1, 0.3), V3(4, 0, 1.2), V3(5, 4, 2.8), V3(1, 6, -2.2), V3(-1, 2, -1.1), V3(0.6, -0.4, 0.1), V3(4, 0.5, 1), V3(6, 4, 2)};
static V3 rel(const V3 &a, const V3 &b)
{
  return (Rigid(a).inverse() * Rigid(b)).vec();
}
static V3 noise(int k, double s)
{
  return s * V3(0.3 * std::cos(1.7 * k + 0.4), 0.3 * std::sin(2.3 * k + 1), 0.15 * std::cos(2.9 * k));
}
struct Call {
  int source, target;
};
struct Matcher : slamuk::IScanmatcher2d<Scan> {
  int mode = 0;
  double amount = 0;
  std::vector<Call> *calls;
  std::vector<float> *thr;
  V3 answer(int s, int t) const
  {
    return rel(TRUTH[t], TRUTH[s]) + noise(3 * s + 7 * t, amount);
  }
  static M3 inform(int s, int t)
  {
    M3 m = M3::Identity() * (300 + 10 * s);
    m(2, 2) = 2000 + 100 * t;
    return m;
  }
  bool accepts(int s) const
  {
    return mode == 0 || (mode == 1 && s % 2 == 0);
  }
  slamuk::MatchResult match(const Scan &s, const Scan &t, const M3 &) override
  {
    calls->push_back({s.id, t.id});
    slamuk::MatchResult r;
    r.success_ = accepts(s.id);
    r.score_ = 1;
    r.inform_ = inform(s.id, t.id);
    Rigid a(answer(s.id, t.id));
    r.transform_.linear() = a.rotation();
    r.transform_.translation() = a.t;
    return r;
  }
  void setScoreThreshold(float v) override
  {
    thr->push_back(v);
  }
};
struct ME {
  int from, to;
  V3 t;
  M3 info;
  bool loop;
};
typedef slamuk::Slam2D<Scan> S;
static std::ostream &quiet()
{
  static std::ostringstream sink;
  static bool done = false;
  if (!done) {
    done = true;
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
  }
  return sink;
}
struct World {
  mc::Ctx &c;
  std::vector<Call> calls;
  std::vector<float> thr;
  Matcher *m;
  std::unique_ptr<S> s;
  std::vector<V3> pose;     // what the graph has to report
  std::vector<int> upd;
  std::vector<ME> edges;
  double loop_min = 20, loop_max = 15;
  bool settled = false;     // optimised since the last change

  explicit World(mc::Ctx &ctx) : c(ctx)
  {
    quiet();
    m = new Matcher;
    m->calls = &calls;
    m->thr = &thr;
    c.scribble();
    s.reset(new S(std::unique_ptr<slamuk::IScanmatcher2d<Scan>>(m)));
  }
  void addPose(const V3 &p)
  {
    Scan sc;
    sc.id = (int)pose.size();
    c.say("addPose %d", sc.id);
    size_t id = s->addPose(p, sc);
    c.step();
    c.check(id == pose.size(), "pose %d got id %zu", sc.id, id);
    pose.push_back(p);
    upd.push_back(0);
    settled = false;
  }
  void record(size_t id, int a, int b, const V3 &t, bool loop)
  {
    c.check(id == edges.size(), "constraint %zu got id %zu", edges.size(), id);
    edges.push_back({a, b, t, s->getConstrainInformMat(id), loop});
    settled = false;
  }
  void constrain(int a, int b, const V3 &t)
  {
    c.say("addConstrain %d->%d", a, b);
    M3 inf = Matcher::inform(a, b);
    size_t id = s->addConstrain(a, b, t, inf);
    c.step();
    record(id, a, b, t, false);
  }
  void last(const V3 &t)
  {
    c.say("addLastConstrain");
    size_t id = s->addLastConstrain(t, Matcher::inform(1, 2));
    c.step();
    record(id, (int)pose.size() - 2, (int)pose.size() - 1, t, false);
  }
  void bad(int a, int b)
  {
    c.say("constraint between unknown poses %d %d", a, b);
    bool thrown = false;
    try {
      s->addConstrain(a, b, V3(1, 2, 0), M3::Identity());
    } catch (const std::exception &) {
      thrown = true;
    }
    c.step();
    c.check(thrown, "constraint with an unknown pose was accepted");
  }
  void limits(double mn, double mx)
  {
    s->setLoopGenerationMinDist((float)mn);
    s->setLoopGenerationMaxDist((float)mx);
    loop_min = (float)mn;
    loop_max = (float)mx;
  }
  // lengths of simple ways from the start against the direction of constraints
  void walk(int at, double len, std::vector<char> &on, std::vector<double> &lo, std::vector<double> &hi)
  {
    lo[at] = std::min(lo[at], len);
    hi[at] = std::max(hi[at], len);
    on[at] = 1;
    for (auto &e : edges)
      if (e.to == at && !on[e.from])
        walk(e.from, len + e.t.head(2).norm(), on, lo, hi);
    on[at] = 0;
  }
  void loopClose(int start)
  {
    c.say("tryLoopClose from %d", start);
    size_t n = pose.size();
    std::vector<double> lo(n, 1e300), hi(n, -1);
    std::vector<char> on(n, 0);
    walk(start < 0 ? (int)n - 1 : start, 0, on, lo, hi);
    calls.clear();
    bool r = start < 0 ? s->tryLoopClose() : s->tryLoopClose((size_t)start);
    c.step();
    int st = start < 0 ? (int)n - 1 : start;
    std::vector<char> asked(n, 0);
    for (auto &k : calls) {
      c.check(k.target == st, "loop search matched against %d instead of %d", k.target, st);
      c.check(k.source >= 0 && k.source < (int)n, "unknown pose matched");
      asked[k.source] = 1;
    }
    for (size_t i = 0; i < n; ++i) {
      if ((int)i == st)
        continue;
      double d = (pose[i].head(2) - pose[st].head(2)).norm();
      if (std::fabs(d - loop_max) < 1e-6 || std::fabs(lo[i] - loop_min) < 1e-6 || std::fabs(hi[i] - loop_min) < 1e-6)
        continue;
      bool close = d < loop_max;
      if (close && hi[i] >= 0 && lo[i] >= loop_min)
        c.check(asked[i], "pose %zu qualifies for a loop closure and was not matched", i);
      if (!close || hi[i] < loop_min)
        c.check(!asked[i], "pose %zu does not qualify for a loop closure and was matched", i);
    }
    size_t k = edges.size();
    for (auto &q : calls)
      if (m->accepts(q.source))
        record(k++, st, q.source, m->answer(q.source, q.target), true);
    c.check(r == (k > edges.size() || false) || r == std::any_of(calls.begin(), calls.end(), [&](const Call &q) { return m->accepts(q.source); }), "tryLoopClose returned %d", (int)r);
  }

  // ---------------------------------------------------------------- optimum
  bool tied() const  // every pose with constraints is tied to the first one
  {
    std::vector<char> r(pose.size(), 0);
    if (pose.empty())
      return false;
    r[0] = 1;
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &e : edges)
        if (r[e.from] != r[e.to])
          r[e.from] = r[e.to] = 1, ch = true;
    }
    for (auto &e : edges)
      if (!r[e.from])
        return false;
    return true;
  }
  bool isolated(int i) const
  {
    for (auto &e : edges)
      if (e.from == i || e.to == i)
        return false;
    return true;
  }
  static V3 err(const V3 &a, const V3 &b, const V3 &t)
  {
    V3 d = (Rigid(t).inverse() * (Rigid(a).inverse() * Rigid(b))).vec();
    return d;
  }
  double cost(const std::vector<V3> &p) const
  {
    double s = 0;
    for (auto &e : edges) {
      V3 r = err(p[e.from], p[e.to], e.t);
      s += r.dot(e.info * r);
    }
    return s;
  }
  // one Gauss-Newton step with the first pose kept; central differences
  double refine(std::vector<V3> &p) const
  {
    int n = (int)p.size();
    std::vector<int> col(n, -1);
    int k = 0;
    for (int i = 1; i < n; ++i)
      if (!isolated(i))
        col[i] = 3 * k++;
    if (!k)
      return 0;
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(3 * k, 3 * k);
    Eigen::VectorXd g = Eigen::VectorXd::Zero(3 * k);
    for (auto &e : edges) {
      V3 r = err(p[e.from], p[e.to], e.t);
      M3 J[2];
      for (int w = 0; w < 2; ++w)
        for (int a = 0; a < 3; ++a) {
          V3 q[2] = {p[e.from], p[e.to]};
          q[w](a) += 1e-6;
          V3 hi = err(q[0], q[1], e.t);
          q[w](a) -= 2e-6;
          V3 lo = err(q[0], q[1], e.t);
          V3 d = hi - lo;
          d(2) = (double)rnorm(d(2));
          J[w].col(a) = d / 2e-6;
        }
      int ids[2] = {col[e.from], col[e.to]};
      for (int u = 0; u < 2; ++u) {
        if (ids[u] < 0)
          continue;
        g.segment<3>(ids[u]) += J[u].transpose() * e.info * r;
        for (int v = 0; v < 2; ++v)
          if (ids[v] >= 0)
            H.block<3, 3>(ids[u], ids[v]) += J[u].transpose() * e.info * J[v];
      }
    }
    Eigen::VectorXd d = H.ldlt().solve(-g);
    for (int i = 0; i < n; ++i)
      if (col[i] >= 0)
        p[i] += d.segment<3>(col[i]);
    return d.norm();
  }
  void optimise(bool incremental)
  {
    c.say("optimise");
    bool any = !edges.empty();
    bool ok = tied();
    if (any && !ok)
      return;  // no unique optimum
    std::vector<V3> before = pose;
    bool r = incremental ? s->optimalizeIterationaly() : s->optimalize();
    c.step();
    double moved = 0;
    for (size_t i = 0; i < pose.size(); ++i) {
      V3 p = s->getPoseLocation(i);
      c.check(p.allFinite(), "pose %zu is not finite after optimising", i);
      if (i == 0 || isolated((int)i))
        c.check((p - pose[i]).head(2).norm() < 1e-12 && std::fabs((double)rnorm(p(2) - pose[i](2))) < 1e-12, "%s was moved", i ? "a pose without constraints" : "the first pose");
      moved += (p - pose[i]).norm();
      pose[i] = p;
      ++upd[i];
      const Scan &d = s->getPoseData(i);
      c.check(d.id == (int)i, "data of pose %zu", i);
      c.check(d.updates >= 1 && d.at == p, "data of pose %zu was not moved along", i);
      upd[i] = d.updates;
    }
    if (moved > 1e-9)
      c.check(r, "optimising moved poses and reported no change");
    std::vector<V3> q = pose;
    double step = refine(q);
    c.check(step < 2e-3, "optimised poses are not at the optimum: the next step is %g", step);
    for (int k = 0; k < 20; ++k)
      step = refine(q);
    double far = 0;
    for (size_t i = 0; i < q.size(); ++i)
      far = std::max(far, (q[i] - pose[i]).norm());
    c.check(far < 5e-3, "optimised poses are %g away from the optimum", far);
    double c0 = cost(before), c1 = cost(pose);
    c.check(c1 <= c0 + 1e-6 + 1e-3 * c0, "optimising raised the error from %g to %g", c0, c1);
    settled = true;
  }

  // ----------------------------------------------------------------- exports
  void look()
  {
    for (size_t i = 0; i < pose.size(); ++i) {
      c.check(s->getPoseLocation(i) == pose[i], "pose %zu changed", i);
      const Scan &d = s->getPoseData(i);
      c.check(d.id == (int)i && d.updates == upd[i], "data of pose %zu changed", i);
    }
    for (size_t k = 0; k < edges.size(); ++k) {
      auto &e = edges[k];
      auto p = s->getConstrainPoses(k);
      c.check(p.first == (size_t)e.from && p.second == (size_t)e.to, "constraint %zu joins %zu and %zu, expected %d and %d", k, p.first, p.second, e.from, e.to);
      V3 d = s->getConstrainTransform(k) - e.t;
      c.check(d.head(2).norm() < 1e-9 && std::fabs((double)rnorm(d(2))) < 1e-9, "motion of constraint %zu", k);
      c.check(s->getConstrainInformMat(k) == e.info, "information of constraint %zu changed", k);
    }
    int thrown = 0;
    try {
      s->getPoseLocation(pose.size());
    } catch (const std::exception &) {
      ++thrown;
    }
    try {
      s->getConstrainPoses(edges.size());
    } catch (const std::exception &) {
      ++thrown;
    }
    c.check(thrown == 2, "an unknown pose or constraint was found");
    auto arr = s->getGraphSerialized("world_f");
    c.check(arr.markers.size() == edges.size(), "%zu arrows for %zu constraints", arr.markers.size(), edges.size());
    std::vector<char> used(edges.size(), 0);
    std::set<int> ids;
    for (auto &a : arr.markers) {
      c.check(ids.insert(a.id).second, "two arrows with id %d", (int)a.id);
      c.check(a.header.frame_id == "world_f" && a.type == visualization_msgs::Marker::ARROW && a.points.size() == 2, "arrow is malformed");
      bool found = false;
      for (size_t k = 0; k < edges.size() && !found; ++k) {
        auto &e = edges[k];
        if (used[k] || a.points[0].x != pose[e.from](0) || a.points[0].y != pose[e.from](1) || a.points[1].x != pose[e.to](0) || a.points[1].y != pose[e.to](1))
          continue;
        bool red = a.color.r == 1 && a.color.g == 0 && a.color.b == 0, green = a.color.r == 0 && a.color.g == 1 && a.color.b == 0;
        if (a.color.a == 1 && (e.loop ? green : red))
          used[k] = 1, found = true;
      }
      c.check(found, "an arrow belongs to no constraint");
    }
    std::ostringstream os;
    s->getGraphSerialized(os);
    std::istringstream is(os.str());
    std::string line;
    size_t np = 0, ne = 0;
    std::vector<char> eu(edges.size(), 0);
    while (std::getline(is, line)) {
      size_t a, b;
      double x, y;
      if (sscanf(line.c_str(), "p%zu->p%zu", &a, &b) == 2) {
        bool f = false;
        for (size_t k = 0; k < edges.size() && !f; ++k)
          if (!eu[k] && edges[k].from == (int)a && edges[k].to == (int)b)
            eu[k] = 1, f = true;
        c.check(f, "text export lists a constraint %zu->%zu", a, b);
        ++ne;
      } else if (sscanf(line.c_str(), "p%zu[ pose = \"%lf,%lf", &a, &x, &y) == 3) {
        c.check(a < pose.size() && std::fabs(x - pose[a](0)) < 1e-4 * (1 + std::fabs(x)) && std::fabs(y - pose[a](1)) < 1e-4 * (1 + std::fabs(y)), "text export of pose %zu", a);
        ++np;
      }
    }
    c.check(np == pose.size() && ne == edges.size(), "text export lists %zu poses and %zu constraints", np, ne);
  }
  uint64_t hash() const
  {
    mc::Hash h;
    for (auto &p : pose)
      h.addd(p(0)).addd(p(1)).addd(p(2));
    for (auto &e : edges)
      h.add(e.from).add(e.to).addd(e.t(0)).addd(e.t(1)).add(e.loop);
    return h.h;
  }
};
static void chain(World &w, int n, double amount, double drift)
{
  for (int i = 0; i < n; ++i) {
    V3 p = TRUTH[i] + (i ? noise(i, drift) : V3(0, 0, 0));
    w.addPose(p);
    if (i)
      w.last(rel(TRUTH[i - 1], TRUTH[i]) + noise(i, amount));
  }
}
// every set of extra constraints over a chain or a star
MC_BODY_AT(graphs, 7)
{
  World w(c);
  int n = c.choose(c.thorough() ? 4 : 3, "poses") + 2;
  double amount = c.pick(std::vector<double>{0, 0.1, 1}, "error of constraints");
  double drift = c.pick(std::vector<double>{0, 0.3}, "error of poses");
  if (c.flip("chain"))
    chain(w, n, amount, drift);
  else {
    for (int i = 0; i < n; ++i)
      w.addPose(TRUTH[i] + (i ? noise(i, drift) : V3(0, 0, 0)));
    for (int i = 1; i < n; ++i)
      w.constrain(0, i, rel(TRUTH[0], TRUTH[i]) + noise(i, amount));
  }
  int k = 0;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j, ++k)
      switch (c.choose(n > 4 ? 2 : 3, "constraint")) {
      case 1: w.constrain(i, j, rel(TRUTH[i], TRUTH[j]) + noise(k + 11, amount)); break;
      case 2: w.constrain(j, i, rel(TRUTH[j], TRUTH[i]) + noise(k + 17, amount)); break;
      }
  if (c.flip("extra pose"))
    w.addPose(TRUTH[n]);
  w.look();
  c.state(w.hash());
  bool truth = amount == 0;
  w.optimise(c.flip("incremental"));
  w.look();
  if (truth)
    for (int i = 0; i < n; ++i)
      c.check((w.pose[i] - TRUTH[i]).head(2).norm() < 1e-4 && std::fabs((double)rnorm(w.pose[i](2) - TRUTH[i](2))) < 1e-4, "pose %d of a consistent graph is not where the constraints put it", i);
}
MC_BODY_AT(histories, 5)
{
  World w(c);
  double amount = c.pick(std::vector<double>{0.1, 0.6}, "error of constraints");
  w.m->amount = amount;
  w.limits(c.pick(std::vector<double>{3, 9}, "path limit"), c.pick(std::vector<double>{4.5, 30}, "distance limit"));
  int depth = c.thorough() ? 5 : 4;
  chain(w, 3, amount, 0.2);
  w.look();
  for (int d = 0; d < depth; ++d) {
    int n = (int)w.pose.size();
    switch (c.choose(9, "op")) {
    case 0:
      if (n >= (int)TRUTH.size())
        return;
      w.addPose(TRUTH[n] + noise(n, 0.2));
      w.last(rel(TRUTH[n - 1], TRUTH[n]) + noise(n, amount));
      break;
    case 1:
      if (n >= (int)TRUTH.size())
        return;
      w.addPose(TRUTH[n] + noise(n, 0.2));
      w.constrain(n - 2, n, rel(TRUTH[n - 2], TRUTH[n]) + noise(n, amount));
      break;
    case 2:
      w.constrain(n - 1, 0, rel(TRUTH[n - 1], TRUTH[0]) + noise(n + 5, amount));
      break;
    case 3:
      w.constrain(0, 2, rel(TRUTH[0], TRUTH[2]) + noise(n + 9, amount));
      break;
    case 4: w.loopClose(-1); break;
    case 5: w.loopClose(2); break;
    case 6: w.optimise(false); break;
    case 7: w.bad(d % 2 ? n : 1, d % 2 ? 0 : n + 3); break;
    case 8:
      w.m->mode = 1 - w.m->mode;
      w.optimise(true);
      w.s->setLoopRegistrationScore(0.25f * d);
      c.check(!w.thr.empty() && w.thr.back() == 0.25f * d, "registration score does not reach the matcher");
      break;
    }
    w.look();
    c.state(w.hash());
    if (w.edges.size() > 20)
      return;
  }
}
// nothing to do, one pose, and optimising again and again
MC_BODY(edges_of_use)
{
  World w(c);
  int n = c.choose(3, "poses");
  for (int i = 0; i < n; ++i)
    w.addPose(TRUTH[i]);
  w.look();
  if (c.flip("optimise first"))
    w.optimise(false);
  w.look();
  if (n)
    w.loopClose(-1);
  w.look();
  if (n == 2)
    w.last(rel(TRUTH[0], TRUTH[1]) + noise(1, 1));
  w.look();
  for (int k = 0; k < 3; ++k) {
    w.optimise(k % 2);
    w.look();
  }
  c.state(w.hash());
}
