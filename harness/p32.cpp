// The slam algorithm as a whole: odometry, registration against the running
// window, pose graph, frames and maps.
#include "omp_team.h"
#include "reg_world.h"
#include "g2o_raw.h"
#include <sstream>
#include <ndt_gslam/ndt_slam_algorithm.h>
typedef pcl::PointXYZ Pt;
typedef slamuk::NDTGrid2DHolder<NCell, Pt> Holder;
typedef slamuk::IGraphOptimalizer2d<Holder> IEngine;
typedef slamuk::NdtSlamAlgortihm Alg;
typedef Eigen::Matrix3d M3;

static void quiet()
{
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
}
struct Node {
  V3 at;       // where the graph says it is
  NGrid::Ptr data;
  V3 created;
};
struct Edge {
  int from, to;
  V3 t;
  M3 inform;
};
// what the algorithm tells its graph
struct Log {
  std::vector<Node> nodes;
  std::vector<Edge> edges;
  int tries = 0, optimised = 0;
  std::vector<float> mins, maxs, scores;
};
// A graph that closes a loop and corrects its poses when it is told to.
struct Fake : IEngine {
  Log &l;
  int close_at = -1;      // node at which a loop is found
  bool changes = true;    // and whether the poses change then
  Rigid shift;
  V3 none = V3::Zero();
  M3 id = M3::Identity();
  explicit Fake(Log &log) : l(log)
  {
  }
  bool optimalize() override
  {
    return optimalizeIterationaly();
  }
  bool optimalizeIterationaly() override
  {
    ++l.optimised;
    if (!changes)
      return false;
    // the later a node, the more it moves
    for (size_t i = 1; i < l.nodes.size(); ++i) {
      l.nodes[i].at = (shift * Rigid(l.nodes[i].at)).vec();
      l.nodes[i].data->setOrigin(l.nodes[i].at);
    }
    return true;
  }
  double calcTotalGraphError() const override
  {
    return 0;
  }
  size_t addPose(const V3 &p, Holder &h) override
  {
    l.nodes.push_back({p, h.getData(), p});
    return 10 + 3 * (l.nodes.size() - 1);
  }
  size_t addConstrain(size_t a, size_t b, const V3 &t, const M3 &i) override
  {
    l.edges.push_back({((int)a - 10) / 3, ((int)b - 10) / 3, t, i});
    return l.edges.size() - 1;
  }
  size_t addLastConstrain(const V3 &t, const M3 &i) override
  {
    l.edges.push_back({(int)l.nodes.size() - 2, (int)l.nodes.size() - 1, t, i});
    return l.edges.size() - 1;
  }
  bool tryLoopClose(size_t) override
  {
    return tryLoopClose();
  }
  bool tryLoopClose() override
  {
    ++l.tries;
    return (int)l.nodes.size() - 1 == close_at;
  }
  const V3 &getPoseLocation(size_t id) const override
  {
    return l.nodes.at((id - 10) / 3).at;
  }
  const Holder &getPoseData(size_t) const override
  {
    throw std::logic_error("not kept");
  }
  const V3 &getConstrainTransform(size_t) const override
  {
    return none;
  }
  const M3 &getConstrainInformMat(size_t) const override
  {
    return id;
  }
  std::pair<size_t, size_t> getConstrainPoses(size_t) const override
  {
    return {0, 0};
  }
  void setEuclideanMaxError(double) override
  {
  }
  void setMaxIterations(size_t) override
  {
  }
  void setLoopGenerationMinDist(float v) override
  {
    l.mins.push_back(v);
  }
  void setLoopGenerationMaxDist(float v) override
  {
    l.maxs.push_back(v);
  }
  void setLoopRegistrationScore(float v) override
  {
    l.scores.push_back(v);
  }
  visualization_msgs::MarkerArray getGraphSerialized(std::string f) const override
  {
    visualization_msgs::MarkerArray m;
    m.markers.resize(l.nodes.size());
    for (auto &k : m.markers)
      k.header.frame_id = f;
    return m;
  }
  void getGraphSerialized(std::ostream &) const override
  {
  }
};
struct Probe : Alg {
  Fake *fake(Log &l)
  {
    Fake *f = new Fake(l);
    opt_engine_.reset(f);
    return f;
  }
};
static Alg::Transform trans(const Rigid &r)
{
  Alg::Transform t;
  t.setIdentity();
  t.linear() = r.rotation();
  t.translation() = r.t;
  return t;
}
static double apart(const V3 &a, const V3 &b)
{
  return std::max((a - b).head(2).norm(), (double)adiff(a(2), b(2)));
}

struct Step {
  V3 moves, says;
  int sees;  // 0 the room, 1 something far off, 2 nothing
};
static const std::vector<Step> steps = {
    {V3(0.25, 0, 0), V3(0.25, 0, 0), 0},
    {V3(0.12, 0.02, 0.02), V3(0.12, 0.02, 0.02), 0},
    {V3(0.02, 0, 0.3), V3(0, 0.01, 0.26), 0},
    {V3(0.3, 0, 0), V3(0.24, 0.04, 0.05), 0},
    {V3(0.25, 0.05, -0.05), V3(0.25, 0.05, -0.05), 1},
    {V3(0.1, 0, 0.2), V3(0.1, 0, 0.2), 2},
    {V3(0, 0, 0), V3(0, 0, 0), 0},
    {V3(0.3, -0.2, -0.2), V3(0.26, -0.2, -0.24), 0},
};
static Cloud far_off()
{
  Cloud c;
  cluster(c, 60.3, 41.2, 12);
  cluster(c, 61.4, 38.7, 12, 3);
  cluster(c, 58.2, 40.1, 12, 5);
  return c;
}

struct World {
  mc::Ctx &c;
  Probe a;
  Log l;
  Fake *fake;
  Cloud scene;
  Rigid truth, base, pending;  // robot; last pose that counted; odometry since
  double reach, time = 100;
  // reference
  bool started = false;
  Rigid frame_at;        // where the frame in work starts
  NGrid frame;           // and what is in it
  Rigid last_travelled;  // motion since then
  M3 cov = M3::Identity();
  struct RefNode {
    Rigid at;
    NGrid data;
    double time;
    V3 motion;  // of the robot until the next node
    M3 info;
  };
  std::vector<RefNode> nodes;
  unsigned seq = 0;
  double seen_at = 0;
  Rigid drift;  // what corrections moved the robot by, in the world
  const double tol_reg = 0.45, tol_ang = 0.35;

  World(mc::Ctx &ctx, int r, double generation, double radius) : c(ctx), scene(room(r)), reach(generation)
  {
    quiet();
    c.scribble();
    fake = a.fake(l);
    a.setGenerationDistance((float)generation);
    a.setRunWindowRadius((float)radius);
  }
  Cloud look(int sees) const
  {
    if (sees == 1)
      return far_off();
    if (sees == 2)
      return Cloud();
    return seen(scene, truth);
  }
  // first order propagation, decided by P19
  void grow(const Rigid &inc, double w)
  {
    M3 A = M3::Identity(), B = M3::Identity();
    double co = std::cos(inc.a), si = std::sin(inc.a);
    A(0, 2) = -si * inc.t(0) - co * inc.t(1);
    A(1, 2) = co * inc.t(0) - si * inc.t(1);
    B(0, 0) = co, B(0, 1) = -si, B(1, 0) = si, B(1, 1) = co;
    cov = A * cov * A.transpose() + w * (B * B.transpose());
  }
  void step(int k)
  {
    const Step &s = steps[k];
    truth = truth * Rigid(s.moves);
    time += 0.5;
    Cloud scan = look(s.sees);
    c.say("step %d", k);
    V3 p = a.update(trans(Rigid(s.says)), M3::Identity() * 0.01, scan, ros::Time(time));
    c.step();
    after(s, scan, p);
  }
  void after(const Step &s, const Cloud &scan, const V3 &p)
  {
    auto msg = a.getNDTMap("here");
    if (!started) {
      started = true;
      c.check(p.norm() < 1e-12, "first pose is (%g,%g,%g)", p(0), p(1), p(2));
      truth = Rigid();
      frame.setCellSize(0.25f);
      frame.initialize(scan);
      seen_at = time;
      c.check(msg.header.seq == 0 && std::fabs(msg.header.stamp.toSec() - time) < 1e-6, "first window is number %u of time %g", msg.header.seq, msg.header.stamp.toSec());
      return;
    }
    pending = pending * Rigid(s.says);
    Rigid expect = base * pending;
    bool moved = pending.t.norm() > 0.2 || std::fabs(pending.a) > 0.1;
    bool edge = std::fabs(pending.t.norm() - 0.2) < 1e-6 || std::fabs(std::fabs(pending.a) - 0.1) < 1e-6;
    if (edge)
      throw Unsure();
    size_t before = nodes.size();
    bool registered = msg.header.seq != seq;
    c.check(msg.header.seq == seq + (registered ? 1 : 0), "window number went from %u to %u", seq, msg.header.seq);
    if (!moved) {
      c.check(!registered, "a scan was registered after a motion of (%g,%g,%g)", pending.t(0), pending.t(1), pending.a);
      c.check(apart(p, expect.vec()) < 1e-9, "after a short motion the pose is (%g,%g,%g), odometry gives (%g,%g,%g)", p(0), p(1), p(2), expect.t(0), expect.t(1), expect.a);
      c.check(l.nodes.size() == before, "a node was added without any motion");
      return;
    }
    if (s.sees == 0)
      c.check(registered, "a scan of the room was not registered");
    else if (s.sees == 2)
      c.check(!registered, "an empty scan was registered");
    Rigid now(p), travelled = frame_at.inverse() * (registered ? now : expect);
    bool new_node = l.nodes.size() != before, corrected = false;
    if (new_node && before > 0 && (int)before == fake->close_at && fake->changes) {
      // the graph moved this frame, and the robot with it
      corrected = true;
      frame_at = fake->shift * frame_at;
      drift = fake->shift * drift;
      if (registered)
        travelled = frame_at.inverse() * now;
      else
        expect = frame_at * travelled;
    }
    if (!registered)
      c.check(apart(p, expect.vec()) < 1e-6, "without a registration the pose is (%g,%g,%g), odometry gives (%g,%g,%g)", p(0), p(1), p(2), expect.t(0), expect.t(1), expect.a);
    else {
      Rigid err = (drift * truth).inverse() * now;
      c.check(err.t.norm() < tol_reg && std::fabs(adiff(err.a, 0)) < tol_ang, "pose (%g,%g,%g) is off by %g m and %g rad", now.t(0), now.t(1), now.a, err.t.norm(), err.a);
      ++seq;
      seen_at = time;
    }
    c.check(std::fabs(msg.header.stamp.toSec() - seen_at) < 1e-6, "window has the time %g, its last scan is of %g", msg.header.stamp.toSec(), seen_at);
    grow(last_travelled.inverse() * travelled, registered ? 0.01 : 100);
    double far = travelled.t.norm();
    if (std::fabs(far - reach) < 1e-5)
      throw Unsure();
    c.check(new_node == (far > reach), "%s node after %g m, the limit is %g", new_node ? "a" : "no", far, reach);
    if (new_node) {
      added(travelled, corrected, before);
      // the next frame
      frame_at = now;
      frame = NGrid();
      frame.setCellSize(0.25f);
      frame.setOrigin(now.vec());
      last_travelled = Rigid();
      cov = M3::Identity();
    } else
      last_travelled = travelled;
    frame.mergeInTraced(scan, now.vec(), true);
    base = now;
    pending = Rigid();
    if (c.fresh()) {
      if (new_node)
        maps();
      window();
    }
  }
  void added(const Rigid &travelled, bool corrected, size_t before)
  {
    c.check(l.nodes.size() == before + 1, "%zu nodes at once", l.nodes.size() - before);
    RefNode n{frame_at, frame, time, travelled.vec(), cov.inverse()};
    n.data.setOrigin(frame_at.vec());
    nodes.push_back(n);
    if (corrected)
      for (size_t i = 1; i + 1 < nodes.size(); ++i) {
        nodes[i].at = fake->shift * nodes[i].at;
        nodes[i].data.setOrigin(nodes[i].at.vec());
      }
    c.check(l.edges.size() == nodes.size() - 1, "%zu constraints for %zu nodes", l.edges.size(), nodes.size());
    if (nodes.size() > 1) {
      auto &e = l.edges.back();
      auto &m = nodes[nodes.size() - 2];
      c.check(e.from == (int)nodes.size() - 2 && e.to == (int)nodes.size() - 1, "constraint joins node %d and %d", e.from, e.to);
      c.check(apart(e.t, m.motion) < 1e-6, "constraint is (%g,%g,%g), the robot moved by (%g,%g,%g)", e.t(0), e.t(1), e.t(2), m.motion(0), m.motion(1), m.motion(2));
      c.check((e.inform - m.info).norm() < 1e-6 * m.info.norm(), "weight of the constraint is off by %g", (e.inform - m.info).norm());
    }
    c.check(l.tries == (int)nodes.size(), "looked for loops %d times with %zu nodes", l.tries, nodes.size());
    c.check(l.optimised == (fake->close_at >= 0 && fake->close_at < (int)nodes.size() ? 1 : 0), "optimised %d times", l.optimised);
    for (size_t i = 0; i < nodes.size(); ++i) {
      auto &at = nodes[i].at;
      c.check(apart(l.nodes[i].at, at.vec()) < 1e-6, "node %zu is at (%g,%g,%g), expected (%g,%g,%g)", i, l.nodes[i].at(0), l.nodes[i].at(1), l.nodes[i].at(2), at.t(0), at.t(1), at.a);
      c.check((l.nodes[i].data->getOrigin() - l.nodes[i].at).norm() < 1e-12, "frame %zu is not where its node is", i);
    }
  }
  // nodes hold what was seen along the way; the map is their sum
  void maps()
  {
    auto &n = nodes.back();
    sameGrid(*l.nodes.back().data, n.data, "frame of the node");
    slamuk::NDTMapper<NCell, Pt> m;
    std::vector<NGrid::Ptr> copies;
    for (size_t i = 0; i < nodes.size(); ++i) {
      // with the events of its history: the extent tells how far rays go
      copies.push_back(NGrid::Ptr(new NGrid(*l.nodes[i].data)));
      copies[i]->setOrigin(l.nodes[i].created);
      m.addFrame(copies[i], ros::Time(nodes[i].time));
      if ((int)i == fake->close_at && fake->changes) {
        for (size_t k = 0; k <= i; ++k)
          copies[k]->setOrigin(l.nodes[k].at);
        m.recalc(ros::Time(nodes[i].time));
      }
    }
    auto e = m.calcOccupancyGridMsg(), o = a.getOccupancyGrid("map");
    c.check(o.header.frame_id == "map", "occupancy grid belongs to frame '%s'", o.header.frame_id.c_str());
    c.check(o.info.width == e.info.width && o.info.height == e.info.height && o.data.size() == e.data.size(), "map is %u x %u, expected %u x %u", o.info.width, o.info.height, e.info.width, e.info.height);
    size_t wrong = 0;
    for (size_t i = 0; i < e.data.size(); ++i)
      wrong += o.data[i] != e.data[i];
    c.check(wrong == 0, "%zu of the %zu cells of the map differ", wrong, e.data.size());
    auto q = a.getPclMap("map"), f = m.getPclMap();
    c.check(q->header.frame_id == "map" && q->size() == f->size(), "cloud map has %zu points in frame '%s', expected %zu", q->size(), q->header.frame_id.c_str(), f->size());
    for (size_t i = 0; i < f->size(); ++i)
      wrong += !(std::fabs((*q)[i].x - (*f)[i].x) < 1e-4 && std::fabs((*q)[i].y - (*f)[i].y) < 1e-4);
    c.check(wrong == 0, "%zu points of the cloud map differ", wrong);
    auto g = a.getGraphSerialized("map");
    c.check(g.markers.size() == nodes.size(), "exported graph has %zu nodes", g.markers.size());
  }
  void sameGrid(const NGrid &x, const NGrid &y, const char *what)
  {
    auto a1 = x.getGaussianCells(), b1 = y.getGaussianCells();
    c.check(a1.size() == b1.size(), "%s has %zu distributions, expected %zu", what, a1.size(), b1.size());
    for (size_t i = 0; i < a1.size(); ++i) {
      c.check((a1[i]->getMean() - b1[i]->getMean()).norm() < 1e-4 && a1[i]->points() == b1[i]->points(), "%s: distribution %zu at (%g,%g), expected (%g,%g)", what, i, a1[i]->getMean()(0), a1[i]->getMean()(1), b1[i]->getMean()(0), b1[i]->getMean()(1));
      c.check((a1[i]->getCov() - b1[i]->getCov()).norm() < 1e-4, "%s: distribution %zu", what, i);
    }
    auto o1 = x.createOccupancyGrid(), o2 = y.createOccupancyGrid();
    c.check(o1.width_ == o2.width_ && o1.height_ == o2.height_ && o1.cells_.size() == o2.cells_.size(), "%s is %zu x %zu, expected %zu x %zu", what, (size_t)o1.width_, (size_t)o1.height_, (size_t)o2.width_, (size_t)o2.height_);
    size_t bad = 0;
    for (size_t i = 0; i < o1.cells_.size(); ++i)
      bad += o1.cells_[i] != o2.cells_[i];
    c.check(bad == 0, "%s: %zu cells have another occupancy", what, bad);
  }
  // the running window shows the room where it is
  void window()
  {
    auto m = a.getPclMap2("odom");
    c.check(m->header.frame_id == "odom", "window belongs to frame '%s'", m->header.frame_id.c_str());
    double worst = 0;
    V2 where(0, 0);
    for (auto &p : m->points) {
      double d = 1e9;
      for (auto &q : scene.points)
        d = std::min(d, (double)std::hypot(p.x - q.x, p.y - q.y));
      if (d > worst)
        worst = d, where = V2(p.x, p.y);
    }
    c.check(worst < 0.5, "window shows something at (%g,%g), %g m from all walls", where(0), where(1), worst);
    c.check(m->size() >= 5, "window shows %zu cells", m->size());
    // the message tells the same
    auto msg = a.getNDTMap("odom");
    c.check(msg.header.frame_id == "odom", "window message belongs to frame '%s'", msg.header.frame_id.c_str());
    c.check(std::fabs(msg.x_cell_size - 0.25) < 1e-6 && std::fabs(msg.y_cell_size - 0.25) < 1e-6, "cells of %g x %g", msg.x_cell_size, msg.y_cell_size);
    size_t lost = 0;
    V2 left(1e9, 1e9), right(-1e9, -1e9);
    for (auto &p : m->points) {
      // the window is never turned: its corner is where the message says
      V2 q(p.x, p.y);
      left = left.cwiseMin(q), right = right.cwiseMax(q);
      double rx = q(0) - msg.x_cen, ry = msg.y_cen - q(1);
      lost += !(rx >= -1e-3 && ry >= -1e-3 && rx <= msg.x_size + 1e-3 && ry <= msg.y_size + 1e-3);
    }
    c.check(lost == 0, "%zu cells lie outside of the window in the message", lost);
    std::vector<V2> listed;
    for (auto &k : msg.cells) {
      c.check(k.cov_matrix.size() == 9, "a cell with %zu covariances", k.cov_matrix.size());
      listed.push_back(V2(k.mean_x, k.mean_y));
    }
    // means are relative to the origin of the window: one offset fits all
    V2 off(1e9, 1e9);
    bool fits = m->points.empty();
    for (size_t i = 0; i < listed.size() && !fits; ++i) {
      off = V2(m->points[0].x, m->points[0].y) - listed[i];
      fits = std::fabs(std::remainder(off(0), 0.25)) < 1e-3 && std::fabs(std::remainder(off(1), 0.25)) < 1e-3;
      for (size_t j = 1; j < m->points.size() && fits; ++j) {
        bool f = false;
        for (auto &q : listed)
          f = f || (q + off - V2(m->points[j].x, m->points[j].y)).norm() < 1e-3;
        fits = f;
      }
    }
    c.check(fits, "window in the message and as a cloud differ");
  }
};

struct Drive {
  int room, close_at;
  bool changes;
  double reach;
};
static const Drive drives[] = {{1, 1, true, 0.23}, {4, -1, false, 0.45}, {4, 1, false, 0.23}, {4, 1, true, 0.4}, {1, -1, false, 0.3}, {1, 1, false, 0.4}};
MC_BODY_AT(drive, 3)
{
  const Drive &d = drives[c.choose(c.thorough() ? 6 : 3, "drive")];
  World w(c, d.room, d.reach, 6);
  w.fake->close_at = d.close_at;
  w.fake->changes = d.changes;
  w.fake->shift = Rigid(V3(0.2, -0.1, 0.15));
  int depth = c.thorough() ? 5 : 4;
  try {
    w.step(0);
    for (int i = 0; i < depth; ++i)
      w.step(c.choose(c.thorough() ? 8 : 6, "step"));
  } catch (const Unsure &) {
    c.undecided();
    return;
  }
  mc::Hash h;
  h.addd(w.base.t(0)).addd(w.base.t(1)).addd(w.base.a).add(w.nodes.size()).add(w.seq);
  c.state(h);
}

// ---------------------------------------------------------------------------
// With its own graph and matcher: a robot drives around in a room. What its
// matcher accepts is true, so that neither the poses of frames nor the robot
// leave where they are.
struct Spy : IEngine {
  std::unique_ptr<IEngine> in;
  Log &l;
  std::vector<size_t> ids;
  size_t edges = 0;
  Spy(std::unique_ptr<IEngine> e, Log &log) : in(std::move(e)), l(log)
  {
  }
  bool optimalize() override
  {
    ++l.optimised;
    return in->optimalize();
  }
  bool optimalizeIterationaly() override
  {
    ++l.optimised;
    return in->optimalizeIterationaly();
  }
  double calcTotalGraphError() const override
  {
    return in->calcTotalGraphError();
  }
  size_t addPose(const V3 &p, Holder &h) override
  {
    l.nodes.push_back({p, h.getData(), p});
    ids.push_back(in->addPose(p, h));
    return ids.back();
  }
  size_t addConstrain(size_t a, size_t b, const V3 &t, const M3 &i) override
  {
    ++edges;
    return in->addConstrain(a, b, t, i);
  }
  size_t addLastConstrain(const V3 &t, const M3 &i) override
  {
    ++edges;
    return in->addLastConstrain(t, i);
  }
  bool tryLoopClose(size_t id) override
  {
    ++l.tries;
    return in->tryLoopClose(id);
  }
  bool tryLoopClose() override
  {
    ++l.tries;
    return in->tryLoopClose();
  }
  const V3 &getPoseLocation(size_t id) const override
  {
    return in->getPoseLocation(id);
  }
  const Holder &getPoseData(size_t id) const override
  {
    return in->getPoseData(id);
  }
  const V3 &getConstrainTransform(size_t id) const override
  {
    return in->getConstrainTransform(id);
  }
  const M3 &getConstrainInformMat(size_t id) const override
  {
    return in->getConstrainInformMat(id);
  }
  std::pair<size_t, size_t> getConstrainPoses(size_t id) const override
  {
    return in->getConstrainPoses(id);
  }
  void setEuclideanMaxError(double v) override
  {
    in->setEuclideanMaxError(v);
  }
  void setMaxIterations(size_t v) override
  {
    in->setMaxIterations(v);
  }
  void setLoopGenerationMinDist(float v) override
  {
    l.mins.push_back(v);
    in->setLoopGenerationMinDist(v);
  }
  void setLoopGenerationMaxDist(float v) override
  {
    l.maxs.push_back(v);
    in->setLoopGenerationMaxDist(v);
  }
  void setLoopRegistrationScore(float v) override
  {
    l.scores.push_back(v);
    in->setLoopRegistrationScore(v);
  }
  visualization_msgs::MarkerArray getGraphSerialized(std::string f) const override
  {
    return in->getGraphSerialized(f);
  }
  void getGraphSerialized(std::ostream &o) const override
  {
    in->getGraphSerialized(o);
  }
};
struct SpyProbe : Alg {
  Spy *spy(Log &l)
  {
    Spy *s = new Spy(std::move(opt_engine_), l);
    opt_engine_.reset(s);
    return s;
  }
};
static std::vector<V3> path(int i)
{
  std::vector<V3> p;
  switch (i) {
  case 0:  // a circle
    for (int k = 0; k < 16; ++k)
      p.push_back(V3(0.3, 0, 2 * M_PI / 8));
    break;
  case 1:  // there and back
    for (int k = 0; k < 14; ++k)
      p.push_back(V3(k % 7 < 3 ? 0.3 : k % 7 < 6 ? -0.3 : 0, 0.02, k % 7 == 6 ? 0.5 : 0));
    break;
  case 2:  // a triangle, turning on the spot
    for (int k = 0; k < 15; ++k)
      p.push_back(k % 5 < 3 ? V3(0.25, 0, 0) : V3(0, 0, M_PI / 3));
    break;
  }
  return p;
}
MC_BODY_AT(loop, 4)
{
  static const int rooms[] = {1, 4, 0};
  static const V3 slips[] = {V3(0, 0, 0), V3(0.02, -0.01, 0.02), V3(-0.03, 0.02, -0.03)};
  static const float scores[] = {0.6f, 0.999f, 0.7f};
  struct Reach {
    float min, max;
  };
  static const Reach reaches[] = {{0.9f, 1.2f}, {100.f, 1.2f}, {0.5f, 0.6f}};
  int room_no = c.choose(c.thorough() ? 3 : 2, "room"), path_no = c.choose(3, "path");
  V3 slip = slips[c.choose(3, "slip")];
  float score = scores[c.choose(c.thorough() ? 3 : 2, "score")];
  Reach reach = reaches[c.choose(c.thorough() ? 3 : 2, "reach")];
  quiet();
  c.scribble();
  Cloud scene = room(rooms[room_no]);
  Log l;
  SpyProbe a;
  Spy *spy = a.spy(l);
  a.setGenerationDistance(0.4f);
  a.setRunWindowRadius(6);
  a.setLoopClosureMinDist(reach.min);
  a.setLoopClosureMaxDist(reach.max);
  a.setLoopClosureScoreThreshold(score);
  c.check(l.mins == std::vector<float>{reach.min} && l.maxs == std::vector<float>{reach.max} && l.scores == std::vector<float>{score}, "limits for loops do not arrive");
  Rigid truth;
  double time = 50;
  a.update(trans(Rigid()), M3::Identity() * 0.01, seen(scene, truth), ros::Time(time));
  std::vector<Rigid> starts = {Rigid()};  // true poses where frames start
  size_t all = 0, loops = 0;
  for (auto &m : path(path_no)) {
    Rigid odo = Rigid(m) * Rigid(m.norm() > 0 ? slip : V3(0, 0, 0));
    truth = truth * Rigid(m);
    time += 1;
    size_t before = l.nodes.size(), edges = spy->edges;
    int optimised = l.optimised;
    V3 p = a.update(trans(odo), M3::Identity() * 0.01, seen(scene, truth), ros::Time(time));
    c.step();
    if (l.nodes.size() != before)
      starts.push_back(truth);
    std::stringstream text;
    spy->getGraphSerialized(text);
    all = 0;
    for (std::string line; std::getline(text, line);)
      all += line.find("->") != std::string::npos;
    loops = 0;
    for (size_t e = 0; e < all; ++e) {
      auto q = spy->getConstrainPoses(e);
      size_t i = std::find(spy->ids.begin(), spy->ids.end(), q.first) - spy->ids.begin();
      size_t j = std::find(spy->ids.begin(), spy->ids.end(), q.second) - spy->ids.begin();
      c.check(i < l.nodes.size() && j < l.nodes.size(), "a constraint of unknown nodes");
      if (j == i + 1)
        continue;
      ++loops;
      // a wrong match in a room that looks alike when turned: no statement
      if (apart(spy->getConstrainTransform(e), (starts[i].inverse() * starts[j]).vec()) > 0.25) {
        c.undecided();
        return;
      }
    }
    Rigid err = truth.inverse() * Rigid(p);
    c.check(err.t.norm() < 0.3 && std::fabs(adiff(err.a, 0)) < 0.25, "pose (%g,%g,%g) is off by %g m and %g rad", p(0), p(1), p(2), err.t.norm(), err.a);
    if (l.nodes.size() == before) {
      c.check(spy->edges == edges && l.optimised == optimised, "the graph changed without a new node");
      continue;
    }
    c.check(l.nodes.size() == before + 1 && spy->edges == before, "%zu nodes and %zu constraints", l.nodes.size(), spy->edges);
    for (size_t i = 0; i < l.nodes.size(); ++i) {
      V3 at = spy->getPoseLocation(spy->ids[i]);
      Rigid e = starts[i].inverse() * Rigid(at);
      c.check(e.t.norm() < 0.3 && std::fabs(adiff(e.a, 0)) < 0.25, "frame %zu is off by %g m and %g rad", i, e.t.norm(), e.a);
      c.check(apart(l.nodes[i].data->getOrigin(), at) < 1e-9, "frame %zu is not where its node is", i);
    }
  }
  c.check(loops == all - spy->edges, "%zu loops among %zu constraints, %zu of odometry", loops, all, spy->edges);
  c.check((loops > 0) == (l.optimised > 0), "%zu loops, optimised %d times", loops, l.optimised);
  c.check(l.tries == (int)l.nodes.size(), "looked for loops %d times with %zu nodes", l.tries, l.nodes.size());
  if (reach.min > 10)
    c.check(loops == 0, "%zu loops on a way that is too short", loops);
  else if (score < 0.65 && reach.max > 1)
    c.check(loops > 0, "no loops on a way that passes the same places");
  auto map = a.getPclMap("map");
  double worst = 0;
  for (auto &p : map->points) {
    double d = 1e9;
    for (auto &q : scene.points)
      d = std::min(d, (double)std::hypot(p.x - q.x, p.y - q.y));
    worst = std::max(worst, d);
  }
  c.check(worst < 0.6, "the map shows something %g m from all walls", worst);
  mc::Hash h;
  h.add(room_no).add(path_no).add(all).add(loops);
  c.state(h);
}
