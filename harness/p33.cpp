// The ROS node around the slam algorithm: what goes in, what comes out. The
// harness plays tf, the sensors and (but for the last body) the algorithm.
#include "omp_team.h"
#include "reg_world.h"
#include "g2o_raw.h"
#include <pcl_conversions/pcl_conversions.h>
#include <ndt_gslam/graph_slam2d_node.h>
#include <ndt_gslam/ndt_slam_algorithm.h>
#define main node_main
#include "src/graph_slam2d_node.cpp"
#undef main
typedef slamuk::ISlamAlgorithm IAlg;
typedef Eigen::Matrix3d M3;
typedef boost::shared_ptr<sensor_msgs::LaserScan> ScanPtr;

static void quiet()
{
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
}
static tf::Transform planar(const V3 &p)
{
  return tf::Transform(tf::createQuaternionFromYaw(p(2)), tf::Vector3(p(0), p(1), 0));
}
static double apart(const tf::Transform &a, const tf::Transform &b)
{
  double d = 0;
  for (int i = 0; i < 3; ++i) {
    d = std::max(d, std::fabs(a.o.m[i] - b.o.m[i]));
    for (int j = 0; j < 3; ++j)
      d = std::max(d, std::fabs(a.b.m[i][j] - b.b.m[i][j]));
  }
  return std::isfinite(d) ? d : INFINITY;
}

// tf as it is: known frames at known times, from all to all
struct Frames {
  std::string base = "base_link", odom = "odom";
  V3 robot = V3::Zero();
  double time = 0;
  bool has_base = true, has_odom = true;  // base and laser, odom and base
  bool late = false;                      // only there once somebody waited
  std::set<std::string> waited;
  tf::Transform mount(const std::string &laser) const
  {
    if (laser == "laser")
      return planar(V3(0.2, -0.1, 0.3));
    // upside down
    tf::Transform t(tf::Quaternion(1, 0, 0, 0), tf::Vector3(-0.15, 0.05, 0.4));
    return t * planar(V3(0, 0, -0.4));
  }
  // group 0: odometry, 1: base, 2: laser
  int group(const std::string &f) const
  {
    if (f == odom)
      return 0;
    if (f == base)
      return 1;
    if (f == "laser" || f == "laser2")
      return 2;
    throw tf::LookupException("no frame " + f);
  }
  tf::Transform at(const std::string &f, const ros::Time &when) const
  {
    int g = group(f);
    // by now it has moved on
    tf::Transform r = planar(robot);
    if (when == ros::Time())
      r = r * planar(V3(0.05, -0.02, 0.1));
    return g == 0 ? tf::Transform::getIdentity() : g == 1 ? r : r * mount(f);
  }
  bool known(const std::string &t, const std::string &s, const ros::Time &when) const
  {
    int a = group(t), b = group(s);
    if (a > b)
      std::swap(a, b);
    if (a == b)
      return true;
    if (a == 0 && !has_odom)
      return false;
    if (b == 2 && !has_base)
      return false;
    return std::fabs(when.toSec() - time) < 1e-6 || when == ros::Time();
  }
  void install()
  {
    auto &f = tf::StubFrames::get();
    f.sent.clear();
    f.look = [this](const std::string &t, const std::string &s, const ros::Time &when) {
      if (!known(t, s, when) || (late && group(t) != group(s) && !waited.count(t + "<" + s) && !waited.count(s + "<" + t)))
        throw tf::ExtrapolationException("not known at that time");
      return at(t, when).inverse() * at(s, when);
    };
    f.wait = [this](const std::string &t, const std::string &s, const ros::Time &when) {
      try {
        if (!known(t, s, when))
          return false;
      } catch (const tf::TransformException &) {
        return false;
      }
      waited.insert(t + "<" + s);
      return true;
    };
  }
};

// The algorithm, played
struct Played : IAlg {
  struct Call {
    V3 motion;
    bool rigid;
    M3 covar;
    PointCloud cloud;
    ros::Time time;
  };
  std::vector<Call> calls;
  V3 answer = V3::Zero();
  std::vector<float> radius, generation, maxd, mind, score;
  mutable std::vector<std::string> asked;
  Pose update(const Transform &m, const Covar &c, const PointCloud &p, const ros::Time &t) override
  {
    M3 r = m.matrix();
    Call k;
    k.motion = V3(r(0, 2), r(1, 2), std::atan2(r(1, 0), r(0, 0)));
    k.rigid = std::fabs(r(0, 0) - r(1, 1)) < 1e-9 && std::fabs(r(0, 1) + r(1, 0)) < 1e-9 && std::fabs(r.topLeftCorner<2, 2>().determinant() - 1) < 1e-9;
    k.covar = c;
    k.cloud = p;
    k.time = t;
    calls.push_back(k);
    return answer;
  }
  nav_msgs::OccupancyGrid getOccupancyGrid(const std::string &f) const override
  {
    nav_msgs::OccupancyGrid g;
    g.header.frame_id = f;
    g.header.seq = calls.size();
    return g;
  }
  visualization_msgs::MarkerArray getGraphSerialized(const std::string &f) const override
  {
    visualization_msgs::MarkerArray a;
    a.markers.resize(1);
    a.markers[0].header.frame_id = f;
    a.markers[0].id = calls.size();
    return a;
  }
  ndt_gslam::NDTMapMsg getNDTMap(const std::string &f) const override
  {
    ndt_gslam::NDTMapMsg m;
    m.header.frame_id = f;
    m.header.seq = calls.size();
    return m;
  }
  PointCloud::Ptr cloud(const std::string &f, int tag) const
  {
    PointCloud::Ptr p(new PointCloud);
    p->header.frame_id = f;
    p->header.seq = calls.size();
    p->push_back(PointType(tag, 0, 0));
    return p;
  }
  PointCloud::Ptr getPclMap(const std::string &f) const override
  {
    return cloud(f, 1);
  }
  PointCloud::Ptr getPclMap2(const std::string &f) const override
  {
    return cloud(f, 2);
  }
  void setRunWindowRadius(float v) override
  {
    radius.push_back(v);
  }
  void setGenerationDistance(float v) override
  {
    generation.push_back(v);
  }
  void setLoopClosureMaxDist(float v) override
  {
    maxd.push_back(v);
  }
  void setLoopClosureMinDist(float v) override
  {
    mind.push_back(v);
  }
  void setLoopClosureScoreThreshold(float v) override
  {
    score.push_back(v);
  }
};

struct Scan {
  ScanPtr msg;
  std::vector<std::array<double, 2>> pts;  // in the laser frame
};
// `good` valid readings, others invalid in every way
static Scan scan(size_t good, size_t bad, const std::string &frame, double time, double turn)
{
  Scan s;
  s.msg.reset(new sensor_msgs::LaserScan);
  s.msg->header.frame_id = frame;
  s.msg->header.stamp = ros::Time(time);
  s.msg->angle_min = -1.5f + (float)turn;
  s.msg->angle_increment = 0.006f;
  s.msg->range_min = 0.1f;
  s.msg->range_max = 8;
  static const float wrong[] = {NAN, INFINITY, 0.05f, 9, 0, -1, 8};
  size_t n = good + bad;
  for (size_t i = 0, b = 0; i < n; ++i) {
    // spread over the scan
    if (bad && (i + 1) * bad / n > b) {
      s.msg->ranges.push_back(wrong[b++ % 7]);
      continue;
    }
    float r = 1.5f + 0.001f * (float)((i * 37) % 100);
    s.msg->ranges.push_back(r);
    double a = s.msg->angle_min + (double)i * s.msg->angle_increment;
    s.pts.push_back({r * std::cos(a), r * std::sin(a)});
  }
  s.msg->angle_max = s.msg->angle_min + (float)n * s.msg->angle_increment;
  return s;
}
static const std::string MODES[] = {"ODOM", "POSE", "NON", "something"};

struct World {
  mc::Ctx &c;
  Frames tree;
  Played alg;
  std::string map = "map";
  int mode;
  bool serialise = true;
  std::unique_ptr<slamuk::GraphSlamNode> node;
  // the reference
  bool started = false;
  V3 last = V3::Zero();
  tf::Transform sent = tf::Transform::getIdentity();
  double time = 100;
  size_t updates = 0;
  int frame_no = 0;
  World(mc::Ctx &ctx, int m) : c(ctx), mode(m)
  {
    quiet();
    StubBus::reset();
  }
  void launch()
  {
    c.scribble();
    tree.install();
    ros::NodeHandle n, p("~");
    node.reset(new slamuk::GraphSlamNode(n, p, alg));
    auto &in = StubBus::get().inputs;
    c.check(in.size() == 1, "%zu inputs connected", in.size());
    std::vector<std::string> want = mode == 0 ? std::vector<std::string>{"/slam/odom", "/scan"} : mode == 1 ? std::vector<std::string>{"/slam/pose", "/scan"} : std::vector<std::string>{"/scan"};
    c.check(in[0].topics == want, "listens to %s", in[0].topics[0].c_str());
    std::vector<std::type_index> type;
    if (mode == 0)
      type.push_back(typeid(nav_msgs::Odometry));
    if (mode == 1)
      type.push_back(typeid(geometry_msgs::PoseWithCovarianceStamped));
    type.push_back(typeid(sensor_msgs::LaserScan));
    c.check(in[0].types == type, "listens to messages of another type");
    c.check(StubBus::get().outputs.empty() && tf::StubFrames::get().sent.empty(), "published before anything was received");
    c.check(alg.calls.empty(), "updated before anything was received");
  }
  M3 covariance(boost::array<double, 36> &a)
  {
    // all 36 differ
    for (int i = 0; i < 6; ++i)
      for (int j = 0; j < 6; ++j)
        a[6 * i + j] = 0.001 * (1 + 6 * std::min(i, j) + std::max(i, j)) * (1 + frame_no % 3);
    M3 m;
    static const int id[] = {0, 1, 5};
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        m(i, j) = a[6 * id[i] + id[j]];
    return m;
  }
  // a pair of messages (or a scan) arrives
  void arrive(size_t good, size_t bad, const std::string &laser, const V3 &answer)
  {
    ++frame_no;
    time += 0.5;
    double laser_time = mode < 2 ? time + 0.01 : time;
    Scan s = scan(good, bad, laser, laser_time, 0.01 * frame_no);
    tree.time = time;
    tree.waited.clear();
    alg.answer = answer;
    tf::StubFrames::get().sent.clear();
    StubBus::get().outputs.clear();
    std::vector<StubBus::Msg> msgs;
    M3 covar = M3::Identity() * 1e-4;
    if (mode == 0) {
      auto o = boost::make_shared<nav_msgs::Odometry>();
      o->header.stamp = ros::Time(time);
      o->header.frame_id = "not the frame in use";
      o->pose.pose.position.x = 77;
      covar = covariance(o->pose.covariance);
      msgs.push_back(o);
    } else if (mode == 1) {
      auto o = boost::make_shared<geometry_msgs::PoseWithCovarianceStamped>();
      o->header.stamp = ros::Time(time);
      o->pose.pose.position.x = 77;
      covar = covariance(o->pose.covariance);
      msgs.push_back(o);
    }
    msgs.push_back(s.msg);
    StubBus::get().inputs.at(0).call(msgs);
    c.step();
    bool usable = tree.has_base && tree.has_odom && good >= 400;
    c.check(alg.calls.size() == updates + usable, "%zu updates from a scan with %zu points, %s tf", alg.calls.size() - updates, good, tree.has_base && tree.has_odom ? "known" : "unknown");
    if (usable) {
      ++updates;
      const Played::Call &k = alg.calls.back();
      V3 want = started ? (Rigid(last).inverse() * Rigid(tree.robot)).vec() : V3(0, 0, 0);
      c.check(k.rigid && (k.motion - want).head<2>().norm() < 1e-6 && std::fabs(adiff(k.motion(2), want(2))) < 1e-6, "motion (%g,%g,%g) instead of (%g,%g,%g)", k.motion(0), k.motion(1), k.motion(2), want(0), want(1), want(2));
      c.check((k.covar - covar).cwiseAbs().maxCoeff() < 1e-12, "covariance of the motion differs");
      c.check(std::fabs(k.time.toSec() - time) < 1e-6, "time of the update is %g instead of %g", k.time.toSec(), time);
      c.check(k.cloud.size() == s.pts.size(), "%zu points instead of %zu", k.cloud.size(), s.pts.size());
      tf::Transform m = tree.mount(laser);
      std::vector<std::array<long, 3>> a, b;
      for (size_t i = 0; i < s.pts.size(); ++i) {
        tf::Vector3 p = m * tf::Vector3(s.pts[i][0], s.pts[i][1], 0);
        const auto &q = k.cloud.points[i];
        c.check(std::hypot(q.x - p.x(), q.y - p.y()) < 1e-4, "point %zu is (%g,%g) instead of (%g,%g) in the frame of the robot", i, q.x, q.y, p.x(), p.y());
      }
      last = tree.robot;
      // where the algorithm says the robot is
      sent = planar(answer) * planar(tree.robot).inverse();
    }
    auto &tfs = tf::StubFrames::get().sent;
    c.check(tfs.size() == 1, "%zu transforms sent", tfs.size());
    c.check(tfs[0].frame_id_ == map && tfs[0].child_frame_id_ == tree.odom, "transform %s -> %s sent", tfs[0].frame_id_.c_str(), tfs[0].child_frame_id_.c_str());
    c.check(std::fabs(tfs[0].stamp_.toSec() - time) < 1e-6, "transform of time %g sent at %g", tfs[0].stamp_.toSec(), time);
    c.check(apart(tfs[0], sent) < 1e-6, "transform from map to odometry is off by %g, %zu scans used", apart(tfs[0], sent), updates);
    std::map<std::string, int> n;
    for (auto &o : StubBus::get().outputs) {
      ++n[o.topic];
      std::string frame;
      size_t seq = 0;
      if (auto *m = boost::any_cast<nav_msgs::OccupancyGrid>(&o.msg)) {
        c.check(o.topic == "/slam/map", "a map on %s", o.topic.c_str());
        frame = m->header.frame_id, seq = m->header.seq;
      } else if (auto *m = boost::any_cast<visualization_msgs::MarkerArray>(&o.msg)) {
        c.check(o.topic == "/slam/graph", "markers on %s", o.topic.c_str());
        frame = m->markers.at(0).header.frame_id, seq = m->markers.at(0).id;
      } else if (auto *m = boost::any_cast<ndt_gslam::NDTMapMsg>(&o.msg)) {
        c.check(o.topic == "/slam/win_ndt", "a window on %s", o.topic.c_str());
        frame = m->header.frame_id, seq = m->header.seq;
      } else if (auto *m = boost::any_cast<IAlg::PointCloud>(&o.msg)) {
        c.check(o.topic == (m->points.at(0).x == 1 ? "/slam/map_pcl" : "/slam/win_pcl"), "a cloud on %s", o.topic.c_str());
        frame = m->header.frame_id, seq = m->header.seq;
      } else
        c.check(false, "something unknown on %s", o.topic.c_str());
      auto ad = StubBus::get().advertised.find(o.topic);
      c.check(ad != StubBus::get().advertised.end() && ad->second == std::type_index(o.msg.type()), "%s was announced differently", o.topic.c_str());
      c.check(frame == map, "%s in frame %s", o.topic.c_str(), frame.c_str());
      c.check(seq == updates, "%s is of before the scan", o.topic.c_str());
    }
    // nothing can have changed without a new scan; after the first scan it is
    // left open what is shown
    if (!usable)
      c.check(n.empty(), "%s published without a new scan", n.begin()->first.c_str());
    else {
      if (started)
        for (auto *t : {"/slam/map", "/slam/win_ndt", "/slam/map_pcl", "/slam/win_pcl", "/slam/graph"})
          c.check(n[t] == (serialise || std::string(t) != "/slam/graph"), "%s published %d times", t, n[t]);
      else if (!serialise)
        c.check(!n.count("/slam/graph"), "graph published although it is switched off");
      started = true;
    }
  }
};

MC_BODY_AT(scans, 4)
{
  int mode = c.choose(4, "mode");
  World w(c, mode);
  if (mode != 2)
    StubBus::get().params["/slam/node/subscribe_mode"] = MODES[mode];
  w.launch();
  static const V3 go[] = {V3(0.3, 0, 0), V3(0.2, -0.1, 0.9), V3(-1, 2, -2.5), V3(0, 0, 0), V3(40, -70, 3)};
  w.tree.robot = V3(3, -2, 1.2);
  Rigid slam;
  int depth = c.thorough() ? 6 : 5;
  for (int i = 0; i < depth; ++i) {
    Frames &t = w.tree;
    int k = c.choose(c.thorough() ? 9 : 8, "event");
    c.say("event %d", k);
    t.has_base = t.has_odom = true;
    t.late = false;
    V3 m = go[(i + k) % 5];
    t.robot = (Rigid(t.robot) * Rigid(m)).vec();
    // the algorithm may correct what odometry says
    slam = slam * Rigid(m);
    if (k == 1)
      slam = slam * Rigid(V3(0.3, 0.1, -0.2));
    if (!w.started)
      slam = Rigid(k == 1 ? V3(1, 2, 0.5) : V3(0, 0, 0));
    V3 a = slam.vec();
    switch (k) {
      case 0:
        w.arrive(450, 0, "laser", a);
        break;
      case 1:
        w.arrive(400, 50, "laser2", a);
        break;
      case 2:
        t.late = true;
        w.arrive(430, 7, "laser", a);
        break;
      case 3:
        t.has_base = false;
        w.arrive(450, 0, "laser", a);
        break;
      case 4:
        t.has_odom = false;
        w.arrive(450, 0, "laser2", a);
        break;
      case 5:
        w.arrive(399, 101, "laser", a);
        break;
      case 6:
        w.arrive(0, 0, "laser", a);
        break;
      case 7:
        t.has_base = t.has_odom = false;
        w.arrive(3, 500, "laser2", a);
        break;
      case 8:
        t.late = true;
        w.arrive(500, 500, "laser2", V3(-7, 12, -3));
        break;
    }
    c.state(mc::Hash().add(mode).add(w.updates).addd(t.robot(0)).addd(t.robot(2)).addd(w.sent.o.m[0]).addd(w.sent.o.m[1]));
  }
}

// every subset of parameters, in every mode, with frame prefixes from
// anywhere
MC_BODY_AT(parameters, 3)
{
  int mode = c.choose(4, "mode");
  World w(c, mode);
  auto &p = StubBus::get().params;
  std::string me = "/slam/node/";
  if (mode != 2 || c.flip("mode given"))
    p[me + "subscribe_mode"] = MODES[mode];
  static const std::string prefix_at[] = {"", "/slam/node/tf_prefix", "/slam/tf_prefix", "/tf_prefix"};
  std::string at = prefix_at[c.choose(4, "prefix")];
  bool empty = !at.empty() && c.flip("empty prefix");
  if (!at.empty())
    p[at] = std::string(empty ? "" : "robot1");
  if (c.flip("base"))
    p[me + "robot_base_frame_id"] = w.tree.base = std::string("base_footprint");
  if (c.flip("odom"))
    p[me + "odom_farme_id"] = w.tree.odom = std::string("odom_combined");
  if (c.flip("map"))
    p[me + "map_farme_id"] = w.map = std::string("world");
  if (!at.empty() && !empty)
    for (auto *s : {&w.tree.base, &w.tree.odom, &w.map})
      *s = "robot1/" + *s;
  struct Num {
    const char *name;
    double def, other;
    std::vector<float> *got;
    double want;
  } nums[] = {{"scanmatch_window_radius", 40, 30, &w.alg.radius}, {"node_gen_distance", 2, 1.5, &w.alg.generation}, {"loop_max_distance", 30, 20, &w.alg.maxd}, {"loop_min_distance", 14, 21, &w.alg.mind}, {"loop_score_threshold", 0.6, 0.75, &w.alg.score}};
  for (auto &n : nums) {
    n.want = n.def;
    if (c.flip(n.name))
      p[me + n.name] = n.want = n.other;
  }
  int g = c.choose(3, "graph");
  if (g) {
    p[me + "serialize_graph"] = g == 1;
    w.serialise = g == 1;
  }
  // names of others are not ours
  p["/slam/robot_base_frame_id"] = std::string("elsewhere");
  p["/slam/node_gen_distance"] = 99.0;
  w.launch();
  for (auto &n : nums)
    c.check(!n.got->empty() && std::fabs(n.got->back() - n.want) < 1e-6, "%s is %g instead of %g", n.name, n.got->empty() ? NAN : n.got->back(), n.want);
  w.tree.robot = V3(1, 1, 0.5);
  w.arrive(400, 10, "laser", V3(0, 0, 0));
  w.tree.robot = V3(1.5, 2, 0.75);
  w.arrive(401, 0, "laser", V3(0.9, 0.4, 0.3));
  c.state(mc::Hash().add(mode).adds(at).adds(w.tree.base).adds(w.map));
}

// ---------------------------------------------------------------------------
// The program as it is started, with the real algorithm: a robot drives
// around in a room with bad odometry, and is found where it is.
static std::vector<std::array<V2, 2>> walls()
{
  static const double x[] = {-2, 3, 3, 1, 1, -2}, y[] = {-2, -2, 1, 1, 2.5, 2.5};
  std::vector<std::array<V2, 2>> w;
  for (int i = 0; i < 6; ++i)
    w.push_back({V2(x[i], y[i]), V2(x[(i + 1) % 6], y[(i + 1) % 6])});
  w.push_back({V2(-1.2, 0.8), V2(-0.4, 1.3)});
  return w;
}
static float reading(const Rigid &at, double a)
{
  double best = INFINITY;
  V2 d(std::cos(at.a + a), std::sin(at.a + a));
  for (auto &w : walls()) {
    V2 e = w[1] - w[0], o = w[0] - at.t;
    double det = -d(0) * e(1) + d(1) * e(0);
    if (std::fabs(det) < 1e-12)
      continue;
    double s = (-o(0) * e(1) + o(1) * e(0)) / det, u = (d(0) * o(1) - d(1) * o(0)) / det;
    if (s > 0 && u >= 0 && u <= 1)
      best = std::min(best, s);
  }
  return (float)best;
}
MC_BODY_AT(robot, 3)
{
  static const V3 slips[] = {V3(0, 0, 0), V3(0.02, -0.01, 0.02), V3(-0.03, 0.02, -0.03)};
  int mode = c.choose(3, "mode"), way = c.choose(c.thorough() ? 3 : 2, "way");
  V3 slip = slips[c.choose(3, "slip")];
  bool gaps = c.flip("tf fails now and then");
  quiet();
  StubBus::reset();
  auto &p = StubBus::get().params;
  p["/slam/node/subscribe_mode"] = MODES[mode];
  p["/slam/node/node_gen_distance"] = 0.5;
  p["/slam/node/scanmatch_window_radius"] = 6.0;
  p["/slam/node/loop_min_distance"] = 1.0;
  p["/slam/node/loop_max_distance"] = 1.2;
  p["/slam/node/loop_score_threshold"] = way == 1 ? 0.999 : 0.75;
  c.scribble();
  Frames tree;
  tree.install();
  Rigid start, truth, odo(V3(5, -3, 2));
  double worst = 0;
  size_t seen = 0, processed = 0;
  StubBus::get().spin = [&] {
    for (int k = 0; k < 15; ++k) {
      V3 m = way == 0 ? V3(0.2, 0, 0.42) : way == 1 ? (k % 5 < 3 ? V3(0.25, 0, 0) : V3(0, 0, M_PI / 3)) : V3(k % 7 < 3 ? 0.3 : k % 7 < 6 ? -0.3 : 0, 0.02, k % 7 == 6 ? 0.5 : 0);
      if (k) {
        truth = truth * Rigid(m);
        odo = odo * Rigid(m) * Rigid(slip);
      }
      bool gap = gaps && (k == 0 || k % 5 == 2);
      tree.has_odom = !gap;
      tree.robot = odo.vec();
      tree.time = 10 + k;
      tree.waited.clear();
      tree.late = k % 2;
      auto s = boost::make_shared<sensor_msgs::LaserScan>();
      s->header.frame_id = "laser";
      s->header.stamp = ros::Time(tree.time);
      s->range_min = 0.05f;
      s->range_max = 20;
      s->angle_min = -(float)M_PI;
      s->angle_increment = (float)(2 * M_PI / 500);
      Rigid l = truth * Rigid(V3(0.2, -0.1, 0.3));
      for (int i = 0; i < 500; ++i)
        s->ranges.push_back(reading(l, s->angle_min + (double)i * s->angle_increment));
      std::vector<StubBus::Msg> msgs;
      auto fill = [&](boost::array<double, 36> &a) {
        for (int i = 0; i < 6; ++i)
          a[7 * i] = 0.01;
      };
      if (mode == 0) {
        auto o = boost::make_shared<nav_msgs::Odometry>();
        o->header.stamp = s->header.stamp;
        fill(o->pose.covariance);
        msgs.push_back(o);
      } else if (mode == 1) {
        auto o = boost::make_shared<geometry_msgs::PoseWithCovarianceStamped>();
        o->header.stamp = s->header.stamp;
        fill(o->pose.covariance);
        msgs.push_back(o);
      }
      msgs.push_back(s);
      tf::StubFrames::get().sent.clear();
      StubBus::get().outputs.clear();
      StubBus::get().inputs.at(0).call(msgs);
      c.step();
      auto &tfs = tf::StubFrames::get().sent;
      c.check(tfs.size() == 1, "%zu transforms sent", tfs.size());
      if (gap)
        continue;
      // the map starts where the first scan was taken
      if (!processed++)
        start = truth;
      Rigid real = start.inverse() * truth;
      tf::Transform r = tfs[0] * planar(odo.vec());
      double dt = std::hypot(r.o.x() - real.t(0), r.o.y() - real.t(1)), da = std::fabs(adiff(std::atan2(r.b.m[1][0], r.b.m[0][0]), real.a));
      c.check(dt < 0.3 && da < 0.25, "robot is off by %g m and %g rad after %d scans", dt, da, k + 1);
      worst = std::max(worst, dt);
      for (auto &o : StubBus::get().outputs)
        if (auto *m = boost::any_cast<IAlg::PointCloud>(&o.msg)) {
          seen += m->size();
          for (auto &q : m->points) {
            V2 at = start * V2(q.x, q.y);
            double d = INFINITY;
            for (auto &w : walls()) {
              V2 e = w[1] - w[0];
              double u = std::max(0.0, std::min(1.0, e.dot(at - w[0]) / e.squaredNorm()));
              d = std::min(d, (at - w[0] - e * u).norm());
            }
            c.check(d < 0.6, "%s shows something %g m from all walls", o.topic.c_str(), d);
          }
        }
    }
  };
  char name[] = "node";
  char *argv[] = {name, nullptr};
  c.check(node_main(1, argv) == 0, "the program fails");
  c.check(processed > 10 && seen > 100, "%zu scans used, %zu points shown", processed, seen);
  c.state(mc::Hash().add(mode).add(way).addd(worst));
}
