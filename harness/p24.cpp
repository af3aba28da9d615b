// NDTMapper next to the list of its frames: the map is what merging the frames
// one after another into one NDT grid (decided by P20) gives.
#include "ndt_world.h"
#include <ndt_gslam/ndt/ndt_mapper.h>
#include <ndt_gslam/ndt_grid2d_holder.h>

typedef slamuk::NDTMapper<NCell, pcl::PointXYZ> Mapper;

static NGrid::Ptr frame(int i)
{
  static const std::vector<V3> at = {V3(0, 0, 0), V3(0.6, 0.2, 0.5), V3(-0.8, 0.4, -2.0), V3(0.13, -0.71, 3.0)};
  static const int what[] = {1, 5, 6, 3};
  NGrid::Ptr g(new NGrid(at[i]));
  if (i == 3)
    g->initializeSimple(scan(what[i]));
  else
    g->initialize(scan(what[i]));
  return g;
}
struct Frame {
  NGrid::Ptr real;  // the object the mapper was given
  NGrid own;        // what it should be
  double time;
  explicit Frame(const NGrid::Ptr &r) : real(r), own(*r), time(0)
  {
  }
};
struct MWorld {
  mc::Ctx &c;
  Mapper m;
  NGrid map;  // merged by the reference
  std::vector<std::shared_ptr<Frame>> frames;
  ros::Time recalc;
  slamuk::OccupancyGrid occ;
  Cloud means;
  explicit MWorld(mc::Ctx &ctx) : c(ctx), map(V3(0, 0, 0))
  {
    occ.width_ = occ.height_ = 0;
    occ.resolution_ = 0;
    occ.origin_.setZero();
  }
  void snapshot()
  {
    occ = map.createOccupancyGrid();
    means = *map.getMeansTransformed();
  }
  void add(const std::shared_ptr<Frame> &f, double t, bool moved)
  {
    c.say("add frame at time %g", t);
    if (moved) {
      NGrid::Ptr p = f->real;
      m.addFrame(std::move(p), ros::Time(t));
    } else
      m.addFrame(f->real, ros::Time(t));
    c.step();
    f->time = t;
    frames.push_back(f);
    map.mergeInTraced(f->own, true, true);
    snapshot();
  }
  void recalculate(double t)
  {
    c.say("recalculate at %g", t);
    m.recalc(ros::Time(t));
    c.step();
    recalc = ros::Time(t);
    std::vector<std::shared_ptr<Frame>> s(frames);
    std::sort(s.begin(), s.end(), [](const std::shared_ptr<Frame> &a, const std::shared_ptr<Frame> &b) { return a->time < b->time; });
    frames = s;
    map.clear();
    for (auto &f : s)
      map.mergeInTraced(f->own, true, true);
    snapshot();
  }
  bool has(const std::shared_ptr<Frame> &f)
  {
    return std::find(frames.begin(), frames.end(), f) != frames.end();
  }
  template <class F>
  void expect(bool ok, const char *what, F f)
  {
    bool thrown = false;
    try {
      f();
    } catch (const std::exception &) {
      thrown = true;
    }
    c.step();
    c.check(thrown == !ok, "%s of a %s frame %s", what, ok ? "known" : "missing", thrown ? "was refused" : "was accepted");
  }
  void remove(const std::shared_ptr<Frame> &f)
  {
    c.say("remove a frame");
    expect(has(f), "removing", [&] { m.removeFrame(f->real); });
    if (has(f))
      frames.erase(std::find(frames.begin(), frames.end(), f));
  }
  void update(const std::shared_ptr<Frame> &f, const V3 &p)
  {
    c.say("frame to (%g,%g,%g)", p(0), p(1), p(2));
    expect(has(f), "updating", [&] { m.updateFrame(f->real, p); });
    if (has(f))
      f->own.setOrigin(p);
  }
  void combine(const std::shared_ptr<Frame> &a, const std::shared_ptr<Frame> &b)
  {
    c.say("combine two frames");
    NGrid::Ptr r;
    expect(has(a) && has(b), "combining", [&] { r = m.combineFrames(a->real, b->real); });
    if (!has(a) || !has(b))
      return;
    c.check(r == a->real, "combined frame is not the frame in use");
    a->own.mergeInTraced(b->own, true, true);
    a->time = b->time;
    frames.erase(std::find(frames.begin(), frames.end(), b));
  }
  void compare(const char *what)
  {
    if (!c.fresh())
      return;
    auto o = m.calcOccupancyGridMsg();
    c.check(o.info.width == occ.width_ && o.info.height == occ.height_, "%s: map is %u x %u, expected %zu x %zu", what, (unsigned)o.info.width, (unsigned)o.info.height, occ.width_, occ.height_);
    c.check(o.info.resolution == occ.resolution_, "%s: resolution %g", what, o.info.resolution);
    c.check(o.info.map_load_time == recalc, "%s: time of calculation %g, expected %g", what, o.info.map_load_time.toSec(), recalc.toSec());
    c.check(o.data.size() == occ.cells_.size(), "%s: %zu values", what, o.data.size());
    for (size_t i = 0; i < o.data.size(); ++i)
      c.check(o.data[i] == occ.cells_[i], "%s: value %zu is %d, expected %d", what, i, (int)o.data[i], (int)occ.cells_[i]);
    auto &p = o.info.origin;
    c.check(std::fabs(p.position.x - occ.origin_(0)) < 1e-9 && std::fabs(p.position.y - occ.origin_(1)) < 1e-9 && p.position.z == 0, "%s: origin (%g,%g,%g)", what, p.position.x, p.position.y, p.position.z);
    double yaw = 2 * std::atan2(p.orientation.z, p.orientation.w);
    c.check(p.orientation.x == 0 && p.orientation.y == 0 && std::fabs(std::remainder(yaw - occ.origin_(2), 2 * M_PI)) < 1e-9, "%s: heading %g, expected %g", what, yaw, occ.origin_(2));
    auto k = m.getPclMap();
    c.check(k.get() && k->size() == means.size(), "%s: %zu means, expected %zu", what, k ? k->size() : 0, means.size());
    for (size_t i = 0; i < means.size(); ++i)
      c.check(std::fabs((*k)[i].x - means[i].x) + std::fabs((*k)[i].y - means[i].y) + std::fabs((*k)[i].z - means[i].z) < 1e-5, "%s: mean %zu is (%g,%g), expected (%g,%g)", what, i, (*k)[i].x, (*k)[i].y, means[i].x, means[i].y);
    for (auto &f : frames) {
      c.check((f->real->getOrigin() - f->own.getOrigin()).norm() < 1e-12, "%s: pose of a frame", what);
      c.check(f->real->getTimestamp() == ros::Time(f->time).toSec(), "%s: time of a frame is %g, expected %g", what, f->real->getTimestamp(), f->time);
      auto a = f->real->getMeans(), b = f->own.getMeans();
      c.check(a->size() == b->size(), "%s: a frame has %zu cells with distribution, expected %zu", what, a->size(), b->size());
      for (size_t i = 0; i < a->size(); ++i)
        c.check(std::fabs((*a)[i].x - (*b)[i].x) + std::fabs((*a)[i].y - (*b)[i].y) < 1e-6, "%s: a frame changed", what);
    }
  }
  uint64_t hash() const
  {
    mc::Hash h;
    auto grid = [&](const NGrid &g) {
      for (int i = 0; i < 3; ++i)
        h.addd(g.getOrigin()(i));
      auto m = g.serialize();
      h.addd(m.size_(0)).addd(m.size_(1)).addd(m.origin_(0)).addd(m.origin_(1));
      for (auto &k : m.cells_) {
        h.addd(k.occupancy_).addi(k.points_);
        if (k.points_ > 0)
          h.addd(k.mean_(0)).addd(k.mean_(1)).addd(k.cov_(0, 0)).addd(k.cov_(0, 1));
      }
    };
    grid(map);
    for (auto &f : frames) {
      h.addd(f->time);
      grid(f->own);
    }
    for (auto v : occ.cells_)
      h.addi(v);
    h.addd(recalc.toSec()).add(occ.cells_.size());
    return h.h;
  }
};
static void history(mc::Ctx &c, int depth, bool merged)
{
  c.scribble();
  MWorld w(c);
  std::vector<std::shared_ptr<Frame>> f;
  for (int i = 0; i < 3; ++i)
    f.push_back(std::make_shared<Frame>(frame(i)));
  if (c.flip("order of time is not the order of arrival")) {
    w.add(f[0], 20.5, false);
    w.add(f[1], 10.25, true);
    w.compare("after the first frames");
  } else if (c.flip("one frame")) {
    w.add(f[0], 3.0, false);
    w.compare("after the first frame");
  }
  for (int d = 0; d < depth; ++d) {
    if (merged) {
      mc::Hash h;
      h.add(w.hash());
      for (auto &x : f)
        h.add(w.has(x)).addd(x->own.getOrigin()(0));
      c.merge(h.h, depth - d);
    }
    switch (c.choose(15, "op")) {
    case 0: if (w.has(f[2])) return; w.add(f[2], 15, false); break;
    case 1: if (w.has(f[2])) return; w.add(f[2], 1, true); break;
    case 2: if (w.has(f[1])) return; w.add(f[1], 40.125, true); break;
    case 3: w.remove(f[0]); break;
    case 4: w.remove(f[2]); break;
    case 5: w.update(f[1], V3(1, 0.3, -0.4)); break;
    case 6: w.update(f[0], V3(-0.3, 0.1, 0.9)); break;
    case 7: w.update(f[2], V3(0.2, 0.9, 3.1)); break;
    case 8: if (w.has(f[0]) && w.has(f[1])) w.combine(f[0], f[1]); else return; break;
    case 9: if (w.has(f[2]) && w.has(f[1])) w.combine(f[2], f[1]); else return; break;
    case 10: w.combine(f[1], f[2]); break;
    case 11: w.recalculate(5 + d); break;
    case 12: w.recalculate(100.5); break;
    case 13: {  // the owner of a frame moves it, the map follows with the next calculation
      c.say("frame moved by its owner");
      f[0]->real->setOrigin(V3(0.4, 0.4, 0.4));
      f[0]->own.setOrigin(V3(0.4, 0.4, 0.4));
      break;
    }
    case 14: {
      auto g = std::make_shared<Frame>(frame(3));
      w.add(g, 12.5 + d, false);
      break;
    }
    }
    w.compare("after the operation");
    c.state(w.hash());
  }
  w.recalculate(77);
  w.compare("after the last calculation");
  c.state(w.hash());
}
MC_BODY(histories)
{
  history(c, c.thorough() ? 4 : 3, false);
}
MC_BODY(merged_histories)
{
  history(c, c.thorough() ? 6 : 4, true);
}
// frames by way of their holders
MC_BODY(poses)
{
  static const std::vector<double> xy = {0, 0.5, -3.25, 1e4};
  V3 p(c.pick(xy, "x"), c.pick(xy, "y"), 0);
  for (double a : angle_set(c.thorough() ? 24 : 12, 2, true)) {
    p(2) = a;
    auto m = slamuk::EigenToPoseMsg(p);
    c.check(m.position.x == p(0) && m.position.y == p(1) && m.position.z == 0, "position");
    auto &q = m.orientation;
    c.check(std::fabs(q.x) < 1e-15 && std::fabs(q.y) < 1e-15, "tilted by (%g,%g)", q.x, q.y);
    c.check(std::fabs(q.z * q.z + q.w * q.w - 1) < 1e-12, "not a rotation");
    double t = 2 * std::atan2(q.z, q.w);
    c.check(std::fabs(std::remainder(t - a, 2 * M_PI)) < 1e-6 * std::max(1.0, std::fabs(a)) * 1e-3, "heading %g became %g", a, t);
    c.state(mc::mix((uint64_t)llround(p(0) * 100 + p(1)), (uint64_t)llround(a * 1e6)));
  }
}
