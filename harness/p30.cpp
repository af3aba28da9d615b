// Robust registration: acceptance, fall back to the exhaustive search, reuse.
#include "omp_team.h"
#include "reg_world.h"
#include <ndt_gslam/ndt_grid2d_holder.h>
#include <ndt_gslam/registration/d2d_ndt2d_robust.h>
#include <ndt_gslam/slam_optimizer/ndt_scanmatcher.h>
typedef pcl::PointXYZ Pt;
typedef pcl::D2DNormalDistributionsTransform2DRobust<Pt, Pt> Robust;
typedef pcl::D2DNormalDistributionsTransform2D<Pt, Pt> D2D;
typedef pcl::CorrelativeEstimation<Pt, Pt> Search;
typedef slamuk::NDTGrid2DHolder<NCell, Pt> Holder;

struct Setup {
  double cell = 0.25, seen_in = 0;  // cells of the registration; of the target frame if it differs
  double step = 0.22, outlier = 0.55, range = 1.5, turn = 0.8;
  float limit = 0.4f;
  int layers = 4, threads = 2;
  double frame() const
  {
    return seen_in > 0 ? seen_in : cell;
  }
};
static void apply(Robust &p, const Setup &s)
{
  p.setCellSize((float)s.cell);
  p.setNumLayers(s.layers);
  p.setStepSize(s.step);
  p.setOulierRatio(s.outlier);
  p.setRejectionLimit(s.limit);
  p.setTranslationRange((float)s.range);
  p.setRotationRange((float)s.turn);
  p.enableMultithreading(s.threads);
}
struct Input {
  Cloud points;          // what is registered
  NGrid::ConstPtr grid;  // given as a grid
};
static NGrid::Ptr gridOf(const Cloud &c, double cell)
{
  NGrid::Ptr g(new NGrid());
  g->setCellSize((float)cell);
  g->initializeSimple(c);
  return g;
}
static Input input(const Cloud &c, bool as_grid, double cell)
{
  Input i;
  if (as_grid) {
    i.grid = gridOf(c, cell);
    i.points = *i.grid->getMeans();
  } else
    i.points = c;
  return i;
}
template <typename R>
static void give(R &r, const Input &src, const Input &tgt)
{
  if (tgt.grid)
    r.setInputTarget(tgt.grid);
  else
    r.setInputTarget(Cloud::ConstPtr(tgt.points.makeShared()));
  if (src.grid)
    r.setInputSource(src.grid);
  else
    r.setInputSource(Cloud::ConstPtr(src.points.makeShared()));
}
struct Judge {
  bool sure = true, ok = false;
  bool conv1 = false, conv2 = false, tried2 = false;
  double s1 = 0, s2 = 0;
  Eigen::Matrix4f T1, T2;
};
// how much of the moved source falls on the target
static double overlap(const Input &src, const Input &tgt, const Eigen::Matrix4f &T, double cell)
{
  pcl::ml_corr::LookUpTable<Pt> t;
  t.initGrid(tgt.points, (float)cell, 0.5f);
  Cloud o;
  pcl::transformPointCloud(src.points, o, T);
  return t.getScore(o);
}
static Judge candidates(const Setup &s, const Input &src, const Input &tgt, const Eigen::Matrix4f &guess)
{
  Judge j;
  auto fine = [&](const Eigen::Matrix4f &g, bool &conv) {
    D2D d;
    d.setMaximumIterations(10);
    d.setCellSize((float)s.cell);
    d.setNumLayers(s.layers);
    d.setStepSize(s.step);
    d.setOulierRatio(s.outlier);
    d.enableMultithreading(s.threads);
    give(d, src, tgt);
    Cloud o;
    d.align(o, g);
    conv = d.hasConverged();
    return d.getFinalTransformation();
  };
  j.T1 = fine(guess, j.conv1);
  j.s1 = overlap(src, tgt, j.T1, s.frame());
  if (j.conv1 && j.s1 > 0.7)
    return j;
  Search q;
  if (tgt.grid)
    q.setCoarseStep((float)s.frame());
  q.setTranslationRange((float)s.range);
  q.setRotationRange((float)s.turn);
  q.enableMultithreading(s.threads);
  q.setInputTarget(Cloud::ConstPtr(tgt.points.makeShared()));
  q.setInputSource(Cloud::ConstPtr(src.points.makeShared()));
  Cloud o;
  q.align(o, guess);
  j.tried2 = true;
  j.T2 = fine(q.getFinalTransformation(), j.conv2);
  j.s2 = overlap(src, tgt, j.T2, s.frame());
  return j;
}
static bool sameCloud(const Cloud &in, const Cloud &out, const Eigen::Matrix4f &T)
{
  if (in.size() != out.size())
    return false;
  for (size_t i = 0; i < in.size(); ++i) {
    Eigen::Vector4f q = T * Eigen::Vector4f(in[i].x, in[i].y, in[i].z, 1);
    if (std::fabs(q(0) - out[i].x) > 1e-4 || std::fabs(q(1) - out[i].y) > 1e-4 || std::fabs(q(2) - out[i].z) > 1e-4)
      return false;
  }
  return true;
}
static bool close(const Eigen::Matrix4f &a, const Eigen::Matrix4f &b)
{
  return (a - b).norm() < 1e-4;
}
static std::string str(const Eigen::Matrix4f &m)
{
  Rigid r = rigid4(m);
  char b[99];
  snprintf(b, sizeof b, "(%g,%g,%g)", r.t(0), r.t(1), r.a);
  return b;
}
static void verdict(mc::Ctx &c, const Judge &j, double limit, bool conv, const Eigen::Matrix4f &F, double quality, double most = 1)
{
  c.say("first try %s %s overlaps %.4f, second %s %s overlaps %.4f, limit %g: %s %s quality %.4f", j.conv1 ? "ok" : "failed", str(j.T1).c_str(), j.s1, j.tried2 ? (j.conv2 ? "ok" : "failed") : "not needed", j.tried2 ? str(j.T2).c_str() : "", j.s2, limit, conv ? "accepted" : "rejected", str(F).c_str(), quality);
  c.check(quality >= 0 && quality <= most + 1e-6, "quality is %g", quality);
  bool first = close(F, j.T1), second = j.tried2 && close(F, j.T2);
  if (conv) {
    c.check(first || second, "accepted %s is neither of the candidates", str(F).c_str());
    double s = second && std::fabs(quality - j.s2) < 1e-5 ? j.s2 : first ? j.s1 : j.s2;
    c.check(std::fabs(quality - s) < 1e-5, "quality is %g, the accepted motion overlaps %g", quality, s);
    c.check(s >= limit - 1e-6, "accepted with an overlap of %g, the limit is %g", s, limit);
  }
  if (!j.tried2) {  // the first one is good beyond doubt
    if (j.s1 >= limit + 1e-6)
      c.check(conv && first, "a motion that overlaps %g is not accepted", j.s1);
    return;
  }
  if (!j.conv2) {
    c.check(!conv || first, "accepted a motion that did not converge");
    return;
  }
  if (j.s2 >= limit + 1e-6)
    c.check(conv && second, "second try overlaps %g, limit %g, and is not taken", j.s2, limit);
  else if (j.s2 < limit - 1e-6 && j.s1 > 0.6 + 1e-6 && j.s1 >= limit + 1e-6)
    c.check(conv && first, "first try overlaps %g, limit %g, and is not taken", j.s1, limit);
}
static const float limits[] = {0.4f, 0.6f, 0.75f, 0.95f, 0.2f};
static const std::vector<V3> stands = {V3(0, 0, 0), V3(0.35, -0.2, 0.4), V3(-0.3, 0.4, 3.0)};
static const std::vector<V3> offs = {V3(0.1, 0, 0.05), V3(0.7, -0.45, 0.45), V3(-0.9, 0.8, -0.5), V3(0, 0, 0.7), V3(30, 0, 0)};

MC_BODY(verdict)
{
  int r = c.choose(ROOMS, "source room"), t = c.flip("another place") ? (r + 1) % ROOMS : r;
  V3 at = c.pick(stands, "pose of the sensor");
  V3 off = c.pick(offs, "error of the guess");
  Setup s;
  int form = c.choose(4, "input");  // clouds, frames, frames of other cells
  bool grid = form > 0;
  if (form > 1)
    s.seen_in = form == 2 ? 0.5 : 0.2;
  s.limit = limits[c.choose(form > 1 && !c.thorough() ? 2 : 5, "limit")];
  if (c.thorough() && c.flip("cell size"))
    s.cell = 0.5;
  if (c.thorough())
    s.threads = 1 + c.choose(3, "threads");
  Cloud T = room(t), S = seen(room(r), Rigid(at)), out;
  Input src = input(S, grid, s.frame()), tgt = input(T, grid, s.frame());
  Eigen::Matrix4f g = mat4(Rigid(at) * Rigid(off));
  c.say("room %d in room %d from %s%s", r, t, str(g).c_str(), grid ? ", grids" : "");
  Robust p;
  apply(p, s);
  give(p, src, tgt);
  c.check(p.getCellSize() == (float)(grid ? s.frame() : s.cell), "cell size %g, expected %g", p.getCellSize(), grid ? s.frame() : s.cell);
  c.scribble();
  p.align(out, g);
  c.step();
  bool conv = p.hasConverged();
  Eigen::Matrix4f F = p.getFinalTransformation();
  Judge j = candidates(s, src, tgt, g);
  c.step();
  verdict(c, j, s.limit, conv, F, p.getAlignmentQuality(), std::max(1.0, (double)src.points.size() / tgt.points.size()));
  if (conv) {
    c.check(sameCloud(src.points, out, F), "output is not the input moved by the result");
    // a place seen again is found even from a bad guess
    Rigid err = Rigid(at).inverse() * rigid4(F);
    if (r == t && s.limit >= 0.4f && form < 2)
      c.check(err.t.norm() < 0.3 && adiff(err.a, 0) < 0.2, "accepted a motion %g m and %g rad away from the true one", err.t.norm(), err.a);
  }
  if (r == t && (r == 1 || r == 2 || r == 4) && !grid && s.cell == 0.25 && s.limit <= 0.4f && off(0) < 1)
    c.check(conv, "a place that is seen again is not recognised");
  mc::Hash h;
  h.addd(F(0, 3)).addd(F(1, 3)).add(conv);
  c.state(h);
}

MC_BODY(settings)
{
  static const float v[] = {0.5f, 1e-6f, 0.999f, 0, 1, -0.3f, 1.5f, 100, NAN, INFINITY, -INFINITY};
  Setup s;
  s.range = 0.5, s.turn = 0.2;
  Robust p;
  apply(p, s);
  float limit = s.limit;
  for (int i = 0, n = c.thorough() ? 3 : 2; i < n; ++i) {
    float x = v[c.choose(11, "limit")];
    bool threw = false;
    try {
      p.setRejectionLimit(x);
    } catch (const std::invalid_argument &) {
      threw = true;
    }
    bool ok = x > 0 && x < 1;
    c.check(threw == !ok, "limit %g %s", x, threw ? "refused" : "accepted");
    if (ok)
      limit = x;
    c.step();
  }
  c.check(p.getNumLayers() == 4 && p.getCellSize() == 0.25f && p.getStepSize() == s.step, "settings are not reported as they were set");
  p.setOulierRatio(0.3);
  p.setStepSize(0.07);
  p.setNumLayers(2);
  p.setCellSize(0.5f);
  c.check(p.getNumLayers() == 2 && p.getCellSize() == 0.5f && p.getStepSize() == 0.07 && p.getOutlierRatio() == 0.3, "changed settings are not reported as they were set");
  apply(p, [&] { Setup q = s; q.limit = limit; return q; }());
  // a refused limit leaves the one before
  int kind = c.choose(3, "scene");
  Cloud T = room(kind), S = seen(room((kind + 1) % ROOMS), Rigid(V3(0.1, 0, 0.1))), out;
  Input src = input(S, false, 0.25), tgt = input(T, false, 0.25);
  give(p, src, tgt);
  Eigen::Matrix4f g = Eigen::Matrix4f::Identity();
  p.align(out, g);
  Judge j = candidates(s, src, tgt, g);
  verdict(c, j, limit, p.hasConverged(), p.getFinalTransformation(), p.getAlignmentQuality());
  c.state(mc::Hash().addd(limit).add(kind).h);
}

// ------------------------------------------------------------- histories
struct Op {
  int kind, arg;
};
static void perform(Robust &p, Setup &s, const Op &o, Input &src, Input &tgt)
{
  static const V3 at(0.2, -0.1, 0.15);
  static const int rooms[] = {0, 4, 3};
  switch (o.kind) {
  case 0:
    src = input(seen(room(rooms[o.arg % 3]), Rigid(at)), o.arg >= 3, s.cell);
    if (src.grid)
      p.setInputSource(src.grid);
    else
      p.setInputSource(Cloud::ConstPtr(src.points.makeShared()));
    break;
  case 1:
    tgt = input(room(rooms[o.arg % 3]), o.arg >= 3, s.cell);
    if (tgt.grid)
      p.setInputTarget(tgt.grid);
    else
      p.setInputTarget(Cloud::ConstPtr(tgt.points.makeShared()));
    break;
  case 2:
    p.setRejectionLimit(s.limit = o.arg ? 0.75f : 0.4f);
    break;
  case 3:
    s.cell = o.arg ? 0.5 : 0.25;
    p.setCellSize((float)s.cell);
    break;
  case 4:
    s.step = o.arg ? 0.1 : 0.22;
    p.setStepSize(s.step);
    break;
  case 5:
    s.turn = o.arg ? 0.2 : 0.8;
    p.setRotationRange((float)s.turn);
    break;
  case 6:
    s.range = o.arg ? 0.5 : 1;
    p.setTranslationRange((float)s.range);
    break;
  case 7:
    s.layers = o.arg ? 2 : 3;
    p.setNumLayers(s.layers);
    break;
  }
}
MC_BODY_AT(histories, 4)
{
  Robust p;
  Setup s;
  s.range = 1, s.layers = 3;
  apply(p, s);
  Input src, tgt;
  std::vector<Op> ops;
  int depth = c.thorough() ? 6 : 5;
  static const V3 guesses[] = {V3(0, 0, 0), V3(0.8, -0.5, 0.6), V3(60, 60, 0)};
  for (int i = 0; i < depth; ++i) {
    int k = i < 2 ? (i == 0 ? c.choose(2, "operation") : 1 - ops[0].kind) : i == depth - 1 ? 8 : c.choose(9, "operation"), a;
    static const int first[] = {0, 3, 4}, later[] = {1, 5};
    if (i < 2)
      a = first[c.choose(3, "argument")];
    else if (k < 2)
      a = later[c.choose(2, "argument")];
    else if (k < 8) {
      a = 1;
      for (auto &o : ops)
        if (o.kind == k)
          a = !o.arg;
    } else
      a = c.choose(3, "argument");
    if (k < 8) {
      ops.push_back({k, a});
      c.say("operation %d argument %d", k, a);
      perform(p, s, ops.back(), src, tgt);
      c.step();
      continue;
    }
    c.say("align from (%g,%g,%g)", guesses[a](0), guesses[a](1), guesses[a](2));
    Cloud out, ref;
    c.scribble();
    p.align(out, mat4(Rigid(guesses[a])));
    c.step();
    if (!c.fresh())
      continue;
    Robust q;
    Setup t;
    t.range = 1, t.layers = 3;
    apply(q, t);
    Input s2, t2;
    for (auto &o : ops)
      perform(q, t, o, s2, t2);
    c.scribble();
    q.align(ref, mat4(Rigid(guesses[a])));
    c.check(p.hasConverged() == q.hasConverged(), "after %zu operations: accepted %d, a new object says %d", ops.size(), (int)p.hasConverged(), (int)q.hasConverged());
    c.check(close(p.getFinalTransformation(), q.getFinalTransformation()), "after earlier alignments the result is %s, a new object finds %s", str(p.getFinalTransformation()).c_str(), str(q.getFinalTransformation()).c_str());
    c.check(std::fabs(p.getAlignmentQuality() - q.getAlignmentQuality()) < 1e-6, "quality depends on earlier alignments");
    if (p.hasConverged())
      c.check(sameCloud(src.points, out, p.getFinalTransformation()), "output is not the input moved by the result");
    Eigen::Matrix4f F = p.getFinalTransformation();
    mc::Hash h;
    h.addd(F(0, 3)).addd(F(1, 3)).add(ops.size());
    c.state(h);
  }
}
// --------------------------------------------------------- scan matcher
MC_BODY(matcher)
{
  int r = c.choose(ROOMS, "source room"), t = c.flip("another place") ? (r + 1) % ROOMS : r;
  V3 at = c.pick(stands, "pose of the sensor");
  V3 off = c.pick(offs, "error of the guess");
  static const float thresholds[] = {0, 0.3f, 0.8f};  // 0: as it comes
  Setup s;
  s.step = 0.1, s.outlier = 0.55, s.limit = 0.6f, s.turn = 3, s.range = 4;
  slamuk::NdtScanmatcher<Holder> m;
  float th = thresholds[c.choose(3, "score threshold")];
  if (th > 0) {
    m.setScoreThreshold(th);
    s.limit = th;
  }
  bool refused = false;
  try {
    m.setScoreThreshold(1.2f);
  } catch (const std::invalid_argument &) {
    refused = true;
  }
  c.check(refused, "score threshold above 1");
  NGrid::Ptr gs = gridOf(seen(room(r), Rigid(at)), s.cell), gt = gridOf(room(t), s.cell);
  // where the frames are believed to be is of no concern to the matcher
  int where = c.choose(c.thorough() ? 3 : 2, "origins");
  if (where == 1)
    gs->setOrigin(V3(3, -2, 1));
  if (where > 0)
    gt->setOrigin(V3(-7, 0.3, -2));
  Input src, tgt;
  src.grid = gs, src.points = *gs->getMeans();
  tgt.grid = gt, tgt.points = *gt->getMeans();
  Rigid g = Rigid(at) * Rigid(off);
  Eigen::Matrix3d g3 = Eigen::Matrix3d::Identity();
  g3.block<2, 2>(0, 0) = g.rotation();
  g3.block<2, 1>(0, 2) = g.t;
  std::streambuf *keep = std::cout.rdbuf();
  std::ostringstream sink;
  std::cout.rdbuf(sink.rdbuf());
  Holder hs(gs), ht(gt);
  if (c.flip("used before"))
    m.match(ht, hs);
  c.scribble();
  slamuk::MatchResult res = m.match(hs, ht, g3);
  std::cout.rdbuf(keep);
  c.step();
  Judge j = candidates(s, src, tgt, mat4(g));
  c.step();
  c.say("room %d in room %d", r, t);
  Eigen::Matrix4f F = Eigen::Matrix4f::Identity();
  Eigen::Matrix3d X = res.transform_.matrix();
  F.block<2, 2>(0, 0) = X.block<2, 2>(0, 0).cast<float>();
  F.block<2, 1>(0, 3) = X.block<2, 1>(0, 2).cast<float>();
  verdict(c, j, s.limit, res.success_, F, res.score_);
  if (res.success_) {
    Rigid err = Rigid(at).inverse() * rigid4(F);
    // a coarse look at five walls may turn the room around, but not shift it
    if (r == t && s.cell == 0.25 && r == 4)
      c.check(err.t.norm() < 0.3 && adiff(err.a, 0) < 0.2, "accepted a motion %g m and %g rad away from the true one", err.t.norm(), err.a);
    c.check((X.block<2, 2>(0, 0) * X.block<2, 2>(0, 0).transpose() - Eigen::Matrix2d::Identity()).norm() < 1e-5 && X.block<2, 2>(0, 0).determinant() > 0, "result is not a rigid motion");
    Eigen::LLT<Eigen::Matrix3d> llt(res.inform_);
    c.check(res.inform_.allFinite() && (res.inform_ - res.inform_.transpose()).norm() == 0 && llt.info() == Eigen::Success, "information of a match is not symmetric and positive");
  }
  c.check(sameCloud(*gs->getMeans(), src.points, Eigen::Matrix4f::Identity()) && sameCloud(*gt->getMeans(), tgt.points, Eigen::Matrix4f::Identity()), "matching changed a frame");
  mc::Hash h;
  h.addd(F(0, 3)).addd(F(1, 3)).add(res.success_);
  c.state(h);
}
