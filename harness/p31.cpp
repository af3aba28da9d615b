// Parallel parts: no unsynchronised sharing, same result for every order of the
// members and every size of the team.
#include "race.h"
#include "reg_world.h"
#include <ndt_gslam/registration/correlative_estimation2d.h>
#include <ndt_gslam/registration/d2d_ndt2d.h>
#include <ndt_gslam/registration/ndt2d.h>
typedef pcl::PointXYZ Pt;
namespace ndt_reg = pcl::ndt_reg;
typedef ndt_reg::ScoreAndDerivatives<3, double> Score;

class D2D : public pcl::D2DNormalDistributionsTransform2D<Pt, Pt>
{
public:
  typedef pcl::D2DNormalDistributionsTransform2D<Pt, Pt> Base;
  Score score(double cell, const NGrid &s, const V3 &t, const NGrid &g, bool h)
  {
    return Base::calcScore(ndt_reg::FittingParams(0.55, 1 / cell), s, t, g, h);
  }
};
static NGrid::Ptr gridOf(const Cloud &c, double cell)
{
  NGrid::Ptr g(new NGrid());
  g->setCellSize((float)cell);
  g->initializeSimple(c);
  return g;
}
// Decides who goes on: the first decisions of every region one by one, the same
// ones for each region of an execution.
struct Schedule {
  std::vector<int> digits;
  int granted = 0, at = 0;
  Schedule(mc::Ctx &c, int members, int decisions, bool fewer)
  {
    granted = fewer ? 1 + c.choose(members, "members granted") : members;
    for (int i = 0; i < decisions && granted > 1; ++i)
      digits.push_back(c.choose(granted, "who goes on"));
    c.say("%d members asked for, %d granted", members, granted);
  }
  void on()
  {
    race::start(
        [this](int n) {
          int i = at++;
          return i < (int)digits.size() ? digits[i] % n : 0;
        },
        [this](int n) {
          at = 0;
          return std::min(n, granted);
        });
  }
};
static void off(mc::Ctx &c, unsigned long &regions)
{
  race::Report r = race::stop();
  c.step();
  c.check(r.conflict.empty(), "%s", r.conflict.c_str());
  regions = r.regions;
}

MC_BODY(score)
{
  int rs = c.choose(ROOMS, "source"), rt = c.flip("target") ? (rs + 1) % ROOMS : rs;
  static const V3 poses[] = {V3(0.1, -0.05, 0.1), V3(-0.3, 0.25, 0.3), V3(0.05, 0.02, 1.2), V3(40, 0, 0.1)};
  V3 pose = poses[c.choose(c.thorough() ? 4 : 2, "transformation")];
  double cell = c.flip("cell size") ? 0.5 : 0.25;
  bool hess = !c.flip("without second derivatives");
  int members = 2 + c.choose(c.thorough() ? 3 : 2, "members");
  Schedule s(c, members, c.thorough() ? 5 : 4, true);
  auto gs = gridOf(seen(room(rs), Rigid(V3(0.13, -0.07, 0.21))), cell), gt = gridOf(room(rt), cell);
  D2D one, many;
  one.enableMultithreading(1);
  many.enableMultithreading(members);
  Score a = one.score(cell, *gs, pose, *gt, hess);
  c.scribble();
  s.on();
  Score b = many.score(cell, *gs, pose, *gt, hess);
  unsigned long n;
  off(c, n);
  double v = 1 + std::fabs(a.value_), k = 1 + a.hessian_.norm();
  c.check(std::fabs(a.value_ - b.value_) < 1e-9 * v, "score is %.12g by one member, %.12g by %d", a.value_, b.value_, members);
  c.check((a.gradient_ - b.gradient_).norm() < 1e-9 * k && (!hess || (a.hessian_ - b.hessian_).norm() < 1e-9 * k), "derivatives depend on the members");
  mc::Hash h;
  h.addd(a.value_).add(s.granted).add(n);
  c.state(h);
}
MC_BODY(align)
{
  int r = c.choose(c.thorough() ? ROOMS : 2, "room");
  static const V3 offs[] = {V3(0.1, -0.1, 0.1), V3(-0.2, 0.1, -0.15), V3(20, 20, 0)};
  V3 off_ = offs[c.choose(3, "error of the guess")];
  bool grids = c.flip("as grids");
  int members = 2 + c.choose(c.thorough() ? 3 : 2, "members");
  Schedule s(c, members, c.thorough() ? 4 : 3, c.thorough());
  Cloud T = room(r), S = seen(T, Rigid(V3(0.2, -0.1, 0.15))), o1, o2;
  Rigid g = Rigid(V3(0.2, -0.1, 0.15)) * Rigid(off_);
  NGrid::ConstPtr gs = gridOf(S, 0.25), gt = gridOf(T, 0.25);
  D2D one, many;
  for (D2D *d : {&one, &many}) {
    d->setNumLayers(3);
    if (grids) {
      d->setInputTarget(gt);
      d->setInputSource(gs);
    } else {
      d->setInputTarget(Cloud::ConstPtr(T.makeShared()));
      d->setInputSource(Cloud::ConstPtr(S.makeShared()));
    }
  }
  one.enableMultithreading(1);
  many.enableMultithreading(members);
  one.align(o1, mat4(g));
  c.scribble();
  s.on();
  many.align(o2, mat4(g));
  unsigned long n;
  off(c, n);
  c.check(one.hasConverged() == many.hasConverged() && (one.getFinalTransformation() - many.getFinalTransformation()).norm() < 1e-4, "result depends on the members");
  c.check(one.getFinalNumIteration() == many.getFinalNumIteration(), "number of iterations depends on the members");
  mc::Hash h;
  h.addd(many.getFinalTransformation()(0, 3)).add(s.granted).add(n);
  c.state(h);
}
class Search : public pcl::CorrelativeEstimation<Pt, Pt>
{
};
MC_BODY(search)
{
  int r = c.choose(ROOMS, "room");
  static const V3 offs[] = {V3(0.3, -0.2, 0.2), V3(-0.4, 0.3, -0.3)};
  V3 off_ = offs[c.choose(2, "error of the guess")];
  double turn = c.flip("rotations") ? 0.3 : 0.5;  // 3 or 5 rotations
  int members = 2 + c.choose(c.thorough() ? 4 : 2, "members");
  Schedule s(c, members, c.thorough() ? 5 : 4, true);
  Cloud T = room(r), S0 = seen(T, Rigid(V3(0.2, -0.1, 0.15))), S, o1, o2;
  for (size_t i = 0; i < S0.size(); i += 9)
    S.push_back(S0[i]);
  Rigid g = Rigid(V3(0.2, -0.1, 0.15)) * Rigid(off_);
  Search one, many;
  for (Search *d : {&one, &many}) {
    d->setCoarseStep(0.5f);
    d->setTranslationRange(0.5f);
    d->setRotationRange((float)turn);
    d->setInputTarget(Cloud::ConstPtr(T.makeShared()));
    d->setInputSource(Cloud::ConstPtr(S.makeShared()));
  }
  one.enableMultithreading(1);
  many.enableMultithreading(members);
  one.align(o1, mat4(g));
  c.scribble();
  s.on();
  many.align(o2, mat4(g));
  unsigned long n;
  off(c, n);
  // equally good candidates may take turns
  pcl::ml_corr::LookUpTable<Pt> t;
  t.initGrid(T, 0.5f, 0.5f);
  auto score = [&](const Eigen::Matrix4f &F) {
    Rigid d = rigid4(F) * g.inverse();
    Cloud m, q;
    pcl::transformPointCloud(S, m, mat4(g));
    pcl::ml_corr::rotatePointCloud(m, q, (float)d.a);
    auto idx = t.toIndexes(q), out = idx;
    t.transformIndexes(idx, out, (float)(std::round(d.t(0) * 2) / 2), (float)(std::round(d.t(1) * 2) / 2));
    return t.getScore(out);
  };
  double a = score(one.getFinalTransformation()), b = score(many.getFinalTransformation());
  c.check(one.hasConverged() && many.hasConverged(), "no result");
  c.check(std::fabs(a - b) < 0.02 * (1 + a), "the candidate found by one member scores %g, that of %d members %g", a, members, b);
  mc::Hash h;
  h.addd(a).add(s.granted).add(n);
  c.state(h);
}
