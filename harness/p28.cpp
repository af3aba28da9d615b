// Point-to-distribution registration.
#include "omp_team.h"
#include "reg_world.h"
#include <ndt_gslam/registration/ndt2d.h>
namespace ndt_reg = pcl::ndt_reg;
typedef pcl::PointXYZ Pt;
typedef ndt_reg::ScoreAndDerivatives<3, double> Score;

static Jet refScore(const Cloud &src, const std::vector<const NCell *> &tgt, const V3 &pose, double d1, double d2half)
{
  Jet sum;
  JPose T(pose);
  Rigid P(pose);
  for (auto &p : src.points) {
    V3 q(p.x, p.y, 0);
    JVec m = T * q;
    for (auto *t : nearest(tgt, P * V2(q.head(2)), 4)) {
      Jet x = m.v[0] - Jet(t->getMean()(0)), y = m.v[1] - Jet(t->getMean()(1));
      Eigen::Matrix3d I = t->getCov().inverse();
      sum = sum + Jet(-d1) * jexp(Jet(-d2half) * (Jet(I(0, 0)) * x * x + Jet(2 * I(0, 1)) * x * y + Jet(I(1, 1)) * y * y));
    }
  }
  return sum;
}
class Probe : public pcl::NormalDistributionsTransform2DEx<Pt, Pt>
{
public:
  typedef pcl::NormalDistributionsTransform2DEx<Pt, Pt> Base;
  struct Step {
    V3 to;
    double probability;
  };
  struct Layer {
    double cell, d1, d2half;
    V3 from;
    std::vector<Step> steps;
    std::vector<Score> at;  // score where each step starts
    bool ok;
    Rigid result;
  };
  std::vector<Layer> trace;
  bool shown = true;
  Score score(double outlier, double cell, const Cloud &s, const V3 &t, const NGrid &g)
  {
    return Base::calcScore(g, s, t, ndt_reg::FittingParams(outlier, 1 / cell));
  }
  Probe()
  {
    this->update_visualizer_ = [this](const Cloud &cur, const std::vector<int> &, const Cloud &, const std::vector<int> &) {
      Rigid r = rigid4(this->transformation_);
      trace.back().steps.push_back({r.vec(), this->trans_probability_});
      for (size_t i = 0; i < cur.size() && shown; ++i)
        shown = (r * V2((*this->input_)[i].x, (*this->input_)[i].y) - V2(cur[i].x, cur[i].y)).norm() < 1e-4;
      shown = shown && cur.size() == this->input_->size();
    };
  }

protected:
  bool computeSingleGrid(Cloud &output, const NGrid &g, const Eigen::Matrix4f &guess, const ndt_reg::FittingParams &param) override
  {
    V3 from = rigid4(guess).vec();
    trace.push_back({g.getCellSize(), param.gauss_d1_, param.gauss_d2__half_, from, {}, {}, false, Rigid()});
    bool ok = Base::computeSingleGrid(output, g, guess, param);
    trace.back().ok = ok;
    trace.back().result = rigid4(this->transformation_);
    for (size_t i = 0; i <= trace.back().steps.size(); ++i)
      trace.back().at.push_back(Base::calcScore(g, *this->input_, i ? trace.back().steps[i - 1].to : from, param));
    return ok;
  }
};
static NGrid::Ptr gridOf(const Cloud &c, double cell)
{
  NGrid::Ptr g(new NGrid());
  g->setCellSize((float)cell);
  g->initializeSimple(c);
  return g;
}
static const std::vector<V3> &poses(bool thorough)
{
  static std::vector<V3> v;
  if (v.empty()) {
    v = {V3(0, 0, 0), V3(0.1, 0, 0), V3(0, -0.15, 0), V3(0, 0, 0.1), V3(0.2, -0.1, -0.15), V3(-0.3, 0.25, 0.3), V3(0.05, 0.02, 1.2), V3(-0.4, 0.6, 3.1), V3(0.3, 0.3, -2), V3(40, 0, 0.1), V3(0, 0, 5e-5), V3(0.02, 0, 2e-4)};
    if (thorough)
      for (double x : {-0.25, 0.0, 0.25})
        for (double y : {-0.25, 0.0, 0.25})
          for (double a : {-0.4, -0.05, 0.05, 0.4, 1.5707963})
            v.push_back(V3(x, y, a));
  }
  return v;
}

MC_BODY(score)
{
  int rs = c.choose(ROOMS + 1, "source"), rt = c.choose(3, "target") ? rs : (rs + 1) % ROOMS;
  const V3 &pose = c.pick(poses(c.thorough()), "transformation");
  static const double cells[] = {0.25, 0.5, 1};
  double cell = cells[c.choose(3, "cell size")], outlier = c.flip("outlier ratio") ? 0.3 : 0.55;
  Cloud S = rs < ROOMS ? seen(room(rs), Rigid(V3(0.13, -0.07, 0.21))) : Cloud(), T = rt < ROOMS ? room(rt) : Cloud();
  if (c.flip("few points")) {
    Cloud F;
    for (size_t i = 0; i < S.size(); i += 11)
      F.push_back(S[i]);
    S = F;
  }
  auto gt = gridOf(T, cell);
  std::vector<const NCell *> lt;
  for (auto *k : gt->getGaussianCells())
    lt.push_back(k);
  c.say("%zu points, %zu target distributions, cell %g, pose (%g,%g,%g)", S.size(), lt.size(), cell, pose(0), pose(1), pose(2));
  Probe p;
  c.scribble();
  Score full = p.score(outlier, cell, S, pose, *gt);
  c.step();
  Jet e;
  ndt_reg::FittingParams fit(outlier, 1 / cell);
  try {
    e = refScore(S, lt, pose, fit.gauss_d1_, fit.gauss_d2__half_);
  } catch (const Unsure &) {
    c.undecided();
    return;
  }
  // points are moved in single precision, angles below 1e-4 are taken as zero
  double small = std::fabs(pose(2)) < 1e-4 && pose(2) != 0 ? 1e-3 : 0;
  double H = 1e-6, G;
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < 3; ++k)
      H = std::max(H, std::fabs(e.h[i][k]));
  G = std::sqrt(H * (1 + e.v));
  double tol = 2e-4 + small;
  if (pose.norm() > 10)
    tol = 1e-2;
  c.near(full.value_, e.v, 0.1 * tol * G + 1e-6, "score");
  for (int i = 0; i < 3; ++i) {
    c.check(std::fabs(full.gradient_(i) - e.g[i]) < tol * (G + 0.1 * H), "derivative %d of the score is %.9g, expected %.9g", i, full.gradient_(i), e.g[i]);
    for (int k = 0; k < 3; ++k)
      c.check(std::fabs(full.hessian_(i, k) - e.h[i][k]) < tol * (1 + H), "second derivative (%d,%d) of the score is %.9g, expected %.9g", i, k, full.hessian_(i, k), e.h[i][k]);
  }
  mc::Hash h;
  h.addd(full.value_).addd(full.gradient_(0)).addd(full.gradient_(1)).addd(full.gradient_(2));
  c.state(h);
}

// --------------------------------------------------------------- align
struct Setup {
  double cell = 0.25, step = 0.22, eps = 0.1, outlier = 0.3;
  int layers = 4, iterations = 35;
};
static void apply(Probe &p, const Setup &s)
{
  p.setNumLayers(s.layers);
  p.setCellSize((float)s.cell);
  p.setStepSize(s.step);
  p.setOulierRatio(s.outlier);
  p.setTransformationEpsilon(s.eps);
  p.setMaximumIterations(s.iterations);
}
static bool sameCloud(const Cloud &in, const Cloud &out, const Eigen::Matrix4f &T)
{
  if (in.size() != out.size())
    return false;
  for (size_t i = 0; i < in.size(); ++i) {
    Eigen::Vector4f q = T * Eigen::Vector4f(in[i].x, in[i].y, in[i].z, 1);
    if (std::fabs(q(0) - out[i].x) > 1e-4 || std::fabs(q(1) - out[i].y) > 1e-4 || std::fabs(q(2) - out[i].z) > 1e-4)
      return false;
  }
  return true;
}
static Rigid judge(mc::Ctx &c, Probe &p, const Setup &s, const Cloud &input, const Cloud &out, const Rigid &guess)
{
  Eigen::Matrix4f F = p.getFinalTransformation();
  Rigid fin = rigid4(F);
  c.check(p.getCellSize() == (float)s.cell && (int)p.getNumLayers() == s.layers && p.getStepSize() == s.step && p.getOulierRatio() == s.outlier, "settings are not reported as they were set");
  c.check(p.shown, "cloud shown during the alignment is not the input moved by the current transformation");
  if (!p.hasConverged()) {
    c.check(!p.trace.empty() && !p.trace.back().ok && p.trace.back().at.back().gradient_.norm() < 1e-9, "gave up although the score has a slope");
    c.check(p.getInformMatrix().isIdentity() && p.getCovariance().isIdentity(), "information of a failed alignment is not the identity");
    return fin;
  }
  c.check((F - mat4(fin)).norm() < 1e-5, "result is not a rigid motion in the plane");
  c.check(sameCloud(input, out, F), "output is not the input moved by the result");
  c.check((int)p.trace.size() == s.layers, "%zu layers used, expected %d", p.trace.size(), s.layers);
  V3 at = guess.vec();
  for (int l = 0; l < s.layers; ++l) {
    auto &y = p.trace[l];
    double size = (double)(float)s.cell * (1 << (s.layers - 1 - l));
    ndt_reg::FittingParams fit(s.outlier, 1 / size);
    c.check(std::fabs(y.cell - size) < 1e-6, "layer %d has cells of %g, expected %g", l, y.cell, size);
    c.check(std::fabs(y.d1 - fit.gauss_d1_) < 1e-6 && std::fabs(y.d2half - fit.gauss_d2__half_) < 1e-6, "layer of cell size %g uses the constants of another one", size);
    c.check((y.from.head(2) - at.head(2)).norm() < 1e-5 && adiff(y.from(2), at(2)) < 1e-5, "layer %d starts from (%g,%g,%g), expected (%g,%g,%g)", l, y.from(0), y.from(1), y.from(2), at(0), at(1), at(2));
    int n = (int)y.steps.size();
    c.check(y.ok && n > 0, "layer %d made no step", l);
    for (int i = 0; i < n; ++i) {
      V3 d = y.steps[i].to - at;
      d(2) = (double)rnorm(d(2));
      double g = y.at[i].gradient_.norm(), len = d.norm();
      c.check(d.dot(y.at[i].gradient_) > -1e-4 * g, "layer %d iteration %d steps downhill: step (%g,%g,%g), slope (%g,%g,%g)", l, i, d(0), d(1), d(2), y.at[i].gradient_(0), y.at[i].gradient_(1), y.at[i].gradient_(2));
      c.check(len <= std::max(s.step, s.eps / 2) + 1e-5 && len >= s.eps / 2 - 1e-5, "layer %d iteration %d steps by %g, limits %g .. %g", l, i, len, s.eps / 2, s.step);
      Eigen::JacobiSVD<Eigen::Matrix3d> sv(y.at[i].hessian_, Eigen::ComputeFullU | Eigen::ComputeFullV);
      if (sv.singularValues()(2) > 1e-3 * sv.singularValues()(0)) {
        V3 nd = sv.solve(-y.at[i].gradient_);
        // the score is known in single precision only
        if (nd.norm() > 1e-3 && std::fabs(nd.normalized().dot(y.at[i].gradient_)) > 1e-2 * g) {
          if (nd.dot(y.at[i].gradient_) < 0)
            nd = -nd;
          c.check((nd.normalized() - d.normalized()).norm() < 2e-2, "layer %d iteration %d: step (%g,%g,%g) is not along (%g,%g,%g)", l, i, d(0), d(1), d(2), nd(0), nd(1), nd(2));
        }
      }
      c.check(std::fabs(y.steps[i].probability - y.at[i].value_ / input.size()) < 1e-3 * (1 + y.at[i].value_ / input.size()), "transformation probability %g, expected %g", y.steps[i].probability, y.at[i].value_ / input.size());
      if (i + 1 == n)
        c.check(len < s.eps + 1e-5 || n >= s.iterations, "layer %d stopped after %d iterations with a step of %g", l, n, len);
      else if (i > 0)
        c.check(len >= s.eps - 1e-5, "layer %d went on after a step of %g", l, len);
      c.check(i < s.iterations + 2, "layer %d: more than %d iterations", l, s.iterations);
      at = y.steps[i].to;
    }
    if (l == s.layers - 1) {
      c.check(p.getFinalNumIteration() == n, "%d iterations reported, %d made", p.getFinalNumIteration(), n);
      auto &H = y.at[n - 1].hessian_;
      c.check((p.getInformMatrix() + H).norm() < 1e-2 * H.norm(), "information is not the curvature of the score");
      Eigen::JacobiSVD<Eigen::Matrix3d> sv(H);
      if (sv.singularValues()(2) > 1e-6 * sv.singularValues()(0))
        c.check((p.getCovariance() * p.getInformMatrix() - Eigen::Matrix3d::Identity()).norm() < 1e-6, "covariance is not the inverse of the information");
    }
  }
  c.check((fin.t - at.head(2)).norm() < 1e-5 && adiff(fin.a, at(2)) < 1e-5, "result is not where the last layer ended");
  return fin;
}
static const std::vector<V3> &offsets(bool thorough)
{
  static std::vector<V3> v;
  if (v.empty()) {
    std::vector<double> xy = thorough ? std::vector<double>{-0.3, -0.2, -0.1, 0, 0.1, 0.2, 0.3} : std::vector<double>{-0.2, 0, 0.2};
    std::vector<double> a = thorough ? std::vector<double>{-0.2, -0.1, 0, 0.1, 0.2} : std::vector<double>{-0.15, 0, 0.15};
    for (double x : xy)
      for (double y : xy)
        for (double t : a)
          v.push_back(V3(x, y, t));
  }
  return v;
}
MC_BODY(recover)
{
  int r = c.choose(ROOMS, "room");
  static const std::vector<V3> stands = {V3(0, 0, 0), V3(0.35, -0.2, 0.4), V3(-0.3, 0.4, 3.0), V3(0.2, 0.1, -1.6)};
  V3 at = stands[c.choose(c.thorough() ? 4 : 2, "pose of the sensor") * (c.thorough() ? 1 : 2)];
  V3 off = c.pick(offsets(c.thorough()), "error of the guess");
  Setup s;
  static const int layers[] = {4, 3, 2, 1};
  s.layers = layers[c.choose(c.thorough() ? 4 : 3, "layers")];
  s.cell = c.flip("cell size") ? 0.5 : 0.25;
  switch (c.choose(c.thorough() ? 3 : 2, "limits")) {
  case 1:
    s.step = 0.1, s.eps = 0.04;
    break;
  case 2:
    s.step = 0.05, s.iterations = 3;
    break;
  }
  Cloud T = room(r), S = seen(T, Rigid(at)), out;
  Rigid guess = Rigid(at) * Rigid(off);
  Probe p;
  apply(p, s);
  p.setInputTarget(T.makeShared());
  p.setInputSource(S.makeShared());
  c.say("room %d seen from (%g,%g,%g), guess (%g,%g,%g), %d layers of %g", r, at(0), at(1), at(2), guess.t(0), guess.t(1), guess.a, s.layers, s.cell);
  c.scribble();
  p.align(out, mat4(guess));
  c.step();
  Rigid fin = judge(c, p, s, S, out, guess);
  Rigid err = Rigid(at).inverse() * fin;
  double e = err.t.norm(), ea = adiff(fin.a, at(2));
  // a scan of the same place is found again
  if (s.layers > 1 && s.iterations > 3) {
    c.check(p.hasConverged(), "no result although the scans overlap");
    c.check(e < 0.2 && ea < 0.12, "registered %g m and %g rad away from the true motion", e, ea);
  }
  mc::Hash h;
  h.addd(fin.t(0)).addd(fin.t(1)).addd(fin.a);
  c.state(h);
}

// every order of some or all of the settings, on a new object and after others
MC_BODY(settings)
{
  Setup s;
  s.step = 0.05;  // as it comes
  Probe p;
  if (c.flip("other settings before")) {
    s.layers = 3, s.cell = 0.3, s.step = 0.2, s.outlier = 0.7;
    apply(p, s);
  }
  int rounds = c.thorough() ? 2 : 1;
  for (int round = 0; round < rounds; ++round) {
    std::vector<int> left = {0, 1, 2, 3};
    while (!left.empty()) {
      int i = c.choose((int)left.size() + 1, "next setting");
      if (i == (int)left.size())
        break;
      int k = left[i];
      left.erase(left.begin() + i);
      switch (k) {
      case 0:
        p.setNumLayers(s.layers = round ? 4 : 2);
        break;
      case 1:
        p.setCellSize((float)(s.cell = round ? 0.35 : 0.5));
        break;
      case 2:
        p.setStepSize(s.step = round ? 0.15 : 0.1);
        break;
      case 3:
        p.setOulierRatio(s.outlier = round ? 0.2 : 0.45);
        break;
      }
      c.step();
    }
    Cloud T = room(0), S = seen(T, Rigid(V3(0.1, 0.05, 0.1))), out;
    p.setInputTarget(T.makeShared());
    p.setInputSource(S.makeShared());
    Rigid guess;
    c.scribble();
    p.trace.clear();
    p.align(out, mat4(guess));
    c.step();
    Rigid fin = judge(c, p, s, S, out, guess);
    c.check(p.hasConverged(), "no result although the scans overlap");
    c.state(mc::Hash().addd(fin.t(0)).addd(fin.t(1)).addd(fin.a).add(round).h);
  }
}

// ------------------------------------------------------------- histories
// the same settings and inputs, in the same order, on a new object
struct Op {
  int kind, arg;
};
static void perform(Probe &p, Setup &s, const Op &o, Cloud &src, bool &hs, bool &ht)
{
  static const V3 at(0.2, -0.1, 0.15);
  static const int rooms[] = {0, 4, 3};
  switch (o.kind) {
  case 0:
    {
      Cloud all = seen(room(rooms[o.arg % 3]), Rigid(at));
      src.clear();
      for (size_t i = 0; i < all.size(); i += 6)
        src.push_back(all[i]);
    }
    p.setInputSource(src.makeShared());
    hs = true;
    break;
  case 1:
    if (o.arg >= 3)
      p.setInputTarget(NGrid::ConstPtr(gridOf(room(rooms[o.arg % 3]), s.cell)));
    else
      p.setInputTarget(room(rooms[o.arg]).makeShared());
    ht = true;
    break;
  case 2:
    s.layers = o.arg ? 2 : 3;
    p.setNumLayers(s.layers);
    break;
  case 3:
    s.cell = o.arg ? 0.5 : 0.25;
    p.setCellSize((float)s.cell);
    break;
  case 4:
    s.step = o.arg ? 0.1 : 0.22;
    p.setStepSize(s.step);
    break;
  case 5:
    s.outlier = o.arg ? 0.3 : 0.55;
    p.setOulierRatio(s.outlier);
    break;
  case 6:
    s.iterations = o.arg ? 2 : 35;
    p.setMaximumIterations(s.iterations);
    break;
  }
}
MC_BODY_AT(histories, 4)
{
  Probe p;
  Setup s;
  Cloud src;
  bool hs = false, ht = false;
  std::vector<Op> ops;
  int depth = c.thorough() ? 6 : 5;
  static const V3 guesses[] = {V3(0, 0, 0), V3(0.3, -0.2, 0.1), V3(60, 60, 0)};
  for (int i = 0; i < depth; ++i) {
    // an input and a reference first: the rest is of no interest without them
    int k = i < 2 ? (i == 0 ? c.choose(2, "operation") : 1 - ops[0].kind) : i == depth - 1 ? 7 : c.choose(8, "operation");
    static const int first[] = {0, 1, 4}, later[] = {2, 5};
    int a;
    if (i < 2)
      a = first[c.choose(3, "argument")];
    else if (k < 2)
      a = later[c.choose(2, "argument")];
    else if (k < 7) {
      a = 1;  // the other value than the last
      for (auto &o : ops)
        if (o.kind == k)
          a = !o.arg;
    } else
      a = c.choose(3, "argument");
    if (k < 7) {
      ops.push_back({k, a});
      c.say("operation %d argument %d", k, a);
      perform(p, s, ops.back(), src, hs, ht);
      c.step();
      continue;
    }
    Rigid g(guesses[a]);
    c.say("align from (%g,%g,%g)", guesses[a](0), guesses[a](1), guesses[a](2));
    Cloud out, ref;
    p.trace.clear();
    c.scribble();
    p.align(out, mat4(g));
    c.step();
    if (!c.fresh())
      continue;
    // cells of the inputs may be larger than the finest layer
    Rigid fin = rigid4(p.getFinalTransformation());
    Probe q;
    Setup t;
    Cloud sq;
    bool a1 = false, a2 = false;
    for (auto &o : ops)
      perform(q, t, o, sq, a1, a2);
    c.scribble();
    q.align(ref, mat4(g));
    c.check(p.hasConverged() == q.hasConverged(), "after %zu operations: converged %d, a new object says %d", ops.size(), (int)p.hasConverged(), (int)q.hasConverged());
    c.check((p.getFinalTransformation() - q.getFinalTransformation()).norm() < 1e-5, "after earlier alignments the result is (%g,%g,%g), a new object finds (%g,%g,%g)", fin.t(0), fin.t(1), fin.a, rigid4(q.getFinalTransformation()).t(0), rigid4(q.getFinalTransformation()).t(1), rigid4(q.getFinalTransformation()).a);
    c.check((p.getInformMatrix() - q.getInformMatrix()).norm() < 1e-6 * (1 + q.getInformMatrix().norm()), "information depends on earlier alignments");
    c.check(p.trace.size() == q.trace.size(), "number of layers depends on earlier alignments");
    for (size_t l = 0; l < p.trace.size(); ++l)
      c.check(p.trace[l].steps.size() == q.trace[l].steps.size(), "number of steps depends on earlier alignments");
    if (p.hasConverged())
      c.check(sameCloud(src, out, p.getFinalTransformation()), "output is not the input moved by the result");
    mc::Hash h;
    h.addd(fin.t(0)).addd(fin.t(1)).addd(fin.a).add(ops.size());
    c.state(h);
  }
}
