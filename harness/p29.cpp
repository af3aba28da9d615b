// Lookup table of a target and the exhaustive search over it.
#include "omp_team.h"
#include "reg_world.h"
#include <ndt_gslam/registration/correlative_estimation2d.h>
#include <ndt_gslam/registration/correlative_estimation_tools.h>
using namespace pcl::ml_corr;
typedef pcl::PointXYZ Pt;

struct Table : LookUpTable<Pt> {
  double kernel(int r, int c) const
  {
    return std::abs(r) <= kernel_.halfSize() && std::abs(c) <= kernel_.halfSize() ? kernel_(r, c) : 0;
  }
  int reach() const
  {
    return kernel_.halfSize();
  }
};
// number of the cell counted from the first one; Unsure on a border
static long cellOf(double v)
{
  double f = std::floor(v);
  if (v - f < 1e-4 || f + 1 - v < 1e-4)
    throw Unsure();
  return (long)f;
}
struct RefTable {
  double cs, x0 = 0, y0 = 0, x1 = 0, y1 = 0;  // box around the origin and the target
  size_t points = 0;
  std::map<std::pair<long, long>, double> cell;  // (column, row downwards)
  RefTable(const Cloud &t, double step, const Table &k) : cs((float)step), points(t.size())
  {
    for (auto &p : t.points) {
      x0 = std::min(x0, (double)p.x), x1 = std::max(x1, (double)p.x);
      y0 = std::min(y0, (double)p.y), y1 = std::max(y1, (double)p.y);
    }
    int h = k.reach();
    for (auto &p : t.points) {
      auto at = index(p.x, p.y);
      for (int r = -h; r <= h; ++r)
        for (int c = -h; c <= h; ++c) {
          double &v = cell[{at.first + c, at.second + r}];
          v = std::max(v, k.kernel(r, c));
        }
    }
  }
  std::pair<long, long> index(double x, double y) const
  {
    return {cellOf((x - x0) / cs + 0.5), cellOf((y1 - y) / cs + 0.5)};
  }
  double value(std::pair<long, long> at) const
  {
    auto it = cell.find(at);
    return it == cell.end() ? 0 : it->second;
  }
  // a point counts inside the box only
  double score(double x, double y) const
  {
    double in = std::min(std::min(x - x0, x1 - x), std::min(y - y0, y1 - y));
    if (std::fabs(in) < 1e-5 && !(x == x0 || x == x1 || y == y0 || y == y1))
      throw Unsure();
    return in < 0 ? 0 : value(index(x, y));
  }
};
static Pt pt(double x, double y)
{
  return Pt((float)x, (float)y, 0);
}

MC_BODY(kernel)
{
  static const float res[] = {0.25f, 0.5f, 1, 2, 4}, dev[] = {0.05f, 0.1f, 0.25f, 0.5f, 0.7f, 1, 2, 3, 50};
  float r = res[c.choose(5, "resolution")], d = dev[c.choose(9, "deviation")];
  int occ = c.flip("maximum") ? 50 : 100;
  SmoothingKernel k(r, d, (short)occ);
  c.step();
  double s = std::max(0.5 * r, std::min(10.0 * r, (double)d));
  int h = k.halfSize();
  c.check(k.size() == 2 * h + 1 && std::fabs(h - 2 * s / r) <= 0.501, "kernel of half size %d for deviation %g cells", h, s / r);
  for (int a = -h; a <= h; ++a)
    for (int b = -h; b <= h; ++b) {
      double v = occ * std::exp(-0.5 * (a * a + b * b) * (r / s) * (r / s));
      c.check(std::fabs(k(a, b) - v) <= 0.5001, "kernel(%d,%d) is %d, expected %g", a, b, (int)k(a, b), v);
      c.check(k[(a + h) * k.size() + b + h] == k(a, b), "kernel by position differs");
    }
  c.state(mc::mix(h, k(0, std::min(1, h))));
}
static void table(mc::Ctx &c)
{
  static const double steps[] = {0.25, 0.5, 1, 0.3}, devs[] = {0.5, 0.1, 3, 4};
  double step = steps[c.choose(4, "cell size")], dev = devs[c.choose(c.thorough() ? 4 : 3, "deviation")];
  static const std::vector<V2> where = {V2(1.13, 0.41), V2(-0.62, 1.77), V2(2.04, -1.31), V2(-1.9, -0.83), V2(0.07, 0.06), V2(1.13, 2.2), V2(1.47, 0.41), V2(-3.1, 0.45)};
  Cloud T;
  int n = 1 + c.choose(c.thorough() ? 4 : 3, "points"), from = 0;
  for (int i = 0; i < n; ++i) {
    from += c.choose((int)where.size() - from, "point");
    T.push_back(pt(where[from](0), where[from](1)));
    if (from + 1 < (int)where.size() && c.flip("next"))
      ++from;
  }
  c.say("target of %d points, cells of %g, deviation %g", n, step, dev);
  Table t;
  c.scribble();
  if (c.flip("used before")) {
    Cloud o;
    o.push_back(pt(-5, 7));
    o.push_back(pt(6, -3));
    t.initGrid(o, 0.7f, 1.0f);
  }
  t.initGrid(T, (float)step, (float)dev);
  c.step();
  RefTable r(T, step, t);
  c.check(std::fabs(t.kernel(0, 0) - 100) < 1e-9, "a hit does not count fully");
  std::vector<V2> q;
  for (auto &p : T.points)
    q.push_back(V2(p.x, p.y));
  for (double x = -3.6; x < 2.8; x += 0.37)
    for (double y = -2; y < 2.8; y += 0.41)
      q.push_back(V2((float)x, (float)y));
  static const float moves[] = {0, 1, -1, 2.5f, -0.3f, 0.7f};
  Cloud all;
  double sum = 0, isum = 0;
  std::vector<IndexPoint> alli;
  for (auto &p : q) {
    Cloud one;
    one.push_back(pt(p(0), p(1)));
    double e, cellv;
    std::pair<long, long> at;
    try {
      at = r.index(p(0), p(1));
      e = r.score(p(0), p(1));
      cellv = r.value(at);
    } catch (const Unsure &) {
      continue;
    }
    double got = t.getScore(one) * n * 100;
    c.check(std::fabs(got - e) < 1e-6, "point (%g,%g) counts %g, expected %g", p(0), p(1), got, e);
    auto idx = t.toIndexes(one);
    c.check(idx.size() == 1, "%zu indexes for a point", idx.size());
    got = t.getScore(idx) * n * 100;
    c.check(std::fabs(got - cellv) < 1e-6, "index of point (%g,%g) counts %g, expected %g", p(0), p(1), got, cellv);
    all.push_back(one[0]);
    alli.push_back(idx[0]);
    sum += e, isum += cellv;
    for (float dx : moves)
      for (float dy : moves) {
        // moved by whole cells
        double fx = std::floor(dx * step / step + 1e-9), fy = std::floor(dy * step / step + 1e-9);
        double m = r.value({at.first + (long)fx, at.second - (long)fy});
        auto k = idx;
        t.moveIndexes(k, (int)fx, -(int)fy);
        got = t.getScore(k) * n * 100;
        c.check(std::fabs(got - m) < 1e-6, "point (%g,%g) moved by (%g,%g) cells counts %g, expected %g", p(0), p(1), fx, fy, got, m);
        std::vector<IndexPoint> o(3);
        float ax = (float)step * (dx + 1e-3f), ay = (float)step * (dy + 1e-3f);
        t.transformIndexes(idx, o, ax, ay);
        c.check(o.size() == 1 && o[0].x_idx_ == k[0].x_idx_ && o[0].y_idx_ == k[0].y_idx_, "index moved by (%g,%g) m is not the one moved by (%g,%g) cells", ax, ay, fx, fy);
      }
  }
  if (!all.empty()) {
    c.near(t.getScore(all), sum / (100.0 * n), 1e-9, "score of a cloud");
    c.near(t.getScore(alli), isum / (100.0 * n), 1e-9, "score of indexes");
  }
  c.check(t.getScore(Cloud()) == 0 && t.getScore(std::vector<IndexPoint>()) == 0, "score of nothing");
  double total = 0;
  for (auto &k : r.cell)
    total += k.second;
  c.near(t.getMaxScore(), total, 1e-6, "sum over the table");
  c.state(mc::mix(mc::Hash().addd(sum).h, r.cell.size()));
}
MC_BODY(table)
{
  try {
    table(c);
  } catch (const Unsure &) {
    c.undecided();
  }
}
MC_BODY(move_clouds)
{
  static const double ang[] = {0, 0.1, -0.7, 1.5707963, 3.1, -2.5}, tr[] = {0, 0.3, -4.1};
  double a = ang[c.choose(6, "angle")], x = tr[c.choose(3, "x")], y = tr[c.choose(3, "y")];
  Cloud s = seen(room(c.choose(ROOMS, "scene")), Rigid()), o, p;
  if (c.flip("empty"))
    s.clear();
  o.push_back(Pt(1, 2, 3));
  p.push_back(Pt(1, 2, 3));
  rotatePointCloud(s, o, (float)a);
  translatePointCloud(s, p, (float)x, (float)y);
  c.step();
  c.check(o.size() == s.size() && p.size() == s.size(), "points lost");
  Rigid R(V3(0, 0, a));
  for (size_t i = 0; i < s.size(); ++i) {
    V2 e = R * V2(s[i].x, s[i].y);
    c.check((e - V2(o[i].x, o[i].y)).norm() < 1e-5, "point turned to (%g,%g), expected (%g,%g)", o[i].x, o[i].y, e(0), e(1));
    c.check(std::fabs(p[i].x - s[i].x - x) < 1e-5 && std::fabs(p[i].y - s[i].y - y) < 1e-5 && p[i].z == s[i].z, "point shifted");
  }
}

class Search : public pcl::CorrelativeEstimation<Pt, Pt>
{
};
MC_BODY(search)
{
  int r = c.choose(ROOMS, "room");
  static const std::vector<V3> stands = {V3(0, 0, 0), V3(0.55, -0.4, 0.4), V3(-0.3, 0.7, 3.0)};
  V3 at = c.pick(stands, "pose of the sensor");
  static const std::vector<V3> offs = {V3(0, 0, 0), V3(0.6, -0.45, 0.25), V3(-0.7, 0.3, -0.3), V3(0, 0.9, 0.1), V3(0.2, 0.2, 0.35), V3(-0.45, -0.7, 0.05)};
  V3 off = c.pick(offs, "error of the guess");
  static const double steps[] = {0.5, 0.25, 1};
  static const double ranges[] = {1, 1.5, 0.5}, turns[] = {0.4, 0.8, 0.1};
  double step = steps[c.choose(c.thorough() ? 3 : 2, "coarse step")];
  int lim = c.choose(c.thorough() ? 3 : 2, "range");
  double range = ranges[lim], turn = turns[lim];
  int threads = 1 + c.choose(c.thorough() ? 4 : 3, "threads");
  Cloud T = room(r), S0 = seen(T, Rigid(at)), S, out;
  for (size_t i = 0; i < S0.size(); i += 3)
    S.push_back(S0[i]);
  Rigid guess = Rigid(at) * Rigid(off);
  c.say("room %d seen from (%g,%g,%g), guess (%g,%g,%g), step %g, range %g m %g rad, %d threads", r, at(0), at(1), at(2), guess.t(0), guess.t(1), guess.a, step, range, turn, threads);
  Search s;
  s.setCoarseStep((float)step);
  s.setTranslationRange((float)range);
  s.setRotationRange((float)turn);
  s.enableMultithreading(threads);
  s.setInputTarget(T.makeShared());
  s.setInputSource(S.makeShared());
  c.scribble();
  if (c.flip("used before")) {
    s.align(out, mat4(Rigid(V3(3, -2, 1))));
    c.step();
  }
  s.align(out, mat4(guess));
  c.step();
  c.check(s.hasConverged() && s.getCoarseStep() == (float)step, "no result");
  Eigen::Matrix4f F = s.getFinalTransformation();
  Rigid fin = rigid4(F);
  c.check((F - mat4(fin)).norm() < 1e-5, "result is not a rigid motion in the plane");
  c.check(out.size() == S.size(), "output has %zu points", out.size());
  for (size_t i = 0; i < S.size(); ++i)
    c.check((fin * V2(S[i].x, S[i].y) - V2(out[i].x, out[i].y)).norm() < 1e-4, "output is not the input moved by the result");
  // every candidate
  Table t;
  t.initGrid(T, (float)step, 0.5f);
  try {
    RefTable ref(T, step, t);
    Rigid delta = fin * guess.inverse();
    double best = -1, mine = -1;
    V3 which = V3::Zero();
    size_t near = 0;
    for (float th = -(float)turn; th < (float)turn; th += 0.2f) {
      Rigid R(V3(0, 0, th));
      std::vector<std::pair<long, long>> idx;
      size_t unsure = 0;
      for (auto &p : S.points) {
        V2 q = R * (guess * V2(p.x, p.y));
        double u = (q(0) - ref.x0) / ref.cs + 0.5, v = (ref.y1 - q(1)) / ref.cs + 0.5;
        if (std::fabs(u - std::round(u)) < 1e-4 || std::fabs(v - std::round(v)) < 1e-4)
          ++unsure;
        idx.push_back({(long)std::floor(u), (long)std::floor(v)});
      }
      near = std::max(near, unsure);
      long n = std::lround(2 * range / step);
      for (long i = 0; i < n; ++i)
        for (long j = 0; j < n; ++j) {
          double dx = -range + i * step, dy = -range + j * step, sum = 0;
          long ax = std::lround(std::floor(dx / step + 1e-6)), ay = std::lround(std::floor(dy / step + 1e-6));
          for (auto &k : idx)
            sum += ref.value({k.first + ax, k.second - ay});
          if (sum > best)
            best = sum, which = V3(dx, dy, th);
          if (std::fabs(delta.t(0) - dx) < 1e-3 && std::fabs(delta.t(1) - dy) < 1e-3 && adiff(delta.a, th) < 1e-4)
            mine = sum;
        }
    }
    c.check(mine >= 0, "result (%g,%g,%g) relative to the guess is none of the candidates", delta.t(0), delta.t(1), delta.a);
    c.check(mine >= best - 200.0 * near - 1e-6, "result (%g,%g,%g) scores %g, candidate (%g,%g,%g) scores %g", delta.t(0), delta.t(1), delta.a, mine, which(0), which(1), which(2), best);
  } catch (const Unsure &) {
    c.undecided();
    return;
  }
  mc::Hash h;
  h.addd(fin.t(0)).addd(fin.t(1)).addd(fin.a);
  c.state(h);
}
