// Real NDT grid driven next to a reference map: a map from cell numbers to
// cells plus the pose of the grid.  Cells themselves are the real NDTCell
// (decided by P11/P12); cells on a ray come from a real voxel grid of the same
// extent (decided by P10).
#pragma once
#include "mc.h"
#include "se2.h"
#include <ndt_gslam/ndt/ndt_cell.h>
#include <ndt_gslam/ndt/ndt_grid2d.h>

typedef slamuk::NDTCell NCell;
typedef slamuk::NDTGrid2D<NCell, pcl::PointXYZ> NGrid;
typedef pcl::PointCloud<pcl::PointXYZ> Cloud;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector2d V2;

struct Unsure {  // a point too close to a cell border to say which cell it is in
};

struct RefMap {
  typedef std::pair<long, long> RC;  // row (down), column (right)
  V3 origin = V3::Zero();
  double cs = 0.25;
  long L = 0, R = 0, U = 0, D = 0;
  bool used = false;  // something was merged since the last clear
  std::map<RC, NCell> cells;

  static long part(double v)
  {
    double s = v + 0.5, f = std::floor(s);
    if (s - f < 1e-5 || f + 1 - s < 1e-5)
      throw Unsure();
    return (long)f;
  }
  RC at(const V2 &p) const
  {
    return RC(part(-p(1) / cs), part(p(0) / cs));
  }
  bool in(const RC &k) const
  {
    return k.second >= -L && k.second <= R && k.first >= -U && k.first <= D;
  }
  void cover(const RC &k)
  {
    L = std::max(L, -k.second);
    R = std::max(R, k.second);
    U = std::max(U, -k.first);
    D = std::max(D, k.first);
  }
  V2 centre(const RC &k) const
  {
    return V2(k.second * cs, -k.first * cs);
  }
};

// cells of one scan given in the frame of the map
inline std::map<RefMap::RC, NCell> scanCells(const Cloud &pcl, const Rigid &T, const RefMap &m)
{
  std::map<RefMap::RC, NCell> r;
  for (auto &p : pcl.points) {
    if (std::isnan(p.x) || std::isnan(p.y) || std::isnan(p.z))
      continue;
    V2 q = T * V2(p.x, p.y);
    V3 f((float)q(0), (float)q(1), p.z);
    r[m.at(f.head(2))].addPoint(f);
  }
  for (auto &k : r)
    k.second.computeGaussian();
  return r;
}

struct NWorld {
  mc::Ctx &c;
  NGrid::Ptr g;
  RefMap r;
  double tol = 1e-7;
  NWorld(mc::Ctx &ctx, const V3 &origin, double cs, bool by_ctor) : c(ctx)
  {
    c.scribble();
    g.reset(by_ctor ? new NGrid(origin) : new NGrid());
    if (!by_ctor)
      g->setOrigin(origin);
    g->setCellSize((float)cs);
    r.origin = origin;
    r.cs = (float)cs;
    r.cells[RefMap::RC(0, 0)];  // a new grid is one cell
  }
  Rigid pose() const
  {
    return Rigid(r.origin);
  }
  // ------------------------------------------------------------- reference
  std::vector<RefMap::RC> rayCells(const V2 &s, const V2 &e)
  {
    std::vector<RefMap::RC> res;
    slamuk::VoxelGrid2D<int> v;
    v.setCellSize((float)r.cs);
    v.enlarge((float)(-r.L * r.cs), (float)(-r.D * r.cs), (float)(r.R * r.cs), (float)(r.U * r.cs));
    std::map<int *, RefMap::RC> id;
    for (long row = -r.U; row <= r.D; ++row)
      for (long col = -r.L; col <= r.R; ++col) {
        V2 p = r.centre(RefMap::RC(row, col));
        v.addCell(p, 1, false);
        id[v.getCellPtr(p)] = RefMap::RC(row, col);
      }
    for (int *k : v.rayTrace(s, e))
      res.push_back(id.at(k));
    return res;
  }
  void refMerge(const std::vector<NCell> &list, bool resize)
  {
    bool grow = resize || !r.used;
    r.used = true;
    long L = r.L, R = r.R, U = r.U, D = r.D;
    long xl = 0, xr = 0, xu = 0, xd = 0;  // extent of everything that came in
    for (auto &k : list) {
      V3 m = k.getMean();
      xl = std::max(xl, (long)std::ceil(-m(0) / r.cs) + 1);
      xr = std::max(xr, (long)std::ceil(m(0) / r.cs) + 1);
      xu = std::max(xu, (long)std::ceil(m(1) / r.cs) + 1);
      xd = std::max(xd, (long)std::ceil(-m(1) / r.cs) + 1);
      if (!k.hasGaussian())
        continue;
      RefMap::RC at = r.at(m.head(2));
      if (grow)
        r.cover(at);
      else if (!r.in(at))
        continue;
      auto it = r.cells.find(at);
      if (it == r.cells.end())
        r.cells.insert(std::make_pair(at, k));
      else
        it->second += k;
    }
    adopt(grow, std::max(L, xl), std::max(R, xr), std::max(U, xu), std::max(D, xd));
  }
  // how far the extent grows beyond what is needed is up to the map
  void adopt(bool grow, long ml, long mr, long mu, long md)
  {
    auto oc = g->createOccupancyGrid();
    V2 corner = pose().inverse() * V2(oc.origin_.head(2));
    long L = std::lround(-corner(0) / r.cs), U = std::lround(corner(1) / r.cs);
    long R = (long)oc.width_ - 1 - L, D = (long)oc.height_ - 1 - U;
    c.check(L >= 0 && U >= 0 && R >= 0 && D >= 0, "extent of the occupancy grid: left %ld right %ld up %ld down %ld", L, R, U, D);
    c.check(std::fabs(corner(0) + L * r.cs) < 1e-4 && std::fabs(corner(1) - U * r.cs) < 1e-4, "corner (%g,%g) is not a cell", corner(0), corner(1));
    if (grow) {
      c.check(L >= r.L && R >= r.R && U >= r.U && D >= r.D, "extent l%ld r%ld u%ld d%ld does not cover l%ld r%ld u%ld d%ld", L, R, U, D, r.L, r.R, r.U, r.D);
      c.check(L <= ml && R <= mr && U <= mu && D <= md, "extent l%ld r%ld u%ld d%ld grew beyond l%ld r%ld u%ld d%ld", L, R, U, D, ml, mr, mu, md);
      r.L = L, r.R = R, r.U = U, r.D = D;
    } else
      c.check(L == r.L && R == r.R && U == r.U && D == r.D, "extent changed to l%ld r%ld u%ld d%ld from l%ld r%ld u%ld d%ld", L, R, U, D, r.L, r.R, r.U, r.D);
  }
  void refTrace(const std::vector<NCell> &list, const V2 &start)
  {
    V3 s(start(0), start(1), 0);
    for (auto &k : list) {
      if (!k.hasGaussian())
        continue;
      r.at(start);
      for (auto &rc : rayCells(start, k.getMean().head(2))) {
        r.cells[rc].updateOccupancy(s, k.getMean(), k.points());
      }
    }
  }
  static std::vector<NCell> values(const std::map<RefMap::RC, NCell> &m)
  {
    std::vector<NCell> v;
    for (auto &k : m)
      v.push_back(k.second);
    return v;
  }
  static void moveCells(std::vector<NCell> &v, const Rigid &T)
  {
    NCell::Transform t = NCell::Transform::Identity();
    t.linear().block<2, 2>(0, 0) = T.rotation();
    t.translation().head(2) = T.t;
    for (auto &k : v)
      k.transform(t);
  }
  // ------------------------------------------------------------ operations
  void mergeCloud(const Cloud &pcl, const V3 &from, bool traced, bool resize)
  {
    c.say("merge scan of %zu points taken at (%g,%g,%g)%s%s", pcl.size(), from(0), from(1), from(2), traced ? ", traced" : "", resize ? ", may grow" : "");
    Rigid T = pose().inverse() * Rigid(from);
    auto list = values(scanCells(pcl, T, r));
    if (traced)
      g->mergeInTraced(pcl, from, resize);
    else
      g->mergeIn(pcl, from, resize);
    c.step();
    if (traced)
      refTrace(list, T * V2(0, 0));
    refMerge(list, resize);
  }
  void init(const Cloud &pcl, bool traced)
  {
    c.say("initialise with %zu points%s", pcl.size(), traced ? ", traced" : "");
    if (traced)
      g->initialize(pcl);
    else
      g->initializeSimple(pcl);
    c.step();
    r.cells.clear();
    auto list = values(scanCells(pcl, Rigid(), r));
    if (traced)
      refTrace(list, V2(0, 0));
    refMerge(list, true);
  }
  void mergeMap(const NWorld &o, bool traced, bool transform, bool resize)
  {
    c.say("merge map at (%g,%g,%g) with %zu cells%s%s%s", o.r.origin(0), o.r.origin(1), o.r.origin(2), o.r.cells.size(), traced ? ", traced" : "", transform ? ", transformed" : "", resize ? ", may grow" : "");
    Rigid T = pose().inverse() * o.pose();
    auto list = values(o.r.cells);
    if (transform)
      moveCells(list, T);
    if (traced)
      g->mergeInTraced(*o.g, transform, resize);
    else
      g->mergeIn(*o.g, transform, resize);
    c.step();
    if (traced)
      refTrace(list, T * V2(0, 0));
    refMerge(list, resize);
  }
  void mergeList(const std::vector<NCell> &list, bool resize)
  {
    c.say("merge %zu cells%s", list.size(), resize ? ", may grow" : "");
    g->mergeIn(list, resize);
    c.step();
    refMerge(list, resize);
  }
  void enlarge(long l, long d, long rr, long u)
  {
    c.say("enlarge left %ld down %ld right %ld up %ld", l, d, rr, u);
    g->enlarge((float)(-l * r.cs), (float)(-d * r.cs), (float)(rr * r.cs), (float)(u * r.cs));
    c.step();
    r.L = std::max(r.L, l), r.R = std::max(r.R, rr), r.U = std::max(r.U, u), r.D = std::max(r.D, d);
    adopt(false, 0, 0, 0, 0);
  }
  void clear()
  {
    c.say("clear");
    g->clear();
    c.step();
    r.cells.clear();
    r.used = false;
    adopt(false, 0, 0, 0, 0);
  }
  void setOrigin(const V3 &o)
  {
    c.say("origin (%g,%g,%g)", o(0), o(1), o(2));
    g->setOrigin(o);
    c.step();
    r.origin = o;
  }
  // moves the frame of the grid by T; what lies in the world stays there
  void move(const Rigid &T)
  {
    c.say("move by (%g,%g | %g)", T.t(0), T.t(1), T.a);
    Eigen::Transform<double, 2, Eigen::Affine> t;
    t.setIdentity();
    t.linear() = T.rotation();
    t.translation() = T.t;
    auto rest = g->move(t);
    c.step();
    c.check((rest.linear() - T.rotation()).norm() < 1e-12, "move changed the rotation that is left over");
    if (std::fabs(r.origin(2)) > 1e-7) {
      c.check((rest.translation() - T.t).norm() == 0, "a rotated grid was moved");
      compare("a refused move");
      return;
    }
    long n[2];
    for (int i = 0; i < 2; ++i) {
      double q = T.t(i) / r.cs;
      n[i] = (long)(q < 0 ? std::ceil(q - 1e-9) : std::floor(q + 1e-9));
      if (std::fabs(q - std::round(q)) < 1e-6 && std::fabs(rest.translation()(i)) > 0.5 * r.cs)
        n[i] = (long)std::round(q) - (q > 0 ? 1 : -1);  // either is right on a border
      c.near(rest.translation()(i), T.t(i) - n[i] * r.cs, 1e-5, "part of the move that is left over");
    }
    r.origin(0) += n[0] * r.cs;
    r.origin(1) += n[1] * r.cs;
    c.check((g->getOrigin() - r.origin).norm() < 1e-5, "origin (%g,%g), expected (%g,%g)", g->getOrigin()(0), g->getOrigin()(1), r.origin(0), r.origin(1));
    r.origin = g->getOrigin();
    std::map<RefMap::RC, NCell> m;
    for (auto &k : r.cells) {
      RefMap::RC rc(k.first.first + n[1], k.first.second - n[0]);
      if (!r.in(rc))
        continue;
      NCell q = k.second;
      if (q.hasGaussian())
        q.setMean(q.getMean() - V3(n[0] * r.cs, n[1] * r.cs, 0));
      m.insert(std::make_pair(rc, q));
    }
    r.cells.swap(m);
    adopt(false, 0, 0, 0, 0);
  }
  void transform(const Rigid &T)
  {
    c.say("transform by (%g,%g | %g)", T.t(0), T.t(1), T.a);
    auto list = values(r.cells);
    Rigid rot(T);
    rot.t.setZero();
    Eigen::Transform<double, 2, Eigen::Affine> t;
    t.setIdentity();
    t.linear() = T.rotation();
    t.translation() = T.t;
    moveCells(list, rot);
    long L = r.L, R = r.R, U = r.U, D = r.D;
    g->transform(t);
    c.step();
    // turns about the origin of the map, then shifts in the world
    V2 o = V2(r.origin.head(2)) + T.t;
    r.origin(0) = o(0), r.origin(1) = o(1);
    c.check((g->getOrigin().head(2) - o).norm() < 1e-9, "origin (%g,%g), expected (%g,%g)", g->getOrigin()(0), g->getOrigin()(1), o(0), o(1));
    c.check(std::fabs(std::remainder(g->getOrigin()(2) - r.origin(2), 2 * M_PI)) < 1e-9, "heading %g, expected %g", g->getOrigin()(2), r.origin(2));
    r.origin = g->getOrigin();
    r.cells.clear();
    long l = L, rr = R, u = U, d = D;
    for (auto &k : list) {
      if (!k.hasGaussian())
        continue;
      RefMap::RC at = r.at(k.getMean().head(2));
      r.cover(at);
      l = std::max(l, -at.second + 1), rr = std::max(rr, at.second + 1), u = std::max(u, -at.first + 1), d = std::max(d, at.first + 1);
      auto it = r.cells.find(at);
      if (it == r.cells.end())
        r.cells.insert(std::make_pair(at, k));
      else
        it->second += k;
    }
    adopt(true, l, rr, u, d);
  }
  // -------------------------------------------------------------- checking
  // the decision between free and occupied is taken at exactly zero
  static bool onEdge(const NCell &k)
  {
    bool fresh = k.getOccupancyRaw() == 0 && k.points() == 0 && !k.hasGaussian();
    return !fresh && std::fabs(k.getOccupancyRaw()) < 1e-5;
  }
  void cmpCell(const NCell &a, const NCell &e, const char *what, const RefMap::RC &k)
  {
    c.check(std::fabs(a.getOccupancyRaw() - e.getOccupancyRaw()) < 1e-4, "%s: occupancy of cell (col %ld,row %ld) is %g, expected %g", what, k.second, k.first, a.getOccupancyRaw(), e.getOccupancyRaw());
    if (onEdge(e) || onEdge(a))
      throw Unsure();
    c.check(a.hasGaussian() == e.hasGaussian(), "%s: cell (col %ld,row %ld) has distribution = %d, expected %d", what, k.second, k.first, (int)a.hasGaussian(), (int)e.hasGaussian());
    c.check(a.points() == e.points(), "%s: cell (col %ld,row %ld) has %zu points, expected %zu", what, k.second, k.first, a.points(), e.points());
    if (!e.hasGaussian())
      return;
    c.check((a.getMean() - e.getMean()).norm() < tol, "%s: mean of cell (col %ld,row %ld) is (%.9g,%.9g,%.9g), expected (%.9g,%.9g,%.9g)", what, k.second, k.first, a.getMean()(0), a.getMean()(1), a.getMean()(2), e.getMean()(0), e.getMean()(1), e.getMean()(2));
    c.check((a.getCov() - e.getCov()).norm() < tol * (1 + e.getCov().norm()), "%s: covariance of cell (col %ld,row %ld) is off by %g", what, k.second, k.first, (a.getCov() - e.getCov()).norm());
    c.check((a.getICov() * a.getCov() - Eigen::Matrix3d::Identity()).norm() < 1e-6, "%s: inverse covariance of cell (col %ld,row %ld)", what, k.second, k.first);
  }
  void compare(const char *what)
  {
    if (!c.fresh())
      return;  // compared when this prefix was new
    const NGrid &cg = *g;
    for (auto &k : r.cells)
      if (onEdge(k.second))
        throw Unsure();
    for (long row = -r.U - 1; row <= r.D + 1; ++row)
      for (long col = -r.L - 1; col <= r.R + 1; ++col) {
        RefMap::RC k(row, col);
        V2 p = r.centre(k);
        auto it = r.cells.find(k);
        bool ex = it != r.cells.end();
        c.check(cg.isInside(p) == ex, "%s: cell (col %ld,row %ld) exists = %d, expected %d", what, col, row, (int)cg.isInside(p), (int)ex);
        pcl::PointXYZ q((float)p(0), (float)p(1), 0);
        c.check(g->isInside(q) == ex, "%s: cell (col %ld,row %ld) of a cloud point", what, col, row);
        if (!ex)
          continue;
        cmpCell((*g)[p], it->second, what, k);
        c.check(&cg[p] == &(*g)[p] && &cg[q] == &(*g)[p] && &(*g)[q] == &(*g)[p], "%s: ways to reach cell (col %ld,row %ld) differ", what, col, row);
      }
    size_t n = 0;
    auto list = cg.getGaussianCells();
    for (auto &k : r.cells)
      if (k.second.hasGaussian()) {
        c.check(n < list.size() && list[n] == &(*g)[r.centre(k.first)], "%s: list of cells with distribution misses (col %ld,row %ld)", what, k.first.second, k.first.first);
        ++n;
      }
    c.check(n == list.size(), "%s: %zu cells with distribution listed, expected %zu", what, list.size(), n);
    c.check(cg.getCellSize() == (float)r.cs && (cg.getOrigin() - r.origin).norm() < 1e-12, "%s: cell size or origin changed", what);
    compareMeans(what);
  }
  void compareMeans(const char *what)
  {
    auto m = g->getMeans();
    c.check(m.get() != nullptr, "%s: no cloud of means", what);
    auto w = g->getMeansTransformed();
    std::vector<V3> exp;
    for (auto &k : r.cells)
      if (k.second.hasGaussian())
        exp.push_back(k.second.getMean());
    c.check(m->size() == exp.size() && w->size() == exp.size(), "%s: %zu means and %zu transformed ones, expected %zu", what, m->size(), w->size(), exp.size());
    for (size_t i = 0; i < exp.size(); ++i) {
      V3 a((*m)[i].x, (*m)[i].y, (*m)[i].z), b((*w)[i].x, (*w)[i].y, (*w)[i].z);
      c.check((a - exp[i]).norm() < 1e-5, "%s: mean %zu in the cloud is (%g,%g), expected (%g,%g)", what, i, a(0), a(1), exp[i](0), exp[i](1));
      V2 q = pose() * V2(exp[i].head(2));
      c.check((b.head(2) - q).norm() < 1e-5 && std::fabs(b(2) - exp[i](2)) < 1e-5, "%s: mean %zu in the world is (%g,%g), expected (%g,%g)", what, i, b(0), b(1), q(0), q(1));
    }
  }
  uint64_t hash() const
  {
    mc::Hash h;
    h.addi(r.L).addi(r.R).addi(r.U).addi(r.D).addd(r.cs).add(r.used);
    for (int i = 0; i < 3; ++i)
      h.addd(r.origin(i));
    for (auto &k : r.cells) {
      h.addi(k.first.first).addi(k.first.second).add(k.second.points()).addd(k.second.getOccupancyRaw()).add(k.second.hasGaussian());
      if (k.second.hasGaussian())
        h.addd(k.second.getMean()(0)).addd(k.second.getMean()(1)).addd(k.second.getCov()(0, 0)).addd(k.second.getCov()(0, 1)).addd(k.second.getCov()(1, 1));
    }
    return h.h;
  }
};

// ------------------------------------------------------------------ scans
inline void cluster(Cloud &c, double x, double y, int n, int seed = 0, double s = 0.06)
{
  for (int i = 0; i < n; ++i) {
    double u = std::fmod(0.6180339887 * (i + 1 + seed), 1.0) - 0.5, w = std::fmod(0.7548776662 * (i + 1 + seed), 1.0) - 0.5;
    c.push_back(pcl::PointXYZ((float)(x + s * u), (float)(y + s * w), (float)(0.01 * w)));
  }
}
static const int SCANS = 7;
inline Cloud scan(int i)
{
  Cloud c;
  double nan = std::numeric_limits<double>::quiet_NaN();
  switch (i) {
  case 0:  // one spot ahead
    cluster(c, 1.03, 0.07, 8);
    break;
  case 1:  // three spots around
    cluster(c, 0.55, 0.53, 7);
    cluster(c, -0.71, 0.27, 9, 3);
    cluster(c, 1.27, -0.97, 6, 5);
    break;
  case 2:  // too few points in one cell, invalid returns, one good cell
    cluster(c, 0.54, -0.47, 5);
    c.push_back(pcl::PointXYZ((float)nan, (float)nan, (float)nan));
    cluster(c, -0.48, -0.53, 7, 1);
    break;
  case 3:  // far away
    cluster(c, 3.03, 2.04, 10);
    cluster(c, -2.26, -1.02, 12, 2);
    break;
  case 4:  // nothing
    break;
  case 5:  // wall
    for (int k = -3; k <= 3; ++k)
      cluster(c, 0.78, 0.25 * k + 0.03, 7, k + 4);
    break;
  case 6:  // two spots in a row seen from the origin
    cluster(c, 0.52, 0.03, 20);
    cluster(c, 1.51, 0.05, 40, 7);
    break;
  }
  return c;
}
