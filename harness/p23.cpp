#include "ndt_world.h"
#include <iomanip>

static void exports(mc::Ctx &c, NWorld &w)
{
  for (auto &k : w.r.cells)
    if (std::fabs(k.second.getOccupancyRaw() - 0.8) < 1e-4 || NWorld::onEdge(k.second))
      throw Unsure();
  const NGrid &g = *w.g;
  size_t width = w.r.L + w.r.R + 1, height = w.r.U + w.r.D + 1;
  V2 corner = w.pose() * V2(-w.r.L * w.r.cs, w.r.U * w.r.cs);
  auto oc = g.createOccupancyGrid();
  c.check(oc.width_ == width && oc.height_ == height, "occupancy grid is %zu x %zu, expected %zu x %zu", oc.width_, oc.height_, width, height);
  c.check(oc.resolution_ == (float)w.r.cs, "resolution %g", oc.resolution_);
  c.check((oc.origin_.head(2) - corner).norm() < 1e-5 && std::fabs(std::remainder(oc.origin_(2) - w.r.origin(2), 2 * M_PI)) < 1e-9, "corner of the occupancy grid (%g,%g,%g), expected (%g,%g,%g)", oc.origin_(0), oc.origin_(1), oc.origin_(2), corner(0), corner(1), w.r.origin(2));
  c.check((oc.centroid_ - V2(w.r.L * w.r.cs, w.r.U * w.r.cs)).norm() < 1e-5, "centre of the grid (%g,%g)", oc.centroid_(0), oc.centroid_(1));
  c.check(oc.cells_.size() == width * height, "%zu occupancy values", oc.cells_.size());
  size_t i = 0;
  for (long row = -w.r.U; row <= w.r.D; ++row)
    for (long col = -w.r.L; col <= w.r.R; ++col, ++i) {
      auto it = w.r.cells.find(RefMap::RC(row, col));
      int e = it == w.r.cells.end() ? -1 : it->second.getOccupancyRaw() > 0.8 ? 99 : 0;
      c.check(oc.cells_[i] == e, "occupancy of (col %ld,row %ld) is %d, expected %d", col, row, (int)oc.cells_[i], e);
    }
  auto m = g.serialize();
  c.check((m.origin_.head(2) - corner).norm() < 1e-5 && std::fabs(std::remainder(m.origin_(2) - w.r.origin(2), 2 * M_PI)) < 1e-9, "message: corner (%g,%g,%g)", m.origin_(0), m.origin_(1), m.origin_(2));
  c.check(std::fabs(m.size_(0) - width * w.r.cs) < 1e-4 && std::fabs(m.size_(1) - height * w.r.cs) < 1e-4 && m.size_(2) == 0, "message: size (%g,%g,%g)", m.size_(0), m.size_(1), m.size_(2));
  c.check(std::fabs(m.cell_sizes_(0) - w.r.cs) < 1e-6 && std::fabs(m.cell_sizes_(1) - w.r.cs) < 1e-6 && m.cell_sizes_(2) == 0, "message: cell size");
  c.check(m.cells_.size() == w.r.cells.size(), "message: %zu cells, expected %zu", m.cells_.size(), w.r.cells.size());
  i = 0;
  for (auto &k : w.r.cells) {
    auto &a = m.cells_[i++];
    auto e = k.second.serialize();
    c.check(std::fabs(a.occupancy_ - e.occupancy_) < 1e-4 && a.points_ == e.points_, "message: cell (col %ld,row %ld) has %ld points expected %ld, occupancy %g expected %g", k.first.second, k.first.first, a.points_, e.points_, a.occupancy_, e.occupancy_);
    if (k.second.hasGaussian())
      c.check((a.mean_ - k.second.getMean()).norm() < 1e-7 && (a.cov_ - k.second.getCov()).norm() < 1e-6 * (1 + e.cov_.norm()) && a.points_ == (long)k.second.points(), "message: cell (col %ld,row %ld) is not its distribution", k.first.second, k.first.first);
  }
}
static void coarser(mc::Ctx &c, NWorld &w, double size)
{
  auto k = w.g->createCoarserGrid((float)size);
  double cs = std::max((double)(float)size, w.r.cs);
  c.check(k.getCellSize() == (float)cs, "coarser map has cells of %g, expected %g", k.getCellSize(), cs);
  RefMap m;
  m.cs = (float)cs;
  for (auto &q : w.r.cells)
    if (q.second.hasGaussian()) {
      RefMap::RC at = m.at(q.second.getMean().head(2));
      auto it = m.cells.find(at);
      if (it == m.cells.end())
        m.cells.insert(std::make_pair(at, q.second));
      else
        it->second += q.second;
    }
  size_t n = 0;
  for (auto &q : m.cells) {
    if (NWorld::onEdge(q.second))
      throw Unsure();
    c.check(k.isInside(m.centre(q.first)), "coarser map has no cell (col %ld,row %ld)", q.first.second, q.first.first);
    w.cmpCell(k[m.centre(q.first)], q.second, "coarser map", q.first);
    n += q.second.hasGaussian();
  }
  c.check(k.getGaussianCells().size() == n, "coarser map has %zu cells with distribution, expected %zu", k.getGaussianCells().size(), n);
  c.check(k.getMeans()->size() == n, "coarser map has %zu means", k.getMeans()->size());
  for (auto &q : m.cells)
    if (q.second.hasGaussian()) {
      auto nn = k.getKNearestNeighbors(q.second.getMean().head(2), 1);
      c.check(nn.size() == 1, "coarser map: no nearest cell");
    }
}
static void histories(mc::Ctx &c, int depth, bool merged)
{
  V3 o = c.pick(std::vector<V3>{V3(0, 0, 0), V3(1.2, -2.1, 0.7), V3(0.5, 0.3, -2.9)}, "origin");
  double cs = c.pick(std::vector<double>{0.25, 0.5, 0.1}, "cell size");
  NWorld w(c, o, cs, c.flip("by constructor"));
  for (int d = 0; d < depth; ++d) {
    if (merged)
      c.merge(w.hash(), depth - d);
    Rigid here(w.r.origin);
    switch (c.choose(11, "op")) {
    case 0: w.enlarge(3, 6, 1, 2); break;
    case 1: w.enlarge(0, 1, 9, 0); break;
    case 2: w.mergeCloud(scan(1), here.vec(), true, true); break;
    case 3: w.mergeCloud(scan(6), (here * Rigid(V3(0.3, 0.2, 2))).vec(), true, false); break;
    case 4: w.mergeCloud(scan(5), here.vec(), false, true); break;
    case 5: w.mergeCloud(scan(2), here.vec(), true, true); break;
    case 6: w.init(scan(3), true); break;
    case 7: w.clear(); break;
    case 8: w.move(Rigid(V3(0.55, -0.3, 0))); break;
    case 9: w.transform(Rigid(V3(0.1, 0.2, 0.6))); break;
    case 10: w.setOrigin((here * Rigid(V3(-0.2, 0.5, 1.5))).vec()); break;
    }
    c.state(w.hash());
    if (c.fresh()) {
      exports(c, w);
      for (double k : {0.05, cs, 0.5, 1.0, 2.0})
        try {
          coarser(c, w, k);
        } catch (Unsure &) {
        }
    }
  }
}
MC_BODY(histories)
{
  try {
    histories(c, c.thorough() ? 4 : 3, false);
  } catch (Unsure &) {
    c.undecided();
  }
}
MC_BODY(merged_histories)
{
  try {
    histories(c, c.thorough() ? 6 : 4, true);
  } catch (Unsure &) {
    c.undecided();
  }
}
MC_BODY(time_order)
{
  double a = c.pick(std::vector<double>{0, 1, 1.5, -2, 1e9}, "a"), b = c.pick(std::vector<double>{0, 1, 1.5, -2, 1e9}, "b");
  bool set = c.flip("set");
  NGrid x(V3(0, 0, 0), set ? 7 : a), y(set ? 8 : b);
  if (set)
    x.setTimestamp(a), y.setTimestamp(b);
  c.check(x.getTimestamp() == a && y.getTimestamp() == b, "times %g and %g, expected %g and %g", x.getTimestamp(), y.getTimestamp(), a, b);
  c.check((x < y) == (a < b) && (y < x) == (b < a), "order of times %g and %g", a, b);
}
