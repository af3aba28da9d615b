#include "ndt_world.h"

static void build(mc::Ctx &c, NWorld &w, int how)
{
  Rigid o(w.r.origin);
  switch (how) {
  case 0: break;
  case 1: w.mergeCloud(scan(0), o.vec(), false, true); break;
  case 2: w.init(scan(1), true); w.mergeCloud(scan(5), (o * Rigid(V3(0.2, 0.1, 0.4))).vec(), false, true); break;
  case 3: w.enlarge(5, 6, 7, 4); w.mergeCloud(scan(1), o.vec(), false, true); w.mergeCloud(scan(6), (o * Rigid(V3(0.3, 0.2, 2))).vec(), true, true); break;
  case 4: w.mergeCloud(scan(3), o.vec(), false, true); w.mergeCloud(scan(1), o.vec(), false, true); w.clear(); w.mergeCloud(scan(0), o.vec(), true, true); break;
  case 5: w.mergeCloud(scan(5), o.vec(), false, true); w.move(Rigid(V3(0.55, -0.3, 0))); break;
  case 6: w.mergeCloud(scan(5), o.vec(), false, true); w.transform(Rigid(V3(0.1, 0.2, 0.6))); break;
  case 7: w.mergeCloud(scan(1), o.vec(), false, true); w.clear(); break;
  case 8: w.mergeCloud(scan(5), o.vec(), false, true); w.g = w.g->makeShared(); break;
  case 9: { NGrid::Ptr k(new NGrid()); *k = *w.g; w.g = k; w.mergeCloud(scan(5), o.vec(), true, true); w.mergeCloud(scan(3), o.vec(), true, false); break; }
  case 10: w.mergeCloud(scan(5), o.vec(), false, true); w.init(scan(3), false); break;
  }
}
static const int BUILDS = 11;
static void cells(NWorld &w, std::vector<NCell *> &ptr, std::vector<V3> &mean, std::vector<RefMap::RC> &rc)
{
  for (auto &k : w.r.cells)
    if (k.second.hasGaussian()) {
      ptr.push_back(&(*w.g)[w.r.centre(k.first)]);
      mean.push_back(k.second.getMean());
      rc.push_back(k.first);
    }
}
static void queries(mc::Ctx &c, NWorld &w, const V2 &p)
{
  std::vector<NCell *> ptr;
  std::vector<V3> mean;
  std::vector<RefMap::RC> rc;
  cells(w, ptr, mean, rc);
  RefMap::RC own = w.r.at(p);
  bool in = w.r.in(own);
  const NGrid &g = *w.g;
  for (float rad : {-1.f, 0.f, 0.1f, 0.25f, 0.5f, 0.6f, 0.77f, 1.0f, 1.3f, 2.5f, 40.f}) {
    auto q = g.getNeighbors(p, rad);
    std::set<NCell *> s(q.begin(), q.end());
    c.check(s.size() == q.size(), "radius %g at (%g,%g): a cell was reported twice", rad, p(0), p(1));
    c.check(in || q.empty(), "radius %g at (%g,%g): cells reported outside of the map", rad, p(0), p(1));
    size_t known = 0;
    for (size_t i = 0; i < ptr.size(); ++i) {
      double d = (mean[i].head(2) - p).norm();
      bool got = s.count(ptr[i]);
      known += got;
      if (rc[i] == own && (rad <= 0 || d > rad)) {
        if (rad <= 0 && in)
          c.check(got, "the cell at (%g,%g) is not its own neighbour", p(0), p(1));
        continue;
      }
      if (std::fabs(d - rad) < 1e-6 || !in)
        continue;
      c.check(got == (rad > 0 && d < rad), "radius %g at (%g,%g): cell with mean (%g,%g) at distance %g reported = %d", rad, p(0), p(1), mean[i](0), mean[i](1), d, (int)got);
    }
    c.check(known == s.size(), "radius %g at (%g,%g): a reported cell is no cell with distribution of this map", rad, p(0), p(1));
  }
  std::vector<double> dist;
  for (auto &m : mean)
    dist.push_back((m - V3(p(0), p(1), 0)).norm());
  std::vector<double> sorted(dist);
  std::sort(sorted.begin(), sorted.end());
  for (size_t K : {1, 2, 3, 5, 50}) {
    auto q = g.getKNearestNeighbors(p, K);
    c.check(q.size() == std::min(K, ptr.size()), "%zu nearest of %zu at (%g,%g): got %zu", K, ptr.size(), p(0), p(1), q.size());
    std::set<NCell *> s(q.begin(), q.end());
    c.check(s.size() == q.size(), "%zu nearest at (%g,%g): a cell was reported twice", K, p(0), p(1));
    for (size_t i = 0; i < q.size(); ++i) {
      size_t k = std::find(ptr.begin(), ptr.end(), q[i]) - ptr.begin();
      c.check(k < ptr.size(), "%zu nearest at (%g,%g): a reported cell is no cell with distribution of this map", K, p(0), p(1));
      c.check(std::fabs(dist[k] - sorted[i]) < 1e-5, "%zu nearest at (%g,%g): number %zu is at distance %g, expected %g", K, p(0), p(1), i, dist[k], sorted[i]);
    }
  }
}
MC_BODY(lattice)
{
  try {
    V3 o = c.pick(std::vector<V3>{V3(0, 0, 0), V3(1.2, -2.1, 0.0)}, "origin");
    double cs = c.pick(std::vector<double>{0.25, 0.5, 0.1}, "cell size");
    NWorld w(c, o, cs, true);
    build(c, w, c.choose(BUILDS, "built by"));
    c.state(w.hash());
    int n = c.thorough() ? 61 : 31;
    double step = 7.0 / n;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        try {
          queries(c, w, V2(-3.503 + i * step, -3.498 + j * step));
        } catch (Unsure &) {
        }
      }
    w.compare("after queries");
  } catch (Unsure &) {
    c.undecided();
  }
}
// all histories: queries must see exactly the present cells
MC_BODY(histories)
{
  try {
    NWorld w(c, V3(0.5, 0.2, 0), 0.25, c.flip("by constructor"));
    int depth = c.thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
      Rigid o(w.r.origin);
      switch (c.choose(12, "op")) {
      case 0: w.mergeCloud(scan(1), o.vec(), false, true); break;
      case 1: w.mergeCloud(scan(6), (o * Rigid(V3(0.1, 0.1, 1))).vec(), true, true); break;
      case 2: w.mergeCloud(scan(5), o.vec(), true, false); break;
      case 3: w.move(Rigid(V3(0.55, -0.3, 0))); break;
      case 4: w.move(Rigid(V3(-2, 0, 0))); break;
      case 5: w.transform(Rigid(V3(0.1, 0.2, 0.6))); break;
      case 6: w.clear(); break;
      case 7: w.init(scan(0), true); break;
      case 8: w.init(scan(1), false); break;
      case 9: w.enlarge(8, 8, 8, 8); break;
      case 10: w.g = w.g->makeShared(); break;
      case 11: { NGrid::Ptr k(new NGrid(V3(1, 2, 3))); k->mergeIn(scan(3), V3(1, 2, 3)); *k = *w.g; w.g = k; break; }
      }
      c.state(w.hash());
      if (c.fresh())
        for (V2 p : {V2(0.01, 0.02), V2(0.66, 0.41), V2(-0.3, -0.8), V2(1.3, 0.07)})
          queries(c, w, p);
    }
  } catch (Unsure &) {
    c.undecided();
  }
}
// means within the rounding of a float of the borders of their cells
static NCell cellAt(const V2 &m)
{
  NCell k;
  double d = 0.01;
  for (V2 o : {V2(d, 0), V2(-d, 0), V2(0, d), V2(0, -d), V2(d, d), V2(-d, -d), V2(0, 0)})
    k.addPoint(V3(m(0) + o(0), m(1) + o(1), 0));
  k.computeGaussian();
  return k;
}
MC_BODY(borders)
{
  std::vector<double> off = {-2e-9, 2e-9, -1e-3, 1e-3};
  double cs = (float)c.pick(std::vector<double>{0.5, 0.1}, "cell size");
  long bx = c.pick(std::vector<long>{0, 3, -4}, "border in x"), by = c.pick(std::vector<long>{0, 2, -5}, "border in y");
  bool grown = c.flip("room around");
  std::map<RefMap::RC, V2> want;
  std::vector<NCell> list;
  int n = 1 + c.choose(c.thorough() ? 3 : 2, "cells");
  for (int i = 0; i < n; ++i) {
    double ox = c.pick(off, "off the border in x"), oy = c.pick(off, "off the border in y");
    V2 m((bx + 0.5) * cs + ox, (by + 0.5) * cs + oy);
    RefMap::RC rc(-(by + (oy > 0)), bx + (ox > 0));
    if (want.count(rc))
      return c.undecided();
    list.push_back(cellAt(m));
    want[rc] = m;
  }
  list.push_back(cellAt(V2(9 * cs, 7 * cs)));
  want[RefMap::RC(-7, 9)] = V2(9 * cs, 7 * cs);
  c.scribble();
  NGrid g;
  g.setCellSize((float)cs);
  if (grown)
    g.enlarge(-8 * cs, -8 * cs, 12 * cs, 12 * cs);
  g.mergeIn(list, true);
  c.step();
  auto look = [&](const NGrid &q, const char *when) {
    auto all = q.getGaussianCells();
    std::set<NCell *> present(all.begin(), all.end());
    c.check(present.size() == want.size(), "%s: %zu cells for %zu", when, present.size(), want.size());
    for (auto &w : want) {
      V2 centre(w.first.second * cs, -w.first.first * cs);
      c.check(q.isInside(centre), "%s: no cell at (%g,%g)", when, centre(0), centre(1));
      const NCell *k = &q[centre];
      c.check((k->getMean().head(2) - w.second).norm() < 1e-12, "%s: cell (%ld,%ld) holds mean (%.12g,%.12g), not (%.12g,%.12g)", when, w.first.first, w.first.second, k->getMean()(0), k->getMean()(1), w.second(0), w.second(1));
    }
    for (auto &w : want)
      for (V2 p : {w.second, V2(w.first.second * cs, -w.first.first * cs), V2(w.second + V2(0.2 * cs, 0.1 * cs))})
        for (size_t K : {1, 2, 4, 9}) {
          std::vector<double> dist;
          for (auto &x : want)
            dist.push_back((x.second - p).norm());
          std::sort(dist.begin(), dist.end());
          auto r = q.getKNearestNeighbors(p, K);
          c.check(r.size() == std::min(K, want.size()), "%s: %zu nearest of %zu: got %zu", when, K, want.size(), r.size());
          c.check(std::set<NCell *>(r.begin(), r.end()).size() == r.size(), "%s: a cell was reported twice", when);
          for (size_t i = 0; i < r.size(); ++i) {
            c.check(present.count(r[i]), "%s: %zu nearest: number %zu is no cell with distribution of this map", when, K, i);
            double d = (r[i]->getMean().head(2) - p).norm();
            c.check(std::fabs(d - dist[i]) < 1e-5, "%s: %zu nearest: number %zu is at distance %g, expected %g", when, K, i, d, dist[i]);
          }
        }
  };
  look(g, "after merging");
  NGrid copy(g);
  look(copy, "copy");
}
