#include "cell_world.h"
// Distributions of point sets and their fusion.
static const std::vector<int> N = {1, 2, 3, 5, 6, 7, 13, 60, 400};
static const std::vector<V3> O = {V3(0, 0, 1), V3(3, -2, 0.25), V3(-250, 120, 1), V3(0.01, 0.02, 1e-3), V3(7, 7, 40)};
static void fill(mc::Ctx &c, CellW &w, bool all)
{
  int s = c.choose(SHAPES, "shape"), n = c.pick(all ? N : std::vector<int>{2, 6, 60}, "n");
  const V3 &o = O[c.choose(all ? (int)O.size() : 3, "placement")];
  c.say("%d points of shape %d around (%g,%g) scale %g", n, s, o(0), o(1), o(2));
  for (auto &p : pointSet(s, n, o(0), o(1), o(2)))
    w.addPoint(p);
}
MC_BODY(point_sets)
{
  // two batches of points, computed after each or only at the end
  CellW w(c);
  fill(c, w, true);
  if (c.flip("compute between")) {
    w.compute();
    c.state(w.hash());
  }
  fill(c, w, c.thorough());
  w.compute();
  c.state(w.hash());
  Cell copy = w.k;
  w.compute();  // nothing pending: the distribution stays
  c.check(copy.getMean() == w.k.getMean() && copy.getCov() == w.k.getCov(), "computing again without points changed the distribution");
  w.invariants();
}
MC_BODY(fusion_pairs)
{
  CellW a(c), b(c);
  fill(c, a, true);
  a.compute();
  fill(c, b, c.thorough());
  b.compute();
  CellW ab(c), ba(c);
  ab.k = a.k, ab.pending = a.pending;
  ba.k = b.k, ba.pending = b.pending;
  ab.fuse(b);
  ba.fuse(a);
  c.state(ab.hash());
  if (a.k.hasGaussian() && b.k.hasGaussian()) {
    // order does not matter
    c.check(ab.k.points() == ba.k.points(), "fusion order changes the number of points");
    c.check((ab.k.getMean() - ba.k.getMean()).norm() < a.tolOf(a.obs()) + b.tolOf(b.obs()), "fusion order changes the mean");
    c.check((ab.k.getCov() - ba.k.getCov()).norm() < 10 * (ab.tolOf(ab.obs()) + a.tolOf(a.obs())), "fusion order changes the covariance by %g", (ab.k.getCov() - ba.k.getCov()).norm());
  }
  // occupied/free operand
  ab.k.setOccupancy(-1);
  ab.fuse(b);
  c.state(ab.hash());
}
static void op(mc::Ctx &c, CellW *w, int x)
{
  CellW &a = w[x], &b = w[1 - x];
  switch (c.choose(12, "op")) {
  case 0: for (auto &p : pointSet(0, 8, 1, 0.5, 0.5)) a.addPoint(p); break;
  case 1: for (auto &p : pointSet(1, 3, -0.5, 1, 1)) a.addPoint(p); break;
  case 2: for (auto &p : pointSet(4, 30, 2, 2, 2)) a.addPoint(p); break;
  case 3: a.compute(); break;
  case 4: a.fuse(b); break;
  case 5: a.fuse(a); break;
  case 6: a.ray(V3(0, 0, 0), V3(4, 2, 0), 12); break;
  case 7: a.ray(V3(-3, 1, 0), V3(5, 1, 0), 40); break;
  case 8: if (a.pending.empty()) a.transform(0.5, -1, 0, 0.8); break;
  case 9: a.k = b.k; a.pending = b.pending; break;
  case 10: a.k.setOccupancy(100); break;
  case 11: a.k = Cell(); a.pending.clear(); break;
  }
}
MC_BODY(histories)
{
  CellW w[2] = {CellW(c), CellW(c)};
  for (auto &p : pointSet(0, 9, 0, 0, 1))
    w[0].addPoint(p);
  w[0].compute();
  int d = c.thorough() ? 6 : 5;
  for (int i = 0; i < d; ++i) {
    op(c, w, c.choose(2, "cell"));
    if (c.fresh()) {
      w[0].invariants();
      w[1].invariants();
      c.state(mc::mix(w[0].hash(), w[1].hash()));
    }
    c.merge(mc::mix(w[0].hash(), w[1].hash()), d - i);
  }
}
MC_BODY(point_cap)
{
  // doubling by self fusion until far beyond the cap
  CellW w(c);
  int s = c.choose(SHAPES);
  int n = c.pick(std::vector<int>{6, 7, 20});
  for (auto &p : pointSet(s, n, 1, 2, 0.5))
    w.addPoint(p);
  w.compute();
  for (int i = 0; i < 34; ++i) {
    w.fuse(w);
    w.invariants();
    c.state(w.hash());
  }
  CellW o(c);
  for (auto &p : pointSet(0, 10, 5, 5, 1))
    o.addPoint(p);
  o.compute();
  w.fuse(o);
  o.fuse(w);
  o.fuse(w);
  w.invariants();
  o.invariants();
  for (auto &p : pointSet(0, 10, 5, 5, 1))
    w.addPoint(p);
  w.compute();
  w.invariants();
  c.state(w.hash());
}
// grouping: any partition of the points into cells fuses to the same mean and count
MC_BODY(grouping)
{
  int shape = c.choose(SHAPES);
  double off = c.pick(std::vector<double>{0, 5, -80});
  auto pts = pointSet(shape, 24, off, 1, 1);
  int cut1 = 6 + c.choose(7), cut2 = cut1 + 6 + c.choose(24 - 6 - cut1 - 6 + 1);
  CellW p[3] = {CellW(c), CellW(c), CellW(c)}, whole(c);
  for (int i = 0; i < 24; ++i) {
    p[i < cut1 ? 0 : i < cut2 ? 1 : 2].addPoint(pts[i]);
    whole.addPoint(pts[i]);
  }
  for (auto &q : p)
    q.compute();
  whole.compute();
  int perm = c.choose(6);
  static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  CellW r(c);
  bool tree = c.flip("tree");
  const int *q = PERM[perm];
  if (tree) {
    CellW t(c);
    t.fuse(p[q[1]]);
    t.fuse(p[q[2]]);
    r.fuse(p[q[0]]);
    r.fuse(t);
  } else
    for (int i = 0; i < 3; ++i)
      r.fuse(p[q[i]]);
  c.check(r.k.points() == 24, "%zu points after fusing 24", r.k.points());
  c.check((r.k.getMean() - whole.k.getMean()).norm() < 1e-9 * (1 + std::fabs(off)), "mean depends on the grouping");
  r.invariants();
  c.state(r.hash());
}
