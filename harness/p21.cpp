#include "ndt_world.h"

static const std::vector<V3> STEPS = {V3(0.55, -0.3, 0), V3(-0.24, 0.1, 0.3), V3(-0.8, 0.26, 0), V3(0, 0.25, 0), V3(-0.25, -0.5, -1.2), V3(2.1, 0.3, 0), V3(-9, 12, 0.1), V3(0, -0.77, 2)};
static const std::vector<V3> TURNS = {V3(0, 0, 0), V3(0.1, 0.2, 0.5), V3(0.5, -0.25, 0), V3(0, 0, M_PI / 2), V3(-1.3, 0.4, -2.2), V3(0, 0, M_PI)};

static void op(mc::Ctx &c, NWorld &w, int k)
{
  int n = (int)STEPS.size(), m = (int)TURNS.size();
  if (k < n)
    return w.move(Rigid(STEPS[k]));
  k -= n;
  if (k < m)
    return w.transform(Rigid(TURNS[k]));
  k -= m;
  Rigid here(w.r.origin);
  switch (k) {
  case 0: w.mergeCloud(scan(1), here.vec(), true, true); break;
  case 1: w.mergeCloud(scan(6), (here * Rigid(V3(0.3, -0.2, 1))).vec(), true, false); break;
  case 2: w.clear(); break;
  }
}
static const int OPS = 8 + 6 + 3;
static void history(mc::Ctx &c, int depth, bool merged)
{
  V3 o = c.pick(std::vector<V3>{V3(0, 0, 0), V3(1.2, -2.1, 0), V3(-3, 0.4, -3.0)}, "origin");
  double cs = c.pick(std::vector<double>{0.25, 0.5}, "cell size");
  NWorld w(c, o, cs, c.flip("by constructor"));
  switch (c.choose(3, "content")) {
  case 1: w.enlarge(6, 6, 6, 6); w.mergeCloud(scan(1), o, true, true); break;
  case 2: w.mergeCloud(scan(5), o, false, true); w.mergeCloud(scan(1), o, true, true); break;
  }
  w.compare("at first");
  for (int d = 0; d < depth; ++d) {
    if (merged)
      c.merge(w.hash(), depth - d);
    op(c, w, c.choose(OPS, "op"));
    w.compare("after the operation");
    c.state(w.hash());
  }
}
MC_BODY(histories)
{
  try {
    history(c, c.thorough() ? 3 : 2, false);
  } catch (Unsure &) {
    c.undecided();
  }
}
MC_BODY(merged_histories)
{
  try {
    history(c, c.thorough() ? 5 : 3, true);
  } catch (Unsure &) {
    c.undecided();
  }
}
// every single move on a lattice, from content at every place
MC_BODY(moves)
{
  try {
    double cs = c.pick(std::vector<double>{0.25, 0.5, 0.1}, "cell size");
    NWorld w(c, V3(0.4, -0.2, 0), cs, true);
    w.enlarge(3, 2, 4, 5);
    w.mergeCloud(scan(1), w.r.origin, true, true);
    w.mergeCloud(scan(5), w.r.origin, false, true);
    int s = c.thorough() ? 21 : 11;
    double step = c.thorough() ? 0.31 : 0.62;
    double x = (c.choose(s, "x") - s / 2) * step * cs, y = (c.choose(s, "y") - s / 2) * step * cs;
    double a = c.pick(std::vector<double>{0, 0.7}, "angle");
    w.move(Rigid(V3(x, y, a)));
    w.compare("after a move");
    c.state(w.hash());
    // the part that was left over adds to the next one
    w.move(Rigid(V3(-x, -y, 0)));
    w.compare("after moving back");
  } catch (Unsure &) {
    c.undecided();
  }
}
// what is in the world stays where it was while it remains inside
MC_BODY(world_means)
{
  try {
    NWorld w(c, V3(0.4, -0.2, 0), 0.25, true);
    w.enlarge(40, 40, 40, 40);
    w.mergeCloud(scan(c.pick(std::vector<int>{0, 1, 3, 5, 6}, "scan")), V3(0.6, 0.1, c.pick(std::vector<double>{0, 1.1, -2.8}, "heading")), c.flip("traced"), true);
    auto before = w.g->getMeansTransformed();
    V3 total = V3::Zero();
    for (int i = 0; i < 3; ++i) {
      V3 t = STEPS[c.choose(6, "move")];
      t(2) = 0;
      total += t;
      w.move(Rigid(t));
    }
    auto after = w.g->getMeansTransformed();
    c.check(before->size() == after->size(), "%zu means became %zu", before->size(), after->size());
    for (size_t i = 0; i < before->size(); ++i)
      c.check(std::fabs((*before)[i].x - (*after)[i].x) + std::fabs((*before)[i].y - (*after)[i].y) < 1e-4, "mean %zu moved in the world from (%g,%g) to (%g,%g)", i, (*before)[i].x, (*before)[i].y, (*after)[i].x, (*after)[i].y);
  } catch (Unsure &) {
    c.undecided();
  }
}
