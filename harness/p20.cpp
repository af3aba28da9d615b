#include "ndt_world.h"

static const std::vector<V3> POSES = {V3(0, 0, 0), V3(0.31, -0.22, 0), V3(0.53, 0.27, M_PI / 2), V3(-0.41, 0.13, 2.1), V3(1.6, 0.4, -2.9)};
static const std::vector<V3> ORIGINS = {V3(0, 0, 0), V3(1.2, -2.1, 0.7), V3(-3, 0.4, -3.0)};

static void single(mc::Ctx &c)
{
  V3 o = c.pick(ORIGINS, "origin");
  double cs = c.pick(std::vector<double>{0.25, 0.5, 0.1}, "cell size");
  bool ctor = c.flip("by constructor");
  NWorld w(c, o, cs, ctor);
  switch (c.choose(3, "before")) {
  case 1: w.enlarge(4, 3, 5, 2); break;
  case 2: w.enlarge(1, 0, 0, 3); w.mergeCloud(scan(1), Rigid(w.r.origin).vec(), false, c.flip("first may grow")); break;
  }
  for (int n = 0; n < 2; ++n) {
    // the quick tier follows the first scan by one of a smaller set
    bool all = n == 0 || c.thorough();
    Rigid from = Rigid(o) * Rigid(POSES[all ? c.choose(5, "pose") : 1 + 2 * c.choose(2, "pose")]);
    bool traced = c.flip("traced"), grow = c.flip("grow");
    static const int FEW[] = {1, 5, 6};
    w.mergeCloud(scan(all ? c.choose(SCANS, "scan") : FEW[c.choose(3, "scan")]), from.vec(), traced, grow);
    w.compare("after a merge");
    c.state(w.hash());
    if (!c.thorough() && (ctor || cs != 0.25))
      break;
  }
}
MC_BODY(scans)
{
  try {
    single(c);
  } catch (Unsure &) {
    c.undecided();
  }
}
static void history(mc::Ctx &c, int depth, bool merged)
{
  V3 o = c.pick(std::vector<V3>{V3(0, 0, 0), V3(1.2, -2.1, 0.7)}, "origin");
  NWorld w(c, o, 0.25, false);
  // a second map to merge from, built the same way
  NWorld m(c, Rigid(Rigid(o) * Rigid(V3(0.3, 0.6, 0.4))).vec(), 0.25, true);
  m.mergeCloud(scan(1), m.r.origin, false, true);
  m.mergeCloud(scan(6), m.r.origin, true, true);
  NWorld empty(c, o, 0.25, true);
  for (int d = 0; d < depth; ++d) {
    if (merged)
      c.merge(w.hash(), depth - d);
    int op = c.choose(20, "op");
    Rigid here(w.r.origin);
    switch (op) {
    case 0: w.init(scan(1), false); break;
    case 1: w.init(scan(5), true); break;
    case 2: w.mergeCloud(scan(0), here.vec(), true, true); break;
    case 3: w.mergeCloud(scan(6), (here * Rigid(POSES[1])).vec(), true, false); break;
    case 4: w.mergeCloud(scan(1), (here * Rigid(POSES[3])).vec(), false, true); break;
    case 5: w.mergeCloud(scan(3), here.vec(), false, false); break;
    case 6: w.mergeMap(m, false, true, true); break;
    case 7: w.mergeMap(m, true, true, false); break;
    case 8: w.mergeMap(m, true, true, true); break;
    case 9: w.mergeMap(m, false, false, true); break;
    case 10: w.mergeMap(m, true, false, true); break;
    case 11: w.mergeMap(m, false, true, false); break;
    case 12: w.mergeMap(empty, true, true, true); break;
    case 13: w.mergeList(NWorld::values(m.r.cells), true); break;
    case 14: w.mergeList(NWorld::values(m.r.cells), false); break;
    case 15: w.enlarge(6, 5, 7, 4); break;
    case 16: w.clear(); break;
    case 17: w.setOrigin((here * Rigid(V3(0.2, 0.1, -0.3))).vec()); break;
    case 18: w.mergeCloud(scan(2), here.vec(), true, false); break;
    case 19: w.mergeCloud(scan(4), here.vec(), true, true); break;
    }
    w.compare("after the operation");
    c.state(w.hash());
    m.compare("map that was merged from");
    empty.compare("empty map that was merged from");
  }
}
MC_BODY(histories)
{
  try {
    history(c, c.thorough() ? 4 : 3, false);
  } catch (Unsure &) {
    c.undecided();
  }
}
MC_BODY(merged_histories)
{
  try {
    history(c, c.thorough() ? 6 : 4, true);
  } catch (Unsure &) {
    c.undecided();
  }
}
// maps are values: copies stay what they were
MC_BODY(copies)
{
  try {
    NWorld w(c, V3(0.5, 0.2, 0), 0.25, c.flip("ctor"));
    w.g->setTimestamp(3.5);
    int n = c.choose(3, "scans before");
    for (int i = 0; i < n; ++i)
      w.mergeCloud(scan(i == 0 ? 1 : 6), w.r.origin, i > 0, true);
    NWorld v(w);
    int how = c.choose(3, "how");
    if (how == 0)
      v.g = w.g->makeShared();
    else if (how == 1)
      v.g.reset(new NGrid(*w.g));
    else {
      v.g.reset(new NGrid(V3(9, 9, 1)));
      v.g->mergeIn(scan(5), V3(9, 9, 1), true);
      *v.g = *w.g;
    }
    c.check(v.g->getTimestamp() == 3.5, "copy has another time");
    v.compare("copy");
    NWorld &a = c.flip("change the copy") ? v : w, &b = &a == &v ? w : v;
    for (int i = 0; i < 2; ++i) {
      switch (c.choose(6, "change")) {
      case 0: a.mergeCloud(scan(5), a.r.origin, true, true); break;
      case 1: a.clear(); break;
      case 2: a.move(Rigid(V3(0.55, -0.3, 0))); break;
      case 3: a.transform(Rigid(V3(0.1, 0.2, 0.5))); break;
      case 4: a.init(scan(0), true); break;
      case 5: a.setOrigin(V3(5, 5, 0)); break;
      }
      a.compare("changed side");
      b.compare("other side");
      // neighbours come from an index of its own
      for (NWorld *k : {&a, &b}) {
        auto q = k->g->getKNearestNeighbors(V2(0.5, 0.5), 1);
        size_t gauss = k->g->getGaussianCells().size();
        c.check(q.size() == std::min<size_t>(gauss, 1), "neighbours after a copy");
        if (!q.empty()) {
          auto all = k->g->getGaussianCells();
          c.check(std::find(all.begin(), all.end(), q[0]) != all.end(), "neighbour belongs to another map");
        }
      }
    }
    c.state(mc::mix(a.hash(), b.hash()));
  } catch (Unsure &) {
    c.undecided();
  }
}
