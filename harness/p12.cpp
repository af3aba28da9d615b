#include "cell_world.h"
static void op(mc::Ctx &c, CellW &a, const CellW *lib)
{
  switch (c.choose(17, "op")) {
  case 0: for (auto &p : pointSet(0, 6, 1, 0.5, 0.2)) a.addPoint(p); break;
  case 1: a.addPoint(V3(1, 1, 0)); break;
  case 2: for (auto &p : pointSet(1, 40, 1, 0.5, 1)) a.addPoint(p); break;
  case 3: a.compute(); break;
  case 4: a.fuse(lib[0]); break;
  case 5: a.fuse(lib[1]); break;
  case 6: a.fuse(lib[2]); break;
  case 7: a.ray(V3(0, 0, 0), V3(4, 2, 0), 3); break;
  case 8: a.ray(V3(0, 0, 0), V3(4, 2, 0), 100); break;
  case 9: a.ray(V3(0, 0, 0), V3(a.k.getMean() + V3(0.002, -0.003, 0)), 10); break;
  case 10: a.ray(V3(2, 2, 0), V3(2, 2, 0), 10); break;
  case 11: a.ray(V3(0, 9, 0), V3(0.2, 30, 0), 1); break;
  case 12: a.k.setOccupancy(-1); break;
  case 13: a.k.setOccupancy(40); break;
  case 14: if (a.pending.empty()) a.transform(100, -1, 0.5, 2.5, 0.3); break;
  case 15: a.ray(V3(0, 0, 0), V3(2, 1, 0), 0); break;
  case 16: a.k.setOccupancy(1); break;
  }
}
MC_BODY(histories)
{
  CellW lib[3] = {CellW(c), CellW(c), CellW(c)};
  for (auto &p : pointSet(0, 20, 1, 0.6, 0.2))
    lib[0].addPoint(p);
  lib[0].compute();
  for (auto &p : pointSet(3, 7, 0.5, 0.5, 1))
    lib[1].addPoint(p);
  lib[1].compute();
  lib[1].k.setOccupancy(-1);
  lib[2].addPoint(V3(1, 2, 0));
  lib[2].addPoint(V3(1, 2, 0));
  lib[2].compute();
  CellW w(c);
  w.invariants();
  int d = c.thorough() ? 6 : 5;
  for (int i = 0; i < d; ++i) {
    op(c, w, lib);
    if (c.fresh()) {
      w.invariants();
      c.state(w.hash());
    }
    c.merge(w.hash(), d - i);
  }
}
// any ray against any distribution: geometry sweep
MC_BODY(rays)
{
  CellW w(c);
  int s = c.choose(SHAPES, "shape");
  int n = c.pick(std::vector<int>{6, 50, 1000}, "n");
  double sc = c.pick(std::vector<double>{1e-4, 0.2, 1, 30}, "scale");
  double off = c.pick(std::vector<double>{0, 1.3, -400}, "offset");
  for (auto &p : pointSet(s, n, off, off / 2, sc))
    w.addPoint(p);
  w.compute();
  w.invariants();
  Cell base = w.k;
  static const std::vector<V3> D = {V3(0, 0, 0), V3(0.009, 0, 0), V3(0.011, 0, 0), V3(0.004, -0.004, 0), V3(0.3, 0.1, 0), V3(-2, 1, 0), V3(0, 5, 0), V3(40, -40, 0), V3(0.1, 0, 1), V3(-1000, 3, 0)};
  int di = c.choose((int)D.size(), "end");
  for (auto &st : D)
    for (size_t wt : {(size_t)0, (size_t)1, (size_t)5, (size_t)50, (size_t)1000, (size_t)100000})
      for (int occ : {100, 37, 1}) {
        w.k = base;
        w.k.setOccupancy(occ);
        V3 m = w.k.getMean();
        w.ray(m - st * 1.5, m + D[di], wt);
        w.invariants();
        c.state(w.hash());
        w.ray(m + st, m + D[di], wt);
        w.invariants();
      }
}
// closer passes lower the occupancy more
MC_BODY(monotone)
{
  CellW w(c);
  int s = c.choose(SHAPES, "shape");
  for (auto &p : pointSet(s, 30, 2, 1, c.pick(std::vector<double>{0.1, 1, 5})))
    w.addPoint(p);
  w.compute();
  Cell base = w.k;
  double a = c.choose(12) * M_PI / 6;
  V3 dir(cos(a), sin(a), 0), nrm(-sin(a), cos(a), 0);
  int wt = c.pick(std::vector<int>{1, 2, 4});
  double prev = -2;
  for (double d : {0.0, 0.1, 0.3, 0.7, 1.5, 4.0, 12.0, 100.0}) {
    w.k = base;
    w.k.setOccupancy(100);
    V3 m = w.k.getMean();
    w.ray(m + nrm * d - dir * 20, m + nrm * d + dir * 30, wt);
    double o = w.k.getOccupancyRaw();
    c.check(o >= prev - 1e-6, "a ray farther from the mean lowers the occupancy more (%g after %g)", o, prev);
    prev = o;
    c.state(w.hash());
    w.invariants();
  }
}
MC_BODY(integer_occupancy)
{
  CellW w(c);
  int k = c.choose(102) - 1;
  w.k.setOccupancy((int8_t)k);
  c.step();
  int g = w.k.getOccupancy();
  c.check(k < 0 ? g == -1 : std::abs(g - k) <= 1, "occupancy %d reads back as %d", k, g);
  w.invariants();
  // accumulate misses and hits from there
  for (int i = 0; i < 30; ++i) {
    w.ray(V3(0, 0, 0), V3(1, 0, 0), i % 7);
    w.invariants();
  }
  for (int i = 0; i < 12; ++i) {
    w.addPoint(V3(i * 0.1, 1, 0));
    w.compute();
    w.invariants();
    c.state(w.hash());
  }
  for (int i = 0; i < 30; ++i) {
    w.ray(V3(0, 1, 0), V3(4, 1.2, 0), i);
    w.invariants();
    c.state(w.hash());
  }
}
MC_BODY(transforms)
{
  CellW w(c);
  int s = c.choose(SHAPES, "shape");
  for (auto &p : pointSet(s, 12, c.pick(std::vector<double>{0, -3, 700}), 2, c.pick(std::vector<double>{0.01, 1, 20})))
    w.addPoint(p);
  w.compute();
  Obs b = w.obs();
  double x = c.pick(std::vector<double>{0, 1.5, -3000}), yaw = c.choose(17) * M_PI / 4 - 2 * M_PI + (c.flip() ? 0.1 : 0), pitch = c.pick(std::vector<double>{0, 0.4});
  w.transform(x, -x / 2, 0.1, yaw, pitch);
  w.invariants();
  c.state(w.hash());
  // distances measured in units of the distribution are preserved
  Eigen::Matrix3d R = (Eigen::AngleAxisd(yaw, V3::UnitZ()) * Eigen::AngleAxisd(pitch, V3::UnitY())).toRotationMatrix();
  for (V3 d : {V3(1, 0, 0), V3(0, 2, 0), V3(1, -1, 1)}) {
    V3 rd = R * d;
    c.near(rd.dot(w.k.getICov() * rd), d.dot(b.icov * d), 1e-6 * (1 + d.dot(b.icov * d)), "distance in units of the distribution");
  }
  for (int i = 0; i < 8; ++i)
    w.transform(0.1, 0.2, 0, M_PI / 4);
  w.invariants();
  c.state(w.hash());
}
