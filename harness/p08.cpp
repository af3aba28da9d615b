#include "grid_world.h"
// window query against a plain double loop
static void query(mc::Ctx &c, GWorld &w, long col, long row, size_t rad, double fx, double fy)
{
  auto res = w.g.getNeighbors(w.at(col, row, fx, fy), rad);
  c.step();
  std::vector<RefGrid::RC> exp;
  if (w.r.in(col, row))
    for (auto &k : w.r.cells) {
      long dr = std::labs(k.first.first - row), dc = std::labs(k.first.second - col);
      if ((size_t)dr <= rad && (size_t)dc <= rad)
        exp.push_back(k.first);
    }
  c.check(res.size() == exp.size(), "window of radius %zu around (col %ld,row %ld): %zu cells, expected %zu", rad, col, row, res.size(), exp.size());
  for (size_t i = 0; i < exp.size(); ++i)
    c.check(res[i] == w.g.getCellPtr(w.at(exp[i].second, exp[i].first)), "window of radius %zu around (col %ld,row %ld): element %zu is not cell (col %ld,row %ld)", rad, col, row, i, exp[i].second, exp[i].first);
}
static void all_queries(mc::Ctx &c, GWorld &w)
{
  static const std::vector<size_t> R = {0, 1, 2, 3, 4, 7, 100, 1000000};
  for (long row = -w.r.U - 1; row <= w.r.D + 1; ++row)
    for (long col = -w.r.L - 1; col <= w.r.R + 1; ++col)
      for (size_t r : R)
        query(c, w, col, row, r, 0.4, -0.4);
}
MC_BODY(all_occupancies_small)
{
  // every subset of occupied cells of small grids of every shape
  static const std::vector<std::vector<long>> S = {{0, 0, 0, 0}, {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {1, 1, 0, 0}, {0, 0, 1, 1}, {1, 0, 1, 0}, {0, 1, 0, 1}, {2, 1, 0, 0}, {0, 2, 1, 0}, {1, 1, 1, 0}, {0, 1, 1, 1}, {1, 1, 1, 1}};
  auto s = c.pick(S, "shape");
  GWorld w(c);
  w.enlarge(s[0], s[1], s[2], s[3]);
  w.clear();
  for (long row = -w.r.U; row <= w.r.D; ++row)
    for (long col = -w.r.L; col <= w.r.R; ++col)
      if (c.flip("occupied"))
        w.add(col, row, false, false);
  all_queries(c, w);
  c.state(w.r.hash());
}
MC_BODY(shapes)
{
  static const std::vector<long> E = {0, 1, 2, 4, 9};
  static const std::vector<float> CS = {0.25f, 1.0f, 0.1f};
  GWorld w(c, c.pick(CS));
  w.enlarge(c.pick(E), c.pick(E), c.pick(E), c.pick(E));
  int pat = c.choose(c.thorough() ? 5 : 3, "pattern");
  for (long row = -w.r.U; row <= w.r.D; ++row)
    for (long col = -w.r.L; col <= w.r.R; ++col)
      if (pat == 0 || (pat == 1 && (row + col) % 2 == 0) || (pat == 2 && (row * 5 + col * 3) % 7 < 2) || (pat == 3 && row == col) || (pat == 4 && (row == -w.r.U || col == w.r.R)))
        w.add(col, row, true, false);
      else
        w.remove(col, row);
  static const std::vector<size_t> R = {0, 1, 2, 3, 5, 20};
  for (long row = -w.r.U - 1; row <= w.r.D + 1; ++row)
    for (long col = -w.r.L - 1; col <= w.r.R + 1; ++col)
      for (size_t r : R)
        if ((size_t)(w.r.L + w.r.R) * (w.r.U + w.r.D) < 60 || r < 3 || (row + col) % 3 == 0)
          query(c, w, col, row, r, -0.3, 0.45);
  c.state(w.r.hash());
}
// after histories that grew, shifted and thinned the grid
MC_BODY(histories)
{
  GWorld w(c);
  int d = c.thorough() ? 6 : 4;
  for (int i = 0; i < d; ++i) {
    switch (c.choose(9, "op")) {
    case 0: w.add(1, 0, true, false); break;
    case 1: w.add(-2, 1, true, false); break;
    case 2: w.add(0, -2, true, false); break;
    case 3: w.remove(0, 0); break;
    case 4: w.remove(1, 0); break;
    case 5: w.translate(1, 0, true); break;
    case 6: w.translate(-1, 2, false); break;
    case 7: w.enlarge(1, 2, 3, 0); break;
    case 8: w.clear(); break;
    }
    if (c.fresh()) {
      all_queries(c, w);
      c.state(w.r.hash());
    }
  }
}
