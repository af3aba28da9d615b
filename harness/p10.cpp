#include "grid_world.h"
// Cells crossed by a ray, against the exact segment.
struct Iv {
  double a, b;
};
// part of the segment (parameter 0..1) inside the cell inflated by eps cells
static bool clip(const GWorld &w, long col, long row, const Pt &s, const Pt &e, double eps, Iv &iv)
{
  double lo = 0, hi = 1;
  double h = (0.5 + eps) * w.r.cs;
  double ctr[2] = {col * w.r.cs, -row * w.r.cs};
  for (int k = 0; k < 2; ++k) {
    double d = e(k) - s(k), p = s(k) - ctr[k];
    if (std::fabs(d) < 1e-300) {
      if (std::fabs(p) > h)
        return false;
      continue;
    }
    double t1 = (-h - p) / d, t2 = (h - p) / d;
    if (t1 > t2)
      std::swap(t1, t2);
    lo = std::max(lo, t1);
    hi = std::min(hi, t2);
  }
  if (lo > hi)
    return false;
  iv = {lo, hi};
  return true;
}
static void trace(mc::Ctx &c, GWorld &w, const Pt &s, const Pt &e, bool from_origin)
{
  c.say("ray (%.9g,%.9g) -> (%.9g,%.9g)", s(0), s(1), e(0), e(1));
  auto res = from_origin ? w.g.rayTrace(e) : w.g.rayTrace(s, e);
  c.step();
  if (!w.g.isInside(s)) {
    c.check(res.empty(), "ray starting outside returned %zu cells", res.size());
    w.checkParams();
    return;
  }
  std::map<const Tok *, RefGrid::RC> where;
  for (long row = -w.r.U; row <= w.r.D; ++row)
    for (long col = -w.r.L; col <= w.r.R; ++col)
      if (Tok *t = w.g.getCellPtr(w.at(col, row)))
        where[t] = RefGrid::RC(row, col);
  c.check(!res.empty(), "ray starting inside returned no cell");
  std::vector<RefGrid::RC> cells;
  for (size_t i = 0; i < res.size(); ++i) {
    c.check(res[i] != nullptr, "null cell returned");
    auto it = where.find(res[i]);
    c.check(it != where.end(), "returned cell %zu is not part of the grid", i);
    cells.push_back(it->second);
    w.r.cells.insert({it->second, {}});  // created on demand, existing content stays
  }
  Iv iv;
  c.check(clip(w, cells[0].second, cells[0].first, s, s, 1e-9, iv), "first cell (col %ld,row %ld) does not hold the start", cells[0].second, cells[0].first);
  std::set<RefGrid::RC> uniq(cells.begin(), cells.end());
  c.check(uniq.size() == cells.size(), "a cell is returned twice");
  double len = std::max(std::fabs(e(0) - s(0)), std::fabs(e(1) - s(1))) / w.r.cs;
  double prev = -1;
  for (size_t i = 0; i < cells.size(); ++i) {
    bool hit = clip(w, cells[i].second, cells[i].first, s, e, 1e-6, iv);
    c.check(hit, "cell (col %ld,row %ld) is not on the ray", cells[i].second, cells[i].first);
    c.check(iv.b + 1e-5 >= prev, "cells are not ordered along the ray");
    prev = iv.a;
    if (i)
      c.check(std::labs(cells[i].first - cells[i - 1].first) <= 1 && std::labs(cells[i].second - cells[i - 1].second) <= 1, "cells (col %ld,row %ld) and (col %ld,row %ld) are not adjacent", cells[i - 1].second, cells[i - 1].first, cells[i].second, cells[i].first);
  }
  // no cell is skipped: a cell the ray crosses for more than half a cell is
  // reported unless it lies within the last cells before the end
  double full = std::floor(len - 1e-4) - 1 - 1e-6;
  for (long row = -w.r.U; row <= w.r.D; ++row)
    for (long col = -w.r.L; col <= w.r.R; ++col)
      if (clip(w, col, row, s, e, -1e-6, iv) && (iv.b - iv.a) * len > 0.5 + 1e-5 && iv.a * len + 0.5 + 1e-5 < full)
        c.check(uniq.count({row, col}) > 0, "cell (col %ld,row %ld) on the ray is missing", col, row);
  if (len >= 2 + 1e-6) {  // the end cell itself belongs to the measurement
    for (auto &k : cells)
      c.check(!clip(w, k.second, k.first, e, e, -1e-6, iv), "end cell returned");
  }
}

static const std::vector<std::vector<long>> SH = {{3, 3, 3, 3}, {0, 0, 6, 6}, {5, 1, 0, 2}};
MC_BODY(all_end_points)
{
  // every start offset inside a cell, every end in a fine lattice, inside and
  // outside of the grid, on empty and populated grids
  static const std::vector<double> F = {0, 0.25, -0.45};
  auto s = c.pick(SH, "shape");
  int pat = c.choose(2);
  long sc = c.choose((int)(s[0] + s[2] + 1)) - s[0], sr = c.choose((int)(s[3] + s[1] + 1)) - s[3];
  double fx = c.pick(F), fy = c.pick(F);
  if (!c.thorough() && ((sc + 9) % 2 || (sr + 9) % 2))
    throw mc::Prune();
  GWorld w(c);
  w.enlarge(s[0], s[1], s[2], s[3]);
  if (pat)
    for (long row = -w.r.U; row <= w.r.D; ++row)
      for (long col = -w.r.L; col <= w.r.R; ++col)
        if ((row * 3 + col) % 2)
          w.add(col, row, true, false);
  Pt st = w.at(sc, sr, fx, fy);
  int step = c.thorough() ? 1 : 2;
  for (long er = -4 * (s[3] + 2); er <= 4 * (s[1] + 2); er += step)
    for (long ec = -4 * (s[0] + 2); ec <= 4 * (s[2] + 2); ec += step) {
      trace(c, w, st, Pt(ec * 0.25 * w.r.cs + 0.003 * w.r.cs, -er * 0.25 * w.r.cs + 0.001 * w.r.cs), false);
    }
  w.checkAll(false);
  c.state(w.r.hash());
}
MC_BODY(fresh_grid)
{
  // each ray alone on a fresh grid: exact creation and counting of cells
  static const std::vector<float> CS = {0.25f, 1.0f, 0.1f, 0.3f};
  GWorld w(c, c.pick(CS));
  auto s = c.pick(SH, "shape");
  w.enlarge(s[0], s[1], s[2], s[3]);
  if (c.flip("clear"))
    w.clear();
  int n = c.thorough() ? 37 : 19;
  int a = c.choose(n), b = c.choose(n);
  double span = 2.0 * (std::max(std::max(s[0], s[1]), std::max(s[2], s[3])) + 1.6) / (n - 1);
  Pt e((a - n / 2) * span * w.r.cs, (b - n / 2) * span * w.r.cs);
  trace(c, w, Pt(0, 0), e, true);
  w.checkAll(false);
  c.state(w.r.hash());
  trace(c, w, w.at(-w.r.L, w.r.D, 0.1, -0.2), e, false);
  w.checkAll(false);
  c.state(w.r.hash());
}
// axis-parallel, diagonal, zero-length, very short and very long rays
MC_BODY(special)
{
  static const std::vector<float> CS = {0.25f, 1.0f, 0.5f, 0.1f};
  static const std::vector<std::pair<double, double>> D = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {-1, 1}, {1, -1}, {-1, -1}, {2, 1}, {-1, 3}, {1, 1e-9}, {1e-9, -1}, {0.7, -0.7000001}};
  static const std::vector<double> LEN = {0, 1e-12, 1e-3, 0.3, 0.49, 0.51, 0.99, 1, 1.01, 1.5, 2, 2.5, 3, 7, 20, 1000, 100000};
  static const std::vector<double> F = {0, 0.49, -0.49, 0.2};
  GWorld w(c, c.pick(CS));
  w.enlarge(c.choose(2) * 12, c.choose(2) * 5, c.choose(2) * 25, c.choose(2) * 9);
  auto d = c.pick(D);
  double len = c.pick(LEN);
  for (double fx : F)
    for (double fy : F) {
      Pt s = w.at(0, 0, fx, fy);
      trace(c, w, s, Pt(s(0) + d.first * len * w.r.cs, s(1) + d.second * len * w.r.cs), false);
    }
  trace(c, w, w.at(-w.r.L, -w.r.U, 0.2, 0.2), w.at(w.r.R, w.r.D, 0.1, 0.1), false);
  trace(c, w, w.at(w.r.R, w.r.D, 0.2, 0.2), w.at(-w.r.L, -w.r.U, 0.1, 0.1), false);
  trace(c, w, w.at(w.r.R + 1, 0), w.at(0, 0), false);
  trace(c, w, w.at(0, w.r.D + 3), w.at(0, -9), false);
  w.checkAll(false);
  c.state(w.r.hash());
}
// rays mixed with edits: content of existing cells survives, counts follow
MC_BODY(histories)
{
  GWorld w(c);
  int d = c.thorough() ? 5 : 4;
  static const std::vector<Pt> E = {Pt(1, 0.3), Pt(-0.6, -0.7), Pt(0.1, 2), Pt(-3, 0)};
  for (int i = 0; i < d; ++i) {
    int k = c.choose(12, "op");
    if (k < 4)
      trace(c, w, Pt(0, 0), E[k], true);
    else if (k == 4)
      trace(c, w, Pt(0.3, -0.3), Pt(-0.8, 0.9), false);
    else if (k == 5)
      w.add(2, -1, true, false);
    else if (k == 6)
      w.add(-2, 2, false, true);
    else if (k == 7)
      w.remove(0, 0);
    else if (k == 8)
      w.remove(1, 0);
    else if (k == 9)
      w.enlarge(3, 2, 4, 3);
    else if (k == 10)
      w.translate(1, -1, true);
    else
      w.clear();
    if (c.fresh()) {
      w.checkAll(false);
      c.state(w.r.hash());
    }
  }
}
