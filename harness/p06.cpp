#include "grid_world.h"

static bool op(mc::Ctx &c, GWorld &w, const std::vector<std::pair<long, long>> &P)
{
  int n = P.size();
  int k = c.choose(4 * n + n + 1 + 4 + 2, "op");
  if (k < 4 * n) {
    auto p = P[k / 4];
    w.add(p.first, p.second, k & 1, k & 2);
    return true;
  }
  k -= 4 * n;
  if (k < n) {
    w.remove(P[k].first, P[k].second);
    return true;
  }
  k -= n;
  switch (k) {
  case 0: w.clear(); break;
  case 1: w.enlarge(1, 0, 0, 0); break;
  case 2: w.enlarge(0, 2, 1, 0); break;
  case 3: w.enlarge(2, 1, 2, 2); break;
  case 4: w.enlarge(0, 0, 0, 1); break;
  case 5: w.remove(9, -9); break;
  default: w.translate(1, -1, false); break;
  }
  return true;
}
MC_BODY(histories)
{
  long before = Tok::live();
  static const std::vector<std::pair<long, long>> P = {{0, 0}, {-1, 0}, {1, -1}, {0, 2}};
  {
    GWorld w(c);
    w.checkAll();
    int d = c.thorough() ? 5 : 4;
    for (int i = 0; i < d; ++i) {
      op(c, w, P);
      if (c.fresh()) {
        w.checkAll();
        c.state(w.r.hash());
      }
    }
  }
  c.check(Tok::live() == before, "cells leaked or destroyed twice: %ld", Tok::live() - before);
}
MC_BODY(merged_histories)
{
  static const std::vector<std::pair<long, long>> P = {{0, 0}, {-1, -1}, {1, 0}};
  GWorld w(c);
  int d = c.thorough() ? 9 : 7;
  for (int i = 0; i < d; ++i) {
    op(c, w, P);
    if (w.r.L + w.r.R > 5 || w.r.U + w.r.D > 5)
      throw mc::Prune();
    for (auto &k : w.r.cells)
      if (k.second.size() > 2)
        throw mc::Prune();
    if (c.fresh()) {
      w.checkAll(false);
      c.state(w.r.hash());
    }
    c.merge(w.r.hash(), d - i);
  }
}
// growing a populated grid in every direction by every amount, twice
MC_BODY(growth)
{
  static const std::vector<long> S = {0, 1, 2, 5}, S2 = {0, 1, 3, 8};
  static const std::vector<float> CS = {0.25f, 1.0f, 0.1f, 0.3f};
  float cs = c.pick(CS, "cell size");
  GWorld w(c, cs);
  w.enlarge(c.pick(S), c.pick(S), c.pick(S), c.pick(S));
  // fill a pattern
  int pat = c.choose(3, "pattern");
  for (long row = -w.r.U; row <= w.r.D; ++row)
    for (long col = -w.r.L; col <= w.r.R; ++col)
      if (pat == 0 || (pat == 1 && (row * 3 + col) % 2 == 0) || (pat == 2 && (row == w.r.D || col == -w.r.L)))
        w.add(col, row, true, false, 0.3, -0.3);
  w.checkAll(false);
  c.state(w.r.hash());
  long s1 = c.pick(S2), s2 = c.pick(S2);
  if (c.thorough())
    w.enlarge(s1, s2, c.pick(S2), c.pick(S2));
  else
    w.enlarge(s1, s2, s2, s1);
  w.checkAll(false);
  w.add(w.r.R + 1, -w.r.U - 1, true, true);
  w.add(-w.r.L - 2, w.r.D + 1, false, true);
  w.remove(0, 0);
  w.checkAll(false);
  c.state(w.r.hash());
}
// far and lopsided insertions in every order
MC_BODY(far)
{
  static const std::vector<std::pair<long, long>> P = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}, {33, 0}, {-33, 0}, {0, 33}, {0, -33}, {7, 7}, {-7, 7}, {7, -7}, {-7, -7}, {-40, 3}, {3, 40}};
  static const std::vector<float> CS = {0.25f, 0.5f, 2.0f, 0.1f, 0.3f, 1.7f};
  float cs = c.pick(CS, "cell size");
  if (!c.thorough() && cs == 1.7f)
    throw mc::Prune();
  GWorld w(c, cs);
  for (int i = 0; i < 3; ++i) {
    auto p = c.pick(P, "cell");
    w.add(p.first, p.second, true, i == 1, i == 2 ? 0.45 : -0.4, i == 0 ? 0.45 : -0.45);
    if (c.fresh() && i == 2) {
      w.checkAll(false);
      c.state(w.r.hash());
    }
  }
  auto p = P[(c.prefix_[1] * 2 + c.prefix_[3]) % P.size()];
  w.remove(p.first, p.second);
  w.checkParams();
}
// points exactly on cell borders (power-of-two sizes keep them exact) and one
// ulp away: the inserted cell is where lookups find it and the extent follows
MC_BODY(borders)
{
  static const std::vector<float> CS = {0.25f, 1.0f, 0.0625f, 4.0f};
  float cs = c.pick(CS);
  int pre = c.choose(3, "pre");
  long hx = c.choose(15) - 7, hy = c.choose(15) - 7;  // half cells
  int nx = c.choose(3) - 1, ny = c.choose(3) - 1;     // ulp nudges
  double x = hx * 0.5 * cs, y = hy * 0.5 * cs;
  if (nx)
    x = std::nextafter(x, nx * 1e9);
  if (ny)
    y = std::nextafter(y, ny * 1e9);
  if (std::fabs(x) < 1e-300)
    x = 0;
  if (std::fabs(y) < 1e-300)
    y = 0;
  long double fx = ((long double)x + cs / 2) / cs, fy = (-(long double)y + cs / 2) / cs;
  // one ulp below a border may round onto it in the shifted coordinate
  double dx = x + cs / 2, dy = -y + cs / 2;
  if ((long double)dx != (long double)x + cs / 2 || (long double)dy != -(long double)y + cs / 2)
    ;  // rounding: the cell is then the one the rounded coordinate falls in
  long col = (long)std::floor(dx / cs), row = (long)std::floor(dy / cs);
  (void)fx;
  (void)fy;
  GWorld w(c, cs);
  if (pre == 1)
    w.enlarge(2, 2, 2, 2);
  if (pre == 2)
    w.add(1, -1, true, false);
  Pt p(x, y);
  Tok t(5);
  c.say("add at (%.17g,%.17g), cell size %g", x, y, cs);
  w.g.addCell(p, t, false);
  w.r.fit(col, row);
  w.r.cells[{row, col}] = {5};
  c.step();
  w.checkCellAt(p, col, row);
  w.checkAll(true);
  c.state(w.r.hash());
  c.check(w.g.removeCell(p), "cell added on a border cannot be removed");
  w.r.cells.erase({row, col});
  w.checkAll(false);
}
// textual dump shows the cells row by row
MC_BODY(dump)
{
  GWorld w(c);
  w.enlarge(c.choose(3), c.choose(3), c.choose(3), c.choose(3));
  for (int i = 0; i < 2; ++i)
    w.add(c.choose((int)(w.r.L + w.r.R + 1)) - w.r.L, c.choose((int)(w.r.U + w.r.D + 1)) - w.r.U, true, false);
  std::ostringstream os;
  os << w.g;
  std::ostringstream ref;
  for (long row = -w.r.U; row <= w.r.D; ++row) {
    if (row != -w.r.U)
      ref << "\n";
    for (long col = -w.r.L; col <= w.r.R; ++col) {
      auto it = w.r.cells.find({row, col});
      std::string s = it == w.r.cells.end() ? "NULL" : it->second.empty() ? "e" : std::to_string(it->second.back());
      ref << std::setw(5) << s;
    }
  }
  c.check(os.str() == ref.str(), "dump differs:\n%s\nexpected\n%s", os.str().c_str(), ref.str().c_str());
  c.step();
  c.state(w.r.hash());
}
