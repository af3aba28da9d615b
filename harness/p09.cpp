#include "grid_world.h"
static void fill(GWorld &w, int pat)
{
  for (long row = -w.r.U; row <= w.r.D; ++row)
    for (long col = -w.r.L; col <= w.r.R; ++col)
      if (pat == 0 || (pat == 1 && (row * 3 + col) % 2 == 0) || (pat == 2 && (row == w.r.D || col == -w.r.L)) || (pat == 3 && (row == -w.r.U || col == w.r.R)))
        w.add(col, row, true, false);
      else
        w.remove(col, row);
}
// one move of every size and direction on grids of every shape
MC_BODY(single)
{
  static const std::vector<long> E = {0, 1, 2, 3}, EL = {0, 4};
  GWorld w(c, c.flip("unit cells") ? 1.0f : 0.25f);
  w.enlarge(c.pick(E), c.pick(c.thorough() ? E : EL), c.pick(c.thorough() ? E : EL), c.pick(E));
  fill(w, c.choose(4, "pattern"));
  bool discard = c.flip("discard");
  static const std::vector<long> M = {0, 1, -1, 2, -2, 3, -3, 5, -5, 8, -8, 100, -100};
  static const std::vector<long> MG = {0, 1, -1, 2, -2, 3, -3, 5, -5, 12, -12};
  long x = c.pick(discard ? M : MG, "x"), y = c.pick(discard ? M : MG, "y");
  w.translate(x, y, discard);
  w.checkAll(false);
  c.state(w.r.hash());
}
// sequences of moves mixed with edits
MC_BODY(sequences)
{
  long before = Tok::live();
  {
    GWorld w(c);
    w.enlarge(1, 1, 2, 0);
    fill(w, 0);
    int d = c.thorough() ? 6 : 5;
    static const std::vector<Eigen::Vector2i> M = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {2, -1}, {-3, 2}};
    for (int i = 0; i < d; ++i) {
      int k = c.choose(c.thorough() ? 15 : 13, "op");
      if (k < 6)
        w.translate(M[k](0), M[k](1), true);
      else if (k < 10)
        w.translate(M[k == 9 ? 5 : k - 6](0), M[k == 9 ? 5 : k - 6](1), false);
      else if (k == 10)
        w.add(1, 1, true, false);
      else if (k == 11)
        w.remove(0, 0);
      else if (k == 12)
        w.add(-w.r.L, -w.r.U, false, true);
      else if (k == 13)
        w.enlarge(3, 0, 0, 2);
      else
        w.add(w.r.R + 1, w.r.D, true, false);
      if (c.fresh()) {
        w.checkAll(false);
        c.state(w.r.hash());
      }
    }
  }
  c.check(Tok::live() == before, "cells leaked or destroyed twice: %ld", Tok::live() - before);
}
// growing moves and back restore every cell; many small moves equal one move
MC_BODY(there_and_back)
{
  GWorld w(c);
  static const std::vector<long> E = {0, 2, 5};
  w.enlarge(c.pick(E), c.pick(E), c.pick(E), c.pick(E));
  fill(w, c.choose(4));
  long x = c.choose(9) - 4, y = c.choose(9) - 4;
  std::map<RefGrid::RC, std::vector<int>> orig = w.r.cells;
  w.translate(x, y, false);
  w.checkAll(false);
  w.translate(-x, -y, c.flip("discard"));
  w.checkAll(false);
  c.check(w.r.cells == orig, "reference");
  c.state(w.r.hash());
  int n = c.choose(3);
  for (int i = 0; i < n * 4; ++i)
    w.translate(i % 2, -1, true);
  w.checkAll(false);
  c.state(w.r.hash());
}
