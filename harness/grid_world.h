// Real voxel grid driven next to a reference: a map from cell numbers to
// contents plus the extent in each direction.
#pragma once
#include "mc.h"
#include <ndt_gslam/ndt/voxel_grid2d.h>

struct Tok {
  std::vector<int> v;  // order sensitive content
  static long &live()
  {
    static long n = 0;
    return n;
  }
  Tok()
  {
    ++live();
  }
  explicit Tok(int i) : v(1, i)
  {
    ++live();
  }
  Tok(const Tok &o) : v(o.v)
  {
    ++live();
  }
  Tok(Tok &&o) : v(std::move(o.v))
  {
    o.v.assign(1, -77);
    ++live();
  }
  Tok &operator=(const Tok &) = default;
  Tok &operator=(Tok &&o)
  {
    v = o.v;
    if (&o != this)
      o.v.assign(1, -78);
    return *this;
  }
  Tok &operator+=(const Tok &o)
  {
    std::vector<int> a(o.v);
    v.insert(v.end(), a.begin(), a.end());
    return *this;
  }
  ~Tok()
  {
    --live();
  }
};
inline std::ostream &operator<<(std::ostream &os, const Tok &t)
{
  return os << (t.v.empty() ? std::string("e") : std::to_string(t.v.back()));
}

typedef slamuk::VoxelGrid2D<Tok> Grid;
typedef Eigen::Vector2d Pt;

struct RefGrid {
  double cs = 0.25;
  long L = 0, R = 0, U = 0, D = 0;
  typedef std::pair<long, long> RC;  // row (down), column (right)
  std::map<RC, std::vector<int>> cells;
  RefGrid()
  {
    cells[RC(0, 0)] = {};
  }
  bool in(long col, long row) const
  {
    return col >= -L && col <= R && row >= -U && row <= D;
  }
  void fit(long col, long row)
  {
    L = std::max(L, -col);
    R = std::max(R, col);
    U = std::max(U, -row);
    D = std::max(D, row);
  }
  uint64_t hash() const
  {
    mc::Hash h;
    h.addi(L).addi(R).addi(U).addi(D).addd(cs);
    for (auto &c : cells) {
      h.addi(c.first.first).addi(c.first.second).add(c.second.size());
    }
    return h.h;
  }
};

struct GWorld {
  mc::Ctx &c;
  Grid g;
  RefGrid r;
  int tag = 1;
  explicit GWorld(mc::Ctx &ctx, float cs = 0.25f) : c(ctx)
  {
    if (cs != 0.25f)
      g.setCellSize(cs);
    r.cs = cs;
  }
  GWorld(mc::Ctx &ctx, Grid &&grid, const RefGrid &ref, int t) : c(ctx), g(std::move(grid)), r(ref), tag(t)
  {
  }
  // point inside cell (col,row); fx, fy in (-0.5,0.5) from its centre
  Pt at(long col, long row, double fx = 0, double fy = 0) const
  {
    return Pt((col + fx) * r.cs, -(row + fy) * r.cs);
  }
  void add(long col, long row, bool merging, bool rvalue, double fx = 0, double fy = 0)
  {
    int t = tag++;
    c.say("add #%d to cell (col %ld,row %ld)%s%s", t, col, row, merging ? " merging" : " replacing", rvalue ? " moved" : "");
    Tok tok(t);
    if (rvalue)
      g.addCell(at(col, row, fx, fy), std::move(tok), merging);
    else {
      const Tok &k = tok;
      g.addCell(at(col, row, fx, fy), k, merging);
      c.check(tok.v == std::vector<int>(1, t), "adding by reference changed the argument");
    }
    c.step();
    r.fit(col, row);
    auto it = r.cells.find({row, col});
    if (it == r.cells.end() || !merging)
      r.cells[{row, col}] = {t};
    else
      it->second.push_back(t);
  }
  void remove(long col, long row, double fx = 0, double fy = 0)
  {
    c.say("remove cell (col %ld,row %ld)", col, row);
    bool had = r.cells.count({row, col}) > 0;
    bool res = g.removeCell(at(col, row, fx, fy));
    c.step();
    c.check(res == had, "removeCell(col %ld,row %ld) returned %d, cell %s", col, row, (int)res, had ? "existed" : "did not exist");
    r.cells.erase({row, col});
  }
  void clear()
  {
    c.say("clear");
    g.clear();
    c.step();
    r.cells.clear();
  }
  // extents in cells
  void enlarge(long l, long d, long rr, long u)
  {
    c.say("enlarge left %ld down %ld right %ld up %ld", l, d, rr, u);
    g.enlarge((float)(-l * r.cs), (float)(-d * r.cs), (float)(rr * r.cs), (float)(u * r.cs));
    c.step();
    r.L = std::max(r.L, l);
    r.R = std::max(r.R, rr);
    r.U = std::max(r.U, u);
    r.D = std::max(r.D, d);
  }
  void translate(long x, long y, bool discard)
  {
    c.say("translate (%ld,%ld) %s", x, y, discard ? "discard" : "grow");
    g.translate(Eigen::Vector2i((int)x, (int)y), discard);
    c.step();
    if (!discard) {
      if (x < 0)
        r.L += -x;
      else
        r.R += x;
      if (y < 0)
        r.D += -y;
      else
        r.U += y;
    }
    std::map<RefGrid::RC, std::vector<int>> m;
    for (auto &cc : r.cells) {
      long row = cc.first.first - y, col = cc.first.second + x;
      if (r.in(col, row))
        m[{row, col}] = cc.second;
    }
    r.cells.swap(m);
  }
  void checkCellAt(const Pt &p, long col, long row)
  {
    bool in = r.in(col, row);
    c.check(g.isInside(p) == in, "point (%.9g,%.9g) of cell (col %ld,row %ld): inside=%d, expected %d", p(0), p(1), col, row, (int)g.isInside(p), (int)in);
    auto it = r.cells.find({row, col});
    bool ex = it != r.cells.end();
    c.check(g.cellExists(p) == ex, "point (%.9g,%.9g) of cell (col %ld,row %ld): exists=%d, expected %d", p(0), p(1), col, row, (int)g.cellExists(p), (int)ex);
    if (!in)
      return;
    Tok *t = g.getCellPtr(p);
    c.check((t != nullptr) == ex, "cell pointer of (col %ld,row %ld) is %s", col, row, t ? "set" : "null");
    if (ex) {
      c.check(t->v == it->second, "content of cell (col %ld,row %ld): %zu items, last %d; expected %zu, last %d", col, row, t->v.size(), t->v.empty() ? 0 : t->v.back(), it->second.size(), it->second.empty() ? 0 : it->second.back());
      c.check(&g[p] == t, "operator[] of cell (col %ld,row %ld) is another object", col, row);
    }
    auto ce = g.getCentroid(p);
    c.check(std::fabs(ce.first - col * r.cs) < 1e-5 * (1 + std::labs(col)) && std::fabs(ce.second + row * r.cs) < 1e-5 * (1 + std::labs(row)), "centroid of cell (col %ld,row %ld) is (%g,%g)", col, row, ce.first, ce.second);
  }
  void checkParams()
  {
    c.check(g.left() == (size_t)r.L && g.right() == (size_t)r.R && g.up() == (size_t)r.U && g.down() == (size_t)r.D, "extent l%zu r%zu u%zu d%zu, expected l%ld r%ld u%ld d%ld", g.left(), g.right(), g.up(), g.down(), r.L, r.R, r.U, r.D);
    c.check(g.width() == (size_t)(r.L + r.R + 1) && g.height() == (size_t)(r.U + r.D + 1), "width/height");
    c.check(g.getCellSize() == (float)r.cs, "cell size");
    c.check(g.validCells() == r.cells.size(), "validCells %zu, expected %zu", g.validCells(), r.cells.size());
  }
  void checkListing()
  {
    auto vp = g.getValidCellsPtr();
    auto vv = g.getValidCells();
    c.check(vp.size() == r.cells.size() && vv.size() == r.cells.size(), "%zu/%zu cells listed, expected %zu", vp.size(), vv.size(), r.cells.size());
    size_t i = 0;
    for (auto &k : r.cells) {  // row-major, top left first
      c.check(vp[i]->v == k.second && vv[i].v == k.second, "listed cell %zu has wrong content", i);
      ++i;
    }
    c.check((size_t)std::distance(g.begin(), g.end()) == g.width() * g.height(), "iteration length");
    const Grid &cg = g;
    auto it = g.begin();
    auto ct = cg.cbegin();
    auto ct2 = cg.begin();
    auto k = r.cells.begin();
    for (long row = -r.U; row <= r.D; ++row)
      for (long col = -r.L; col <= r.R; ++col, ++it, ++ct, ++ct2) {
        bool ex = k != r.cells.end() && k->first == RefGrid::RC(row, col);
        c.check((it->get() != nullptr) == ex, "iteration: cell (col %ld,row %ld) %s", col, row, ex ? "missing" : "should be empty");
        c.check(ct->get() == it->get() && ct2->get() == it->get(), "const iteration differs");
        if (ex) {
          c.check((*it)->v == k->second, "iteration: content of (col %ld,row %ld)", col, row);
          ++k;
        }
      }
    c.check(it == g.end() && ct == cg.cend() && ct2 == cg.end(), "iteration end");
  }
  void checkAll(bool dense = true)
  {
    checkParams();
    checkListing();
    for (long row = -r.U - 2; row <= r.D + 2; ++row)
      for (long col = -r.L - 2; col <= r.R + 2; ++col) {
        checkCellAt(at(col, row), col, row);
        if (dense) {
          checkCellAt(at(col, row, 0.47, -0.47), col, row);
          checkCellAt(at(col, row, -0.47, 0.47), col, row);
        }
      }
    for (long k : {1000L, 100000000L}) {
      checkCellAt(at(k, 0), k, 0);
      checkCellAt(at(-k, 0), -k, 0);
      checkCellAt(at(0, k), 0, k);
      checkCellAt(at(0, -k), 0, -k);
    }
  }
};
