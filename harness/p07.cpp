#include "grid_world.h"
// Copies are equal and independent, moves transfer, whatever was done before
// and after.
static void build(mc::Ctx &c, GWorld &w, int d)
{
  for (int i = 0; i < d; ++i)
    switch (c.choose(9, "build")) {
    case 0: w.add(0, 0, true, false); break;
    case 1: w.add(-1, 1, true, false); break;
    case 2: w.add(2, 0, true, false); break;
    case 3: w.remove(0, 0); break;
    case 4: w.enlarge(1, 0, 2, 1); break;
    case 5: w.clear(); break;
    case 6: w.translate(1, 1, false); break;
    case 7: w.translate(-1, 0, true); break;
    case 8: w.add(0, -6, true, true); break;
    }
}
static void mutate(mc::Ctx &c, GWorld &w)
{
  switch (c.choose(8, "mutate")) {
  case 0: w.add(0, 0, true, false); break;
  case 1: w.add(-1, 1, false, false); break;
  case 2: w.remove(-1, 1); break;
  case 3: w.clear(); break;
  case 4: w.enlarge(3, 3, 3, 3); break;
  case 5: w.translate(0, -1, true); break;
  case 6: w.remove(0, 0); break;
  case 7: w.add(5, 5, true, true); break;
  }
}
MC_BODY(copies)
{
  long before = Tok::live();
  {
    static const std::vector<float> CS = {0.25f, 1.0f, 0.1f};
    float cs = c.pick(CS, "cell size");
    GWorld w(c, cs);
    build(c, w, c.thorough() ? 4 : 3);
    int how = c.choose(6, "how");
    Grid other;
    GWorld tmp(c, 2.0f);
    tmp.add(3, -3, true, false);
    tmp.add(0, 0, false, false);
    c.say("copy variant %d", how);
    if (how == 0) {  // copy constructor
      Grid k(w.g);
      other = std::move(k);
    } else if (how == 1)  // copy assignment to a fresh grid
      other = w.g;
    else if (how == 2) {  // copy assignment over a populated grid
      tmp.g = w.g;
      other = std::move(tmp.g);
    } else if (how == 3) {  // self assignment
      Grid &alias = w.g;
      w.g = alias;
      other = w.g;
    } else if (how == 4) {  // copy of a copy, first copy dies
      Grid *k = new Grid(w.g);
      other = *k;
      delete k;
    } else {  // moved through a vector that reallocates
      std::vector<Grid> v;
      v.push_back(w.g);
      v.push_back(tmp.g);
      v.push_back(v[0]);
      v.push_back(v[1]);
      v.push_back(v[2]);
      other = std::move(v[4]);
    }
    c.step();
    GWorld o(c, std::move(other), w.r, w.tag + 1000);
    o.checkAll(false);
    w.checkAll(false);
    bool first = c.flip("mutate which");
    mutate(c, first ? w : o);
    w.checkAll(false);
    o.checkAll(false);
    c.state(mc::mix(w.r.hash(), o.r.hash()));
    mutate(c, first ? o : w);
    w.checkAll(false);
    o.checkAll(false);
    c.state(mc::mix(w.r.hash(), o.r.hash()));
  }
  c.check(Tok::live() == before, "cells leaked or destroyed twice: %ld", Tok::live() - before);
}
// the original dies first; chain of copies
MC_BODY(lifetime)
{
  long before = Tok::live();
  {
    std::unique_ptr<GWorld> w(new GWorld(c, 0.5f));
    build(c, *w, 2);
    int n = 1 + c.choose(3, "chain");
    std::vector<std::unique_ptr<GWorld>> chain;
    for (int i = 0; i < n; ++i) {
      GWorld &src = i ? *chain.back() : *w;
      chain.emplace_back(new GWorld(c, Grid(src.g), src.r, src.tag + 100));
      chain.back()->add(i, -i, true, false);
    }
    w.reset();
    for (auto &k : chain) {
      k->checkAll(false);
      c.state(k->r.hash());
    }
    int kill = c.choose(n, "kill");
    chain.erase(chain.begin() + kill);
    for (auto &k : chain) {
      mutate(c, *k);
      k->checkAll(false);
    }
  }
  c.check(Tok::live() == before, "cells leaked or destroyed twice: %ld", Tok::live() - before);
}
// clone starts a grid of its own with the same resolution
MC_BODY(clone)
{
  static const std::vector<float> CS = {0.25f, 1.0f, 0.1f, 3.0f};
  GWorld w(c, c.pick(CS));
  build(c, w, c.thorough() ? 4 : 3);
  RefGrid fresh;
  fresh.cs = w.r.cs;
  GWorld k(c, w.g.clone(), fresh, 500);
  c.step();
  k.checkAll(false);
  mutate(c, k);
  k.checkAll(false);
  w.checkAll(false);
  c.state(mc::mix(w.r.hash(), k.r.hash()));
}
