#include "mc.h"
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
// Switch variable under every history of optimizer operations.
struct W {
  mc::Ctx &c;
  VertexSwitchLinear v;
  double x = 0;
  std::vector<double> st;
  void check(const char *what)
  {
    c.check(std::fabs(v.estimate() - x) < 1e-12, "%s: value %.12g, expected %.12g", what, v.estimate(), x);
    c.check(v.x() == v.estimate(), "%s: two different values %g and %g", what, v.x(), v.estimate());
    c.check(v.gradient() == 1, "gradient");
    c.check((size_t)v.stackSize() == st.size(), "%s: stack of %d, expected %zu", what, v.stackSize(), st.size());
  }
};
static double clampd(double x)
{
  return x < 0 ? 0 : x > 1 ? 1 : x;
}
static const std::vector<double> UP = {0, 0.3, -0.3, 1, -1, 1e-9, -1e-9, 0.5, 2.5, -700, 1e300};
static const std::vector<double> SET = {0, 1, 0.25, 1e-12, 0.999999999999, 0.7};

static void op(W &w, bool big)
{
  mc::Ctx &c = w.c;
  int nu = big ? UP.size() : 5, ns = big ? SET.size() : 3;
  int k = c.choose(nu + ns + 6, "op");
  if (k < nu) {
    c.say("step %g", UP[k]);
    w.v.oplus(&UP[k]);
    w.x = clampd(w.x + UP[k]);
    c.step();
    c.check(w.v.estimate() >= 0 && w.v.estimate() <= 1, "step %g left the switch at %g", UP[k], w.v.estimate());
  } else if (k < nu + ns) {
    c.say("set %g", SET[k - nu]);
    w.v.setEstimate(SET[k - nu]);
    w.x = SET[k - nu];
    c.step();
  } else
    switch (k - nu - ns) {
    case 0:
      w.v.push();
      w.st.push_back(w.x);
      c.say("push");
      break;
    case 1:
      if (w.st.empty())
        throw mc::Prune();
      w.v.pop();
      w.x = w.st.back();
      w.st.pop_back();
      c.say("pop");
      break;
    case 2:
      if (w.st.empty())
        throw mc::Prune();
      w.v.discardTop();
      w.st.pop_back();
      c.say("discardTop");
      break;
    case 3:
      w.v.setToOrigin();
      w.x = 0;
      c.say("origin");
      break;
    case 4: {
      std::stringstream s;
      c.check(w.v.write(s), "write fails");
      VertexSwitchLinear o;
      o.setEstimate(0.5);
      c.check(o.read(s), "read fails");
      c.check(std::fabs(o.estimate() - w.x) <= 1e-5 && o.x() == o.estimate(), "written %g, read back %g/%g", w.x, o.estimate(), o.x());
      c.say("write/read");
      break;
    }
    case 5: {
      std::stringstream s("0.625 ");
      c.check(w.v.read(s), "read fails");
      w.x = 0.625;
      c.say("read 0.625");
      break;
    }
    }
  c.step();
}
MC_BODY(histories)
{
  W w{c};
  w.check("new");
  int d = c.thorough() ? 6 : 5;
  for (int i = 0; i < d; ++i) {
    op(w, false);
    if (c.fresh()) {
      w.check("after operation");
      mc::Hash h;
      h.addd(w.x);
      for (double s : w.st)
        h.addd(s);
      c.state(h);
    }
  }
}
MC_BODY(wide_histories)
{
  W w{c};
  int d = c.thorough() ? 4 : 3;
  for (int i = 0; i < d; ++i) {
    op(w, true);
    w.check("after operation");
    c.state(mc::Hash().addd(w.x).add(w.st.size()));
  }
}
// every start value meets every step
MC_BODY(steps)
{
  int i = c.choose(41), j = c.choose(c.thorough() ? 401 : 161);
  VertexSwitchLinear v;
  double s = i / 40.0, u = (j - (c.thorough() ? 200 : 80)) / 40.0;
  v.setEstimate(s);
  v.push();
  v.oplus(&u);
  c.step();
  c.near(v.estimate(), clampd(s + u), 1e-12, "step");
  c.near(v.x(), clampd(s + u), 1e-12, "step");
  v.pop();
  c.near(v.estimate(), s, 0, "restored value");
  c.near(v.x(), s, 0, "restored value");
  // vector form used by the solvers
  double d[1] = {u};
  v.oplus(d);
  c.near(v.x(), clampd(s + u), 1e-12, "second step");
  c.state(mc::Hash().addd(s).addd(u));
}
