#include "se2.h"
#include <ndt_gslam/registration/ndt_reg_tools.h>
namespace R = pcl::ndt_reg;
// Cubic through two points with slopes, quadratic variants, solved in plain
// polynomial form.
static bool cubicMin(LD a, LD fa, LD ga, LD b, LD fb, LD gb, LD &out)
{
  LD h = b - a;
  // p(s) = fa + ga h s + B s^2 + A s^3 on s in [0,1]
  LD A = 2 * (fa - fb) + h * (ga + gb), B = 3 * (fb - fa) - h * (2 * ga + gb), C = ga * h;
  if (fabsl(A) < 1e-12L * (fabsl(B) + fabsl(C) + 1e-300L)) {
    if (B <= 0)
      return false;
    out = a + h * (-C / (2 * B));
    return true;
  }
  LD d = B * B - 3 * A * C;
  if (d <= 0)
    return false;
  // minimum: second derivative 2B + 6 A s > 0 there
  out = a + h * (-B + sqrtl(d)) / (3 * A);
  return true;
}
static const std::vector<double> A = {0, 0.5, 1, 3, 10}, F = {0, -1, 0.3, 2, -7, 40}, G = {-1, -0.25, -8, 0.125, 0.6, 5, 30};
MC_BODY(trial_value)
{
  double al = c.pick(A), at = c.pick(A), fl = c.pick(F), ft = c.pick(F), gl = c.pick(G), gt = c.pick(G);
  if (al == at || gl * (at - al) >= 0)
    throw mc::Prune();  // the trial is taken in a descent direction from a_l
  double cubic_tol = 1e-7 * 20;
  for (double au : {0.0, 2.0, 25.0})
    for (double fu : {-3.0, 1.0})
      for (double gu : {-2.0, 4.0}) {
        if (au == at)
          continue;
        double v = R::trialValueSelectionMT(al, fl, gl, au, fu, gu, at, ft, gt);
        c.step();
        LD ac = 0;
        bool hc = cubicMin(al, fl, gl, at, ft, gt, ac);
        LD as = al - (LD)(al - at) / ((LD)gl - gt) * gl;
        if (ft > fl) {
          LD k = ((LD)fl - ft) / ((LD)al - at);
          LD aq = al - 0.5L * (al - at) * gl / (gl - k);
          if (!hc)
            continue;
          LD e = fabsl(ac - al) < fabsl(aq - al) ? ac : (aq + ac) / 2;
          if (fabsl(fabsl(ac - al) - fabsl(aq - al)) < 1e-9L)
            continue;
          c.near(v, (double)e, cubic_tol * (1 + (double)fabsl(e)), "trial value, higher function value");
          LD lo = std::min(al, at), hi = std::max(al, at);
          c.check(v >= lo - 1e-9 && v <= hi + 1e-9, "trial value %g outside of (%g,%g) although the minimum is bracketed", v, (double)lo, (double)hi);
        } else if (gt * gl < 0) {
          if (!hc)
            continue;
          if (fabsl(fabsl(ac - at) - fabsl(as - at)) < 1e-9L)
            continue;
          LD e = fabsl(ac - at) >= fabsl(as - at) ? ac : as;
          c.near(v, (double)e, cubic_tol * (1 + (double)fabsl(e)), "trial value, slopes of opposite sign");
          LD lo = std::min(al, at), hi = std::max(al, at);
          c.check(v >= lo - 1e-6 && v <= hi + 1e-6, "trial value %g outside of (%g,%g) although the minimum is bracketed", v, (double)lo, (double)hi);
        } else if (std::fabs(gt) <= std::fabs(gl)) {
          if (gl == gt)
            continue;
          if (hc && fabsl(fabsl(ac - at) - fabsl(as - at)) < 1e-9L)
            continue;
          LD e = hc && fabsl(ac - at) < fabsl(as - at) ? ac : as;
          LD lim = at + 0.66L * (au - at);
          // floor(z^2 - g g) close to zero: rounding decides whether a minimizer exists
          LD h = at - al, Aq = 2 * ((LD)fl - ft) + h * ((LD)gl + gt), Bq = 3 * ((LD)ft - fl) - h * (2 * (LD)gl + gt), Cq = gl * h;
          if (fabsl(Bq * Bq - 3 * Aq * Cq) < 1e-9L * (Bq * Bq + 1))
            continue;
          e = at > al ? std::min(lim, e) : std::max(lim, e);
          c.near(v, (double)e, cubic_tol * (1 + (double)fabsl(e)), "trial value, smaller slope of the same sign");
        } else {
          LD h = at - au, Aq = 2 * ((LD)fu - ft) + h * ((LD)gu + gt), Bq = 3 * ((LD)ft - fu) - h * (2 * (LD)gu + gt), Cq = gu * h;
          LD disc = Bq * Bq - 3 * Aq * Cq;
          if (disc < 1e-9L * (Bq * Bq + 1))
            continue;
          LD acu;
          if (!cubicMin(au, fu, gu, at, ft, gt, acu))
            continue;
          if (fabsl(Aq) < 1e-9L * (fabsl(Bq) + fabsl(Cq)))
            continue;
          // 0/0 in the interpolation formula although the minimizer exists
          LD z = 3 * ((LD)ft - fu) / h - gt - gu, w = copysignl(sqrtl(z * z - (LD)gt * gu), h);
          if (std::isnan(v) && fabsl(gt - gu + 2 * w) < 1e-12L) {
            c.finding("trial-steeper-slope-0-over-0", "trial value is not a number for a cubic with a minimizer");
            continue;
          }
          c.near(v, (double)acu, cubic_tol * (1 + (double)fabsl(acu)), "trial value, steeper slope of the same sign");
        }
      }
  c.state(mc::Hash().addd(al).addd(at).addd(fl).addd(ft).addd(gl).addd(gt));
}
MC_BODY(interval_update)
{
  static const std::vector<double> S = {0, 1, 2.5, -1}, FF = {0, 1, -2}, GG = {0, -1, 3, 1e-12};
  double al = c.pick(S), fl = c.pick(FF), gl = c.pick(GG), au = c.pick(S), fu = c.pick(FF), gu = c.pick(GG);
  for (double at : S)
    for (double ft : FF)
      for (double gt : GG) {
        double l[3] = {al, fl, gl}, u[3] = {au, fu, gu};
        bool r = R::updateIntervalMT(l[0], l[1], l[2], u[0], u[1], u[2], at, ft, gt);
        c.step();
        double el[3] = {al, fl, gl}, eu[3] = {au, fu, gu}, t[3] = {at, ft, gt};
        bool er = false;
        if (ft > fl)
          std::copy(t, t + 3, eu);  // the minimum is between l and t
        else {
          double towards = gt * (al - at);
          if (towards == 0)
            er = true;
          else {
            if (towards < 0)
              std::copy(el, el + 3, eu);
            std::copy(t, t + 3, el);
          }
        }
        c.check(r == er, "converged %d, expected %d", (int)r, (int)er);
        for (int i = 0; i < 3; ++i)
          c.check(l[i] == el[i] && u[i] == eu[i], "interval end %d: (%g,%g), expected (%g,%g)", i, l[i], u[i], el[i], eu[i]);
        // the best value never gets worse
        c.check(l[1] <= fl, "function value at the best end rose");
      }
  c.state(mc::Hash().addd(al).addd(fl).addd(gl).addd(au).addd(fu).addd(gu));
}
MC_BODY(auxiliary_function)
{
  static const std::vector<double> S = {0, 1, -3, 0.5, 1e-4, 200};
  double a = c.pick(S), f = c.pick(S), f0 = c.pick(S), g0 = c.pick(S);
  for (double mu : {1e-4, 0.0, 0.3, 1.0}) {
    c.near(R::auxilaryFunction_PsiMT(a, f, f0, g0, mu), f - f0 - mu * g0 * a, 1e-9, "psi");
    c.near(R::auxilaryFunction_dPsiMT(f, g0, mu), f - mu * g0, 1e-9, "psi'");
    c.step();
  }
  c.near(R::auxilaryFunction_PsiMT(a, f, f0, g0), f - f0 - 1e-4 * g0 * a, 1e-9, "psi");
  c.near(R::auxilaryFunction_dPsiMT(f, g0), f - 1e-4 * g0, 1e-9, "psi'");
  c.state(mc::Hash().addd(a).addd(f).addd(f0).addd(g0));
}
// the Gaussian fit of the outlier mixture agrees with it at 0, 1 sigma and infinity
MC_BODY(fitting)
{
  double o = (1 + c.choose(98)) / 100.0;
  for (double res : {0.1, 0.25, 0.5, 1.0, 2.0, 7.5}) {
    R::FittingParams p(o, res);
    c.step();
    LD c1 = 10 * (1 - (LD)o), c2 = o / ((LD)res * res);
    auto mixture = [&](LD x) { return -logl(c1 * expl(-x * x / 2) + c2); };
    LD d3 = -logl(c2);
    auto approx = [&](LD x) { return p.gauss_d1_ * expl(-p.gauss_d2_ * x * x / 2) + d3; };
    c.near((double)approx(0), (double)mixture(0), 1e-9, "fit at the centre");
    c.near((double)approx(1), (double)mixture(1), 1e-9, "fit at one sigma");
    c.check(p.gauss_d1_ < 0 && p.gauss_d2_ > 0, "fit parameters %g %g have the wrong sign", p.gauss_d1_, p.gauss_d2_);
    c.near(p.gauss_d2__half_, p.gauss_d2_ / 2, 1e-12, "half parameter");
  }
  c.state(mc::Hash().addd(o));
}
MC_BODY(score_sums)
{
  typedef R::ScoreAndDerivatives<3, double> S;
  S z, zero = S::Zero();
  c.check(z.value_ == 0 && z.gradient_.isZero(0) && z.hessian_.isZero(0), "a new score is not zero");
  c.check(zero.value_ == 0 && zero.gradient_.isZero(0) && zero.hessian_.isZero(0), "zero score is not zero");
  S sum, alt;
  double v = 0;
  Eigen::Vector3d g(0, 0, 0);
  Eigen::Matrix3d H = Eigen::Matrix3d::Zero();
  int n = 1 + c.choose(5);
  for (int i = 0; i < n; ++i) {
    int k = c.choose(4);
    S s;
    s.value_ = k - 1.5;
    s.gradient_ << k, -2 * k, k * k;
    s.hessian_ << k, 1, 2, 3, k * 2, 4, 5, 6, -k;
    v += s.value_;
    g += s.gradient_;
    H += s.hessian_;
    S before = s;
    S &ref = (sum += s);
    c.check(&ref == &sum, "+= returns another object");
    alt = k % 2 ? s + alt : alt + s;
    c.check(s.value_ == before.value_ && s.gradient_ == before.gradient_ && s.hessian_ == before.hessian_, "operand changed");
    c.step();
  }
  for (S *s : {&sum, &alt}) {
    c.near(s->value_, v, 1e-12, "sum of values");
    c.check((s->gradient_ - g).norm() < 1e-12, "sum of gradients");
    c.check((s->hessian_ - H).norm() < 1e-12, "sum of hessians");
  }
  R::JacobianHessianDerivatives d, e = R::JacobianHessianDerivatives::Zero();
  for (auto *x : {&d, &e})
    c.check(x->Jest.isZero(0) && x->Hest.isZero(0) && x->Zest.isZero(0) && x->ZHest.isZero(0), "derivative block is not zero");
  c.state(mc::Hash().addd(v).addd(g(2)));
}
MC_BODY(matrix_conversion)
{
  static const std::vector<double> A = angle_set(16, 2, true), T = {0, 1.5, -0.001, 250.25, -1e4};
  double a = c.pick(A), x = c.pick(T), y = c.pick(T);
  auto m = R::vecToMat<double>(Eigen::Vector3d(x, y, a));
  auto mf = R::vecToMat<float>(Eigen::Vector3d(x, y, a));
  c.step();
  RMat r = rmat(x, y, a), rf = rmat((float)x, (float)y, (float)a);
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) {
      LD e = i == j, ef = e;
      if (i < 2 && j < 2) {
        e = i == j ? r.c : i ? r.s : -r.s;
        ef = i == j ? rf.c : i ? rf.s : -rf.s;
      } else if (j == 3 && i < 2) {
        e = i ? y : x;
        ef = e;
      }
      c.near(m(i, j), (double)e, 1e-9, "pose to matrix");
      c.near(mf(i, j), (double)ef, 1e-6 * (1 + fabs((double)ef)), "pose to float matrix");
    }
  Eigen::Vector3d b = R::matToVec<double>(m), bf = R::matToVec<float>(mf);
  c.near(b(0), x, 1e-9, "pose back");
  c.near(b(1), y, 1e-9, "pose back");
  c.check(adiff(b(2), a) < 1e-9, "angle back");
  c.near(bf(0), x, 1e-6 * (1 + fabs(x)), "float pose back");
  c.near(bf(1), y, 1e-6 * (1 + fabs(y)), "float pose back");
  c.check(adiff(bf(2), (float)a) < 3e-6, "float angle back");
  c.state(mc::Hash().addd(a).addd(x).addd(y));
}
