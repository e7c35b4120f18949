// C22: one FMPC iteration is a damped Newton step of the KKT system of the whole horizon.
#include "fmpc.h"
using namespace hfmpc;
using Sc = Scenario<kNX, kNU, kNC>;

PBT_PROPERTY_I(newton_step, 1)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  s.cfg.kkt_error_thre = 1e-9;
  int n = c.weighted({2, 1}) == 0 ? 1 : c.integer(2, 6);
  if(n == 1 && !s.cfg.init_complementary_variable && c.boolean(1, 8))
  {
    // multipliers may be exactly zero
    for(auto & v : s.guess.nu)
      for(int j = 0; j < v.size(); j++)
        if(c.boolean()) v[j] = 0;
  }
  Var a = start(s.prob, s.guess, s.cfg.init_complementary_variable);
  if(n > 1)
  {
    s.cfg.max_iter = n - 1;
    s.build();
    if(s.solve() != Sc::Status::MaxIterationReached) c.discard("terminated earlier");
    a = s.result();
  }
  s.cfg.max_iter = n;
  s.build();
  auto st = s.solve();
  Var b = s.result();
  if(st == Sc::Status::Succeeded)
  {
    if(n > 1) c.check(compare(a, b).empty(), "variables changed in a successful last iteration: " + compare(a, b));
    c.discard("already optimal");
  }
  if(!a.finite() || !(fmpcref::maxAbs(a) < 1e6)) c.discard("diverged");
  double eps = s.cfg.update_barrier_eps ? fmpcref::barrier(s.prob, a) : 1e-4;
  if(!(fmpcref::stageMargin(s.prob, a) > 1e-4)) c.discard("ill-conditioned stage");
  double w = fmpcref::barrierWeight(a, eps);
  if(!(w < 1e6)) c.discard("ill-conditioned constraint");
  auto nw = fmpcref::newton(s.prob, a, eps);
  double dmax = fmpcref::maxAbs(nw.d), scale = 1 + fmpcref::maxAbs(a);
  if(!(nw.rcond > 1e-9) || !(dmax < 1e8)) c.discard("ill-conditioned");
  double as, an;
  fmpcref::fraction(a, nw.d, as, an);
  if(as < 1e-9 || an < 1e-9) c.discard("tiny step");
  c.checkf(st == Sc::Status::MaxIterationReached, [&] { return pbt::cat("a well-conditioned iteration ends with status ", static_cast<int>(st)); });
  double tol = 1e-9 * scale + (1e-9 + 1e-14 / nw.rcond) * dmax + 1e-14 * w * (scale + dmax);
  if(s.cfg.enable_line_search)
  {
    auto m0 = fmpcref::merit(s.prob, a, &nw.d, eps);
    double sc;
    if(s.cfg.merit_const_scale_from_lagrange_multipliers)
    {
      sc = 1e-3;
      for(auto & v : a.lam) sc = std::max(sc, v.cwiseAbs().maxCoeff());
      for(auto & v : a.nu)
        if(v.size()) sc = std::max(sc, v.cwiseAbs().maxCoeff());
    }
    else
    {
      if(m0.con < 1e-8) c.discard("constraints already satisfied");
      sc = std::max(m0.deriv_obj / (0.5 * m0.con), 1e-3);
    }
    double f0 = m0.obj + sc * m0.con, df = m0.deriv_obj + sc * m0.deriv_con, slack = sc * m0.slack_con;
    double alpha = as;
    int halvings = 0;
    while(alpha >= 1e-10)
    {
      Var t = fmpcref::add(a, alpha, 0, nw.d);
      auto m = fmpcref::merit(s.prob, t, nullptr, eps);
      double f = m.obj + sc * m.con, margin = f - (f0 + 1e-3 * alpha * df);
      double open = 1e-9 * (std::abs(f) + std::abs(f0) + sc * m0.con + 1) + 1e-7 * alpha * std::abs(df) + 1e-3 * alpha * slack;
      // decided by rounding or by a residual of zero: the step may or may not be accepted
      bool accept = std::abs(margin) <= open ? fmpcref::maxDiff({t.x, t.u, {}, t.s, {}}, {b.x, b.u, {}, b.s, {}}) <= tol : margin < 0;
      if(std::abs(margin) <= open) c.label("acceptance open");
      if(accept) break;
      alpha *= 0.5;
      halvings++;
    }
    if(alpha < 1e-10) c.label("line search exhausted");
    as = alpha;
    c.label(halvings ? "backtracked" : "full line search step");
  }
  Var e = fmpcref::add(a, as, an, nw.d);
  double d = fmpcref::maxDiff(b, e);
  c.checkf(d <= tol, [&] {
    return pbt::cat("iteration ", n, " differs from the Newton step by ", d, " (tolerance ", tol, ", eps ", eps, ", alpha_s ", as, ", alpha_nu ", an, ", rcond ", nw.rcond, "): got ", b.str(), " expected ", e.str(), " from ", a.str());
  });
  if(s.totalIneq() > 0 && s.prob.N > 1) c.nontrivial();
}
// The feedback form of the step: gains and offsets of the backward pass
PBT_PROPERTY_I(gains, 1)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  s.cfg.kkt_error_thre = 1e-12;
  s.cfg.max_iter = 1;
  s.cfg.enable_line_search = false;
  s.build();
  Var a = start(s.prob, s.guess, s.cfg.init_complementary_variable);
  if(s.solve() != Sc::Status::MaxIterationReached) c.discard("no step");
  double eps = s.cfg.update_barrier_eps ? fmpcref::barrier(s.prob, a) : 1e-4;
  if(!(fmpcref::stageMargin(s.prob, a) > 1e-4)) c.discard("ill-conditioned stage");
  double w = fmpcref::barrierWeight(a, eps);
  if(!(w < 1e6)) c.discard("ill-conditioned constraint");
  auto nw = fmpcref::newton(s.prob, a, eps);
  double dmax = fmpcref::maxAbs(nw.d), scale = 1 + fmpcref::maxAbs(a);
  if(!(nw.rcond > 1e-9) || !(dmax < 1e8)) c.discard("ill-conditioned");
  const auto & cl = s.solver->coeffList();
  c.check(static_cast<int>(cl.size()) == s.prob.N + 1, "number of coefficients");
  for(int i = 0; i <= s.prob.N; i++)
  {
    double big = cl[i].P.norm() * nw.d.x[i].norm() + cl[i].s.norm();
    double tol = 1e-8 * (1 + big) + (1e-9 + 1e-14 / nw.rcond) * dmax + 1e-14 * w * (scale + dmax);
    Vec l = cl[i].P * nw.d.x[i] - cl[i].s;
    c.checkf((l - nw.d.lam[i]).norm() <= tol, [&] { return pbt::cat("costate relation at step ", i, ": ", pbt::str(l), " instead of ", pbt::str(nw.d.lam[i])); });
    c.checkf((cl[i].P - cl[i].P.transpose()).norm() <= 1e-9 * (1 + cl[i].P.norm()), [&] { return pbt::cat("asymmetric P at step ", i); });
    if(i == s.prob.N) break;
    if(nw.d.u[i].size() == 0) continue;
    Vec u = cl[i].K * nw.d.x[i] + cl[i].k;
    double tu = tol + 1e-8 * cl[i].K.norm() * nw.d.x[i].norm();
    c.checkf((u - nw.d.u[i]).norm() <= tu, [&] { return pbt::cat("input relation at step ", i, ": ", pbt::str(u), " instead of ", pbt::str(nw.d.u[i])); });
  }
  if(s.totalIneq() > 0 && s.prob.N > 1) c.nontrivial();
}
