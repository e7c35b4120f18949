// C23: strictly convex quadratic programs with a strictly feasible point are solved from the default guess.
#include "fmpc.h"
using namespace hfmpc;
using Sc = Scenario<kNX, kNU, kNC>;

PBT_PROPERTY_I(convex_qp, 1)
{
  Opt o;
  o.nonlinear = false;
  o.random_guess = false;
  o.wild = false;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  s.cfg.max_iter = 200;
  s.cfg.init_complementary_variable = c.boolean(1, 3);
  s.cfg.enable_line_search = c.boolean(1, 4);
  s.cfg.merit_const_scale_from_lagrange_multipliers = c.boolean();
  s.guess = constantGuess(s.prob, 0, 0, 0, 1, 1);
  s.build();
  auto st = s.solve();
  size_t it = s.solver->traceDataList().size();
  c.label(pbt::cat("ls ", s.cfg.enable_line_search, " ml ", s.cfg.merit_const_scale_from_lagrange_multipliers, " status ", static_cast<int>(st), " iters <", it <= 20 ? 20 : it <= 50 ? 50 : it <= 100 ? 100 : 1000));
  if(!s.cfg.enable_line_search)
    c.checkf(st == Sc::Status::Succeeded, [&] { return pbt::cat("strictly convex and strictly feasible, but status ", static_cast<int>(st), " with error ", s.solver->traceDataList().back().kkt_error); });
  if(st != Sc::Status::Succeeded) return;
  Var v = s.result();
  double thre = s.cfg.kkt_error_thre, e = fmpcref::kkt(s.prob, v);
  c.checkf(e <= thre * (1 + 1e-6) + 1e-9, [&] { return pbt::cat("KKT error ", e); });
  // The planned inputs, applied to the plant, keep the constraints and cost no more than a feasible competitor
  auto r = gen::rollout(*s.spec, s.prob.k0, s.prob.x0, v.u);
  double amp = 1;
  for(int i = 0; i < s.prob.N; i++)
  {
    Mat A, B, C, D;
    s.spec->fDeriv(s.prob.k0 + i, v.x[i], v.u[i], A, B);
    s.spec->gDeriv(s.prob.k0 + i, v.x[i], v.u[i], C, D);
    Vec g = s.spec->g(s.prob.k0 + i, r.x[i], v.u[i]);
    for(int j = 0; j < g.size(); j++)
      c.checkf(g[j] <= thre * (1 + amp * C.row(j).norm()) + 1e-9, [&] { return pbt::cat("constraint ", j, " of step ", i, " is violated by ", g[j], " along the plan"); });
    amp = 1 + A.norm() * amp;
  }
  double lam = 1 + fmpcref::maxAbs(v);
  int active = 0, n = 0;
  for(int i = 0; i < s.prob.N; i++)
    for(int j = 0; j < v.s[i].size(); j++, n++) active += v.nu[i][j] > 0.1;
  for(double th : {1.0, 0.5, 0.1})
  {
    // competitor between the plan and the feasible trajectory
    std::vector<Vec> u = v.u;
    double dist = 0;
    for(size_t i = 0; i < u.size(); i++)
    {
      u[i] += th * (s.uf[i] - u[i]);
      dist += (u[i] - v.u[i]).norm();
    }
    auto q = gen::rollout(*s.spec, s.prob.k0, s.prob.x0, u);
    for(size_t i = 0; i < q.x.size(); i++) dist += (q.x[i] - v.x[i]).norm();
    Var y = v;
    y.x = q.x;
    y.u = u;
    double Jy = fmpcref::objective(s.prob, y);
    double J = fmpcref::objective(s.prob, v);
    double tol = thre * (dist + lam * (n + kNX * (s.prob.N + 1)) + n) + 1e-9 * (1 + std::abs(J));
    c.checkf(J <= Jy + tol, [&] { return pbt::cat("the plan costs ", J, ", a feasible one ", Jy, " (tolerance ", tol, ")"); });
  }
  if(active) c.nontrivial();
}
