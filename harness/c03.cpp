// C03: on unconstrained linear-quadratic problems the DDP solver finds the exact optimum.
#include "ddp_scenario.h"
using namespace hddp;

namespace
{
struct Optimum
{
  gen::Condensed q;
  Vec U;
  double J = 0, scale = 1;
  Eigen::VectorXd sv;
};
Optimum optimum(pbt::Case & c, const gen::Spec & s, int k0, int N, const Vec & x0)
{
  Optimum o;
  o.q = gen::condense(s, k0, N, x0);
  int n = static_cast<int>(o.q.g.size());
  if(n == 0)
  {
    o.U.resize(0);
    o.J = o.q.c;
  }
  else
  {
    Eigen::SelfAdjointEigenSolver<Mat> es(o.q.H);
    if(es.eigenvalues()[0] < 1e-7 * es.eigenvalues()[n - 1]) c.discard("ill-conditioned reference QP");
    o.U = -o.q.H.ldlt().solve(o.q.g);
    o.J = 0.5 * o.q.g.dot(o.U) + o.q.c;
  }
  return o;
}
Vec stack(const std::vector<Vec> & u)
{
  int n = 0;
  for(auto & v : u) n += static_cast<int>(v.size());
  Vec U(n);
  n = 0;
  for(auto & v : u)
  {
    U.segment(n, v.size()) = v;
    n += static_cast<int>(v.size());
  }
  return U;
}
double gap(const Optimum & o, const Vec & U)
{
  Vec d = U - o.U;
  return 0.5 * d.dot(o.q.H * d);
}
} // namespace

// With zero regularisation one full Newton step solves the problem.
PBT_PROPERTY_I(one_newton_step, 1)
{
  ScenarioOpt so;
  so.nonlinear = false;
  so.constraint = 0;
  auto s = makeScenario<kNX, kNU>(c, so);
  s.cfg.initial_lambda = 0;
  s.cfg.max_iter = c.integer(1, 3);
  s.cfg.cost_update_ratio_thre = std::min(s.cfg.cost_update_ratio_thre, 0.9);
  backtracking(s.cfg);
  s.build();
  c.describe([=] { return s.describe(); });
  Optimum o = optimum(c, *s.spec, s.k0, s.N, s.x0);
  auto init = gen::rollout(*s.spec, s.k0, s.x0, s.u0);
  double scale = 1 + init.cost.cwiseAbs().sum() + std::abs(o.J);
  double g0 = gap(o, stack(s.u0));
  s.solve();
  double g1 = gap(o, stack(fromList(s.solver->controlData().u_list)));
  // A plan that already passes the configured gradient test may be returned unchanged.
  double kmax = 0;
  for(auto & k : gen::referenceGains(*s.spec, s.k0, init.x, s.u0, 1, 0.0).k) kmax = std::max(kmax, k.norm());
  if(kmax <= s.cfg.k_rel_norm_thre * (1.01 + hddp::maxAbs(s.u0) * 3)) c.label("guess may pass the gradient test");
  else
    c.checkf(g1 <= 1e-9 * scale, [&] { return pbt::cat("cost gap to the optimum ", g1, " after one Newton step (initial gap ", g0, ")"); });
  if(g0 > 1e-3 * scale) c.nontrivial();
}

// From any regularisation the iteration converges to the optimum.
PBT_PROPERTY_I(converges, 1)
{
  ScenarioOpt so;
  so.nonlinear = false;
  so.constraint = 0;
  auto s = makeScenario<kNX, kNU>(c, so);
  s.cfg.max_iter = 500;
  s.cfg.cost_update_thre = 0;
  s.cfg.k_rel_norm_thre = 1e-9;
  s.cfg.lambda_thre = 1e-5;
  s.cfg.lambda_max = 1e10;
  s.cfg.cost_update_ratio_thre = std::min(s.cfg.cost_update_ratio_thre, 0.5);
  backtracking(s.cfg);
  s.build();
  c.describe([=] { return s.describe(); });
  Optimum o = optimum(c, *s.spec, s.k0, s.N, s.x0);
  auto init = gen::rollout(*s.spec, s.k0, s.x0, s.u0);
  double scale = 1 + init.cost.cwiseAbs().sum() + std::abs(o.J);
  double g0 = gap(o, stack(s.u0));
  bool ok = s.solve();
  double g1 = gap(o, stack(fromList(s.solver->controlData().u_list)));
  c.checkf(g1 <= 1e-9 * scale, [&] { return pbt::cat("cost gap to the optimum ", g1, " (initial gap ", g0, ")"); });
  c.label(ok ? "success" : "no-success");
  if(g0 > 1e-3 * scale) c.nontrivial();
}

// With the default configuration the plan is optimal to the default tolerances.
PBT_PROPERTY_I(default_tolerances, 1)
{
  ScenarioOpt so;
  so.nonlinear = false;
  so.constraint = 0;
  so.wild = false;
  auto s = makeScenario<kNX, kNU>(c, so);
  s.cfg.max_iter = 500;
  s.cfg.initial_lambda = 1e-4;
  s.cfg.initial_dlambda = 1.0;
  backtracking(s.cfg);
  s.build();
  c.describe([=] { return s.describe(); });
  Optimum o = optimum(c, *s.spec, s.k0, s.N, s.x0);
  auto init = gen::rollout(*s.spec, s.k0, s.x0, s.u0);
  double scale = 1 + init.cost.cwiseAbs().sum() + std::abs(o.J);
  double g0 = gap(o, stack(s.u0));
  bool ok = s.solve();
  double g1 = gap(o, stack(fromList(s.solver->controlData().u_list)));
  c.label(ok ? "success" : "no-success");
  c.checkf(g1 <= 1e-6 * scale, [&] { return pbt::cat("cost gap to the optimum ", g1, " (initial gap ", g0, ")"); });
  if(g0 > 1e-3 * scale) c.nontrivial();
}
