// C28 (DDP part): the same problem posed with fixed and with run-time input dimension.
#include "ddp_scenario.h"
using namespace hddp;

PBT_PROPERTY_I(ddp_fixed_dynamic, 1)
{
  ScenarioOpt o;
  o.max_iter = 4;
  o.max_n = 8;
  o.nonconvex = false; // positive definiteness must not be decided by rounding
  auto a = makeScenario<kNX, kNU>(c, o);
  c.describe([=] { return a.describe(); });
  using B = Scenario<kNX, Eigen::Dynamic>;
  B b;
  b.spec = a.spec;
  b.k0 = a.k0;
  b.N = a.N;
  b.x0 = a.x0;
  b.u0 = a.u0;
  b.constrained = a.constrained;
  b.limits = a.limits;
  b.cfg.print_level = a.cfg.print_level;
  b.cfg.use_state_eq_second_derivative = a.cfg.use_state_eq_second_derivative;
  b.cfg.with_input_constraint = a.cfg.with_input_constraint;
  b.cfg.horizon_steps = a.cfg.horizon_steps;
  b.cfg.reg_type = a.cfg.reg_type;
  b.cfg.initial_lambda = a.cfg.initial_lambda;
  b.cfg.initial_dlambda = a.cfg.initial_dlambda;
  b.cfg.lambda_factor = a.cfg.lambda_factor;
  b.cfg.lambda_min = a.cfg.lambda_min;
  b.cfg.lambda_max = a.cfg.lambda_max;
  b.cfg.k_rel_norm_thre = a.cfg.k_rel_norm_thre;
  b.cfg.lambda_thre = a.cfg.lambda_thre;
  b.cfg.alpha_list = a.cfg.alpha_list;
  b.cfg.cost_update_ratio_thre = a.cfg.cost_update_ratio_thre;
  b.cfg.cost_update_thre = a.cfg.cost_update_thre;
  // Every prefix of the solve, as long as no decision hangs on rounding
  int n = a.constrained ? 1 : c.integer(1, 4);
  if(a.constrained)
  {
    auto u = a.projected();
    auto r = gen::rollout(*a.spec, a.k0, a.x0, u);
    auto g = gen::referenceGains(*a.spec, a.k0, r.x, u, a.cfg.reg_type, a.cfg.initial_lambda, &a.limits->lo, &a.limits->hi);
    if(!g.pd || !(g.min_margin > 1e-5) || !(g.min_eig > 1e-6)) c.discard("active set decided by rounding");
  }
  a.cfg.max_iter = b.cfg.max_iter = n;
  a.build();
  b.build();
  bool ra = a.solve(), rb = b.solve();
  const auto & ta = a.solver->traceDataList();
  const auto & tb = b.solver->traceDataList();
  for(auto & t : ta)
    if(t.iter > 0)
    {
      if(!(std::abs(t.cost_update_expected) > 1e-7 * (1 + std::abs(t.cost)))) c.discard("update at rounding level");
      if(std::abs(t.cost_update_ratio - a.cfg.cost_update_ratio_thre) < 1e-6) c.discard("decision at rounding level");
      if(std::abs(t.k_rel_norm - a.cfg.k_rel_norm_thre) < 1e-9 || std::abs(t.cost_update_actual - a.cfg.cost_update_thre) < 1e-9) c.discard("decision at rounding level");
    }
  for(auto & t : tb)
    if(t.iter > 0 && !(std::abs(t.cost_update_expected) > 1e-7 * (1 + std::abs(t.cost)))) c.discard("update at rounding level");
  // positive definiteness decided by rounding
  if(!(std::abs(ta.back().cost) < 1e8)) c.discard("diverged");
  double scale = 1 + maxAbs(fromList(a.solver->controlData().x_list)) + maxAbs(fromList(a.solver->controlData().u_list));
  c.checkf(ta.size() == tb.size(), [&] { return pbt::cat(ta.size(), " and ", tb.size(), " trace entries"); });
  for(size_t i = 0; i < ta.size(); i++)
  {
    c.checkf(std::abs(ta[i].cost - tb[i].cost) <= 1e-6 * (1 + std::abs(ta[i].cost)), [&] { return pbt::cat("entry ", i, ": cost ", ta[i].cost, " with fixed, ", tb[i].cost, " with run-time dimension"); });
    c.checkf(ta[i].alpha == tb[i].alpha, [&] { return pbt::cat("entry ", i, ": step length ", ta[i].alpha, " with fixed, ", tb[i].alpha, " with run-time dimension"); });
    c.checkf(std::abs(ta[i].lambda - tb[i].lambda) <= 1e-9 * ta[i].lambda, [&] { return pbt::cat("entry ", i, ": regularization ", ta[i].lambda, " with fixed, ", tb[i].lambda, " with run-time dimension"); });
  }
  c.check(ra == rb, "outcomes differ");
  double d = std::max(maxDiff(fromList(a.solver->controlData().u_list), fromList(b.solver->controlData().u_list)), maxDiff(fromList(a.solver->controlData().x_list), fromList(b.solver->controlData().x_list)));
  c.checkf(d <= 1e-6 * scale, [&] { return pbt::cat("plans differ by ", d, ": ", strList(fromList(a.solver->controlData().u_list)), " and ", strList(fromList(b.solver->controlData().u_list))); });
  if(ta.size() > 1 && ta.back().alpha > 0) c.nontrivial();
}
