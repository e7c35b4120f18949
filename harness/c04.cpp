// C04: when the DDP solver reports convergence, the plan is a stationary point of the optimal control problem.
#include "ddp_scenario.h"
using namespace hddp;

PBT_PROPERTY_I(success_means_stationary, 1)
{
  ScenarioOpt o;
  o.constraint = 0;
  auto s = makeScenario<kNX, kNU>(c, o);
  s.cfg.max_iter = 150;
  s.cfg.cost_update_thre = 0;
  s.cfg.k_rel_norm_thre = c.pick({1e-6, 1e-7, 1e-8});
  s.cfg.lambda_thre = c.pick({1e-5, 1e-3, 1e-7});
  if(c.boolean(1, 4))
  {
    // strong regularisation: small updates far from a stationary plan
    s.cfg.initial_lambda = c.logreal(1e2, 1e9);
    s.cfg.lambda_max = std::max(s.cfg.lambda_max, 10 * s.cfg.initial_lambda);
  }
  s.build();
  c.describe([=] { return s.describe(); });
  auto r0 = gen::rollout(*s.spec, s.k0, s.x0, s.u0);
  double g0 = maxAbs(gen::gradient(*s.spec, s.k0, r0, s.u0));
  bool ok = s.solve();
  c.label(ok ? "success" : "no-success");
  if(!ok) return;
  auto u = fromList(s.solver->controlData().u_list);
  auto r = gen::rollout(*s.spec, s.k0, s.x0, u);
  auto g = gen::gradient(*s.spec, s.k0, r, u);
  double gm = maxAbs(g);
  // With gains k of relative size thre the gradient is at most grad_scale * thre, which depends on the curvature.
  // Success presupposes a regularisation below lambda_thre.
  double lam = std::min(s.solver->traceDataList().back().lambda, s.cfg.lambda_thre);
  auto gains = gen::referenceGains(*s.spec, s.k0, r.x, u, s.cfg.reg_type, lam);
  if(!gains.pd || gains.min_pivot < 1e-9) c.discard("reference Hessian is not positive definite at the returned plan");
  double krel = 0;
  for(int i = 0; i < s.N; i++) krel = std::max(krel, gains.k[i].norm() / (1 + u[i].norm()));
  c.checkf(krel <= 3 * s.cfg.k_rel_norm_thre + 1e-10, [&] {
    return pbt::cat("success reported but the relative Newton step at the returned plan is ", krel, " (threshold ", s.cfg.k_rel_norm_thre, "), gradient ", gm);
  });
  c.checkf(gm <= 3.1 * s.cfg.k_rel_norm_thre * gains.grad_scale + 1e-9 * (1 + g0), [&] { return pbt::cat("success reported but the cost gradient is ", gm, " (initially ", g0, "), bound ", 3.1 * s.cfg.k_rel_norm_thre * gains.grad_scale); });
  if(g0 > 1e-2) c.nontrivial();
}
// A solve that starts at a stationary plan has nothing to do, and says so
PBT_PROPERTY_I(stationary_start, 1)
{
  ScenarioOpt o;
  o.nonlinear = false;
  o.constraint = 1;
  auto s = makeScenario<kNX, kNU>(c, o);
  gen::Spec sp = *s.spec;
  for(auto & st : sp.palette)
  {
    st.f.setZero();
    st.h.setZero();
  }
  for(auto & t : sp.terms) t.q.setZero();
  s.spec = std::make_shared<gen::Spec>(sp);
  s.x0.setZero();
  for(auto & u : s.u0) u.setZero();
  if(s.limits)
    for(int k = 0; k < sp.gridSize(); k++)
    {
      s.limits->lo[k] = s.limits->lo[k].cwiseMin(0);
      s.limits->hi[k] = s.limits->hi[k].cwiseMax(0);
    }
  if(s.cfg.lambda_thre <= 0 || s.cfg.alpha_list.size() == 0) c.discard("never converged by definition");
  s.cfg.max_iter = 400;
  s.cfg.cost_update_thre = c.pick({1e-7, 1e-3, 0.0});
  s.cfg.cost_update_ratio_thre = std::min(s.cfg.cost_update_ratio_thre, 0.9);
  if(s.cfg.k_rel_norm_thre <= 0) s.cfg.k_rel_norm_thre = 1e-6;
  s.cfg.lambda_factor = std::max(s.cfg.lambda_factor, 1.3);
  s.cfg.lambda_thre = std::max(s.cfg.lambda_thre, 1e-9);
  s.cfg.initial_lambda = std::min(s.cfg.initial_lambda, s.cfg.lambda_max);
  s.cfg.initial_dlambda = std::min(s.cfg.initial_dlambda, 1.0);
  s.build();
  c.describe([=] { return s.describe(); });
  bool ok = s.solve();
  const auto & d = s.solver->controlData();
  double m = maxAbs(fromList(d.u_list)) + maxAbs(fromList(d.x_list));
  c.checkf(ok, [&] { return pbt::cat("started at the optimum, ended after ", s.solver->traceDataList().size() - 1, " iterations without success"); });
  c.checkf(m == 0, [&] { return "a stationary plan was changed: u " + strList(fromList(d.u_list)); });
  if(s.cfg.initial_lambda >= s.cfg.lambda_thre) c.nontrivial();
}
