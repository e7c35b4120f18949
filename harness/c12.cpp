// C12: the work of a DDP solve is bounded, and the problem is only evaluated on the time grid of the horizon.
#include "ddp_scenario.h"
using namespace hddp;

PBT_PROPERTY_I(bounded_on_grid, 1)
{
  ScenarioOpt o;
  o.max_iter = 30;
  auto s = makeScenario<kNX, kNU>(c, o);
  c.describe([=] { return s.describe(); });
  s.solve();
  const auto & m = s.problem->mon;
  c.check(m.off_grid == 0 && m.out_of_range == 0, "problem evaluated at a wrong time:" + m.first_bad);
  c.check(m.bad_dim == 0, "problem evaluated with a wrong input dimension:" + m.first_bad);
  c.check(s.lim_mon->off_grid == 0 && s.lim_mon->out_of_range == 0, "limits evaluated at a wrong time:" + s.lim_mon->first_bad);
  long iters = static_cast<long>(s.solver->traceDataList().size()) - 1;
  long na = s.cfg.alpha_list.size();
  c.checkf(iters >= 0 && iters <= s.cfg.max_iter, [&] { return pbt::cat(iters, " iterations, configured ", s.cfg.max_iter); });
  long rollouts = 1 + iters * na;
  c.checkf(m.n_state_eq <= rollouts * s.N && m.n_cost <= rollouts * s.N && m.n_term <= rollouts,
           [&] { return pbt::cat(m.n_state_eq, " evaluations of the dynamics, ", m.n_cost, " of the cost, ", m.n_term, " of the terminal cost in ", iters, " iterations"); });
  c.checkf(m.n_deriv_f <= iters * s.N && m.n_deriv_l <= iters * s.N && m.n_deriv_phi <= iters,
           [&] { return pbt::cat(m.n_deriv_f, " derivatives of the dynamics, ", m.n_deriv_l, " of the cost in ", iters, " iterations"); });
  c.check(static_cast<long>(s.solver->controlData().u_list.size()) == s.N, "plan length");
  if(s.cfg.max_iter == 0)
  {
    c.check(maxDiff(fromList(s.solver->controlData().u_list), s.projected()) == 0, "without iterations the plan is not the initial guess");
    c.label("no iterations");
  }
  if(iters > 0) c.nontrivial();
}
// Changing what the problem does outside the horizon changes nothing
PBT_PROPERTY_I(outside_is_irrelevant, 1)
{
  ScenarioOpt o;
  o.max_iter = 8;
  o.extra = 6;
  auto s = makeScenario<kNX, kNU>(c, o);
  c.describe([=] { return s.describe(); });
  auto t = s;
  t.spec = std::make_shared<gen::Spec>(*s.spec);
  gen::Stage odd = t.spec->palette[c.integer(0, static_cast<int>(t.spec->palette.size()) - 1)];
  odd.A *= -3;
  odd.f = Vec::Constant(kNX, 17.0);
  odd.h.setConstant(-5);
  t.spec->palette.push_back(odd);
  for(int k = 0; k < t.spec->gridSize(); k++)
    if(k < s.k0 || k >= s.k0 + s.N) t.spec->which[k] = static_cast<int>(t.spec->palette.size()) - 1;
  if(t.limits)
  {
    t.limits = std::make_shared<Limits>(*s.limits);
    for(int k = 0; k < t.spec->gridSize(); k++)
      if(k < s.k0 || k >= s.k0 + s.N) t.limits->lo[k] = t.limits->hi[k] = Vec::Constant(t.spec->at(k).nu, 3.5);
  }
  t.build();
  bool a = s.solve(), b = t.solve();
  c.check(a == b && maxDiff(fromList(s.solver->controlData().u_list), fromList(t.solver->controlData().u_list)) == 0,
          "the plan depends on the problem outside the horizon");
  c.nontrivial();
}
