// C11: non-finite values of the problem functions are contained.
#include "ddp_scenario.h"
using namespace hddp;

PBT_PROPERTY_I(contained, 1)
{
  ScenarioOpt o;
  o.max_iter = 25;
  auto s = makeScenario<kNX, kNU>(c, o);
  s.cfg.lambda_max = std::min(s.cfg.lambda_max, 1e12);
  s.build();
  auto & f = s.problem->fault;
  f.cb = c.integer(0, 5);
  f.value = c.pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
  f.pos = c.integer(0, 20);
  bool from_iter = c.boolean(1, 2);
  if(c.boolean(1, 3))
    f.region = c.real(0.5, 4);
  else
  {
    // skip the initial rollout for the value callbacks most of the time
    long first = f.cb <= 1 ? s.N : f.cb == gen::CB_PHI ? 1 : 0;
    f.nth = (from_iter ? first : 0) + c.integer(1, f.cb == gen::CB_PHI || f.cb == gen::CB_DPHI ? 6 : 4 * s.N);
    f.persistent = c.boolean(1, 3);
  }
  c.describe([=] {
    return pbt::cat("fault: callback ", s.problem->fault.cb, " value ", s.problem->fault.value, " nth ", s.problem->fault.nth, " persistent ",
                    s.problem->fault.persistent, " region ", s.problem->fault.region, "; ", s.describe());
  });
  bool ok = s.solve();
  const auto & d = s.solver->controlData();
  const auto & tr = s.solver->traceDataList();
  c.check(static_cast<int>(tr.size()) <= s.cfg.max_iter + 1, "more iterations than configured");
  bool finite0 = std::isfinite(tr[0].cost);
  bool finite = d.cost_list.allFinite();
  for(auto & v : d.u_list) finite &= Vec(v).allFinite();
  for(auto & v : d.x_list) finite &= Vec(v).allFinite();
  long hits = f.hits;
  bool minus = f.value < 0 && (f.cb == gen::CB_L || f.cb == gen::CB_PHI);
  if(finite0)
  {
    // a cost of -infinity is "better" than any finite one by its value; it must still not be called converged
    if(!minus) c.checkf(finite, [&] { return pbt::cat("a finite plan was replaced by one with non-finite values: cost ", d.cost_list.sum(), " u ", strList(fromList(d.u_list))); });
    if(finite)
    {
      auto r = gen::rollout(*s.spec, s.k0, s.x0, fromList(d.u_list));
      c.checkf(maxDiff(fromList(d.x_list), r.x) <= 1e-9 * (1 + maxAbs(r.x)), [&] { return std::string("returned states are not a rollout of the returned inputs"); });
      auto r0 = gen::rollout(*s.spec, s.k0, s.x0, s.projected());
      double scale = 1 + r0.cost.cwiseAbs().sum() + r.cost.cwiseAbs().sum();
      c.checkf(r.total <= r0.total + 1e-9 * scale, [&] { return pbt::cat("returned plan costs ", r.total, ", initial guess ", r0.total); });
    }
  }
  c.checkf(finite || !ok, [&] { return pbt::cat("success reported on a plan with non-finite values: cost ", d.cost_list.sum(), " u ", strList(fromList(d.u_list))); });
  if(s.constrained)
    for(int i = 0; i < s.N; i++)
      for(int j = 0; j < d.u_list[i].size(); j++)
      {
        double u = d.u_list[i][j], tol = 1e-9 * (1 + std::abs(u));
        c.checkf(std::isnan(u) || (u >= s.limits->lo[s.k0 + i][j] - tol && u <= s.limits->hi[s.k0 + i][j] + tol), [&] { return pbt::cat("input ", i, " violates its limits: ", u); });
      }
  c.label(finite0 ? "initial rollout finite" : "initial rollout not finite");
  c.label(ok ? "success" : "no-success");
  if(hits) c.nontrivial();
}
// Derivatives that are never available: nothing can be called converged
PBT_PROPERTY_I(no_derivatives, 1)
{
  ScenarioOpt o;
  o.max_iter = 25;
  auto s = makeScenario<kNX, kNU>(c, o);
  if(s.N < 2) c.discard("one step");
  for(int i = 0; i < s.N; i++)
    if(s.spec->at(s.k0 + i).nu == 0) c.discard("a step without inputs");
  s.cfg.lambda_max = std::min(s.cfg.lambda_max, 1e12);
  s.cfg.max_iter = std::max(s.cfg.max_iter, 1);
  s.build();
  auto & f = s.problem->fault;
  f.cb = c.integer(gen::CB_DF, gen::CB_DPHI);
  f.pos = c.integer(0, 20);
  f.nth = 1;
  f.persistent = true;
  c.describe([=] { return pbt::cat("callback ", s.problem->fault.cb, " always returns NaN at position ", s.problem->fault.pos, "; ", s.describe()); });
  auto r0 = gen::rollout(*s.spec, s.k0, s.x0, s.projected());
  bool ok = s.solve();
  const auto & d = s.solver->controlData();
  c.checkf(!ok, [&] { return std::string("success reported although the derivatives are NaN"); });
  bool finite = d.cost_list.allFinite();
  for(auto & v : d.u_list) finite = finite && Vec(v).allFinite();
  c.check(finite || !r0.cost.allFinite(), "a finite plan was replaced by one with non-finite values");
  c.check(static_cast<int>(s.solver->traceDataList().size()) <= s.cfg.max_iter + 1, "more iterations than configured");
  c.nontrivial();
}
