// C02: the DDP solver never makes the plan worse and reports truthfully what it did.
#include "ddp_scenario.h"
using namespace hddp;

PBT_PROPERTY_I(never_worse, 1)
{
  ScenarioOpt o;
  o.max_iter = 40;
  auto s = makeScenario<kNX, kNU>(c, o);
  c.describe([=] { return s.describe(); });
  auto init = gen::rollout(*s.spec, s.k0, s.x0, s.projected());
  double scale = 1e-290 + init.cost.cwiseAbs().sum();
  bool ok = s.solve();
  const auto & d = s.solver->controlData();
  const auto & tr = s.solver->traceDataList();
  auto fin = gen::rollout(*s.spec, s.k0, s.x0, fromList(d.u_list));
  double tol = 1e-13 * (scale + fin.cost.cwiseAbs().sum());
  c.checkf(fin.total <= init.total + tol, [&] { return pbt::cat("returned plan costs ", fin.total, ", initial guess ", init.total); });
  c.checkf(std::abs(d.cost_list.sum() - fin.total) <= tol, [&] { return pbt::cat("reported cost ", d.cost_list.sum(), " recomputed ", fin.total); });
  // Trace
  c.check(!tr.empty() && static_cast<int>(tr.size()) <= s.cfg.max_iter + 1, "trace length");
  c.checkf(std::abs(tr[0].cost - init.total) <= tol, [&] { return pbt::cat("trace starts at cost ", tr[0].cost, ", initial guess costs ", init.total); });
  c.checkf(std::abs(tr.back().cost - fin.total) <= tol, [&] { return pbt::cat("trace ends at cost ", tr.back().cost, ", returned plan costs ", fin.total); });
  int accepted = 0;
  for(size_t i = 0; i < tr.size(); i++)
  {
    c.checkf(tr[i].iter == static_cast<int>(i), [&] { return pbt::cat("trace entry ", i, " has iteration number ", tr[i].iter); });
    if(i == 0) continue;
    c.checkf(tr[i].cost <= tr[i - 1].cost + tol, [&] { return pbt::cat("cost increases in iteration ", i, ": ", tr[i - 1].cost, " -> ", tr[i].cost); });
    bool acc = tr[i].cost != tr[i - 1].cost;
    accepted += acc;
    if(acc)
    {
      c.checkf(std::abs((tr[i - 1].cost - tr[i].cost) - tr[i].cost_update_actual) <= tol, [&] {
        return pbt::cat("iteration ", i, " reports cost update ", tr[i].cost_update_actual, " but cost went ", tr[i - 1].cost, " -> ", tr[i].cost);
      });
      c.checkf(tr[i].cost_update_ratio > s.cfg.cost_update_ratio_thre, [&] { return pbt::cat("iteration ", i, " accepted a step with ratio ", tr[i].cost_update_ratio); });
      bool listed = false;
      for(int j = 0; j < s.cfg.alpha_list.size(); j++) listed |= s.cfg.alpha_list[j] == tr[i].alpha;
      c.checkf(listed, [&] { return pbt::cat("iteration ", i, " reports a step size that is not configured: ", tr[i].alpha); });
    }
  }
  c.label(ok ? "success" : "no-success");
  if(s.constrained) c.label("constrained");
  if(accepted >= 2) c.nontrivial();
}
