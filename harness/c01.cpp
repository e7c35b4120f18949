// C01: the plan returned by the DDP solver is a consistent rollout, whatever the outcome.
#include "ddp_scenario.h"
using namespace hddp;

PBT_PROPERTY_I(plan_is_rollout, 1)
{
  ScenarioOpt o;
  auto s = makeScenario<kNX, kNU>(c, o);
  c.describe([=] { return s.describe(); });
  bool ok = s.solve();
  const auto & d = s.solver->controlData();
  c.check(static_cast<int>(d.x_list.size()) == s.N + 1, "state sequence has wrong length");
  c.check(static_cast<int>(d.u_list.size()) == s.N, "input sequence has wrong length");
  c.check(d.cost_list.size() == s.N + 1, "cost sequence has wrong length");
  for(int i = 0; i < s.N; i++)
    c.checkf(d.u_list[i].size() == s.spec->at(s.k0 + i).nu,
             [&] { return pbt::cat("input ", i, " has dimension ", d.u_list[i].size()); });
  c.check((d.x_list[0] - s.x0).norm() == 0, "first state is not the given state");
  auto near = [](double a, double b, double sc) { return std::abs(a - b) <= 1e-13 * sc + 1e-290; };
  for(int i = 0; i < s.N; i++)
  {
    Vec x = d.x_list[i], u = d.u_list[i];
    Vec nx = s.spec->f(s.k0 + i, x, u);
    double sc = nx.cwiseAbs().maxCoeff();
    for(int j = 0; j < kNX; j++)
      c.checkf(near(d.x_list[i + 1][j], nx[j], sc), [&] {
        return pbt::cat("state ", i + 1, " is not the successor of state ", i, ": ", d.x_list[i + 1][j], " vs ", nx[j]);
      });
    double L = s.spec->L(s.k0 + i, x, u);
    c.checkf(near(d.cost_list[i], L, std::abs(L)), [&] { return pbt::cat("cost entry ", i, ": ", d.cost_list[i], " vs ", L); });
  }
  double phi = s.spec->phi(s.k0 + s.N, d.x_list[s.N]);
  c.checkf(near(d.cost_list[s.N], phi, std::abs(phi)), [&] { return pbt::cat("terminal cost entry: ", d.cost_list[s.N], " vs ", phi); });
  int iters = static_cast<int>(s.solver->traceDataList().size()) - 1;
  double moved = maxDiff(fromList(d.u_list), s.u0);
  c.label(ok ? "success" : "no-success");
  if(s.constrained) c.label("constrained");
  if(moved > 1e-6 && iters >= 1) c.nontrivial();
}
