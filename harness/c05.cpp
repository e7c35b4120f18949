// C05: with input constraints enabled every returned input respects the limits, whatever the outcome.
#include "ddp_scenario.h"
using namespace hddp;

PBT_PROPERTY_I(limits_respected, 1)
{
  ScenarioOpt o;
  o.constraint = 2;
  auto s = makeScenario<kNX, kNU>(c, o);
  c.describe([=] { return s.describe(); });
  bool ok = s.solve();
  const auto & d = s.solver->controlData();
  bool touched = false, moved = false;
  for(int i = 0; i < s.N; i++)
  {
    const Vec &lo = s.limits->lo[s.k0 + i], &hi = s.limits->hi[s.k0 + i];
    for(int j = 0; j < d.u_list[i].size(); j++)
    {
      double u = d.u_list[i][j];
      double tol = 1e-9 * (1 + std::abs(u));
      c.checkf(u >= lo[j] && u <= hi[j], [&] {
        return pbt::cat("input ", i, "[", j, "] = ", u, " violates [", lo[j], ", ", hi[j], "]");
      });
      touched |= (u <= lo[j] + tol || u >= hi[j] - tol) && lo[j] < hi[j];
      moved |= u != s.u0[i][j];
    }
  }
  c.check(s.lim_mon->off_grid == 0 && s.lim_mon->out_of_range == 0, "limits evaluated at a wrong time:" + s.lim_mon->first_bad);
  c.label(ok ? "success" : "no-success");
  if(touched) c.label("limit active in the result");
  if(touched && moved) c.nontrivial();
}
// A limit that is not enabled has no effect at all.
PBT_PROPERTY_I(disabled_limits_ignored, 1)
{
  ScenarioOpt o;
  o.constraint = 0;
  o.max_iter = 10;
  auto s = makeScenario<kNX, kNU>(c, o);
  c.describe([=] { return s.describe(); });
  auto plain = s;
  plain.limits = nullptr;
  plain.build();
  if(!s.limits) s.limits = std::make_shared<Limits>(randomLimits(c, *s.spec, true));
  s.build();
  bool a = plain.solve(), b = s.solve();
  c.check(a == b, "return value depends on limits that are disabled");
  c.check(maxDiff(fromList(plain.solver->controlData().u_list), fromList(s.solver->controlData().u_list)) == 0,
          "plan depends on limits that are disabled");
  c.nontrivial();
}
