// C13: the trace file reproduces the trace in memory (DDP part).
#include "ddp_scenario.h"

#include "dump.h"
using namespace hddp;

PBT_PROPERTY_I(ddp_dump, 1)
{
  ScenarioOpt o;
  o.max_iter = 12;
  o.max_n = 6;
  auto s = makeScenario<kNX, kNU>(c, o);
  c.describe([=] { return s.describe(); });
  std::string file = dump::path();
  bool again = c.boolean(1, 3), stale = c.boolean(1, 4);
  if(stale) dump::litter(file);
  int n = c.integer(1, 3);
  for(int i = 0; i < n; i++)
  {
    if(i) s.x0 = c.vec(kNX, 2.0);
    s.solve();
    if(again) s.solver->dumpTraceDataList(file);
    s.solver->dumpTraceDataList(file);
    const auto & tr = s.solver->traceDataList();
    auto d = dump::read(file);
    std::vector<std::string> names = {"iter", "cost", "lambda", "dlambda", "alpha", "k_rel_norm", "cost_update_actual", "cost_update_expected", "cost_update_ratio", "duration_derivative", "duration_backward", "duration_forward"};
    c.checkf(d.header == names, [&] { return "header of the trace file: " + d.head(); });
    c.checkf(d.rows.size() == tr.size(), [&] { return pbt::cat(d.rows.size(), " rows for ", tr.size(), " trace entries"); });
    for(size_t r = 0; r < tr.size(); r++)
    {
      std::vector<double> v = {double(tr[r].iter), tr[r].cost, tr[r].lambda, tr[r].dlambda, tr[r].alpha, tr[r].k_rel_norm, tr[r].cost_update_actual, tr[r].cost_update_expected, tr[r].cost_update_ratio, tr[r].duration_derivative, tr[r].duration_backward, tr[r].duration_forward};
      dump::compare(c, d, r, v);
      for(size_t k = 9; k < 12; k++) c.check(v[k] >= 0, "negative duration");
    }
    if(tr.size() > 2) c.nontrivial();
  }
}
