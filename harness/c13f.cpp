// C13: the trace file reproduces the trace in memory (FMPC part).
#include "fmpc.h"

#include "dump.h"
using namespace hfmpc;

PBT_PROPERTY_I(fmpc_dump, 1)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  std::string file = dump::path();
  bool again = c.boolean(1, 3), stale = c.boolean(1, 4);
  if(stale) dump::litter(file);
  int n = c.integer(1, 3);
  for(int i = 0; i < n; i++)
  {
    if(i) s.prob.x0 = c.vec(kNX, 2.0);
    s.solve();
    if(again) s.solver->dumpTraceDataList(file);
    s.solver->dumpTraceDataList(file);
    const auto & tr = s.solver->traceDataList();
    auto d = dump::read(file);
    std::vector<std::string> names = {"iter", "kkt_error", "duration_coeff", "duration_backward", "duration_forward", "duration_update"};
    c.checkf(d.header == names, [&] { return "header of the trace file: " + d.head(); });
    c.checkf(d.rows.size() == tr.size(), [&] { return pbt::cat(d.rows.size(), " rows for ", tr.size(), " trace entries"); });
    for(size_t r = 0; r < tr.size(); r++)
    {
      std::vector<double> v = {double(tr[r].iter), tr[r].kkt_error, tr[r].duration_coeff, tr[r].duration_backward, tr[r].duration_forward, tr[r].duration_update};
      dump::compare(c, d, r, v);
      c.check(tr[r].iter == static_cast<int>(r) + 1, "iteration numbers are not consecutive");
    }
    if(tr.size() > 2) c.nontrivial();
  }
}
