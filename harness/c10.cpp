// C10: malformed initial guesses are rejected, before anything else happens; well-formed ones are not.
#include "ddp_scenario.h"
using namespace hddp;

PBT_PROPERTY_I(rejected, 1)
{
  ScenarioOpt o;
  o.max_iter = 5;
  auto s = makeScenario<kNX, kNU>(c, o);
  s.cfg.print_level = 0;
  s.build();
  auto list = toList<kNX, kNU>(s.u0);
  using InputVec = typename Problem<kNX, kNU>::InputDimVector;
  int kind = c.weighted({3, 3, kNU == Eigen::Dynamic ? 6 : 0, 2});
  if(s.N == 0) kind = kind % 2 ? 3 : 1;
  std::string what;
  bool used_before = c.boolean();
  if(used_before) s.solve();
  auto prev_u = fromList(s.solver->controlData().u_list);
  long before = s.problem->mon.total();
  if(kind == 0)
  {
    int n = c.integer(1, s.N);
    list.resize(list.size() - n);
    what = pbt::cat("guess shorter by ", n);
  }
  else if(kind == 1)
  {
    int n = c.integer(1, 5);
    for(int i = 0; i < n; i++) gen::lengthen(list);
    what = pbt::cat("guess longer by ", n);
  }
  else if(kind == 2)
  {
    int i = c.boolean(1, 4) ? s.N - 1 : c.integer(0, s.N - 1);
    int nu = s.spec->at(s.k0 + i).nu;
    int wrong = c.integer(0, 4);
    if(wrong == nu) wrong = nu + 1;
    if constexpr(kNU == Eigen::Dynamic) list[i] = InputVec::Zero(wrong);
    what = pbt::cat("input ", i, " of ", s.N, " has dimension ", wrong, " instead of ", nu);
    if(s.N > 1 && c.boolean(1, 3))
    {
      // a second error that compensates the first one in total
      int j = c.integer(0, s.N - 2);
      if(j >= i) j++;
      int nj = s.spec->at(s.k0 + j).nu, wj = nj - (wrong - nu);
      if(wj >= 0)
      {
        if constexpr(kNU == Eigen::Dynamic) list[j] = InputVec::Zero(wj);
        what += pbt::cat(", input ", j, " ", wj, " instead of ", nj);
        c.label("compensating errors");
      }
    }
    c.label("wrong dimension");
  }
  else
    what = "well-formed";
  c.describe([=] { return what + "; " + s.describe(); });
  bool threw = false;
  try
  {
    s.solver->solve(s.t0(), s.x0, list);
  }
  catch(const std::exception &)
  {
    threw = true;
  }
  c.checkf(threw == (kind != 3), [&] { return what + (threw ? ": rejected" : ": accepted"); });
  if(kind != 3)
  {
    c.checkf(s.problem->mon.total() == before, [&] { return what + ": the problem was evaluated before the guess was rejected"; });
    c.checkf(prev_u.size() == s.solver->controlData().u_list.size() && maxDiff(prev_u, fromList(s.solver->controlData().u_list)) == 0,
             [&] { return what + ": the previous plan was damaged"; });
    c.nontrivial();
  }
  // The solver is as good as new
  bool ok = s.solve();
  auto f = s;
  f.pre.clear();
  f.build();
  bool ok2 = f.solve();
  c.checkf(ok == ok2 && maxDiff(fromList(s.solver->controlData().u_list), fromList(f.solver->controlData().u_list)) == 0
               && s.solver->traceDataList().size() == f.solver->traceDataList().size(),
           [&] { return what + ": a later solve differs from one with a new solver"; });
}
