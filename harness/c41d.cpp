// C41: DDP jobs
#include "ddp_scenario.h"
#include "indep.h"
using namespace hddp;

static indep::Job make(pbt::Case & c)
{
  ScenarioOpt o;
  o.max_n = 6;
  o.max_long = 20;
  o.max_iter = 5;
  auto s = makeScenario<kNX, kNU>(c, o);
  s.pre.clear();
  int again = c.integer(0, 1);
  Vec x1 = c.vec(kNX, 2.0);
  s.problem.reset();
  s.solver.reset();
  indep::Job j;
  j.desc = s.describe();
  j.run = [s, again, x1](const indep::Ctx & ctx) {
    auto t = s;
    if(ctx.quiet) t.cfg.print_level = 0;
    t.lim_mon = std::make_shared<gen::Monitor>();
    t.spec = std::make_shared<gen::Spec>(*s.spec);
    t.build();
    t.problem->hook = [ctx](int) { ctx.touch(); };
    if(t.limits)
    {
      auto f = t.limitsFunc();
      t.solver->setInputLimitsFunc([f, ctx](double tt) {
        ctx.touch();
        return f(tt);
      });
    }
    indep::Out out;
    for(int i = 0; i <= again; i++)
    {
      if(i)
      {
        t.x0 = x1;
        t.u0 = fromList(t.solver->controlData().u_list);
      }
      indep::put(out, t.solve());
      const auto & d = t.solver->controlData();
      indep::putList(out, d.x_list);
      indep::putList(out, d.u_list);
      indep::put(out, d.cost_list);
      for(const auto & e : t.solver->traceDataList())
        for(double v : {double(e.iter), e.cost, e.lambda, e.dlambda, e.alpha, e.k_rel_norm, e.cost_update_actual, e.cost_update_expected, e.cost_update_ratio}) indep::put(out, v);
    }
    return out;
  };
  return j;
}
static indep::RegKind reg(std::string("ddp") + PBT_SUFFIX, make);
