// C41: FMPC jobs
#include "fmpc.h"
#include "indep.h"
using namespace hfmpc;

static indep::Job make(pbt::Case & c)
{
  Opt o;
  o.max_n = 5;
  o.max_long = 12;
  o.max_iter = 5;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  s.pre.clear();
  int again = c.integer(0, 1);
  Vec x1 = c.vec(kNX, 2.0);
  s.problem.reset();
  s.solver.reset();
  indep::Job j;
  j.desc = s.describe();
  j.run = [s, again, x1](const indep::Ctx & ctx) {
    auto t = s;
    if(ctx.quiet) t.cfg.print_level = 0;
    t.spec = std::make_shared<gen::Spec>(*s.spec);
    t.build();
    t.problem->hook = [ctx](int) { ctx.touch(); };
    indep::Out out;
    for(int i = 0; i <= again; i++)
    {
      if(i) t.prob.x0 = x1;
      indep::put(out, static_cast<int>(t.solve()));
      Var v = t.result();
      for(auto * l : {&v.x, &v.u, &v.lam, &v.s, &v.nu}) indep::putList(out, *l);
      for(const auto & e : t.solver->traceDataList())
      {
        indep::put(out, e.iter);
        indep::put(out, e.kkt_error);
      }
    }
    return out;
  };
  return j;
}
static indep::RegKind reg(std::string("fmpc") + PBT_SUFFIX, make);
