// C40, DDP: histories of solves under sanitizers and with poisoned memory.
#include "ddp_scenario.h"
#include "poison.h"
using namespace hddp;

namespace
{
using Sc = Scenario<kNX, kNU>;
using S = Sc::S;
struct Op
{
  int kind = 0, N = 1, k0 = 0, at = 0;
  bool own = false;
  Vec x0;
  std::vector<Vec> u0;
  S::Configuration cfg;
};
} // namespace

PBT_PROPERTY_I(ddp, 3)
{
  ScenarioOpt o;
  o.max_iter = 5;
  o.max_n = 8;
  o.extra = 8;
  auto s = makeScenario<kNX, kNU>(c, o);
  c.describe([=] { return s.describe(); });
  if(!s.limits) s.limits = std::make_shared<Limits>(randomLimits(c, *s.spec, true));
  std::vector<Op> ops;
  int n = c.integer(1, 4), grid = s.spec->gridSize();
  for(int i = 0; i < n; i++)
  {
    Op p;
    p.kind = c.weighted({6, 1, 1, 1, 1});
    p.own = i > 0 && c.boolean(1, 4);
    p.N = i && c.boolean() ? c.integer(1, std::min(grid - 1, 12)) : s.N;
    p.k0 = c.integer(0, std::min(grid - 1 - p.N, 4));
    p.x0 = c.vec(kNX, c.pick({1.0, 5.0, 1e8}));
    p.u0 = randomInputs(c, *s.spec, p.k0, p.N, 2.0);
    p.at = c.integer(1, 6 * p.N);
    p.cfg = s.cfg;
    if(c.boolean()) randomConfig(c, p.cfg, true);
    p.cfg.with_input_constraint = c.boolean(2, 5);
    p.cfg.max_iter = c.integer(0, 6);
    p.cfg.horizon_steps = p.N;
    ops.push_back(p);
  }
  poison::compare(c, [&] {
    poison::Out out;
    auto problem = std::make_shared<Sc::P>(s.spec);
    auto solver = std::make_shared<S>(problem);
    solver->setInputLimitsFunc(s.limitsFunc());
    bool valid = false; // the outputs of an interrupted solve are unspecified
    for(auto & p : ops)
    {
      solver->config() = p.cfg;
      double t = s.spec->time(p.k0);
      auto list = toList<kNX, kNU>(p.u0);
      bool ok = false, threw = false;
      if(p.kind == 1) gen::lengthen(list);
      if(p.kind == 2) problem->throw_at = problem->calls + p.at;
      if(p.kind == 3)
      {
        problem->fault.cb = p.at % 6;
        problem->fault.region = 1e-9;
        problem->fault.value = p.at % 2 ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
      }
      if(p.kind == 4 && kNU == Eigen::Dynamic && !list.empty()) list.back() = Vec::Zero(list.back().size() + 1);
      try
      {
        if(valid && p.own && p.kind == 0)
          ok = solver->solve(t, solver->controlData().x_list.back(), solver->controlData().u_list);
        else
          ok = solver->solve(t, p.x0, list);
      }
      catch(const std::exception &)
      {
        threw = true;
      }
      problem->throw_at = -1;
      problem->fault = gen::Fault();
      poison::put(out, ok);
      poison::put(out, threw);
      valid = !threw;
      if(threw) continue;
      const auto & d = solver->controlData();
      poison::putList(out, d.x_list);
      poison::putList(out, d.u_list);
      poison::put(out, d.cost_list);
      for(const auto & e : solver->traceDataList())
        for(double v : {double(e.iter), e.cost, e.lambda, e.dlambda, e.alpha, e.k_rel_norm, e.cost_update_actual, e.cost_update_expected, e.cost_update_ratio}) poison::put(out, v);
    }
    return out;
  });
  if(n >= 2) c.nontrivial();
}
