// C40, FMPC: histories of solves under sanitizers and with poisoned memory.
#include "fmpc.h"
#include "poison.h"
using namespace hfmpc;
using Sc = Scenario<kNX, kNU, kNC>;
using S = Sc::S;

namespace
{
struct Op
{
  int kind = 0, at = 0;
  bool own = false;
  Prob prob;
  Var guess;
  S::Configuration cfg;
};
} // namespace

PBT_PROPERTY_I(fmpc, 3)
{
  Opt o;
  o.extra = 8;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  std::vector<Op> ops;
  int n = c.integer(1, 4), grid = s.spec->gridSize();
  for(int i = 0; i < n; i++)
  {
    Op p;
    p.kind = c.weighted({6, 1, 1, 1});
    p.own = i > 0 && c.boolean(1, 4);
    p.prob = s.prob;
    p.guess = s.guess;
    if(i && c.boolean())
    {
      p.prob.N = c.integer(c.boolean(1, 10) ? 0 : 1, std::min(grid - 1, 10));
      p.prob.k0 = c.integer(0, std::min(grid - 1 - p.prob.N, 4));
      p.prob.x0 = c.vec(kNX, c.pick({1.0, 5.0, 1e8}));
      p.guess = constantGuess(p.prob, c.real(-1, 1), c.real(-1, 1), c.real(-1, 1), c.logreal(0.01, 5), c.logreal(0.01, 5));
    }
    p.at = c.integer(1, 8 * p.prob.N);
    p.cfg = s.cfg;
    p.cfg.max_iter = c.integer(c.boolean(1, 4) ? 0 : 1, 6);
    if(c.boolean(1, 8)) p.cfg.print_level = 3;
    p.cfg.horizon_steps = p.prob.N;
    if(c.boolean())
    {
      p.cfg.check_nan = c.boolean();
      p.cfg.init_complementary_variable = c.boolean();
      p.cfg.break_if_llt_fails = c.boolean();
      p.cfg.enable_line_search = c.boolean();
      p.cfg.update_barrier_eps = c.boolean();
      p.cfg.merit_const_scale_from_lagrange_multipliers = c.boolean();
    }
    ops.push_back(p);
  }
  poison::compare(c, [&] {
    poison::Out out;
    auto problem = std::make_shared<Sc::P>(s.spec);
    auto solver = std::make_shared<S>(problem);
    bool valid = false; // the outputs of an interrupted solve are unspecified
    for(auto & p : ops)
    {
      solver->config() = p.cfg;
      double t = s.spec->time(p.prob.k0);
      auto v = Sc::toVar(p.guess);
      bool threw = false;
      int st = -1;
      if(p.kind == 1)
      {
        switch(p.prob.N == 0 ? 2 : p.at % 3)
        {
          case 0: v.x_list.pop_back(); break;
          case 1: v.nu_list.pop_back(); break;
          default: gen::lengthen(v.u_list); break;
        }
      }
      if(p.kind == 2) problem->throw_at = problem->calls + p.at;
      if(p.kind == 3)
      {
        problem->fault.cb = p.at % 8;
        problem->fault.region = 1e-9;
        problem->fault.value = p.at % 2 ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
      }
      try
      {
        if(valid && p.own && p.kind == 0)
          st = static_cast<int>(solver->solve(t, p.prob.x0, solver->variable()));
        else
          st = static_cast<int>(solver->solve(t, p.prob.x0, v));
      }
      catch(const std::exception &)
      {
        threw = true;
      }
      problem->throw_at = -1;
      problem->fault = gen::Fault();
      poison::put(out, threw);
      poison::put(out, st);
      valid = !threw;
      if(threw) continue;
      const auto & r = solver->variable();
      poison::putList(out, r.x_list);
      poison::putList(out, r.u_list);
      poison::putList(out, r.lambda_list);
      poison::putList(out, r.s_list);
      poison::putList(out, r.nu_list);
      for(const auto & e : solver->traceDataList())
        for(double w : {double(e.iter), e.kkt_error}) poison::put(out, w);
    }
    return out;
  });
  if(n >= 2) c.nontrivial();
}
