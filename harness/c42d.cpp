// C42: durations reported by the DDP solver
#include "c42.h"
#include "ddp_scenario.h"
using namespace hddp;

PBT_PROPERTY_I(ddp, 1)
{
  ScenarioOpt o;
  o.max_iter = 10;
  o.max_long = 40;
  auto s = makeScenario<kNX, kNU>(c, o);
  long cost[8];
  for(long & v : cost) v = 1000L * c.integer(0, 2000);
  long lim_cost = 1000L * c.integer(0, 2000);
  bool fault = c.boolean(1, 6);
  int fault_cb = c.integer(0, 5);
  bool pattern = vclock::choosePattern(c);
  c.describe([=] { return pbt::cat("pattern=", pattern, " fault=", fault ? fault_cb : -1, " ", s.describe()); });
  s.warmUp();
  double spent[8] = {0}, lim = 0;
  // the callbacks of the measured solve
  s.problem->hook = [&](int cb) {
    vclock::pass(cost[cb]);
    spent[cb] += 1e-6 * static_cast<double>(cost[cb]);
  };
  if(fault)
  {
    s.problem->fault.cb = fault_cb;
    s.problem->fault.region = 1e-9;
  }
  if(s.limits)
  {
    auto f = s.limitsFunc();
    s.solver->setInputLimitsFunc([&, f](double t) {
      vclock::pass(lim_cost);
      lim += 1e-6 * static_cast<double>(lim_cost);
      return f(t);
    });
  }
  vclock::Span span;
  s.solve();
  double total = span.ms();
  vclock::Checker k{c, span.ticked() + 1e-9 * (1 + total), span.readings() > 0};
  const auto & d = s.solver->computationDuration();
  k.nonneg({d.solve, d.setup, d.opt, d.derivative, d.backward, d.forward, d.Q, d.reg, d.gain});
  double td = 0, tb = 0, tf = 0;
  for(const auto & t : s.solver->traceDataList())
  {
    k.nonneg({t.duration_derivative, t.duration_backward, t.duration_forward});
    td += t.duration_derivative;
    tb += t.duration_backward;
    tf += t.duration_forward;
  }
  k.same("time of the solve", d.solve, total);
  k.same("setup and optimization", d.setup + d.opt, d.solve);
  k.le("setup and optimization, included in solve", d.setup + d.opt, d.solve);
  k.le("phases, included in opt", d.derivative + d.backward + d.forward, d.opt);
  k.le("parts, included in backward", d.Q + d.reg + d.gain, d.backward);
  k.exact("sum of the derivative times in the trace", td, d.derivative);
  k.exact("sum of the backward times in the trace", tb, d.backward);
  k.exact("sum of the forward times in the trace", tf, d.forward);
  k.same("time for the derivatives", d.derivative, spent[gen::CB_DF] + spent[gen::CB_DL] + spent[gen::CB_DPHI]);
  k.same("time for rollouts", d.setup + d.forward + d.backward, spent[gen::CB_F] + spent[gen::CB_L] + spent[gen::CB_PHI] + lim);
  if(!s.constrained) k.same("time in the backward pass", d.backward, 0);
  c.label(span.readings() ? "virtual clock" : "the solver does not read std::chrono clocks");
  if(s.solver->traceDataList().size() > 2) c.nontrivial();
  s.problem->hook = nullptr;
}
