// C42: durations reported by the FMPC solver
#include "c42.h"
#include "fmpc.h"
using namespace hfmpc;

PBT_PROPERTY_I(fmpc, 1)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  long cost[8];
  for(long & v : cost) v = 1000L * c.integer(0, 2000);
  bool fault = c.boolean(1, 6);
  int fault_cb = c.integer(0, 7);
  bool pattern = vclock::choosePattern(c);
  c.describe([=] { return pbt::cat("pattern=", pattern, " fault=", fault ? fault_cb : -1, " ", s.describe()); });
  s.warmUp();
  double spent[8] = {0};
  s.problem->hook = [&](int cb) {
    vclock::pass(cost[cb]);
    spent[cb] += 1e-6 * static_cast<double>(cost[cb]);
  };
  if(fault)
  {
    s.problem->fault.cb = fault_cb;
    s.problem->fault.region = 1e-9;
  }
  vclock::Span span;
  auto st = s.solve();
  double total = span.ms();
  vclock::Checker k{c, span.ticked() + 1e-9 * (1 + total), span.readings() > 0};
  const auto & d = s.solver->computationDuration();
  k.nonneg({d.solve, d.setup, d.opt, d.coeff, d.backward, d.forward, d.update, d.gain_pre, d.gain_solve, d.gain_post, d.fraction});
  double tc = 0, tb = 0, tf = 0, tu = 0, all = 0;
  for(double v : spent) all += v;
  for(const auto & t : s.solver->traceDataList())
  {
    k.nonneg({t.duration_coeff, t.duration_backward, t.duration_forward, t.duration_update});
    tc += t.duration_coeff;
    tb += t.duration_backward;
    tf += t.duration_forward;
    tu += t.duration_update;
  }
  k.same("time of the solve", d.solve, total);
  k.same("setup and optimization", d.setup + d.opt, d.solve);
  k.le("setup and optimization, included in solve", d.setup + d.opt, d.solve);
  k.le("phases, included in opt", d.coeff + d.backward + d.forward + d.update, d.opt);
  k.le("parts, included in backward", d.gain_pre + d.gain_solve + d.gain_post, d.backward);
  k.le("fraction-to-boundary rule, included in update", d.fraction, d.update);
  k.exact("sum of the coefficient times in the trace", tc, d.coeff);
  k.exact("sum of the backward times in the trace", tb, d.backward);
  k.exact("sum of the forward times in the trace", tf, d.forward);
  k.exact("sum of the update times in the trace", tu, d.update);
  k.same("time in the problem", d.setup + d.coeff + d.backward + d.forward + d.update, all);
  double deriv = spent[gen::CB_DF] + spent[gen::CB_DL] + spent[gen::CB_DPHI] + spent[gen::CB_DG];
  if(k.read) k.le("derivatives, included in the time for the coefficients", deriv, d.coeff);
  k.same("time in the backward pass", d.backward, 0);
  k.same("time in the forward pass", d.forward, 0);
  if(!s.cfg.enable_line_search) k.same("time for the update", d.update, 0);
  if(!s.cfg.init_complementary_variable) k.same("time of the setup", d.setup, 0);
  c.label(pbt::cat("status ", static_cast<int>(st)));
  if(!span.readings()) c.label("the solver does not read std::chrono clocks");
  if(s.solver->traceDataList().size() > 1) c.nontrivial();
  s.problem->hook = nullptr;
}
