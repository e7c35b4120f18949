// C26: non-finite values from the problem never end in a reported success.
#include "fmpc.h"
using namespace hfmpc;
using Sc = Scenario<kNX, kNU, kNC>;

PBT_PROPERTY_I(injected, 1)
{
  Opt o;
  o.max_iter = 25;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  auto & f = s.problem->fault;
  f.cb = c.integer(0, 7);
  switch(c.integer(0, 2))
  {
    case 0: f.nth = c.integer(1, std::max(2, 3 * s.prob.N)); break;
    case 1:
      f.nth = c.integer(1, std::max(2, 10 * s.prob.N));
      f.persistent = true;
      break;
    default: f.region = c.logreal(0.01, 3); break;
  }
  f.value = c.pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
  f.pos = c.integer(0, 7);
  gen::Fault fault = f;
  c.describe([=] { return pbt::cat("fault in callback ", fault.cb, " call ", fault.nth, " persistent ", fault.persistent, " region ", fault.region, " value ", fault.value, " pos ", fault.pos, "; ", s.describe()); });
  auto st = s.solve();
  const auto & tr = s.solver->traceDataList();
  Var v = s.result();
  c.label(pbt::cat("cb ", fault.cb, " status ", static_cast<int>(st)));
  c.check(static_cast<int>(tr.size()) <= s.cfg.max_iter, "iteration limit exceeded");
  c.check(st != Sc::Status::Uninitialized && st != Sc::Status::IterationContinued, "internal status");
  if(st == Sc::Status::Succeeded)
  {
    c.checkf(v.finite(), [&] { return "success with non-finite variables " + v.str(); });
    double e = fmpcref::kkt(s.prob, v), scale = 1 + fmpcref::maxAbs(v);
    c.checkf(e <= s.cfg.kkt_error_thre * (1 + 1e-6) + 1e-10 * scale * scale, [&] { return pbt::cat("success with KKT error ", e); });
  }
  if(s.cfg.check_nan && !(s.cfg.init_complementary_variable && fault.cb == gen::CB_G)) c.checkf(v.finite(), [&] { return "with the NaN check the solver returns non-finite variables " + v.str() + pbt::cat(" status ", static_cast<int>(st)); });
  // With the check, a non-finite value that entered the linearisation cannot go unnoticed
  bool entered = fault.cb == gen::CB_DF || fault.cb == gen::CB_DL || fault.cb == gen::CB_DPHI || (fault.cb == gen::CB_F && !s.cfg.enable_line_search);
  bool all_ineq = true;
  for(int i = 0; i < s.prob.N; i++) all_ineq = all_ineq && s.spec->at(s.prob.k0 + i).nc > 0;
  if(all_ineq) entered = entered || fault.cb == gen::CB_DG || (fault.cb == gen::CB_G && !s.cfg.enable_line_search && !s.cfg.init_complementary_variable);
  if(s.cfg.check_nan && entered && s.problem->fault.hits)
    c.checkf(st != Sc::Status::MaxIterationReached, [&] { return pbt::cat("a non-finite value in callback ", fault.cb, " goes unnoticed with the NaN check"); });
  if(s.problem->fault.hits) c.nontrivial();
}
// Finite values of such size that something overflows
PBT_PROPERTY_I(overflow, 1)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  auto & f = s.problem->fault;
  f.cb = c.integer(0, 7);
  if(c.boolean())
    f.nth = c.integer(1, std::max(2, 3 * s.prob.N));
  else
    f.region = c.logreal(0.01, 3);
  f.value = c.logreal(1e100, 1e307) * (c.boolean() ? 1 : -1);
  f.pos = c.integer(0, 7);
  s.cfg.check_nan = true;
  s.cfg.max_iter = c.integer(1, 4);
  if(c.boolean())
    for(int i = 0; i < s.prob.N; i++)
      for(int j = 0; j < s.guess.s[i].size(); j++)
      {
        if(c.boolean(1, 3)) s.guess.s[i][j] = c.logreal(1e-300, 1e100);
        if(c.boolean(1, 3)) s.guess.nu[i][j] = c.logreal(1e-300, 1e300);
      }
  s.solver->config() = s.cfg;
  s.solver->config().horizon_steps = s.prob.N;
  gen::Fault fault = f;
  c.describe([=] { return pbt::cat("callback ", fault.cb, " call ", fault.nth, " region ", fault.region, " gives ", fault.value, " pos ", fault.pos, "; ", s.describe()); });
  auto st = s.solve();
  Var v = s.result();
  c.label(pbt::cat("status ", static_cast<int>(st)));
  if(st == Sc::Status::Succeeded)
  {
    double e = s.solver->traceDataList().back().kkt_error;
    c.checkf(v.finite() && e <= s.cfg.kkt_error_thre, [&] { return pbt::cat("success with KKT error ", e, " ", v.str()); });
  }
  // a sum of two finite values may overflow in the last update only if they are enormous themselves
  c.checkf(v.finite(), [&] { return "with the NaN check the solver returns non-finite variables " + v.str() + pbt::cat(" status ", static_cast<int>(st)); });
  if(st != Sc::Status::Succeeded) c.nontrivial();
}
