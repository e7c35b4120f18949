// C21: slacks and inequality multipliers stay positive; the fraction-to-boundary rule.
#include "fmpc.h"
using namespace hfmpc;
using Sc = Scenario<kNX, kNU, kNC>;

PBT_PROPERTY_I(positive, 1)
{
  Opt o;
  o.max_iter = 30;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  if(s.totalIneq() == 0) c.discard("no inequality constraints");
  Var first = start(s.prob, s.guess, s.cfg.init_complementary_variable);
  auto st = s.solve();
  Var v = s.result();
  if(!v.finite() && !s.cfg.check_nan) c.discard("diverged without the NaN check");
  c.check(v.finite(), "non-finite variables with the NaN check");
  double worst = 1;
  size_t iters = s.solver->traceDataList().size();
  double allowed = std::pow(0.005 * (1 - 1e-9), static_cast<double>(iters));
  for(int i = 0; i < s.prob.N; i++)
    for(int j = 0; j < v.s[i].size(); j++)
    {
      c.checkf(v.s[i][j] > 0, [&] { return pbt::cat("slack ", v.s[i][j], " at step ", i, " after status ", static_cast<int>(st)); });
      c.checkf(v.nu[i][j] > 0, [&] { return pbt::cat("multiplier ", v.nu[i][j], " at step ", i, " after status ", static_cast<int>(st)); });
      worst = std::min({worst, v.s[i][j] / first.s[i][j], v.nu[i][j] / first.nu[i][j]});
    }
  c.checkf(worst >= allowed, [&] { return pbt::cat("a slack or multiplier was reduced to ", worst, " of its initial value in ", iters, " iterations"); });
  if(worst < 0.1) c.nontrivial();
}
// One iteration anywhere in a solve
PBT_PROPERTY_I(one_step, 2)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  if(s.totalIneq() == 0) c.discard("no inequality constraints");
  if(!s.cfg.init_complementary_variable && c.boolean(1, 4))
  {
    // variables close to the boundary
    double lo = c.logreal(1e-16, 1e-3);
    for(auto * l : {&s.guess.s, &s.guess.nu})
      for(auto & e : *l)
        for(int j = 0; j < e.size(); j++)
          if(c.boolean()) e[j] = c.logreal(lo, 5);
  }
  int n = c.integer(1, 10);
  Var a = start(s.prob, s.guess, s.cfg.init_complementary_variable);
  if(n > 1)
  {
    s.cfg.max_iter = n - 1;
    s.build();
    if(s.solve() != Sc::Status::MaxIterationReached) c.discard("terminated earlier");
    a = s.result();
  }
  s.cfg.max_iter = n;
  s.build();
  s.solve();
  Var b = s.result();
  if(!b.finite() && !s.cfg.check_nan) c.discard("diverged without the NaN check");
  double m = 1;
  for(int i = 0; i < s.prob.N; i++)
    for(int j = 0; j < b.s[i].size(); j++)
    {
      double r1 = b.s[i][j] / a.s[i][j], r2 = b.nu[i][j] / a.nu[i][j];
      c.checkf(r1 >= 0.005 * (1 - 1e-9), [&] { return pbt::cat("a step reduces a slack from ", a.s[i][j], " to ", b.s[i][j]); });
      c.checkf(r2 >= 0.005 * (1 - 1e-9), [&] { return pbt::cat("a step reduces a multiplier from ", a.nu[i][j], " to ", b.nu[i][j]); });
      m = std::min({m, r1, r2});
    }
  if(m < 0.0051) c.label("boundary reached");
  if(m < 0.0051) c.nontrivial();
}
// Slacks so small that the step length to the boundary underflows
PBT_PROPERTY_I(tiny, 1)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  gen::Spec sp = *s.spec;
  for(auto & st : sp.palette)
    if(st.nc > 0)
    {
      // a constraint that does not depend on the variables, violated by far
      st.G.row(0).setZero();
      if(st.GW.rows() > 0) st.GW.row(0).setZero();
      st.e[0] = c.logreal(1e3, 1e15);
    }
  s.spec = std::make_shared<gen::Spec>(sp);
  s.prob.spec = s.spec;
  s.pre.clear();
  s.cfg.init_complementary_variable = false;
  s.cfg.enable_line_search = c.boolean(1, 4);
  s.cfg.max_iter = c.integer(1, 3);
  for(int i = 0; i < s.prob.N; i++)
    if(s.guess.s[i].size() > 0)
    {
      s.guess.s[i][0] = c.logreal(1e-318, 1e-300);
      s.guess.nu[i][0] = c.logreal(1e-20, 1e-3);
    }
  s.build();
  c.describe([=] { return s.describe(); });
  if(s.totalIneq() == 0) c.discard("no inequality constraints");
  auto st = s.solve();
  Var v = s.result();
  bool moved = false;
  for(int i = 0; i < s.prob.N; i++)
    for(int j = 0; j < v.s[i].size(); j++)
    {
      c.checkf(!(v.s[i][j] < 0), [&] { return pbt::cat("slack ", v.s[i][j], " at step ", i, " after status ", static_cast<int>(st)); });
      c.checkf(!(v.nu[i][j] < 0), [&] { return pbt::cat("multiplier ", v.nu[i][j], " at step ", i, " after status ", static_cast<int>(st)); });
      moved = moved || v.s[i][j] != s.guess.s[i][j];
    }
  c.label(pbt::cat("status ", static_cast<int>(st)));
  if(moved) c.nontrivial();
}
