// C28 (FMPC part): the same problem posed with fixed and with run-time dimensions.
#include "fmpc.h"
using namespace hfmpc;

template<int NU, int NC>
static void run(pbt::Case & c, const Scenario<kNX, kNU, kNC> & a, int sa, const Var & va, double scale)
{
  Scenario<kNX, NU, NC> b;
  b.prob = a.prob;
  b.spec = a.spec;
  b.guess = a.guess;
  b.cfg.print_level = a.cfg.print_level;
  b.cfg.horizon_steps = a.cfg.horizon_steps;
  b.cfg.max_iter = a.cfg.max_iter;
  b.cfg.kkt_error_thre = a.cfg.kkt_error_thre;
  b.cfg.check_nan = a.cfg.check_nan;
  b.cfg.init_complementary_variable = a.cfg.init_complementary_variable;
  b.cfg.update_barrier_eps = a.cfg.update_barrier_eps;
  b.cfg.break_if_llt_fails = a.cfg.break_if_llt_fails;
  b.cfg.enable_line_search = a.cfg.enable_line_search;
  b.cfg.merit_const_scale_from_lagrange_multipliers = a.cfg.merit_const_scale_from_lagrange_multipliers;
  b.build();
  int sb = static_cast<int>(b.solve());
  const auto & ta = a.solver->traceDataList();
  const auto & tb = b.solver->traceDataList();
  c.checkf(sa == sb && ta.size() == tb.size(), [&] { return pbt::cat("status ", sa, " with fixed, ", sb, " with run-time dimensions (", NU, ",", NC, ")"); });
  for(size_t i = 0; i < ta.size(); i++)
    c.checkf(std::abs(ta[i].kkt_error - tb[i].kkt_error) <= 1e-5 * (1 + ta[i].kkt_error), [&] { return pbt::cat("iteration ", i, ": error ", ta[i].kkt_error, " with fixed, ", tb[i].kkt_error, " with run-time dimensions"); });
  Var vb = b.result();
  double d = fmpcref::maxDiff(va, vb);
  c.checkf(d <= 1e-5 * scale, [&] { return pbt::cat("results differ by ", d, " with dimensions (", NU, ",", NC, "): ", va.str(), " and ", vb.str()); });
}

PBT_PROPERTY_I(fmpc_fixed_dynamic, 1)
{
  Opt o;
  o.max_iter = 4;
  auto a = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return a.describe(); });
  if(a.cfg.enable_line_search) a.cfg.max_iter = 1;
  a.build();
  int sa = static_cast<int>(a.solve());
  Var va = a.result();
  const auto & ta = a.solver->traceDataList();
  for(auto & t : ta)
    if(std::abs(t.kkt_error - a.cfg.kkt_error_thre) < 1e-8) c.discard("decision at rounding level");
  Var st = start(a.prob, a.guess, a.cfg.init_complementary_variable);
  double dist = fmpcref::maxDiff(st, va);
  if(!va.finite() || !(fmpcref::maxAbs(va) < 1e5)) c.discard("diverged");
  if(!(fmpcref::stageMargin(a.prob, st) > 1e-4) || !(fmpcref::stageMargin(a.prob, va) > 1e-4)) c.discard("ill-conditioned");
  if(!(fmpcref::barrierWeight(va, 1e-8) < 1e5) || !(fmpcref::barrierWeight(st, 1e-8) < 1e5)) c.discard("ill-conditioned constraint");
  if(a.cfg.enable_line_search)
  {
    if(dist < 1e-6) c.discard("line search at rounding level");
    auto m = fmpcref::merit(a.prob, st, nullptr, 1e-4);
    if(m.min_residual < 1e-9) c.discard("line search at rounding level");
  }
  double scale = 1 + fmpcref::maxAbs(va) + fmpcref::maxAbs(st);
  run<Eigen::Dynamic, Eigen::Dynamic>(c, a, sa, va, scale);
  // Eigen 3.4 has no diagonal product of a fixed-empty and a run-time size
  if constexpr(kNU != 0) run<kNU, Eigen::Dynamic>(c, a, sa, va, scale);
  run<Eigen::Dynamic, kNC>(c, a, sa, va, scale);
  if(ta.size() > 1) c.nontrivial();
}
