// C20: FMPC success means that the KKT conditions hold; the reported optimality errors are true.
#include "fmpc.h"
using namespace hfmpc;
using Sc = Scenario<kNX, kNU, kNC>;

PBT_PROPERTY_I(success_means_kkt, 2)
{
  Opt o;
  o.max_iter = 40;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  auto st = s.solve();
  const auto & tr = s.solver->traceDataList();
  c.label(pbt::cat("status ", static_cast<int>(st)));
  c.check(!tr.empty() && static_cast<int>(tr.size()) <= s.cfg.max_iter, "trace length");
  for(size_t i = 0; i < tr.size(); i++) c.checkf(tr[i].iter == static_cast<int>(i) + 1, [&] { return pbt::cat("trace entry ", i, " has iteration number ", tr[i].iter); });
  c.check(st != Sc::Status::Uninitialized && st != Sc::Status::IterationContinued, "internal status returned");
  if(st == Sc::Status::MaxIterationReached) c.check(static_cast<int>(tr.size()) == s.cfg.max_iter, "iteration limit reported before it is reached");
  if(st != Sc::Status::Succeeded) return;
  Var v = s.result();
  double e = fmpcref::kkt(s.prob, v);
  double scale = 1 + fmpcref::maxAbs(v);
  c.checkf(e <= s.cfg.kkt_error_thre * (1 + 1e-6) + 1e-10 * scale, [&] { return pbt::cat("success reported but the KKT error is ", e, " (threshold ", s.cfg.kkt_error_thre, ", reported ", tr.back().kkt_error, ")"); });
  c.checkf(std::abs(e - tr.back().kkt_error) <= 1e-9 * scale * (1 + e), [&] { return pbt::cat("reported KKT error ", tr.back().kkt_error, ", recomputed ", e); });
  for(int i = 0; i < s.prob.N; i++)
    for(int j = 0; j < v.s[i].size(); j++) c.check(v.s[i][j] >= 0 && v.nu[i][j] >= 0, "negative slack or multiplier in a successful result");
  if(tr.size() > 2) c.nontrivial();
}
// Every entry of the trace is the error at the iterate it belongs to
PBT_PROPERTY_I(trace_error, 1)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  int n = c.integer(2, 8);
  s.cfg.max_iter = n - 1;
  s.build();
  auto st = s.solve();
  if(st != Sc::Status::MaxIterationReached) c.discard("terminated earlier");
  Var v = s.result();
  s.cfg.max_iter = n;
  s.build();
  st = s.solve();
  const auto & tr = s.solver->traceDataList();
  c.check(static_cast<int>(tr.size()) == n, "trace length");
  double e = fmpcref::kkt(s.prob, v);
  double scale = (1 + fmpcref::maxAbs(v)) * (1 + fmpcref::maxAbs(v));
  if(!(scale < 1e8)) c.discard("diverged");
  c.checkf(std::abs(e - tr.back().kkt_error) <= 1e-9 * (scale + e), [&] { return pbt::cat("reported KKT error ", tr.back().kkt_error, ", recomputed ", e); });
  double d = std::abs(e - s.cfg.kkt_error_thre);
  if(d > 1e-9 * scale) c.checkf((st == Sc::Status::Succeeded) == (e <= s.cfg.kkt_error_thre), [&] { return pbt::cat("KKT error ", e, " threshold ", s.cfg.kkt_error_thre, " but status ", static_cast<int>(st)); });
  if(!s.cfg.init_complementary_variable)
  {
    double e0 = fmpcref::kkt(s.prob, s.guess);
    c.checkf(std::abs(e0 - tr[0].kkt_error) <= 1e-9 * (1 + e0), [&] { return pbt::cat("reported initial KKT error ", tr[0].kkt_error, ", recomputed ", e0); });
  }
  c.nontrivial();
}
