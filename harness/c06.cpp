// C06: success on an input-constrained problem means a KKT point; convex box-constrained LQ problems are solved.
#include "ddp_scenario.h"
using namespace hddp;

namespace
{
// Projected-gradient optimality measure: |u - clamp(u - g)|
double projectedGradient(const std::vector<Vec> & u, const std::vector<Vec> & g, const Limits & l, int k0)
{
  double m = 0;
  for(size_t i = 0; i < u.size(); i++)
  {
    Vec v = (u[i] - g[i]).cwiseMin(l.hi[k0 + i]).cwiseMax(l.lo[k0 + i]);
    if(u[i].size()) m = std::max(m, (u[i] - v).cwiseAbs().maxCoeff());
  }
  return m;
}
// Accelerated projected gradient on the condensed QP: an oracle that shares nothing with the solver
Vec boxOptimum(const gen::Condensed & q, const Vec & lo, const Vec & hi, const Vec & start)
{
  Eigen::SelfAdjointEigenSolver<Mat> es(q.H);
  double L = es.eigenvalues().maxCoeff(), mu = es.eigenvalues().minCoeff();
  double beta = (std::sqrt(L) - std::sqrt(mu)) / (std::sqrt(L) + std::sqrt(mu));
  Vec x = start.cwiseMin(hi).cwiseMax(lo), y = x;
  for(int it = 0; it < 20000; it++)
  {
    Vec xn = (y - (q.H * y + q.g) / L).cwiseMin(hi).cwiseMax(lo);
    double d = (xn - x).cwiseAbs().maxCoeff();
    y = xn + beta * (xn - x);
    x = xn;
    if(d < 1e-13 && it > 5) break;
  }
  return x;
}
} // namespace

PBT_PROPERTY_I(success_means_kkt, 2)
{
  ScenarioOpt o;
  o.constraint = 2;
  auto s = makeScenario<kNX, kNU>(c, o);
  s.cfg.max_iter = 150;
  s.cfg.cost_update_thre = 0;
  s.cfg.k_rel_norm_thre = c.pick({1e-6, 1e-7});
  s.cfg.lambda_thre = c.pick({1e-5, 1e-3, 1e-7});
  backtracking(s.cfg);
  s.build();
  c.describe([=] { return s.describe(); });
  bool ok = s.solve();
  c.label(ok ? "success" : "no-success");
  if(!ok) return;
  auto u = fromList(s.solver->controlData().u_list);
  auto r = gen::rollout(*s.spec, s.k0, s.x0, u);
  auto g = gen::gradient(*s.spec, s.k0, r, u);
  double pg = projectedGradient(u, g, *s.limits, s.k0);
  c.checkf(pg <= 2e4 * s.cfg.k_rel_norm_thre, [&] { return pbt::cat("success reported but the projected gradient is ", pg); });
  bool act = false;
  for(int i = 0; i < s.N; i++) act |= s.limits->active(s.k0 + i, u[i], 1e-9);
  if(act) c.nontrivial();
}

PBT_PROPERTY_I(lq_box_optimum, 2)
{
  ScenarioOpt o;
  o.constraint = 2;
  o.nonlinear = false;
  o.max_n = 8;
  auto s = makeScenario<kNX, kNU>(c, o);
  s.cfg.max_iter = 500;
  s.cfg.cost_update_thre = 0;
  s.cfg.k_rel_norm_thre = 1e-9;
  s.cfg.lambda_thre = 1e-5;
  s.cfg.lambda_max = 1e10;
  s.cfg.cost_update_ratio_thre = 0;
  backtracking(s.cfg);
  s.build();
  c.describe([=] { return s.describe(); });
  auto q = gen::condense(*s.spec, s.k0, s.N, s.x0);
  int n = static_cast<int>(q.g.size());
  if(n == 0) return;
  Eigen::SelfAdjointEigenSolver<Mat> es(q.H);
  if(es.eigenvalues()[0] < 1e-5 * es.eigenvalues()[n - 1]) c.discard("ill-conditioned reference QP");
  Vec lo(n), hi(n), U0(n), U(n);
  auto proj = s.projected();
  bool ok = s.solve();
  auto u = fromList(s.solver->controlData().u_list);
  for(int i = 0; i < s.N; i++)
  {
    lo.segment(q.off[i], u[i].size()) = s.limits->lo[s.k0 + i];
    hi.segment(q.off[i], u[i].size()) = s.limits->hi[s.k0 + i];
    U0.segment(q.off[i], u[i].size()) = proj[i];
    U.segment(q.off[i], u[i].size()) = u[i];
  }
  Vec O = boxOptimum(q, lo, hi, U0);
  auto J = [&](const Vec & v) { return 0.5 * v.dot(q.H * v) + q.g.dot(v) + q.c; };
  double scale = 1 + gen::rollout(*s.spec, s.k0, s.x0, proj).cost.cwiseAbs().sum();
  double gap = (J(U) - J(O)) / scale;
  c.label(ok ? "success" : "no-success");
  c.checkf(gap <= 1e-8, [&] { return pbt::cat("relative cost gap to the box-constrained optimum: ", gap); });
  bool act = false;
  for(int i = 0; i < s.N; i++) act |= s.limits->active(s.k0 + i, u[i], 1e-9);
  if(act && (J(U0) - J(O)) > 1e-3 * scale) c.nontrivial();
}
