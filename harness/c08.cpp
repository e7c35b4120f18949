// C08: one DDP iteration is the documented regularised Newton step with line search and regularisation schedule.
//
// The solver is run for n-1, n and n+1 iterations from the same arguments. A reference model of one iteration is applied
// to what the (n-1)-iteration run left (trajectory, lambda, dlambda) and must reproduce the result of the n-iteration run.
#include "ddp_scenario.h"
using namespace hddp;

namespace
{
struct Model
{
  std::vector<Vec> x, u;
  Vec cost;
  double lambda, dlambda;
  double alpha = 0, krel = 0, actual = 0, expected = 0, ratio = 0;
  int retval = 0; // 1 terminate, -1 failure, 0 continue
  bool forward = false, accepted = false;
  double min_pivot = 1;
  double kerr = 0; // accuracy of the gains (the box QP stops at an absolute gradient of 1e-8)
  int increases = 0, clamped = 0, tried = 0;
};
void undecided(pbt::Case & c, double a, double b, double tol, const char * what)
{
  if(!(std::abs(a - b) > tol)) c.discard(std::string("decision within rounding: ") + what);
}
template<class Cfg>
void step(pbt::Case & c, Model & m, const gen::Spec & s, int k0, const Cfg & cfg, const Limits * lim)
{
  int N = static_cast<int>(m.u.size());
  gen::Gains g;
  for(;;)
  {
    g = gen::referenceGains(s, k0, m.x, m.u, cfg.reg_type, m.lambda, lim ? &lim->lo : nullptr, lim ? &lim->hi : nullptr);
    if(std::abs(g.min_pivot) < 1e-6) c.discard("decision within rounding: positive definiteness");
    if(!g.pd && lim) c.discard("constrained backward pass with indefinite Hessian");
    if(g.pd) break;
    m.dlambda = std::max(m.dlambda * cfg.lambda_factor, cfg.lambda_factor);
    m.lambda = std::max(m.lambda * m.dlambda, cfg.lambda_min);
    m.increases++;
    if(m.lambda > cfg.lambda_max)
    {
      m.retval = -1;
      return;
    }
  }
  m.min_pivot = g.min_pivot;
  m.clamped = g.clamped;
  if(lim) m.kerr = 2e-8 / g.min_eig;
  if(lim && g.min_margin < 1e-5) c.discard("decision within rounding: active set");
  for(int i = 0; i < N; i++) m.krel = std::max(m.krel, g.k[i].norm() / (1 + m.u[i].norm()));
  double ktol = 1e-12 / m.min_pivot * (1 + m.krel) + 1e-13 + m.kerr;
  undecided(c, m.krel, cfg.k_rel_norm_thre, ktol, "gain norm");
  if(m.krel < cfg.k_rel_norm_thre && m.lambda < cfg.lambda_thre)
  {
    m.retval = 1;
    return;
  }
  m.forward = true;
  double cscale = 1 + m.cost.cwiseAbs().sum();
  std::vector<Vec> xc, uc;
  gen::Rollout r;
  for(int a = 0; a < cfg.alpha_list.size(); a++)
  {
    m.alpha = cfg.alpha_list[a];
    m.tried++;
    xc = {m.x[0]};
    uc.clear();
    for(int i = 0; i < N; i++)
    {
      Vec v = m.u[i] + m.alpha * g.k[i] + g.K[i] * (xc[i] - m.x[i]);
      if(lim) v = v.cwiseMin(lim->hi[k0 + i]).cwiseMax(lim->lo[k0 + i]).eval();
      uc.push_back(v);
      xc.push_back(s.f(k0 + i, xc[i], v));
    }
    r = gen::rollout(s, k0, m.x[0], uc);
    m.actual = m.cost.sum() - r.total;
    m.expected = -m.alpha * (g.dV1 + m.alpha * g.dV2);
    double etol = 1e-10 / m.min_pivot * (cscale + r.cost.cwiseAbs().sum()) * 1e-4 + 10 * m.kerr * m.kerr;
    undecided(c, m.expected, 0, etol, "expected reduction");
    m.ratio = m.actual / m.expected;
    if(m.expected < 0)
    {
      undecided(c, m.actual, 0, etol, "cost reduction");
      m.ratio = m.actual >= 0 ? 1 : -1;
    }
    undecided(c, m.ratio, cfg.cost_update_ratio_thre, etol / std::abs(m.expected) * (1 + std::abs(m.ratio)), "reduction ratio");
    if(m.ratio > cfg.cost_update_ratio_thre)
    {
      m.accepted = true;
      break;
    }
  }
  if(m.accepted)
  {
    undecided(c, m.actual, cfg.cost_update_thre, 1e-12 * cscale / m.min_pivot, "cost reduction");
    m.x = xc;
    m.u = uc;
    m.cost = r.cost;
    if(m.actual < cfg.cost_update_thre) m.retval = 1;
    m.dlambda = std::min(m.dlambda / cfg.lambda_factor, 1 / cfg.lambda_factor);
    m.lambda = m.lambda >= cfg.lambda_min ? m.lambda * m.dlambda : 0;
  }
  else
  {
    m.dlambda = std::max(m.dlambda * cfg.lambda_factor, cfg.lambda_factor);
    m.lambda = std::max(m.lambda * m.dlambda, cfg.lambda_min);
    if(m.lambda > cfg.lambda_max) m.retval = -1;
  }
}
bool near(double a, double b, double rel, double abs = 0)
{
  return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + abs;
}
} // namespace

PBT_PROPERTY_I(iteration_model, 1)
{
  ScenarioOpt o;
  o.max_n = 10;
  auto s = makeScenario<kNX, kNU>(c, o);
  int n = c.weighted({3, 2}) == 0 ? 1 : c.integer(2, 8);
  c.describe([=] { return pbt::cat("iteration ", n, " of ", s.describe()); });
  // State before the iteration
  s.cfg.max_iter = n - 1;
  s.build();
  s.solve();
  Model m;
  const auto & t0 = s.solver->traceDataList();
  if(static_cast<int>(t0.size()) != n) c.discard("terminated earlier");
  m.x = fromList(s.solver->controlData().x_list);
  m.u = fromList(s.solver->controlData().u_list);
  m.cost = s.solver->controlData().cost_list;
  m.lambda = t0.back().lambda;
  m.dlambda = t0.back().dlambda;
  if(n == 1)
    c.checkf(m.lambda == s.cfg.initial_lambda && m.dlambda == s.cfg.initial_dlambda, [&] { return pbt::cat("initial regularisation ", m.lambda, " ", m.dlambda); });
  Model before = m;
  // The iteration
  s.cfg.max_iter = n;
  s.build();
  bool ok = s.solve();
  auto tr = s.solver->traceDataList();
  // "terminated earlier" with failure leaves n entries too
  if(static_cast<int>(tr.size()) == n) c.discard("terminated earlier");
  step(c, m, *s.spec, s.k0, s.cfg, s.constrained ? s.limits.get() : nullptr);
  auto e = tr.back();
  double tol = 1e-9 + 1e-11 / m.min_pivot + 10 * m.kerr;
  auto u = fromList(s.solver->controlData().u_list);
  auto x = fromList(s.solver->controlData().x_list);
  double us = 1 + maxAbs(m.u) + maxAbs(before.u), xs = 1 + maxAbs(m.x) + maxAbs(before.x);
  c.checkf(maxDiff(u, m.u) <= tol * us * xs, [&] { return pbt::cat("inputs after the iteration ", strList(u), " reference ", strList(m.u), " (accepted ", m.accepted, " alpha ", m.alpha, " lambda ", before.lambda, ")"); });
  c.checkf(maxDiff(x, m.x) <= 10 * tol * us * xs, [&] { return pbt::cat("states after the iteration ", strList(x), " reference ", strList(m.x)); });
  c.checkf(ok == (m.retval == 1), [&] { return pbt::cat("solve returned ", ok, ", reference ends with ", m.retval); });
  c.checkf(near(e.lambda, m.lambda, 1e-12), [&] { return pbt::cat("regularisation ", e.lambda, " reference ", m.lambda, " (accepted ", m.accepted, ", before ", before.lambda, ")"); });
  c.checkf(near(e.dlambda, m.dlambda, 1e-12), [&] { return pbt::cat("regularisation scaling ", e.dlambda, " reference ", m.dlambda); });
  double cs = 1 + m.cost.cwiseAbs().sum() + before.cost.cwiseAbs().sum();
  if(m.retval != -1 || m.forward)
    c.checkf(near(e.k_rel_norm, m.krel, 1e-6 + tol, tol), [&] { return pbt::cat("gain norm ", e.k_rel_norm, " reference ", m.krel); });
  if(m.forward)
  {
    c.checkf(e.alpha == m.alpha, [&] { return pbt::cat("step size ", e.alpha, " reference ", m.alpha); });
    c.checkf(near(e.cost_update_actual, m.actual, tol * us * xs, tol * cs), [&] { return pbt::cat("cost update ", e.cost_update_actual, " reference ", m.actual); });
    c.checkf(near(e.cost_update_expected, m.expected, tol * us * xs, tol * cs), [&] { return pbt::cat("expected cost update ", e.cost_update_expected, " reference ", m.expected); });
    if(m.expected > 1e-6 * cs) c.checkf(near(e.cost_update_ratio, m.ratio, 1e-4, 1e-4), [&] { return pbt::cat("cost update ratio ", e.cost_update_ratio, " reference ", m.ratio); });
  }
  // Does the loop go on exactly when the model says so?
  s.cfg.max_iter = n + 1;
  s.build();
  s.solve();
  bool goes_on = static_cast<int>(s.solver->traceDataList().size()) == n + 2;
  c.checkf(goes_on == (m.retval == 0), [&] { return pbt::cat("the solver ", goes_on ? "continues" : "stops", " after an iteration that ends with ", m.retval); });
  c.label(m.accepted ? "accepted" : m.forward ? "all step sizes rejected" : m.retval == 1 ? "small gains" : "backward pass failed");
  if(m.accepted && m.tried > 1) c.label("shorter step");
  if(m.increases) c.label("regularisation raised by the backward pass");
  if(m.accepted && m.retval == 1) c.label("small cost update");
  if(m.clamped) c.label("inputs at limits");
  if(m.forward) c.nontrivial();
}
