// One randomly generated use of the DDP solver.
#pragma once

#include "ddp.h"

#include <nmpc_ddp/DDPSolver.h>

namespace hddp
{
struct Limits
{
  // per grid index
  std::vector<Vec> lo, hi;
  bool active(int k, const Vec & u, double tol) const
  {
    for(int j = 0; j < u.size(); j++)
      if(std::abs(u[j] - lo[k][j]) <= tol || std::abs(u[j] - hi[k][j]) <= tol) return true;
    return false;
  }
};
inline Limits randomLimits(pbt::Case & c, const gen::Spec & s, bool infinite)
{
  Limits l;
  double w = c.logreal(0.05, 5);
  bool sym = c.boolean(1, 3);
  for(int k = 0; k < s.gridSize(); k++)
  {
    int nu = s.at(k).nu;
    Vec lo(nu), hi(nu);
    for(int j = 0; j < nu; j++)
    {
      if(sym)
      {
        lo[j] = -w;
        hi[j] = w;
      }
      else
      {
        double m = c.real(-1, 1) * w;
        double h = w * c.real(0, 1);
        int kind = c.weighted({12, 1, 1, 1, 1});
        lo[j] = m - h;
        hi[j] = m + h;
        if(kind == 1) hi[j] = lo[j];
        if(kind == 2 && infinite) lo[j] = -std::numeric_limits<double>::infinity();
        if(kind == 3 && infinite) hi[j] = std::numeric_limits<double>::infinity();
        if(kind == 4 && infinite)
        {
          lo[j] = -1e10;
          hi[j] = 1e10;
        }
      }
    }
    l.lo.push_back(lo);
    l.hi.push_back(hi);
  }
  return l;
}

struct ScenarioOpt
{
  bool nonlinear = true;
  bool nonconvex = true;
  int constraint = 1; // 0 never, 1 sometimes, 2 always
  bool wild = true;
  int max_iter = 30;
  int max_n = 12;
  int max_long = 130;
  bool zero_horizon = true;
  bool infinite_limits = true;
  int extra = 3; // grid steps beyond the horizon (start offset)
};

inline int horizon(pbt::Case & c, int max_n, int max_long, bool zero)
{
  switch(c.weighted({48, 8, 8, 1}))
  {
    case 0:
      return c.integer(1, max_n);
    case 1:
      return zero && c.boolean(1, 4) ? 0 : 1;
    case 2:
      return c.integer(max_n, 3 * max_n);
    default:
      return c.integer(3 * max_n, max_long);
  }
}

// An earlier use of the same solver object: what is asserted about a solve must hold after any history.
struct Pre
{
  int dk = 0; // start index relative to the one of the solve
  int N = 0; // horizon; 0: the one of the solve
  bool same_x = true, same_u = true;
  double xv = 0, uv = 0;
  int max_iter = 0;
  int kind = 0; // 0 regular, 1 rejected guess, 2 problem throws, 3 NaN, 4 the solver is replaced by a copy of itself
  bool constrained = false;
};
inline Pre randomPre(pbt::Case & c)
{
  Pre p;
  p.dk = c.boolean() ? c.integer(0, 3) - c.integer(0, 3) : 0;
  p.N = c.boolean() ? 0 : c.integer(1, 10);
  p.same_x = !c.boolean();
  p.same_u = !c.boolean();
  p.xv = c.real(-2, 2);
  p.uv = c.real(-2, 2);
  p.max_iter = c.integer(0, 4);
  p.kind = c.weighted({7, 1, 1, 1, 1});
  p.constrained = c.boolean();
  return p;
}

template<int NX, int NU>
struct Scenario
{
  using P = Problem<NX, NU>;
  using S = nmpc_ddp::DDPSolver<NX, NU>;
  std::shared_ptr<gen::Spec> spec;
  int k0 = 0, N = 1;
  Vec x0;
  std::vector<Vec> u0;
  bool constrained = false;
  std::shared_ptr<Limits> limits;
  typename S::Configuration cfg;
  std::shared_ptr<P> problem;
  std::shared_ptr<S> solver;
  std::shared_ptr<gen::Monitor> lim_mon = std::make_shared<gen::Monitor>();
  std::vector<Pre> pre;
  bool pre_done = false;

  std::function<std::array<typename P::InputDimVector, 2>(double)> limitsFunc() const
  {
    auto sp = spec;
    auto li = limits;
    auto mo = lim_mon;
    return [sp, li, mo](double t) {
      mo->time(*sp, t, false);
      long k = std::min(std::max(sp->index(t), 0L), static_cast<long>(sp->gridSize()) - 1);
      return std::array<typename P::InputDimVector, 2>{li->lo[k], li->hi[k]};
    };
  }
  void build()
  {
    problem = std::make_shared<P>(spec);
    solver = std::make_shared<S>(problem);
    solver->config() = cfg;
    if(limits) solver->setInputLimitsFunc(limitsFunc());
    pre_done = false;
    watch();
  }
  void warmUp()
  {
    if(pre_done) return;
    pre_done = true;
    if(pre.empty()) return;
    auto conf = solver->config();
    auto fault = problem->fault;
    auto throw_at = problem->throw_at;
    for(const Pre & p : pre)
    {
      problem->fault = gen::Fault();
      problem->throw_at = -1;
      int grid = spec->gridSize();
      int n = std::min(p.N > 0 ? p.N : N, grid);
      int k = std::min(std::max(k0 + p.dk, 0), grid - n);
      problem->mon.hi = lim_mon->hi = 1L << 40;
      auto & cf = solver->config();
      cf = conf;
      cf.horizon_steps = n;
      cf.max_iter = p.max_iter;
      cf.with_input_constraint = p.constrained && limits;
      Vec x = p.same_x ? x0 : Vec(Vec::Constant(NX, p.xv));
      std::vector<Vec> u;
      for(int i = 0; i < n; i++)
      {
        int nu = spec->at(k + i).nu;
        bool same = p.same_u && i < static_cast<int>(u0.size()) && u0[i].size() == nu;
        u.push_back(same ? u0[i] : Vec(Vec::Constant(nu, p.uv)));
      }
      if(p.kind == 1) u.push_back(u.empty() ? Vec(Vec::Zero(NU == Eigen::Dynamic ? 1 : NU)) : u.back());
      if(p.kind == 2) problem->throw_at = problem->calls + 1 + n + n * p.max_iter;
      if(p.kind == 3)
      {
        problem->fault.cb = p.max_iter % 4 == 0 ? gen::CB_F : gen::CB_DF;
        problem->fault.region = 1e-9;
      }
      try
      {
        solver->solve(spec->time(k), x, toList<NX, NU>(u));
      }
      catch(const std::exception &)
      {
      }
      if(p.kind == 4) solver = std::make_shared<S>(*solver);
    }
    problem->fault = fault;
    problem->throw_at = throw_at;
    problem->calls = 0;
    problem->mon = gen::Monitor();
    *lim_mon = gen::Monitor();
    solver->config() = conf;
    watch();
  }
  void watch()
  {
    problem->mon.lo = lim_mon->lo = k0;
    problem->mon.hi = lim_mon->hi = k0 + N;
  }
  double t0() const
  {
    return spec->time(k0);
  }
  bool solve()
  {
    warmUp();
    return solver->solve(t0(), x0, toList<NX, NU>(u0));
  }
  std::vector<Vec> projected() const // the initial guess as the solver must use it
  {
    std::vector<Vec> u = u0;
    if(constrained)
      for(int i = 0; i < N; i++) u[i] = u[i].cwiseMin(limits->hi[k0 + i]).cwiseMax(limits->lo[k0 + i]).eval();
    return u;
  }
  std::string preStr() const
  {
    std::string r;
    for(const Pre & p : pre)
      r += pbt::cat(" [earlier solve: dk ", p.dk, " N ", p.N > 0 ? p.N : N, p.same_x ? " same x0" : "", p.same_u ? " same guess" : "", " max_iter ", p.max_iter, " kind ", p.kind, "]");
    return r;
  }
  std::string describe() const
  {
    return pbt::cat("k0=", k0, " N=", N, " t0=", t0(), " x0=", pbt::str(x0.transpose()), " u0=", strList(u0),
                    " constrained=", constrained, constrained ? " lo=" + strList(limits->lo) + " hi=" + strList(limits->hi) : "",
                    " max_iter=", cfg.max_iter, " reg=", cfg.reg_type, " lambda0=", cfg.initial_lambda,
                    " dlambda0=", cfg.initial_dlambda, " lambda_factor=", cfg.lambda_factor, " lambda_min=", cfg.lambda_min,
                    " lambda_max=", cfg.lambda_max, " lambda_thre=", cfg.lambda_thre, " ratio=", cfg.cost_update_ratio_thre,
                    " cthre=", cfg.cost_update_thre, " kthre=", cfg.k_rel_norm_thre, " alphas=",
                    pbt::str(cfg.alpha_list.transpose()), preStr(), " | ", spec->describe());
  }
};

template<int NX, int NU>
Scenario<NX, NU> makeScenario(pbt::Case & c, const ScenarioOpt & o)
{
  Scenario<NX, NU> s;
  s.N = horizon(c, o.max_n, o.max_long, o.zero_horizon);
  if(s.N > 3 * o.max_n) c.label("long horizon");
  s.k0 = c.boolean() ? 0 : c.integer(0, o.extra);
  gen::SpecOpt so;
  so.nx = NX;
  so.nu = NU == Eigen::Dynamic ? -1 : NU;
  so.grid = s.N + o.extra;
  so.nonlinear = o.nonlinear && c.boolean(3, 4);
  so.nonconvex_cost = o.nonconvex && so.nonlinear && c.boolean(1, 2);
  so.max_rho = s.N > 12 ? 1.0 : 1.2;
  s.spec = std::make_shared<gen::Spec>(gen::makeSpec(c, so));
  s.x0 = c.boolean(1, 10) ? Vec(Vec::Zero(NX)) : Vec(c.vec(NX, c.pick({1.0, 5.0, 0.1})));
  s.u0 = randomInputs(c, *s.spec, s.k0, s.N, c.pick({1.0, 5.0, 0.2}));
  randomConfig(c, s.cfg, o.wild);
  s.cfg.horizon_steps = s.N;
  s.cfg.max_iter = c.weighted({8, 1, 1}) == 0 ? c.integer(1, o.max_iter) : c.integer(0, 2);
  s.constrained = o.constraint == 2 || (o.constraint == 1 && c.boolean(2, 5));
  if(s.constrained || c.boolean(1, 4)) s.limits = std::make_shared<Limits>(randomLimits(c, *s.spec, o.infinite_limits));
  s.cfg.with_input_constraint = s.constrained;
  if(c.boolean(1, 16)) s.cfg.print_level = c.integer(1, 3);
  if(c.boolean(1, 4))
  {
    int n = c.integer(1, 2);
    for(int i = 0; i < n; i++) s.pre.push_back(randomPre(c));
    c.label("solver used before");
  }
  s.build();
  return s;
}
} // namespace hddp

// The instantiation this translation unit is compiled for
#ifndef INX
#  define INX 2
#  define INU 1
#endif
constexpr int kNX = INX;
constexpr int kNU = INU;
