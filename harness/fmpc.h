// The generated problem as a nmpc_fmpc problem and one randomly generated use of the FMPC solver.
#pragma once

#include "ddp.h"
#include "fmpcref.h"

#include <nmpc_fmpc/FmpcSolver.h>

namespace hfmpc
{
using fmpcref::Prob;
using fmpcref::Var;
using gen::Mat;
using gen::Vec;

template<int NX, int NU, int NC>
class Problem : public hddp::ProblemT<NX, NU, nmpc_fmpc::FmpcProblem<NX, NU, NC>>
{
public:
  using Base = hddp::ProblemT<NX, NU, nmpc_fmpc::FmpcProblem<NX, NU, NC>>;
  using FBase = nmpc_fmpc::FmpcProblem<NX, NU, NC>;
  using typename FBase::IneqDimVector;
  using typename FBase::IneqInputDimMatrix;
  using typename FBase::IneqStateDimMatrix;
  using typename FBase::InputDimVector;
  using typename FBase::StateDimVector;
  using Base::Base;
  using Base::fault;
  using Base::mon;
  using Base::spec;
  using FBase::ineqDim;
  int ineqDim(double t) const override
  {
    if constexpr(NC == Eigen::Dynamic)
      return spec->at(spec->index(t)).nc;
    else
      return FBase::ineqDim(t); // the library's default
  }
  IneqDimVector ineqConst(double t, const StateDimVector & x, const InputDimVector & u) const override
  {
    long k = this->in(t, u);
    mon.n_ineq++;
    this->touch(gen::CB_G);
    Vec r = spec->g(k, x, u);
    if(fault.fire(gen::CB_G, mon.n_ineq, x.norm())) gen::inject(r, fault.pos, fault.value);
    return r;
  }
  void calcIneqConstDeriv(double t, const StateDimVector & x, const InputDimVector & u, Eigen::Ref<IneqStateDimMatrix> gx,
                          Eigen::Ref<IneqInputDimMatrix> gu) const override
  {
    long k = this->in(t, u);
    mon.n_deriv_g++;
    this->touch(gen::CB_DG);
    Mat C, D;
    spec->gDeriv(k, x, u, C, D);
    if(fault.fire(gen::CB_DG, mon.n_deriv_g, x.norm()))
    {
      if(fault.pos % 2 && D.size())
        gen::inject(D, fault.pos / 2, fault.value);
      else
        gen::inject(C, fault.pos / 2, fault.value);
    }
    gx = C;
    gu = D;
  }
};

Var constantGuess(const Prob & p, double x, double u, double lam, double sl, double nu);
struct Opt
{
  bool nonlinear = true;
  bool nonconvex = true;
  int max_n = 8;
  bool zero_horizon = true;
  int max_long = 40;
  int max_iter = 12;
  int extra = 3;
  bool random_guess = true;
  bool wild = true; // random flags
  bool feasible_x0 = true;
};

// An earlier use of the same solver object: what is asserted about a solve must hold after any history.
struct Pre
{
  int dk = 0; // start index relative to the one of the solve
  int N = 0; // horizon; 0: the one of the solve
  bool same_x = true, same_guess = true;
  double xv = 0, uv = 0, sv = 1;
  int max_iter = 1;
  int kind = 0; // 0 regular, 1 rejected guess, 2 problem throws, 3 NaN, 4 the solver is replaced by a copy of itself
  bool line_search = false;
};
inline Pre randomPre(pbt::Case & c)
{
  Pre p;
  p.dk = c.boolean() ? c.integer(0, 3) - c.integer(0, 3) : 0;
  p.N = c.boolean() ? 0 : c.integer(1, 10);
  p.same_x = !c.boolean();
  p.same_guess = !c.boolean();
  p.xv = c.real(-2, 2);
  p.uv = c.real(-2, 2);
  p.sv = c.logreal(0.05, 5);
  p.max_iter = c.integer(1, 4);
  p.kind = c.weighted({7, 1, 1, 1, 1});
  p.line_search = c.boolean();
  return p;
}

template<int NX, int NU, int NC>
struct Scenario
{
  using P = Problem<NX, NU, NC>;
  using S = nmpc_fmpc::FmpcSolver<NX, NU, NC>;
  using Status = typename S::Status;
  Prob prob;
  std::shared_ptr<gen::Spec> spec;
  Var guess;
  std::vector<Vec> xf, uf; // strictly feasible trajectory
  typename S::Configuration cfg;
  std::shared_ptr<P> problem;
  std::shared_ptr<S> solver;
  std::vector<Pre> pre;
  bool pre_done = false;

  double t0() const
  {
    return spec->time(prob.k0);
  }
  void build()
  {
    problem = std::make_shared<P>(spec);
    solver = std::make_shared<S>(problem);
    solver->config() = cfg;
    pre_done = false;
    watch();
  }
  void warmUp()
  {
    if(pre_done) return;
    pre_done = true;
    // The barrier parameter is kept between solves when it is not updated
    if(pre.empty() || !cfg.update_barrier_eps || !solver->config().update_barrier_eps) return;
    auto conf = solver->config();
    auto fault = problem->fault;
    auto throw_at = problem->throw_at;
    for(const Pre & p : pre)
    {
      problem->fault = gen::Fault();
      problem->throw_at = -1;
      int grid = spec->gridSize();
      Prob q = prob;
      q.N = std::min(p.N > 0 ? p.N : prob.N, grid);
      q.k0 = std::min(std::max(prob.k0 + p.dk, 0), grid - q.N);
      problem->mon.hi = 1L << 40;
      auto & cf = solver->config();
      cf = conf;
      cf.horizon_steps = q.N;
      cf.max_iter = p.max_iter;
      cf.enable_line_search = p.line_search;
      Vec x = p.same_x ? prob.x0 : Vec(Vec::Constant(NX, p.xv));
      Var g = constantGuess(q, p.xv, p.uv, 0, p.sv, p.sv);
      if(p.same_guess && q.N == prob.N && q.k0 == prob.k0) g = guess;
      auto v = toVar(g);
      if(p.kind == 1) gen::lengthen(v.u_list);
      if(p.kind == 2) problem->throw_at = problem->calls + 1 + q.N + q.N * p.max_iter;
      if(p.kind == 3)
      {
        problem->fault.cb = p.max_iter % 2 == 0 ? gen::CB_F : gen::CB_DL;
        problem->fault.region = 1e-9;
      }
      try
      {
        solver->solve(spec->time(q.k0), x, v);
      }
      catch(const std::exception &)
      {
      }
      if(p.kind == 4) solver = std::make_shared<S>(*solver);
    }
    problem->fault = fault;
    problem->throw_at = throw_at;
    problem->calls = 0;
    problem->mon = gen::Monitor();
    solver->config() = conf;
    watch();
  }
  void watch()
  {
    problem->mon.lo = prob.k0;
    problem->mon.hi = prob.k0 + prob.N;
  }
  static typename S::Variable toVar(const Var & v)
  {
    typename S::Variable r(static_cast<int>(v.u.size()));
    for(size_t i = 0; i < v.x.size(); i++)
    {
      r.x_list[i] = v.x[i];
      r.lambda_list[i] = v.lam[i];
    }
    for(size_t i = 0; i < v.u.size(); i++)
    {
      r.u_list[i] = v.u[i];
      r.s_list[i] = v.s[i];
      r.nu_list[i] = v.nu[i];
    }
    return r;
  }
  static Var fromVar(const typename S::Variable & v)
  {
    Var r;
    r.x = hddp::fromList(v.x_list);
    r.u = hddp::fromList(v.u_list);
    r.lam = hddp::fromList(v.lambda_list);
    r.s = hddp::fromList(v.s_list);
    r.nu = hddp::fromList(v.nu_list);
    return r;
  }
  Var result() const
  {
    return fromVar(solver->variable());
  }
  Status solve()
  {
    warmUp();
    return solver->solve(t0(), prob.x0, toVar(guess));
  }
  int totalIneq() const
  {
    int n = 0;
    for(int i = 0; i < prob.N; i++) n += spec->at(prob.k0 + i).nc;
    return n;
  }
  std::string describe() const
  {
    return pbt::cat("k0=", prob.k0, " N=", prob.N, " t0=", t0(), " x0=", pbt::str(prob.x0.transpose()), " max_iter=", cfg.max_iter, " thre=", cfg.kkt_error_thre,
                    " check_nan=", cfg.check_nan, " init_compl=", cfg.init_complementary_variable, " update_eps=", cfg.update_barrier_eps,
                    " break_llt=", cfg.break_if_llt_fails, " line_search=", cfg.enable_line_search, " scale_mult=",
                    cfg.merit_const_scale_from_lagrange_multipliers, preStr(), " guess:", guess.str(), " | ", spec->describe());
  }
  std::string preStr() const
  {
    std::string r;
    if(!cfg.update_barrier_eps) return r;
    for(const Pre & p : pre)
      r += pbt::cat(" [earlier solve: dk ", p.dk, " N ", p.N > 0 ? p.N : prob.N, p.same_x ? " same x0" : "", p.same_guess ? " same guess" : "", " max_iter ", p.max_iter, " kind ", p.kind, "]");
    return r;
  }
};

// Random inequality constraints that leave a given trajectory strictly feasible
void addConstraints(pbt::Case & c, gen::Spec & s, int k0, const std::vector<Vec> & x, const std::vector<Vec> & u, bool nonlinear);
Var randomGuess(pbt::Case & c, const Prob & p, const std::vector<Vec> & xf, const std::vector<Vec> & uf);

// Variables the first iteration starts from
Var start(const Prob & p, const Var & guess, bool init_complementary);
inline bool same(const Vec & a, const Vec & b)
{
  if(a.size() != b.size()) return false;
  for(int i = 0; i < a.size(); i++)
    if(!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}
inline bool sameList(const std::vector<Vec> & a, const std::vector<Vec> & b)
{
  if(a.size() != b.size()) return false;
  for(size_t i = 0; i < a.size(); i++)
    if(!same(a[i], b[i])) return false;
  return true;
}
// "" or what differs
inline std::string compare(const Var & a, const Var & b)
{
  const std::vector<Vec> *la[] = {&a.x, &a.u, &a.lam, &a.s, &a.nu}, *lb[] = {&b.x, &b.u, &b.lam, &b.s, &b.nu};
  const char * n[] = {"x", "u", "lambda", "s", "nu"};
  for(int i = 0; i < 5; i++)
    if(!sameList(*la[i], *lb[i])) return pbt::cat(n[i], " differs: ", hddp::strList(*la[i]), " vs ", hddp::strList(*lb[i]));
  return "";
}
template<class S>
std::string compareSolvers(const S & a, const S & b)
{
  const auto &ta = a.traceDataList(), &tb = b.traceDataList();
  if(ta.size() != tb.size()) return pbt::cat("traces differ in length: ", ta.size(), " vs ", tb.size());
  for(size_t i = 0; i < ta.size(); i++)
    if(ta[i].iter != tb[i].iter || !(ta[i].kkt_error == tb[i].kkt_error || (std::isnan(ta[i].kkt_error) && std::isnan(tb[i].kkt_error))))
      return pbt::cat("trace entry ", i, " differs: ", ta[i].kkt_error, " vs ", tb[i].kkt_error);
  return "";
}

template<int NX, int NU, int NC>
Scenario<NX, NU, NC> makeScenario(pbt::Case & c, const Opt & o)
{
  Scenario<NX, NU, NC> s;
  Prob & p = s.prob;
  switch(c.weighted({24, 4, 3, 1}))
  {
    case 0:
      p.N = c.integer(1, o.max_n);
      break;
    case 1:
      p.N = o.zero_horizon && c.boolean(1, 4) ? 0 : 1;
      break;
    case 2:
      p.N = c.integer(o.max_n, 2 * o.max_n);
      break;
    default:
      p.N = c.integer(2 * o.max_n, o.max_long);
      c.label("long horizon");
  }
  p.k0 = c.boolean() ? 0 : c.integer(0, o.extra);
  gen::SpecOpt so;
  so.nx = NX;
  so.nu = NU == Eigen::Dynamic ? -1 : NU;
  so.nc = NC == Eigen::Dynamic ? -1 : NC;
  so.grid = p.N + o.extra;
  so.nonlinear = o.nonlinear && c.boolean(2, 3);
  so.nonconvex_cost = o.nonconvex && so.nonlinear && c.boolean(1, 3);
  so.max_rho = 1.1;
  so.min_r = 0.1;
  auto sp = gen::makeSpec(c, so);
  p.x0 = c.vec(NX, c.pick({1.0, 3.0, 0.1}));
  std::vector<Vec> uf = hddp::randomInputs(c, sp, p.k0, p.N, c.pick({1.0, 0.2}));
  auto r = gen::rollout(sp, p.k0, p.x0, uf);
  s.xf = r.x;
  s.uf = uf;
  addConstraints(c, sp, p.k0, r.x, uf, so.nonlinear);
  s.spec = std::make_shared<gen::Spec>(sp);
  p.spec = s.spec;
  if(o.random_guess && c.boolean(2, 3))
    s.guess = randomGuess(c, p, r.x, uf);
  else
    s.guess = constantGuess(p, 0, 0, 0, c.pick({1.0, 0.1, 5.0}), c.pick({1.0, 0.1, 5.0}));
  s.cfg.print_level = 0;
  s.cfg.horizon_steps = p.N;
  s.cfg.max_iter = c.integer(1, o.max_iter);
  s.cfg.kkt_error_thre = c.pick({1e-4, 1e-2, 1e-6});
  if(o.wild)
  {
    s.cfg.check_nan = !c.boolean(1, 4);
    s.cfg.init_complementary_variable = c.boolean(1, 4);
    s.cfg.update_barrier_eps = !c.boolean(1, 4);
    s.cfg.break_if_llt_fails = c.boolean(1, 4);
    s.cfg.enable_line_search = c.boolean(1, 3);
    s.cfg.merit_const_scale_from_lagrange_multipliers = c.boolean();
    if(c.boolean(1, 16)) s.cfg.print_level = c.integer(1, 3);
  }
  if(c.boolean(1, 4))
  {
    int n = c.integer(1, 2);
    for(int i = 0; i < n; i++) s.pre.push_back(randomPre(c));
    c.label("solver used before");
  }
  s.build();
  return s;
}
} // namespace hfmpc

#ifndef INX
#  define INX 2
#  define INU 1
#  define INC 2
#endif
constexpr int kNX = INX;
constexpr int kNU = INU;
constexpr int kNC = INC;
