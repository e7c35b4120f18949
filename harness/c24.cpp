// C24: what an FMPC solve returns does not depend on what the solver object did before.
#include "fmpc.h"
using namespace hfmpc;
using Sc = Scenario<kNX, kNU, kNC>;
using S = Sc::S;

namespace
{
void randomFlags(pbt::Case & c, S::Configuration & cfg)
{
  cfg.max_iter = c.integer(c.boolean(1, 8) ? 0 : 1, 12);
  cfg.kkt_error_thre = c.pick({1e-4, 1e-2, 1e-6});
  cfg.check_nan = !c.boolean(1, 4);
  cfg.init_complementary_variable = c.boolean(1, 4);
  cfg.break_if_llt_fails = c.boolean(1, 4);
  cfg.enable_line_search = c.boolean(1, 3);
  cfg.merit_const_scale_from_lagrange_multipliers = c.boolean();
  cfg.print_level = c.weighted({3, 1}) ? c.integer(1, 3) : 0;
}
Var perturbed(pbt::Case & c, const Prob & p)
{
  Var v = constantGuess(p, 0, 0, 0, 1, 1);
  double sc = c.pick({1.0, 0.1, 3.0});
  for(auto * l : {&v.x, &v.u, &v.lam})
    for(auto & e : *l)
      for(int j = 0; j < e.size(); j++) e[j] = c.real(-sc, sc);
  for(auto * l : {&v.s, &v.nu})
    for(auto & e : *l)
      for(int j = 0; j < e.size(); j++) e[j] = c.logreal(0.01, 5);
  return v;
}
} // namespace

PBT_PROPERTY_I(history, 4)
{
  Opt o;
  o.extra = 8;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  auto logp = std::make_shared<std::string>();
  std::string & log = *logp;
  c.describe([s, logp] { return *logp + s.describe(); });
  auto problem = std::make_shared<Sc::P>(s.spec);
  S solver(problem);
  int n_ops = c.integer(2, 6), solves = 0, grid = s.spec->gridSize();
  bool eps_default = true; // the barrier parameter of the solver is that of a new one
  for(int op = 0; op < n_ops; op++)
  {
    bool last = op == n_ops - 1;
    if(op > 0 && c.boolean()) randomFlags(c, s.cfg);
    if(op > 0 && c.boolean(1, 4)) s.cfg.update_barrier_eps = !s.cfg.update_barrier_eps;
    // the barrier parameter is kept between solves when it is neither updated nor initialised
    if(!eps_default && !s.cfg.init_complementary_variable) s.cfg.update_barrier_eps = true;
    bool own = solves > 0 && c.boolean(1, 3);
    if(!own)
    {
      bool moved = op > 0 && c.boolean();
      if(moved)
      {
        s.prob.N = c.integer(c.boolean(1, 10) ? 0 : 1, std::min(grid - 1, 12));
        s.prob.k0 = c.integer(0, std::min(grid - 1 - s.prob.N, 6));
      }
      if(op == 0 || !c.boolean(1, 3)) s.prob.x0 = c.vec(kNX, 2.0);
      if(op == 0 || moved || !c.boolean(1, 3)) s.guess = perturbed(c, s.prob);
    }
    s.cfg.horizon_steps = s.prob.N;
    solver.config() = s.cfg;
    int kind = last ? 0 : c.weighted({6, 1, 1, 1});
    log += pbt::cat("[op ", op, ": kind ", kind, " N ", s.prob.N, " k0 ", s.prob.k0, " own ", own, " max_iter ", s.cfg.max_iter, "] ");
    if(kind && own) kind = 0;
    if(s.cfg.update_barrier_eps)
      eps_default = false;
    else if(s.cfg.init_complementary_variable && (kind == 0 || kind == 3))
      eps_default = true;
    if(kind == 1)
    {
      auto bad = Sc::toVar(s.guess);
      switch(s.prob.N == 0 ? 2 : c.integer(0, 2))
      {
        case 0: bad.x_list.pop_back(); break;
        case 1: bad.nu_list.pop_back(); break;
        default: gen::lengthen(bad.u_list); break;
      }
      bool thrown = false;
      try
      {
        solver.solve(s.t0(), s.prob.x0, bad);
      }
      catch(const std::exception &)
      {
        thrown = true;
      }
      c.check(thrown, "malformed guess accepted");
      c.label("rejected guess");
      solves = 0;
      continue;
    }
    if(kind == 2)
    {
      problem->throw_at = problem->calls + c.integer(1, 8 * s.prob.N);
      try
      {
        solver.solve(s.t0(), s.prob.x0, Sc::toVar(s.guess));
      }
      catch(const std::exception &)
      {
        c.label("exception");
      }
      problem->throw_at = -1;
      solves = 0;
      continue;
    }
    if(kind == 3)
    {
      problem->fault.cb = c.integer(0, 7);
      problem->fault.region = 1e-9;
      problem->fault.value = c.boolean() ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
      solver.solve(s.t0(), s.prob.x0, Sc::toVar(s.guess));
      problem->fault = gen::Fault();
      solves = 0;
      continue;
    }
    Sc f = s;
    f.pre.clear();
    Sc::Status st;
    if(own)
    {
      f.guess = Sc::fromVar(solver.variable());
      if(!f.guess.finite()) c.discard("diverged");
      bool neg = false;
      for(auto * l : {&f.guess.s, &f.guess.nu})
        for(auto & e : *l) neg = neg || (e.array() < 0).any();
      if(neg) c.discard("negative");
      if(c.boolean())
        st = solver.solve(s.t0(), s.prob.x0, solver.variable()); // aliases the solver's own result
      else
      {
        auto copy = solver.variable();
        st = solver.solve(s.t0(), s.prob.x0, copy);
      }
      c.label("own result as guess");
    }
    else if(solves > 0 && c.boolean(1, 3))
    {
      const auto & xs = solver.variable().x_list;
      const auto & x = xs[c.integer(0, static_cast<int>(xs.size()) - 1)];
      if(!x.allFinite()) c.discard("diverged");
      f.prob.x0 = s.prob.x0 = x;
      st = solver.solve(s.t0(), x, Sc::toVar(s.guess));
      c.label("state of the previous plan");
    }
    else
      st = solver.solve(s.t0(), s.prob.x0, Sc::toVar(s.guess));
    if(c.boolean()) f.cfg.print_level = 0;
    f.build();
    auto st2 = f.solve();
    c.checkf(st == st2, [&] { return pbt::cat("after a history the status is ", static_cast<int>(st), ", with a new solver ", static_cast<int>(st2)); });
    std::string d = compareSolvers(solver, *f.solver) + compare(Sc::fromVar(solver.variable()), f.result());
    c.checkf(d.empty(), [&] { return "a used solver and a new one disagree: " + d; });
    solves++;
  }
  if(n_ops >= 3) c.nontrivial();
}
// Several short solves continued from the returned variables are one long solve
PBT_PROPERTY_I(continuation, 2)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  s.cfg.init_complementary_variable = false;
  int n1 = c.integer(1, 5), n2 = c.integer(1, 5);
  s.cfg.max_iter = n1;
  s.build();
  auto st = s.solve();
  if(st != Sc::Status::MaxIterationReached) c.discard("terminated in the first part");
  Var v = s.result();
  if(!v.finite()) c.discard("diverged");
  for(auto * l : {&v.s, &v.nu})
    for(auto & e : *l)
      if((e.array() < 0).any()) c.discard("negative");
  auto t = s;
  t.pre.clear();
  t.cfg.max_iter = n1 + n2;
  t.build();
  auto st2 = t.solve();
  bool fresh = s.cfg.update_barrier_eps && c.boolean();
  s.guess = v;
  s.cfg.max_iter = n2;
  if(fresh)
    s.build();
  else
    s.solver->config().max_iter = n2;
  st = s.solve();
  c.checkf(st == st2, [&] { return pbt::cat("in two parts the status is ", static_cast<int>(st), ", in one ", static_cast<int>(st2)); });
  std::string d = compare(s.result(), t.result());
  c.checkf(d.empty(), [&] { return "a solve in two parts and in one disagree: " + d; });
  const auto &ta = s.solver->traceDataList(), &tb = t.solver->traceDataList();
  c.check(ta.size() + n1 == tb.size(), "trace lengths");
  for(size_t i = 0; i < ta.size(); i++) c.check(ta[i].kkt_error == tb[i + n1].kkt_error || std::isnan(ta[i].kkt_error), "trace entries of the continued solve differ");
  c.nontrivial();
}
PBT_PROPERTY_I(interleaved, 1)
{
  Opt o;
  auto a = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return a.describe(); });
  a.pre.clear();
  auto b = a;
  b.prob.x0 = c.vec(kNX, 2.0);
  b.guess = perturbed(c, b.prob);
  S s1(a.problem), s2(a.problem);
  s1.config() = a.cfg;
  s2.config() = a.cfg;
  s1.solve(a.t0(), a.prob.x0, Sc::toVar(a.guess));
  s2.solve(b.t0(), b.prob.x0, Sc::toVar(b.guess));
  s1.solve(a.t0(), a.prob.x0, Sc::toVar(a.guess));
  a.build();
  b.build();
  a.solve();
  b.solve();
  std::string d = compareSolvers(s1, *a.solver) + compare(Sc::fromVar(s1.variable()), a.result()) + compareSolvers(s2, *b.solver) + compare(Sc::fromVar(s2.variable()), b.result());
  c.checkf(d.empty(), [&] { return "solvers sharing a problem influence each other: " + d; });
  c.nontrivial();
}
