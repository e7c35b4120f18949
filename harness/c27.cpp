// C27: the work of an FMPC solve is bounded, and the problem is only evaluated on the time grid of the horizon.
#include "fmpc.h"
using namespace hfmpc;
using Sc = Scenario<kNX, kNU, kNC>;

PBT_PROPERTY_I(bounded_on_grid, 1)
{
  Opt o;
  o.max_iter = 30;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  if(c.boolean(1, 16)) s.solver->config().max_iter = s.cfg.max_iter = 0;
  c.describe([=] { return s.describe(); });
  auto st = s.solve();
  const auto & m = s.problem->mon;
  c.check(m.off_grid == 0 && m.out_of_range == 0, "problem evaluated at a wrong time:" + m.first_bad);
  c.check(m.bad_dim == 0, "problem evaluated with a wrong input dimension:" + m.first_bad);
  long it = static_cast<long>(s.solver->traceDataList().size()), N = s.prob.N;
  c.checkf(it >= std::min(1, s.cfg.max_iter) && it <= s.cfg.max_iter, [&] { return pbt::cat(it, " iterations, configured ", s.cfg.max_iter); });
  if(st == Sc::Status::MaxIterationReached) c.check(it == s.cfg.max_iter, "iteration limit reported too early");
  if(s.cfg.max_iter == 0) c.check(st != Sc::Status::Succeeded, "success without an iteration");
  // line search: step lengths 2^-k down to 1e-10, plus the merit function at the current point
  long per = s.cfg.enable_line_search ? 1 + 36 : 1;
  c.checkf(m.n_deriv_f <= it * N && m.n_deriv_l <= it * N && m.n_deriv_g <= it * N && m.n_deriv_phi <= it, [&] { return pbt::cat(m.n_deriv_f, " derivative evaluations in ", it, " iterations"); });
  c.checkf(m.n_state_eq <= it * N * per && m.n_ineq <= N + it * N * per, [&] { return pbt::cat(m.n_state_eq, " evaluations of the dynamics in ", it, " iterations"); });
  c.checkf(m.n_cost <= it * N * per && m.n_term <= it * per, [&] { return pbt::cat(m.n_cost, " evaluations of the cost in ", it, " iterations"); });
  Var v = s.result();
  c.check(static_cast<long>(v.x.size()) == N + 1 && static_cast<long>(v.u.size()) == N && static_cast<long>(v.lam.size()) == N + 1 && static_cast<long>(v.s.size()) == N && static_cast<long>(v.nu.size()) == N, "length of the returned sequences");
  for(int i = 0; i < N; i++)
  {
    const auto & g = s.spec->at(s.prob.k0 + i);
    c.check(v.u[i].size() == g.nu && v.s[i].size() == g.nc && v.nu[i].size() == g.nc, "dimensions of the returned sequences");
  }
  if(it > 1) c.nontrivial();
}
PBT_PROPERTY_I(outside_is_irrelevant, 1)
{
  Opt o;
  o.extra = 6;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  auto t = s;
  t.spec = std::make_shared<gen::Spec>(*s.spec);
  t.prob.spec = t.spec;
  gen::Stage odd = t.spec->palette[c.integer(0, static_cast<int>(t.spec->palette.size()) - 1)];
  odd.A *= -3;
  odd.f = Vec::Constant(kNX, 17.0);
  odd.h.setConstant(-5);
  odd.e.setConstant(9);
  t.spec->palette.push_back(odd);
  for(int k = 0; k < t.spec->gridSize(); k++)
    if(k < s.prob.k0 || k >= s.prob.k0 + s.prob.N) t.spec->which[k] = static_cast<int>(t.spec->palette.size()) - 1;
  t.build();
  auto a = s.solve(), b = t.solve();
  c.check(a == b && compare(s.result(), t.result()).empty(), "the plan depends on the problem outside the horizon");
  c.nontrivial();
}
