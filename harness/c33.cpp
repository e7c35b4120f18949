// C33: setup() starts at a stationary input, or says that it could not.
#include "cg.h"
using namespace cg;

PBT_PROPERTY(stationary, 1)
{
  ModelOpt o;
  auto m = std::make_shared<Model>(makeModel(c, o));
  auto s = makeSetting(c);
  Vec x0 = c.vec(m->nx, 3.0), u0 = c.vec(m->nu, c.pick({1.0, 20.0}));
  c.describe([=] { return pbt::cat(s.str(), " x0=", pbt::str(x0.transpose()), " u0=", pbt::str(u0.transpose()), " ", m->str()); });
  auto p = std::make_shared<Problem>(m);
  p->x_initial_ = x0;
  p->u_initial_ = u0;
  nmpc_cgmres::CgmresSolver sol(p, s.ode(s.rk), s.ode(s.sim_rk));
  s.apply(sol);
  earlierUse(c, sol, *p, s);
  std::ostringstream out;
  auto * old = std::cout.rdbuf(out.rdbuf());
  try
  {
    sol.setup();
  }
  catch(...)
  {
    std::cout.rdbuf(old);
    throw;
  }
  std::cout.rdbuf(old);
  bool failed = out.str().find("failed") != std::string::npos;
  bool quadratic = m->amp == 0 && m->quartic == 0;
  Vec lam = m->phiDeriv(0, x0);
  Vec u = sol.u_;
  double r = m->hu(0, x0, u, lam).norm();
  c.label(failed ? "not converged" : "converged");
  if(quadratic) c.checkf(!failed, [&] { return pbt::cat("no convergence for a strictly convex quadratic Hamiltonian, residual ", r); });
  if(!failed) c.checkf(r <= 1.0000001e-6, [&] { return pbt::cat("initial input ", pbt::str(u.transpose()), " is not stationary: ", r); });
  c.check(sol.x_ == x0, "initial state");
  if(!u.allFinite()) return; // reported as a failure above
  c.check(sol.u_list_.rows() == m->nu && sol.u_list_.cols() == s.N, "size of the input sequence");
  for(int i = 0; i < s.N; i++) c.check(Vec(sol.u_list_.col(i)) == u, "the input sequence does not start at the stationary input");
  c.check(sol.delta_u_vec_.size() == s.N * m->nu && sol.delta_u_vec_.norm() == 0, "the first step does not start at zero");
  // setting up again, also with other sizes, starts afresh
  auto s2 = s;
  s2.N = c.integer(1, 8);
  s2.apply(sol);
  old = std::cout.rdbuf(out.rdbuf());
  sol.setup();
  std::cout.rdbuf(old);
  c.check(Vec(sol.u_) == u && sol.u_list_.cols() == s2.N && Vec(sol.u_list_.col(s2.N - 1)) == u, "a second setup() gives a different start");
  c.check(sol.delta_u_vec_.size() == s2.N * m->nu && sol.delta_u_vec_.norm() == 0, "after a second setup() the first step does not start at zero");
  double r0 = m->hu(0, x0, u0, lam).norm();
  if(r0 > 1e-3) c.nontrivial();
}
