// C40, C/GMRES: control steps and linear solves under sanitizers and with poisoned memory.
#include "cg.h"
#include "poison.h"

#include <nmpc_cgmres/Gmres.h>
using namespace cg;

PBT_PROPERTY(cgmres, 1)
{
  auto m = std::make_shared<Model>(makeModel(c, ModelOpt()));
  auto s = makeSetting(c);
  int steps = c.integer(0, 4);
  bool again = c.boolean();
  int N2 = c.integer(1, 6);
  Vec x0 = c.vec(m->nx, 2.0), u0 = c.vec(m->nu, 2.0);
  c.describe([=] { return pbt::cat("steps=", steps, " again=", again, " N2=", N2, " ", s.str(), " ", m->str()); });
  poison::compare(c, [&] {
    poison::Out out;
    auto p = std::make_shared<Problem>(m);
    p->x_initial_ = x0;
    p->u_initial_ = u0;
    auto sol = std::make_shared<nmpc_cgmres::CgmresSolver>(p, s.ode(s.rk), s.ode(s.sim_rk));
    s.apply(*sol);
    for(int r = 0; r <= again; r++)
    {
      if(r) sol->horizon_divide_num_ = N2;
      sol->setup();
      poison::put(out, sol->u_);
      poison::put(out, sol->u_list_);
      Vec x = x0, u = sol->u_;
      double t = 0;
      for(int i = 0; i < steps; i++, t += s.dt)
      {
        Vec nx(m->nx);
        Vec uc = u;
        sol->sim_ode_solver_->solve([&](double tt, const Ref & xx, const Ref & uu, Eigen::Ref<Vec> d) { d = m->f(tt, xx, uu); }, t, x, uc, s.dt, nx);
        sol->calcControlInput(t, x, nx, u);
        x = nx;
        poison::put(out, x);
        poison::put(out, u);
        poison::put(out, sol->u_list_);
        poison::put(out, sol->DhDu_list_);
      }
    }
    return out;
  });
  if(steps && again) c.nontrivial();
}
PBT_PROPERTY(gmres, 1)
{
  int n = c.integer(1, 6), k = c.integer(0, 9), rep = c.integer(1, 3);
  Mat A = c.mat(n, n, 1.0) + c.pick({0.0, 2.0}) * Mat::Identity(n, n);
  Vec b = c.vec(n, 1.0), x0 = c.boolean() ? Vec(Vec::Zero(n)) : Vec(c.vec(n, 1.0));
  bool tri = c.boolean(), re = c.boolean();
  c.describe([=] { return pbt::cat("A=", pbt::str(A), " b=", pbt::str(b.transpose()), " x0=", pbt::str(x0.transpose()), " k_max=", k, " triangular=", tri, " reorth=", re); });
  poison::compare(c, [&] {
    poison::Out out;
    auto g = std::make_shared<nmpc_cgmres::Gmres>();
    g->make_triangular_ = tri;
    g->apply_reorth_ = re;
    for(int i = 0; i < rep; i++)
    {
      Vec x = x0;
      g->solve(Eigen::Ref<const Mat>(A), b, x, i == 1 ? k / 2 : k, 1e-10);
      poison::put(out, x);
      for(double e : g->err_list_) poison::put(out, e);
    }
    return out;
  });
  if(rep > 1) c.nontrivial();
}
