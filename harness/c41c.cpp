// C41: C/GMRES, GMRES, ODE and box QP jobs
#include "cg.h"
#include "indep.h"

#include <nmpc_cgmres/Gmres.h>
#include <nmpc_ddp/BoxQP.h>
using namespace cg;

static indep::Job cgmres(pbt::Case & c)
{
  auto m = std::make_shared<Model>(makeModel(c, ModelOpt()));
  auto s = makeSetting(c);
  int steps = c.integer(0, 3);
  Vec x0 = c.vec(m->nx, 2.0), u0 = c.vec(m->nu, 2.0);
  indep::Job j;
  j.desc = pbt::cat("steps=", steps, " ", s.str(), " ", m->str());
  j.run = [=](const indep::Ctx & ctx) {
    indep::Out out;
    auto p = std::make_shared<Problem>(m);
    p->hook = [ctx] { ctx.touch(); };
    p->x_initial_ = x0;
    p->u_initial_ = u0;
    nmpc_cgmres::CgmresSolver sol(p, s.ode(s.rk), s.ode(s.sim_rk));
    s.apply(sol);
    sol.setup();
    indep::put(out, sol.u_);
    indep::put(out, sol.u_list_);
    Vec x = x0, u = sol.u_;
    double t = 0;
    for(int i = 0; i < steps; i++, t += s.dt)
    {
      Vec nx(m->nx), uc = u;
      sol.sim_ode_solver_->solve([&](double tt, const Ref & xx, const Ref & uu, Eigen::Ref<Vec> d) { p->stateEquation(tt, xx, uu, d); }, t, x, uc, s.dt, nx);
      sol.calcControlInput(t, x, nx, u);
      x = nx;
      indep::put(out, x);
      indep::put(out, u);
      indep::put(out, sol.u_list_);
      indep::put(out, sol.DhDu_list_);
    }
    return out;
  };
  return j;
}
static indep::Job gmres(pbt::Case & c)
{
  int n = c.integer(1, 6), k = c.integer(0, 9);
  Mat A = c.mat(n, n, 1.0) + c.pick({0.0, 2.0}) * Mat::Identity(n, n);
  Vec b = c.vec(n, 1.0), x0 = c.boolean() ? Vec(Vec::Zero(n)) : Vec(c.vec(n, 1.0));
  bool tri = c.boolean(), re = c.boolean();
  indep::Job j;
  j.desc = pbt::cat("A=", pbt::str(A), " b=", pbt::str(b.transpose()), " x0=", pbt::str(x0.transpose()), " k_max=", k, " triangular=", tri, " reorth=", re);
  j.run = [=](const indep::Ctx & ctx) {
    indep::Out out;
    nmpc_cgmres::Gmres g;
    g.make_triangular_ = tri;
    g.apply_reorth_ = re;
    Vec x = x0;
    g.solve([&](const Eigen::Ref<const Vec> & v) -> Vec {
      ctx.touch();
      return A * v;
    }, b, x, k, 1e-10);
    indep::put(out, x);
    for(double e : g.err_list_) indep::put(out, e);
    return out;
  };
  return j;
}
static indep::Job ode(pbt::Case & c)
{
  auto m = std::make_shared<Model>(makeModel(c, ModelOpt()));
  bool rk = c.boolean(2, 3);
  Vec x = c.vec(m->nx, 2.0), u = c.vec(m->nu, 2.0);
  double t = c.real(-1, 3), h = c.real(-0.5, 0.5);
  indep::Job j;
  j.desc = pbt::cat("rk=", rk, " t=", t, " h=", h, " x=", pbt::str(x.transpose()), " ", m->str());
  j.run = [=](const indep::Ctx & ctx) {
    Setting s;
    auto o = s.ode(rk);
    Vec r(m->nx);
    indep::Out out;
    for(int i = 0; i < 2; i++)
    {
      o->solve([&](double tt, const Ref & xx, const Ref & uu, Eigen::Ref<Vec> d) {
        ctx.touch();
        d = m->f(tt, xx, uu);
      }, t, x, u, h, r);
      indep::put(out, r);
    }
    return out;
  };
  return j;
}
template<int N>
static indep::Job box(pbt::Case & c)
{
  int n = N == Eigen::Dynamic ? c.integer(1, 5) : N;
  Mat M = c.mat(n, n, 1.0);
  Mat H = M * M.transpose() + c.pick({0.1, 1.0}) * Mat::Identity(n, n);
  Vec g = c.vec(n, 2.0), lo = c.vec(n, 1.0), x = c.vec(n, 2.0);
  Vec hi = lo + c.vec(n, 1.0).cwiseAbs();
  bool guess = c.boolean();
  indep::Job j;
  j.desc = pbt::cat("H=", pbt::str(H), " g=", pbt::str(g.transpose()), " lo=", pbt::str(lo.transpose()), " hi=", pbt::str(hi.transpose()));
  j.run = [=](const indep::Ctx & ctx) {
    nmpc_ddp::BoxQP<N> s(n);
    indep::Out out;
    for(int i = 0; i < 2; i++)
    {
      Vec r = guess ? Vec(s.solve(H, g, lo, hi, x)) : Vec(s.solve(H, g, lo, hi));
      ctx.touch();
      indep::put(out, r);
      indep::put(out, s.retval_);
      for(int k : s.free_idxs_) indep::put(out, k);
    }
    return out;
  };
  return j;
}
static indep::RegKind r1("cgmres", cgmres), r2("gmres", gmres), r3("ode", ode), r4("box_dynamic", box<Eigen::Dynamic>), r5("box_2", box<2>);
