// C32: the optimality residual of C/GMRES.
#include "cg.h"
using namespace cg;

namespace
{
struct Case32
{
  std::shared_ptr<Model> m;
  Setting s;
  double t;
  Vec x;
  Mat u;
  std::string str() const
  {
    return pbt::cat(s.str(), " t=", t, " x=", pbt::str(x.transpose()), " u=", pbt::str(u), " ", m->str());
  }
};
Case32 make(pbt::Case & c, const ModelOpt & o, bool rk)
{
  Case32 k;
  k.m = std::make_shared<Model>(makeModel(c, o));
  k.s = makeSetting(c, rk);
  k.s.N = c.integer(1, 12);
  k.t = c.boolean(1, 8) ? 0 : c.real(0, 5);
  k.x = c.vec(k.m->nx, 2.0);
  k.u = c.mat(k.m->nu, k.s.N, 2.0);
  return k;
}
Mat run(const Case32 & k, nmpc_cgmres::CgmresSolver & sol)
{
  k.s.apply(sol);
  sol.setup();
  Mat F = Mat::Constant(k.m->nu, k.s.N, 777);
  sol.calcDhDuList(k.t, k.x, k.u, F);
  return F;
}
} // namespace

PBT_PROPERTY(sweep, 2)
{
  auto k = make(c, ModelOpt(), true);
  c.describe([=] { return k.str(); });
  auto p = std::make_shared<Problem>(k.m);
  nmpc_cgmres::CgmresSolver sol(p, k.s.ode(k.s.rk), k.s.ode(k.s.sim_rk));
  Mat F = run(k, sol), R = residual(*k.m, k.s, k.t, k.x, k.u);
  double scale = 1 + R.norm();
  c.checkf((F - R).norm() <= 1e-9 * scale, [&] { return pbt::cat("residual ", pbt::str(F), " instead of ", pbt::str(R)); });
  // a second evaluation elsewhere, then the first again
  auto k2 = k;
  k2.t = k.t + 0.3;
  k2.u = -k.u;
  Mat G(k.m->nu, k.s.N);
  sol.calcDhDuList(k2.t, k2.x, k2.u, G);
  c.check((G - residual(*k.m, k.s, k2.t, k2.x, k2.u)).norm() <= 1e-9 * (1 + G.norm()), "second evaluation");
  sol.calcDhDuList(k.t, k.x, k.u, G);
  c.check(G == F, "the residual depends on earlier evaluations");
  if(k.s.N > 1 && k.m->amp != 0 && k.t > 0) c.nontrivial();
}
// Explicit Euler, time-invariant running terms: gradient of the discretised cost
PBT_PROPERTY(gradient, 2)
{
  ModelOpt o;
  o.time_varying = false;
  auto k = make(c, o, false);
  if(c.boolean())
  {
    // a moving target at the end is fine
    k.m->w = c.real(0.2, 3);
    k.m->qr = c.vec(k.m->nx, 1.0);
    if(k.m->amp != 0) k.m->w = 0;
  }
  if(k.t == 0) c.discard("empty horizon");
  c.describe([=] { return k.str(); });
  auto p = std::make_shared<Problem>(k.m);
  nmpc_cgmres::CgmresSolver sol(p, k.s.ode(false), k.s.ode(k.s.sim_rk));
  Mat F = run(k, sol);
  double h = k.s.T(k.t) / k.s.N, J = cost(*k.m, k.s, k.t, k.x, k.u);
  if(h < 1e-3) c.discard("horizon too short for finite differences");
  for(int i = 0; i < k.s.N; i++)
    for(int j = 0; j < k.m->nu; j++)
    {
      auto at = [&](double e) {
        Mat u = k.u;
        u(j, i) += e;
        return cost(*k.m, k.s, k.t, k.x, u);
      };
      const double e = 1e-3;
      double d = (8 * (at(e) - at(-e)) - (at(2 * e) - at(-2 * e))) / (12 * e) / h;
      c.checkf(std::abs(d - F(j, i)) <= 1e-6 * (1 + F.norm()) + 1e-11 * (1 + std::abs(J)) / h, [&] { return pbt::cat("residual ", F(j, i), " of input ", j, " in interval ", i, ", gradient of the discretised cost ", d); });
    }
  if(k.s.N > 1 && k.m->amp != 0) c.nontrivial();
}
