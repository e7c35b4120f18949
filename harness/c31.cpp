// C31: ODE integrators.
#include "cg.h"
using namespace cg;

PBT_PROPERTY(scheme, 1)
{
  auto m = std::make_shared<Model>(makeModel(c, ModelOpt()));
  double t = c.boolean(1, 4) ? 0 : c.real(-5, 5), dt = c.pick({0.1, 1.0, 1e-3, -0.1, 0.0, -1.0});
  Vec x = c.vec(m->nx, 3.0), u = c.vec(m->nu, 3.0);
  bool rk = c.boolean();
  c.describe([=] { return pbt::cat("rk=", rk, " t=", t, " dt=", dt, " x=", pbt::str(x), " u=", pbt::str(u), " ", m->str()); });
  struct Call
  {
    double t;
    Vec x, u;
  };
  std::vector<Call> calls;
  nmpc_cgmres::OdeSolver::StateEquation f = [&](double tt, const Ref & xx, const Ref & uu, Eigen::Ref<Vec> d) {
    calls.push_back({tt, xx, uu});
    d = m->f(tt, xx, uu);
  };
  std::shared_ptr<nmpc_cgmres::OdeSolver> ode;
  if(rk)
    ode = std::make_shared<nmpc_cgmres::RungeKuttaOdeSolver>();
  else
    ode = std::make_shared<nmpc_cgmres::EulerOdeSolver>();
  // results and arguments are columns of larger matrices, as in the solver
  Mat store = c.mat(m->nx, 3, 1.0), before;
  store.col(0) = x;
  before = store;
  Vec u2 = u;
  ode->solve(f, t, store.col(0), u2, dt, store.col(1));
  auto g = [&](double tt, const Vec & xx) { return m->f(tt, xx, u); };
  Vec want = rk ? rk4(g, t, x, dt) : euler(g, t, x, dt);
  Vec got = store.col(1);
  double scale = 1 + x.norm() + std::abs(dt) * (1 + want.norm() + u.norm());
  c.checkf((got - want).norm() <= 1e-13 * scale, [&] { return pbt::cat("result ", pbt::str(got.transpose()), " instead of ", pbt::str(want.transpose())); });
  c.check(store.col(0) == before.col(0) && store.col(2) == before.col(2) && u == u2, "arguments or neighbouring memory changed");
  // stages
  std::vector<Call> stages{{t, x, u}};
  if(rk)
  {
    Vec k1 = g(t, x), k2 = g(t + dt / 2, x + dt / 2 * k1), k3 = g(t + dt / 2, x + dt / 2 * k2);
    stages.push_back({t + dt / 2, x + dt / 2 * k1, u});
    stages.push_back({t + dt / 2, x + dt / 2 * k2, u});
    stages.push_back({t + dt, x + dt * k3, u});
  }
  c.checkf(calls.size() == stages.size(), [&] { return pbt::cat(calls.size(), " evaluations"); });
  for(auto & k : calls)
  {
    bool found = false;
    for(auto & s : stages) found = found || (std::abs(k.t - s.t) <= 1e-13 * (1 + std::abs(t)) && (k.x - s.x).norm() <= 1e-13 * scale && k.u == s.u);
    c.checkf(found, [&] { return pbt::cat("evaluation at t=", k.t, " x=", pbt::str(k.x), " is not a stage of the scheme"); });
  }
  if(m->amp != 0 && m->w != 0 && dt != 0) c.nontrivial();
}
// Any dimension, including the degenerate ones
PBT_PROPERTY(dimensions, 1)
{
  int n = c.integer(0, 8), k = c.integer(0, 4);
  Mat A = c.mat(n, n, 1.0), B = c.mat(n, k, 1.0);
  Vec x = c.vec(n, 2.0), u = c.vec(k, 2.0);
  double dt = c.real(-0.5, 0.5), t = c.real(-2, 2);
  c.describe([=] { return pbt::cat("A=", pbt::str(A), " B=", pbt::str(B), " x=", pbt::str(x), " u=", pbt::str(u), " dt=", dt); });
  auto rhs = [&](double tt, const Vec & xx) { return Vec(A * xx + B * u + Vec::Constant(n, tt)); };
  nmpc_cgmres::OdeSolver::StateEquation f = [&](double tt, const Ref & xx, const Ref & uu, Eigen::Ref<Vec> d) {
    c.check(uu.size() == k && xx.size() == n && d.size() == n, "dimensions passed to the right-hand side");
    d = rhs(tt, xx);
  };
  nmpc_cgmres::EulerOdeSolver e;
  nmpc_cgmres::RungeKuttaOdeSolver r;
  Vec a(n), b(n);
  e.solve(f, t, x, u, dt, a);
  r.solve(f, t, x, u, dt, b);
  c.check((a - euler(rhs, t, x, dt)).norm() <= 1e-13 * (1 + x.norm() * (1 + A.norm())), "Euler step");
  c.check((b - rk4(rhs, t, x, dt)).norm() <= 1e-13 * (1 + x.norm() * std::exp(A.norm())), "Runge-Kutta step");
  if(n > 1) c.nontrivial();
}
