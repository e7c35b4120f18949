// Generated C/GMRES problems and a reference model of what the solver computes on them.
#pragma once
#include "pbt.h"

#include <memory>

#include <nmpc_cgmres/CgmresSolver.h>

namespace cg
{
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using Ref = Eigen::Ref<const Vec>;

// f = A x + B u + f0 sin(w t) + amp sin(W [x;u] + ph + w t);  L = 0.5 z'Hz + (h + hr sin(w t))'z + camp cosh-like smooth term
struct Model
{
  int nx = 1, nu = 1; // nu: everything that is solved for
  int nc = 0; // how many of them are multipliers of constraints
  Mat A, B, W, H, Q;
  Vec f0, ph, h, hr, q, qr;
  double amp = 0, w = 0, quartic = 0;

  Vec f(double t, const Vec & x, const Vec & u) const
  {
    Vec z(nx + nu);
    z << x, u;
    Vec r = A * x + B * u + std::sin(w * t) * f0;
    if(amp != 0) r += amp * ((W * z + ph).array() + w * t).sin().matrix();
    return r;
  }
  void fDeriv(double t, const Vec & x, const Vec & u, Mat & fx, Mat & fu) const
  {
    Vec z(nx + nu);
    z << x, u;
    Mat J(nx, nx + nu);
    J << A, B;
    if(amp != 0) J += amp * ((W * z + ph).array() + w * t).cos().matrix().asDiagonal() * W;
    fx = J.leftCols(nx);
    fu = J.rightCols(nu);
  }
  double L(double t, const Vec & x, const Vec & u) const
  {
    Vec z(nx + nu);
    z << x, u;
    return 0.5 * z.dot(H * z) + (h + std::sin(w * t) * hr).dot(z) + quartic * u.array().pow(4).sum() / 4;
  }
  Vec LDeriv(double t, const Vec & x, const Vec & u) const
  {
    Vec z(nx + nu);
    z << x, u;
    Vec g = H * z + h + std::sin(w * t) * hr;
    g.tail(nu) += quartic * u.array().pow(3).matrix();
    return g;
  }
  double phi(double t, const Vec & x) const
  {
    return 0.5 * x.dot(Q * x) + (q + std::sin(w * t) * qr).dot(x);
  }
  Vec phiDeriv(double t, const Vec & x) const
  {
    return Q * x + q + std::sin(w * t) * qr;
  }
  Vec costate(double t, const Vec & lam, const Vec & x, const Vec & u) const
  {
    Mat fx, fu;
    fDeriv(t, x, u, fx, fu);
    return -(LDeriv(t, x, u).head(nx) + fx.transpose() * lam);
  }
  Vec hu(double t, const Vec & x, const Vec & u, const Vec & lam) const
  {
    Mat fx, fu;
    fDeriv(t, x, u, fx, fu);
    return LDeriv(t, x, u).tail(nu) + fu.transpose() * lam;
  }
  std::string str() const
  {
    return pbt::cat("A=", pbt::str(A), " B=", pbt::str(B), " H=", pbt::str(H), " Q=", pbt::str(Q), " f0=", pbt::str(f0.transpose()), " h=", pbt::str(h.transpose()), " hr=", pbt::str(hr.transpose()), " q=", pbt::str(q.transpose()), " qr=", pbt::str(qr.transpose()), " amp=", amp, " w=", w, " quartic=", quartic);
  }
};
struct ModelOpt
{
  bool nonlinear = true; // dynamics
  bool quartic = true; // non-quadratic cost of the input
  bool time_varying = true;
};
inline Model makeModel(pbt::Case & c, const ModelOpt & o)
{
  Model m;
  m.nx = c.integer(1, c.boolean(1, 8) ? 5 : 3);
  m.nu = c.integer(1, c.boolean(1, 4) ? (c.boolean(1, 4) ? 5 : 3) : 2);
  m.nc = c.integer(0, m.nu - 1);
  int n = m.nx + m.nu;
  m.A = c.mat(m.nx, m.nx, 1.0);
  m.B = c.mat(m.nx, m.nu, 1.0);
  Mat M = c.mat(n, n, 0.7);
  m.H = M * M.transpose();
  m.H.bottomRightCorner(m.nu, m.nu) += c.real(0.3, 2) * Mat::Identity(m.nu, m.nu);
  Mat K = c.mat(m.nx, m.nx, 1.0);
  m.Q = K * K.transpose();
  m.h = c.vec(n, 1.0);
  m.q = c.vec(m.nx, 1.0);
  m.f0 = Vec::Zero(m.nx);
  m.hr = Vec::Zero(n);
  m.qr = Vec::Zero(m.nx);
  if(o.time_varying && c.boolean())
  {
    m.w = c.real(0.2, 3);
    m.f0 = c.vec(m.nx, 1.0);
    m.hr = c.vec(n, 1.0);
    m.qr = c.vec(m.nx, 1.0);
  }
  m.ph = Vec::Zero(m.nx);
  m.W = Mat::Zero(m.nx, n);
  if(o.nonlinear && c.boolean(2, 3))
  {
    m.amp = c.real(0.05, 0.5);
    m.W = c.mat(m.nx, n, 1.0);
    m.ph = c.vec(m.nx, 2.0);
  }
  if(o.quartic && c.boolean(1, 3)) m.quartic = c.real(0.05, 1);
  return m;
}

class Problem : public nmpc_cgmres::CgmresProblem
{
public:
  explicit Problem(std::shared_ptr<const Model> mm) : m(mm)
  {
    dim_x_ = m->nx;
    dim_u_ = m->nu - m->nc;
    dim_c_ = m->nc;
    dim_uc_ = m->nu;
    state_eq_param_ = Vec::Constant(1, 1.0);
    x_initial_ = Vec::Zero(m->nx);
    u_initial_ = Vec::Zero(m->nu);
  }
  void stateEquation(double t, const Ref & x, const Ref & u, Eigen::Ref<Vec> dotx) override
  {
    if(hook) hook();
    dotx = m->f(t, x, u);
  }
  void costateEquation(double t, const Ref & lmd, const Ref & xu, Eigen::Ref<Vec> dotlmd) override
  {
    if(hook) hook();
    dotlmd = m->costate(t, lmd, xu.head(m->nx), xu.tail(m->nu));
  }
  void calcDphiDx(double t, const Ref & x, Eigen::Ref<Vec> d) override
  {
    if(hook) hook();
    d = m->phiDeriv(t, x);
  }
  void calcDhDu(double t, const Ref & x, const Ref & u, const Ref & lmd, Eigen::Ref<Vec> d) override
  {
    if(hook) hook();
    d = m->hu(t, x, u, lmd);
  }
  std::shared_ptr<const Model> m;
  std::function<void()> hook; // called in every callback
};

// Reference integrators
template<class F>
Vec euler(F && f, double t, const Vec & x, double h)
{
  return x + h * f(t, x);
}
template<class F>
Vec rk4(F && f, double t, const Vec & x, double h)
{
  Vec k1 = f(t, x), k2 = f(t + h / 2, x + h / 2 * k1), k3 = f(t + h / 2, x + h / 2 * k2), k4 = f(t + h, x + h * k3);
  return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
}
struct Setting
{
  bool rk = false, sim_rk = false;
  double horizon = 1, ratio = 0.5, dt = 0.001, zeta = 1000, delta = 0.002;
  int N = 5, k_max = 5;
  double T(double t) const
  {
    return horizon * (1 - std::exp(-ratio * t));
  }
  void apply(nmpc_cgmres::CgmresSolver & s) const
  {
    s.steady_horizon_duration_ = horizon;
    s.horizon_increase_ratio_ = ratio;
    s.horizon_divide_num_ = N;
    s.dt_ = dt;
    s.eq_zeta_ = zeta;
    s.k_max_ = k_max;
    s.finite_diff_delta_ = delta;
  }
  std::shared_ptr<nmpc_cgmres::OdeSolver> ode(bool r) const
  {
    if(r) return std::make_shared<nmpc_cgmres::RungeKuttaOdeSolver>();
    return std::make_shared<nmpc_cgmres::EulerOdeSolver>();
  }
  std::string str() const
  {
    return pbt::cat("rk=", rk, " sim_rk=", sim_rk, " horizon=", horizon, " ratio=", ratio, " N=", N, " dt=", dt, " zeta=", zeta, " k_max=", k_max, " delta=", delta);
  }
};
inline Setting makeSetting(pbt::Case & c, bool allow_rk = true)
{
  Setting s;
  s.rk = allow_rk && c.boolean(1, 3);
  s.sim_rk = c.boolean();
  s.horizon = c.real(0.2, c.boolean(1, 6) ? 4 : 1.5);
  s.ratio = c.pick({0.5, 2.0, 1e3, 0.1, 20.0});
  s.N = c.integer(1, c.boolean(1, 8) ? 14 : 6);
  s.dt = c.pick({0.001, 0.01, 0.002, 0.05, 0.2});
  s.zeta = c.boolean() ? 1.0 / s.dt : c.real(1, 500);
  s.delta = c.pick({0.002, 1e-3, 1e-4});
  s.k_max = c.integer(1, 14);
  return s;
}
// An earlier use of the solver object with other settings; leaves the settings as they were
inline void earlierUse(pbt::Case & c, nmpc_cgmres::CgmresSolver & sol, Problem & p, const Setting & s)
{
  if(!c.boolean(1, 3)) return;
  c.label("solver used before");
  Setting o = s;
  o.N = c.integer(1, 7);
  o.k_max = c.integer(1, 4);
  o.horizon = c.real(0.2, 1.5);
  Vec x0 = p.x_initial_, u0 = p.u_initial_;
  p.x_initial_ = c.vec(p.m->nx, 2.0);
  p.u_initial_ = c.vec(p.m->nu, 1.0);
  o.apply(sol);
  sol.setup();
  int n = c.integer(0, 2);
  for(int i = 0; i < n; i++)
  {
    Vec x = c.vec(p.m->nx, 1.0), nx = x + o.dt * c.vec(p.m->nx, 1.0), u(p.m->nu);
    sol.calcControlInput(c.real(0, 2), x, nx, u);
  }
  p.x_initial_ = x0;
  p.u_initial_ = u0;
  s.apply(sol);
}
// The optimality residual over the horizon
inline Mat residual(const Model & m, const Setting & s, double t, const Vec & x, const Mat & u)
{
  double h = s.T(t) / s.N;
  std::vector<Vec> xs{x};
  for(int i = 0; i < s.N; i++)
  {
    Vec ui = u.col(i);
    auto f = [&](double tt, const Vec & xx) { return m.f(tt, xx, ui); };
    xs.push_back(s.rk ? rk4(f, t + i * h, xs[i], h) : euler(f, t + i * h, xs[i], h));
  }
  Vec lam = m.phiDeriv(t + s.N * h, xs[s.N]);
  Mat F(m.nu, s.N);
  for(int i = s.N - 1; i >= 0; i--)
  {
    Vec ui = u.col(i);
    F.col(i) = m.hu(t + i * h, xs[i], ui, lam);
    // the documented residual uses the costate at the end of the interval when the sweep is explicit
    auto g = [&](double tt, const Vec & l) { return m.costate(tt, l, xs[i], ui); };
    lam = s.rk ? rk4(g, t + (i + 1) * h, lam, -h) : euler(g, t + (i + 1) * h, lam, -h);
  }
  return F;
}
// Total cost of the Euler-discretised problem
inline double cost(const Model & m, const Setting & s, double t, const Vec & x, const Mat & u)
{
  double h = s.T(t) / s.N, J = 0;
  Vec z = x;
  for(int i = 0; i < s.N; i++)
  {
    Vec ui = u.col(i);
    J += h * m.L(t + i * h, z, ui);
    z += (h * m.f(t + i * h, z, ui)).eval();
  }
  return J + m.phi(t + s.N * h, z);
}
inline Vec stack(const Mat & m)
{
  return Eigen::Map<const Vec>(m.data(), m.size());
}
} // namespace cg
