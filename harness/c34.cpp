// C34: one control step solves the continuation equation in the Krylov space.
#include "cg.h"
using namespace cg;

namespace
{
struct Sim
{
  std::shared_ptr<Model> m;
  Setting s;
  std::shared_ptr<Problem> p;
  std::shared_ptr<nmpc_cgmres::CgmresSolver> sol;
  double t;
  Vec x, nx;
  std::string desc;
};
Sim make(pbt::Case & c, const ModelOpt & o)
{
  Sim k;
  k.m = std::make_shared<Model>(makeModel(c, o));
  k.s = makeSetting(c);
  k.s.N = c.integer(1, 5);
  k.t = c.boolean(1, 8) ? 0 : c.real(0, 4);
  k.p = std::make_shared<Problem>(k.m);
  k.x = c.vec(k.m->nx, 1.5);
  k.nx = k.x + k.s.dt * c.vec(k.m->nx, 2.0);
  return k;
}
void setup(pbt::Case & c, Sim & k)
{
  k.p->x_initial_ = k.x;
  k.sol = std::make_shared<nmpc_cgmres::CgmresSolver>(k.p, k.s.ode(k.s.rk), k.s.ode(k.s.sim_rk));
  k.s.apply(*k.sol);
  earlierUse(c, *k.sol, *k.p, k.s);
  k.sol->setup();
  // anywhere, not only at the start
  if(c.boolean(3, 4)) k.sol->u_list_ = c.mat(k.m->nu, k.s.N, 1.5);
  if(c.boolean()) k.sol->delta_u_vec_ = c.vec(k.m->nu * k.s.N, 1.0);
}
// Minimal-residual step with a (possibly nonlinear) product
Vec krylov(const std::function<Vec(const Vec &)> & A, const Vec & b, const Vec & x0, int kmax, double eps, double & margin, double & cond)
{
  Vec r = b - A(x0);
  double rho = r.norm(), bn = b.norm();
  int n = static_cast<int>(b.size());
  kmax = std::min(kmax, n);
  margin = std::abs(rho - eps * bn);
  cond = 1;
  if(!(rho > eps * bn) || kmax == 0) return x0;
  Mat V(n, kmax + 1), H = Mat::Zero(kmax + 1, kmax);
  V.col(0) = r / rho;
  Vec y;
  int k = 0;
  while(k < kmax)
  {
    Vec w = A(V.col(k));
    double wn = w.norm();
    for(int rep = 0; rep < 2; rep++)
      for(int j = 0; j <= k; j++)
      {
        double h = w.dot(V.col(j));
        H(j, k) += h;
        w -= h * V.col(j);
      }
    H(k + 1, k) = w.norm();
    k++;
    Vec e = Vec::Zero(k + 1);
    e[0] = rho;
    Eigen::JacobiSVD<Mat> svd(H.topLeftCorner(k + 1, k), Eigen::ComputeThinU | Eigen::ComputeThinV);
    cond = std::max(cond, svd.singularValues()[0] / svd.singularValues()[k - 1]);
    y = svd.solve(e);
    double res = (e - H.topLeftCorner(k + 1, k) * y).norm();
    margin = std::min(margin, std::abs(res - eps * bn) / (bn + rho));
    if(res <= eps * bn) break;
    if(k < kmax && H(k, k - 1) < 1e-7 * wn)
    {
      margin = 0; // the Krylov space ends within rounding
      break;
    }
    V.col(k) = w / w.norm();
  }
  return x0 + V.leftCols(k) * y;
}
} // namespace

// The step is the Krylov solution of the documented equation
PBT_PROPERTY(step, 2)
{
  auto k = make(c, ModelOpt());
  setup(c, k);
  auto & sol = *k.sol;
  Mat U = sol.u_list_;
  if(!U.allFinite()) c.discard("setup diverged");
  Vec d0 = sol.delta_u_vec_;
  c.describe([m = k.m, s = k.s, t = k.t, x = k.x, nx = k.nx, U, d0] { return pbt::cat(s.str(), " t=", t, " x=", pbt::str(x.transpose()), " next_x=", pbt::str(nx.transpose()), " U=", pbt::str(U), " d0=", pbt::str(d0.transpose()), " ", m->str()); });
  Vec u = Vec::Constant(k.m->nu, 99);
  sol.calcControlInput(k.t, k.x, k.nx, u);
  double de = k.s.delta;
  Vec xd = (1 - de / k.s.dt) * k.x + (de / k.s.dt) * k.nx;
  Vec F = stack(residual(*k.m, k.s, k.t, k.x, U)), Fd = stack(residual(*k.m, k.s, k.t + de, xd, U));
  auto op = [&](const Vec & v) { return Vec((stack(residual(*k.m, k.s, k.t + de, xd, U + de * Eigen::Map<const Mat>(v.data(), U.rows(), U.cols()))) - Fd) / de); };
  Vec b = ((1 - k.s.zeta * de) * F - Fd) / de;
  double margin, cond;
  Vec V = krylov(op, b, d0, k.s.k_max, 1e-10, margin, cond);
  if(!V.allFinite() || !U.allFinite()) c.discard("diverged");
  if(!(margin >= 1e-12) || !(cond <= 1e5)) c.discard("decided by rounding");
  c.check(u == Vec(sol.u_list_.col(0)), "the applied input is not the first of the sequence");
  Vec got = (stack(sol.u_list_) - stack(U)) / k.s.dt;
  double vn = 1 + V.norm() + d0.norm();
  double noise = 1e-15 * (1 + F.norm() + Fd.norm() + U.norm()) / de / 1.0;
  double tol = cond * (1e-9 * vn + 1e3 * noise) + 1e-12 * U.norm() / k.s.dt;
  c.checkf((got - V).norm() <= tol, [&] { return pbt::cat("rate of change ", pbt::str(got.transpose()), " instead of ", pbt::str(V.transpose()), " (tolerance ", tol, ", cond ", cond, ")"); });
  c.check((sol.delta_u_vec_ - got).norm() <= 1e-9 * vn + 1e-12 * U.norm() / k.s.dt, "the warm start of the next step is not this step");
  // the residual that is logged
  c.check((stack(sol.DhDu_list_) - F).norm() <= 1e-9 * (1 + F.norm()), "stored residual");
  if(F.norm() > 1e-3 && tol < 0.1 * vn) c.nontrivial();
}
// Residual affine in the inputs and enough Krylov steps: exact contraction
PBT_PROPERTY(contraction, 2)
{
  ModelOpt o;
  o.nonlinear = false;
  o.quartic = false;
  auto k = make(c, o);
  k.s.k_max = c.integer(25, 40); // at least the number of unknowns
  bool same = c.boolean();
  if(same) k.s.dt = k.s.delta;
  k.nx = k.x + k.s.dt * c.vec(k.m->nx, 2.0);
  setup(c, k);
  auto & sol = *k.sol;
  Mat U = sol.u_list_;
  c.describe([m = k.m, s = k.s, t = k.t, x = k.x, nx = k.nx, U] { return pbt::cat(s.str(), " t=", t, " x=", pbt::str(x.transpose()), " next_x=", pbt::str(nx.transpose()), " U=", pbt::str(U), " ", m->str()); });
  Vec u(k.m->nu);
  double t = k.t;
  Vec x = k.x, nx = k.nx;
  int steps = c.integer(1, 4);
  for(int i = 0; i < steps; i++)
  {
    U = sol.u_list_;
    double de = k.s.delta;
    Vec F = stack(residual(*k.m, k.s, t, x, U)), d0 = sol.delta_u_vec_;
    Vec xd = (1 - de / k.s.dt) * x + (de / k.s.dt) * nx;
    sol.calcControlInput(t, x, nx, u);
    Mat Un = sol.u_list_;
    Vec G = stack(residual(*k.m, k.s, t + de, xd, U + de / k.s.dt * (Un - U)));
    Vec want = (1 - k.s.zeta * de) * F;
    double bn = k.s.zeta * F.norm() + (stack(residual(*k.m, k.s, t + de, xd, U)) - F).norm() / de;
    // each product is a finite difference with the rounding noise of the residual, and enters weighted with the step
    // (counted from the warm start)
    double vn = (Un - U).norm() / k.s.dt + d0.norm();
    double scale = 1 + F.norm() + Un.norm();
    for(int j = 0; j < U.size(); j++)
    {
      Mat E = U;
      E.data()[j] += 1;
      scale = std::max(scale, (stack(residual(*k.m, k.s, t, x, E)) - F).norm() * (1 + U.norm()));
    }
    double tol = 1e-9 * (1 + F.norm() + bn * de + Un.norm()) + 1e-13 * scale * vn;
    if(!(Un.norm() < 1e4)) c.discard("diverged");
    c.checkf((G - want).norm() <= tol, [&] { return pbt::cat("step ", i, ": residual after the step ", pbt::str(G.transpose()), " instead of ", pbt::str(want.transpose()), " (error ", (G - want).norm(), ", tolerance ", tol, ", rate ", vn, ")"); });
    if(same)
    {
      Vec N = stack(residual(*k.m, k.s, t + k.s.dt, nx, Un));
      c.checkf((N - want).norm() <= tol, [&] { return pbt::cat("step ", i, ": residual at the next state ", pbt::str(N.transpose()), " instead of ", pbt::str(want.transpose())); });
    }
    if(F.norm() > 1e-3) c.nontrivial();
    t += k.s.dt;
    x = nx;
    Vec ui = u;
    nx = x + k.s.dt * k.m->f(t, x, ui);
  }
}
