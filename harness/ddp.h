// The generated problem as a nmpc_ddp problem, plus helpers shared by the DDP harnesses.
#pragma once

#include "gen.h"

#include <functional>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>

#include <nmpc_ddp/DDPProblem.h>

namespace hddp
{
using gen::Mat;
using gen::Vec;

template<int NX, int NU, class BaseT>
class ProblemT : public BaseT
{
public:
  using Base = BaseT;
  using typename Base::InputDimVector;
  using typename Base::InputInputDimMatrix;
  using typename Base::StateDimVector;
  using typename Base::StateInputDimMatrix;
  using typename Base::StateStateDimMatrix;

  ProblemT(std::shared_ptr<const gen::Spec> s) : Base(s->dt), spec(s) {}

  using Base::inputDim;
  int inputDim(double t) const override
  {
    if constexpr(NU == Eigen::Dynamic)
      return spec->at(spec->index(t)).nu;
    else
      return Base::inputDim(t); // the library's default
  }
  StateDimVector stateEq(double t, const StateDimVector & x, const InputDimVector & u) const override
  {
    long k = in(t, u);
    mon.n_state_eq++;
    touch(gen::CB_F);
    Vec r = spec->f(k, x, u);
    if(fault.fire(gen::CB_F, mon.n_state_eq, x.norm())) gen::inject(r, fault.pos, fault.value);
    return r;
  }
  double runningCost(double t, const StateDimVector & x, const InputDimVector & u) const override
  {
    long k = in(t, u);
    mon.n_cost++;
    touch(gen::CB_L);
    if(fault.fire(gen::CB_L, mon.n_cost, x.norm())) return fault.value;
    return spec->L(k, x, u);
  }
  double terminalCost(double t, const StateDimVector & x) const override
  {
    mon.time(*spec, t, true);
    mon.n_term++;
    touch(gen::CB_PHI);
    if(fault.fire(gen::CB_PHI, mon.n_term, x.norm())) return fault.value;
    return spec->phi(spec->index(t), x);
  }
  void calcStateEqDeriv(double t, const StateDimVector & x, const InputDimVector & u,
                        Eigen::Ref<StateStateDimMatrix> fx, Eigen::Ref<StateInputDimMatrix> fu) const override
  {
    long k = in(t, u);
    mon.n_deriv_f++;
    touch(gen::CB_DF);
    Mat A, B;
    spec->fDeriv(k, x, u, A, B);
    if(fault.fire(gen::CB_DF, mon.n_deriv_f, x.norm()))
    {
      if(fault.pos % 2 && B.size())
        gen::inject(B, fault.pos / 2, fault.value);
      else
        gen::inject(A, fault.pos / 2, fault.value);
    }
    fx = A;
    fu = B;
  }
  void calcStateEqDeriv(double t, const StateDimVector & x, const InputDimVector & u, Eigen::Ref<StateStateDimMatrix> fx,
                        Eigen::Ref<StateInputDimMatrix> fu, std::vector<StateStateDimMatrix> & fxx,
                        std::vector<InputInputDimMatrix> & fuu, std::vector<StateInputDimMatrix> & fxu) const override
  {
    // The caller provides one matrix per state (the tensors are those of the linear part: zero)
    mon.n_tensor++;
    size_t n = NX;
    bool ok = fxx.size() == n && fuu.size() == n && fxu.size() == n;
    for(size_t i = 0; ok && i < n; i++)
      ok = fxx[i].rows() == NX && fxx[i].cols() == NX && fuu[i].rows() == u.size() && fuu[i].cols() == u.size()
           && fxu[i].rows() == NX && fxu[i].cols() == u.size();
    if(!ok)
      mon.bad_tensor++;
    else
      for(size_t i = 0; i < n; i++)
      {
        fxx[i].setZero();
        fuu[i].setZero();
        fxu[i].setZero();
      }
    calcStateEqDeriv(t, x, u, fx, fu);
  }
  void calcRunningCostDeriv(double t, const StateDimVector & x, const InputDimVector & u,
                            Eigen::Ref<StateDimVector> lx, Eigen::Ref<InputDimVector> lu) const override
  {
    long k = in(t, u);
    mon.n_deriv_l++;
    touch(gen::CB_DL);
    Vec g;
    Mat H;
    spec->LDeriv(k, x, u, g, H);
    lx = g.head(NX);
    lu = g.tail(u.size());
  }
  void calcRunningCostDeriv(double t, const StateDimVector & x, const InputDimVector & u,
                            Eigen::Ref<StateDimVector> lx, Eigen::Ref<InputDimVector> lu,
                            Eigen::Ref<StateStateDimMatrix> lxx, Eigen::Ref<InputInputDimMatrix> luu,
                            Eigen::Ref<StateInputDimMatrix> lxu) const override
  {
    long k = in(t, u);
    mon.n_deriv_l++;
    touch(gen::CB_DL);
    Vec g;
    Mat H;
    spec->LDeriv(k, x, u, g, H);
    if(fault.fire(gen::CB_DL, mon.n_deriv_l, x.norm()))
    {
      if(fault.pos % 2)
      {
        gen::inject(H, fault.pos / 2, fault.value);
        H = (0.5 * (H + H.transpose())).eval();
      }
      else
        gen::inject(g, fault.pos / 2, fault.value);
    }
    int nu = static_cast<int>(u.size());
    lx = g.head(NX);
    lu = g.tail(nu);
    lxx = H.topLeftCorner(NX, NX);
    luu = H.bottomRightCorner(nu, nu);
    lxu = H.topRightCorner(NX, nu);
  }
  void calcTerminalCostDeriv(double t, const StateDimVector & x, Eigen::Ref<StateDimVector> vx) const override
  {
    mon.time(*spec, t, true);
    mon.n_deriv_phi++;
    touch(gen::CB_DPHI);
    Vec g;
    Mat H;
    spec->phiDeriv(spec->index(t), x, g, H);
    vx = g;
  }
  void calcTerminalCostDeriv(double t, const StateDimVector & x, Eigen::Ref<StateDimVector> vx,
                             Eigen::Ref<StateStateDimMatrix> vxx) const override
  {
    mon.time(*spec, t, true);
    mon.n_deriv_phi++;
    touch(gen::CB_DPHI);
    Vec g;
    Mat H;
    spec->phiDeriv(spec->index(t), x, g, H);
    if(fault.fire(gen::CB_DPHI, mon.n_deriv_phi, x.norm()))
    {
      if(fault.pos % 2)
      {
        gen::inject(H, fault.pos / 2, fault.value);
        H = (0.5 * (H + H.transpose())).eval();
      }
      else
        gen::inject(g, fault.pos / 2, fault.value);
    }
    vx = g;
    vxx = H;
  }

  std::shared_ptr<const gen::Spec> spec;
  mutable gen::Monitor mon;
  mutable gen::Fault fault;
  mutable long throw_at = -1; // throw in the n-th call with an input
  mutable long calls = 0;
  std::function<void(int)> hook; // called with the kind of every callback
  struct Thrown : std::runtime_error
  {
    using std::runtime_error::runtime_error;
  };

protected:
  void touch(int cb) const
  {
    if(hook) hook(cb);
  }
  long in(double t, const InputDimVector & u) const
  {
    if(++calls == throw_at) throw Thrown("problem function failed");
    mon.time(*spec, t, false);
    long k = spec->index(t);
    mon.dim(u.size(), spec->at(k).nu);
    return k;
  }
};

template<int NX, int NU>
using Problem = ProblemT<NX, NU, nmpc_ddp::DDPProblem<NX, NU>>;

template<int NX, int NU>
std::vector<typename Problem<NX, NU>::InputDimVector> toList(const std::vector<Vec> & u)
{
  std::vector<typename Problem<NX, NU>::InputDimVector> r;
  for(auto & v : u) r.push_back(v);
  return r;
}
template<class L>
std::vector<Vec> fromList(const L & l)
{
  std::vector<Vec> r;
  for(auto & v : l) r.push_back(v);
  return r;
}
inline std::vector<Vec> randomInputs(pbt::Case & c, const gen::Spec & s, int k0, int N, double scale)
{
  std::vector<Vec> u;
  bool zero = c.boolean(1, 4);
  for(int i = 0; i < N; i++)
  {
    int nu = s.at(k0 + i).nu;
    u.push_back(zero ? Vec(Vec::Zero(nu)) : Vec(c.vec(nu, scale)));
  }
  return u;
}
inline double maxAbs(const std::vector<Vec> & v)
{
  double m = 0;
  for(auto & x : v)
    if(x.size()) m = std::max(m, x.cwiseAbs().maxCoeff());
  return m;
}
inline double maxDiff(const std::vector<Vec> & a, const std::vector<Vec> & b)
{
  if(a.size() != b.size()) return std::numeric_limits<double>::infinity();
  double m = 0;
  for(size_t i = 0; i < a.size(); i++)
  {
    if(a[i].size() != b[i].size()) return std::numeric_limits<double>::infinity();
    for(int j = 0; j < a[i].size(); j++)
    {
      double d = std::abs(a[i][j] - b[i][j]);
      if(!(d <= m)) m = std::isnan(d) ? std::numeric_limits<double>::infinity() : d;
    }
  }
  return m;
}
inline std::string strList(const std::vector<Vec> & v, size_t n = 6)
{
  std::string s;
  for(size_t i = 0; i < v.size() && i < n; i++) s += pbt::str(v[i].transpose());
  return s;
}

// Random solver configuration within the documented ranges.
template<class Config>
void randomConfig(pbt::Case & c, Config & cfg, bool wild)
{
  cfg.print_level = 0;
  cfg.reg_type = c.integer(1, 2);
  cfg.initial_lambda = c.weighted({3, 1, 1}) == 0 ? 1e-4 : (c.boolean() ? 0.0 : c.logreal(1e-8, 1e2));
  cfg.initial_dlambda = c.boolean(3, 4) ? 1.0 : c.logreal(0.2, 5.0);
  if(wild)
  {
    cfg.lambda_factor = c.boolean() ? 1.6 : c.real(1.1, 10);
    cfg.lambda_min = c.boolean() ? 1e-6 : c.logreal(1e-9, 1e-2);
    cfg.lambda_max = c.boolean() ? 1e10 : c.logreal(1e-1, 1e12);
    cfg.lambda_thre = c.boolean() ? 1e-5 : c.logreal(1e-8, 1e2);
    if(c.boolean(1, 6))
    {
      // powers of two: the schedule hits its thresholds exactly
      auto pow2 = [&](int lo, int hi) { return std::ldexp(1.0, c.integer(lo, hi)); };
      cfg.lambda_factor = pow2(1, 2);
      cfg.initial_dlambda = pow2(-2, 2);
      cfg.lambda_min = pow2(-12, -4);
      cfg.initial_lambda = c.boolean(1, 4) ? 0.0 : cfg.lambda_min * pow2(-2, 6);
      cfg.lambda_max = cfg.lambda_min * pow2(2, 14);
      cfg.lambda_thre = cfg.lambda_min * pow2(-1, 8);
    }
    cfg.cost_update_ratio_thre = c.boolean(3, 4) ? 0.0 : c.real(0, 0.9);
    cfg.cost_update_thre = c.pick({1e-7, 0.0, 1e-3, 1e-12});
    cfg.k_rel_norm_thre = c.pick({1e-4, 0.0, 1e-8, 1e-2});
    if(c.boolean(1, 4))
    {
      int n = c.integer(1, 6);
      bool any_order = c.boolean(1, 4);
      cfg.alpha_list.resize(n);
      double a = 1;
      for(int i = 0; i < n; i++)
      {
        cfg.alpha_list[i] = any_order ? c.real(0.01, 1.5) : a;
        a *= c.real(0.1, 0.8);
      }
    }
  }
}
/** \brief Convergence claims need a line search that starts with the full step and backtracks. */
template<class Config>
void backtracking(Config & cfg)
{
  bool ok = cfg.alpha_list.size() > 0 && cfg.alpha_list[0] == 1;
  for(int i = 1; i < cfg.alpha_list.size(); i++) ok &= cfg.alpha_list[i] < cfg.alpha_list[i - 1];
  if(!ok) cfg.alpha_list = Config().alpha_list;
}
} // namespace hddp
