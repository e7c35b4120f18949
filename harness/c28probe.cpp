// C28: a minimal use of the solvers with the dimensions PNU, PNC (compile-time or Eigen::Dynamic). Compiled only when
// the harness itself does not compile, to find out whether run-time dimensions are still supported.
#ifdef PROBE_DDP
#  include <nmpc_ddp/DDPSolver.h>
using Base = nmpc_ddp::DDPProblem<2, PNU>;
#else
#  include <nmpc_fmpc/FmpcSolver.h>
using Base = nmpc_fmpc::FmpcProblem<2, PNU, PNC>;
#endif
struct P : Base
{
  using V = typename Base::StateDimVector;
  using U = typename Base::InputDimVector;
  P() : Base(0.1) {}
  using Base::inputDim;
  int inputDim(double) const override { return 1; }
  V stateEq(double, const V & x, const U &) const override { return x; }
  double runningCost(double, const V &, const U &) const override { return 0; }
  double terminalCost(double, const V &) const override { return 0; }
  void calcStateEqDeriv(double, const V &, const U &, Eigen::Ref<typename Base::StateStateDimMatrix>, Eigen::Ref<typename Base::StateInputDimMatrix>) const override {}
  void calcStateEqDeriv(double, const V &, const U &, Eigen::Ref<typename Base::StateStateDimMatrix>, Eigen::Ref<typename Base::StateInputDimMatrix>,
                        std::vector<typename Base::StateStateDimMatrix> &, std::vector<typename Base::InputInputDimMatrix> &, std::vector<typename Base::StateInputDimMatrix> &) const override {}
  void calcRunningCostDeriv(double, const V &, const U &, Eigen::Ref<V>, Eigen::Ref<U>) const override {}
  void calcRunningCostDeriv(double, const V &, const U &, Eigen::Ref<V>, Eigen::Ref<U>, Eigen::Ref<typename Base::StateStateDimMatrix>,
                            Eigen::Ref<typename Base::InputInputDimMatrix>, Eigen::Ref<typename Base::StateInputDimMatrix>) const override {}
  void calcTerminalCostDeriv(double, const V &, Eigen::Ref<V>) const override {}
  void calcTerminalCostDeriv(double, const V &, Eigen::Ref<V>, Eigen::Ref<typename Base::StateStateDimMatrix>) const override {}
#ifndef PROBE_DDP
  using Base::ineqDim;
  int ineqDim(double) const override { return 1; }
  typename Base::IneqDimVector ineqConst(double, const V &, const U &) const override { return Base::IneqDimVector::Zero(1); }
  void calcIneqConstDeriv(double, const V &, const U &, Eigen::Ref<typename Base::IneqStateDimMatrix>, Eigen::Ref<typename Base::IneqInputDimMatrix>) const override {}
#endif
};
int main()
{
  auto p = std::make_shared<P>();
#ifdef PROBE_DDP
  nmpc_ddp::DDPSolver<2, PNU> s(p);
  s.solve(0, P::V::Zero(), std::vector<P::U>(100, P::U::Zero(1)));
#else
  nmpc_fmpc::FmpcSolver<2, PNU, PNC> s(p);
  typename nmpc_fmpc::FmpcSolver<2, PNU, PNC>::Variable v(100);
  s.solve(0, P::V::Zero(), v);
#endif
}
