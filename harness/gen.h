// Generated optimal control problems shared by the DDP and FMPC harnesses, and the oracle-side arithmetic on them.
//
// A Spec is a time grid t = toff + k * dt, a palette of stages and a map from grid index to stage, so that dynamics,
// costs, constraints, input dimensions and inequality dimensions may all change from step to step:
//   x'      = A x + B u + f + amp * sin(W [x;u] + ph)
//   L       = 0.5 z' H z + h' z + c0 + camp * cos(w' z + cph)         (z = [x;u], H PSD, Huu >= r I)
//   phi     = 0.5 x' Qf x + qf' x + c0 + camp * cos(w' x + cph)
//   g       = G z + e + gamp * sin(GW z + gph)                        (g <= 0)
#pragma once

#include "pbt.h"

#include <memory>

namespace gen
{
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

struct Stage
{
  int nu = 0, nc = 0;
  Mat A, B;
  Vec f;
  double amp = 0;
  Mat W;
  Vec ph;
  Mat H;
  Vec h;
  double c0 = 0, camp = 0, cph = 0;
  Vec w;
  Mat G;
  Vec e;
  double gamp = 0;
  Mat GW;
  Vec gph;
};
struct Term
{
  Mat Q;
  Vec q;
  double c0 = 0, camp = 0, cph = 0;
  Vec w;
};

struct Spec
{
  int nx = 1;
  double dt = 0.1, toff = 0;
  std::vector<Stage> palette;
  std::vector<Term> terms;
  std::vector<int> which; // grid index -> palette index

  int gridSize() const
  {
    return static_cast<int>(which.size());
  }
  double time(int k) const
  {
    return toff + k * dt;
  }
  // Nearest grid index (unclamped)
  long index(double t) const
  {
    double v = (t - toff) / dt;
    if(!(std::abs(v) < 1e9)) return -1000000000;
    return std::lround(v);
  }
  bool onGrid(double t) const
  {
    return std::abs(t - time(static_cast<int>(index(t)))) <= 1e-6 * dt + 1e-12 * std::abs(t);
  }
  const Stage & at(long k) const
  {
    long n = gridSize();
    return palette[which[std::min(std::max(k, 0L), n - 1)]];
  }
  const Term & term(long k) const
  {
    long n = static_cast<long>(terms.size());
    return terms[((k % n) + n) % n];
  }

  static Vec cat(const Vec & x, const Vec & u)
  {
    Vec z(x.size() + u.size());
    z << x, u;
    return z;
  }
  Vec f(long k, const Vec & x, const Vec & u) const;
  void fDeriv(long k, const Vec & x, const Vec & u, Mat & A, Mat & B) const;
  double L(long k, const Vec & x, const Vec & u) const;
  void LDeriv(long k, const Vec & x, const Vec & u, Vec & g, Mat & H) const;
  double phi(long k, const Vec & x) const;
  void phiDeriv(long k, const Vec & x, Vec & g, Mat & H) const;
  Vec g(long k, const Vec & x, const Vec & u) const;
  void gDeriv(long k, const Vec & x, const Vec & u, Mat & C, Mat & D) const;

  std::string describe() const;
};

struct SpecOpt
{
  int nx = 2;
  int nu = -1; // fixed input dimension, or -1: per stage in [0, max_nu]
  int max_nu = 7;
  int nc = 0; // fixed inequality dimension, or -1: per stage in [0, max_nc]
  int max_nc = 6;
  int grid = 10;
  int max_palette = 3;
  bool nonlinear = false; // nonlinear dynamics / non-quadratic cost allowed
  bool nonconvex_cost = false; // Hessian may become indefinite
  double min_r = 1e-2;
  double max_rho = 1.1; // bound on the Frobenius norm of A
};

Mat psd(pbt::Case & c, int n, int rank, double scale);

Spec makeSpec(pbt::Case & c, const SpecOpt & o);

// What the solver under test did to the problem object.
struct Monitor
{
  long n_state_eq = 0, n_cost = 0, n_term = 0, n_deriv_f = 0, n_deriv_l = 0, n_deriv_phi = 0, n_ineq = 0,
       n_deriv_g = 0;
  long n_tensor = 0, bad_tensor = 0; // second-order derivatives of the dynamics asked for / into containers of the wrong size
  long off_grid = 0; // evaluation times that are not on the horizon's time grid
  long out_of_range = 0; // evaluation times outside [lo, hi] (horizon)
  long bad_dim = 0; // input vectors of the wrong dimension
  long lo = 0, hi = 1L << 40;
  std::string first_bad;
  void time(const Spec & s, double t, bool terminal)
  {
    if(!s.onGrid(t))
    {
      if(!off_grid++) first_bad += pbt::cat(" off-grid t=", t);
    }
    long k = s.index(t);
    bool ok = terminal ? k == hi : (k >= lo && k < hi);
    if(hi < (1L << 40) && !ok)
    {
      if(!out_of_range++) first_bad += pbt::cat(" step index ", k, " outside horizon [", lo, ",", hi, ") t=", t);
    }
  }
  void dim(long got, long want)
  {
    if(got != want && !bad_dim++) first_bad += pbt::cat(" input dimension ", got, " instead of ", want);
  }
  long total() const
  {
    return n_state_eq + n_cost + n_term + n_deriv_f + n_deriv_l + n_deriv_phi + n_ineq + n_deriv_g;
  }
};

// Injected faults: the chosen callback returns a non-finite value on its nth call, or outside a region.
enum Callback
{
  CB_F,
  CB_L,
  CB_PHI,
  CB_DF,
  CB_DL,
  CB_DPHI,
  CB_G,
  CB_DG
};
// One element too many
template<class L>
void lengthen(L & l)
{
  typename L::value_type e = typename L::value_type();
  if(!l.empty()) e = l.back();
  l.push_back(e);
}

struct Fault
{
  int cb = -1;
  long nth = -1; // 1-based call number of that callback; -1: never
  bool persistent = false; // also every later call
  double region = -1; // >0: whenever |x| > region
  double value = std::numeric_limits<double>::quiet_NaN();
  int pos = 0;
  long hits = 0;
  bool fire(int which, long n, double xnorm)
  {
    if(which != cb) return false;
    bool r = (nth > 0 && (persistent ? n >= nth : n == nth)) || (region > 0 && xnorm > region);
    hits += r;
    return r;
  }
};

void inject(Eigen::Ref<Mat> m, int pos, double v);

// ---------------------------------------------------------------------------------------------------------------
// Oracles on a Spec
struct Rollout
{
  std::vector<Vec> x;
  Vec cost;
  double total = 0;
};
Rollout rollout(const Spec & s, int k0, const Vec & x0, const std::vector<Vec> & u);

// Gradient of the total cost w.r.t. the stacked inputs (adjoint recursion; independent of any Riccati recursion)
std::vector<Vec> gradient(const Spec & s, int k0, const Rollout & r, const std::vector<Vec> & u);

// Condensed quadratic program of a linear-quadratic Spec: J(U) = 0.5 U'HU + g'U + c
struct Condensed
{
  Mat H;
  Vec g;
  double c = 0;
  std::vector<int> off; // offset of step i in U (size N+1)
};
Condensed condense(const Spec & s, int k0, int N, const Vec & x0);

std::vector<Vec> split(const Spec & s, int k0, int N, const Vec & U);

// Reference regularised Gauss-Newton backward pass (plain textbook iLQR recursion on dense matrices).
struct Gains
{
  bool pd = true;
  std::vector<Vec> k;
  std::vector<Mat> K;
  double dV1 = 0, dV2 = 0; // linear and quadratic coefficient of the predicted change
  double min_pivot = std::numeric_limits<double>::infinity(); // smallest relative eigenvalue seen
  double min_margin = std::numeric_limits<double>::infinity(); // distance from a change of the active set
  double min_eig = std::numeric_limits<double>::infinity(); // smallest eigenvalue seen
  int clamped = 0; // inputs held at a limit
  double grad_scale = 0; // bound on |cost gradient| / max_i(|k_i| / (1 + |u_i|)), without limits
};
Gains referenceGains(const Spec & s, int k0, const std::vector<Vec> & x, const std::vector<Vec> & u, int reg_type,
                            double lambda, const std::vector<Vec> * lo = nullptr, const std::vector<Vec> * hi = nullptr);
} // namespace gen
