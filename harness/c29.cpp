// C29: directional derivative of the l1 norm.
#include "pbt.h"
#include <nmpc_fmpc/MathUtils.h>

using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

namespace
{
double call(const Vec & f, const Mat & J, const Vec & d)
{
  // all instantiations of the helper that fit
  double r = nmpc_fmpc::l1NormDirectionalDeriv<Eigen::Dynamic, Eigen::Dynamic>(f, J, d);
  auto also = [&](double v) {
    if(std::abs(v - r) > 1e-12 * (1 + std::abs(r)) * (1 + J.cwiseAbs().sum() * (d.size() ? d.cwiseAbs().maxCoeff() : 0))) throw pbt::Failure(pbt::cat("instantiations disagree: ", v, " and ", r));
  };
  if(f.size() == 2 && d.size() == 2) also(nmpc_fmpc::l1NormDirectionalDeriv<2, 2>(Eigen::Vector2d(f), Eigen::Matrix2d(J), Eigen::Vector2d(d)));
  if(f.size() == 3 && d.size() == 1) also(nmpc_fmpc::l1NormDirectionalDeriv<1, 3>(Eigen::Vector3d(f), Eigen::Vector3d(J), Eigen::Matrix<double, 1, 1>(d)));
  if(f.size() == 1 && d.size() == 3) also(nmpc_fmpc::l1NormDirectionalDeriv<3, 1>(Eigen::Matrix<double, 1, 1>(f), Eigen::RowVector3d(J), Eigen::Vector3d(d)));
  if(f.size() == 4) also(nmpc_fmpc::l1NormDirectionalDeriv<Eigen::Dynamic, 4>(Eigen::Vector4d(f), Eigen::Matrix<double, 4, Eigen::Dynamic>(J), d));
  return r;
}
} // namespace
// Exact arithmetic: small dyadic numbers, so that the difference quotient has no rounding error
PBT_PROPERTY(quotient, 1)
{
  int m = c.integer(0, 5), n = c.integer(0, 5);
  Vec f(m), d(n);
  Mat J(m, n);
  int zeros = 0;
  for(int i = 0; i < m; i++)
  {
    f[i] = c.integer(-8, 8) / 8.0;
    if(c.boolean(1, 3)) f[i] = c.boolean() ? 0.0 : -0.0;
    zeros += f[i] == 0;
    for(int j = 0; j < n; j++) J(i, j) = c.integer(-8, 8) / 4.0;
  }
  for(int j = 0; j < n; j++) d[j] = c.integer(-8, 8);
  c.describe([=] { return pbt::cat("f=", pbt::str(f), " J=", pbt::str(J), " d=", pbt::str(d)); });
  const double t = std::ldexp(1.0, -20);
  Vec moved = f + t * (J * d);
  double q = (moved.cwiseAbs().sum() - f.cwiseAbs().sum()) / t;
  double r = call(f, J, d);
  c.checkf(r == q || std::abs(r - q) <= 1e-9, [&] { return pbt::cat("directional derivative ", r, ", difference quotient ", q); });
  if(zeros && n) c.nontrivial();
}
// Any magnitude: a component counts as zero only when it is zero
PBT_PROPERTY(magnitudes, 1)
{
  int m = c.integer(1, 5), n = c.integer(1, 5);
  Vec f(m), d = c.vec(n, c.pick({1.0, 1e6, 1e-6}));
  Mat J = c.mat(m, n, c.pick({1.0, 1e5, 1e-7}));
  for(int i = 0; i < m; i++)
  {
    f[i] = (c.boolean() ? 1 : -1) * c.pick({0.0, 1.0, 1e-3, 1e-6, 1e-9, 1e-12, 1e-16, 1e-30, 1e-200, 1e-310, 1e10, 1e200});
  }
  c.describe([=] { return pbt::cat("f=", pbt::str(f), " J=", pbt::str(J), " d=", pbt::str(d)); });
  long double q = 0, mag = 0;
  for(int i = 0; i < m; i++)
  {
    long double v = 0;
    for(int j = 0; j < n; j++)
    {
      v += static_cast<long double>(J(i, j)) * d[j];
      mag += std::abs(static_cast<long double>(J(i, j)) * d[j]);
    }
    q += f[i] > 0 ? v : f[i] < 0 ? -v : std::abs(v);
  }
  double r = call(f, J, d);
  c.checkf(std::abs(r - q) <= 1e-13L * mag, [&] { return pbt::cat("directional derivative ", r, " instead of ", static_cast<double>(q)); });
  c.nontrivial();
}
