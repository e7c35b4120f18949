// C30: GMRES - minimal residual over the Krylov space, true residual history, all option combinations.
#include "pbt.h"
#include <nmpc_cgmres/Gmres.h>

using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using LMat = Eigen::Matrix<long double, -1, -1>;
using LVec = Eigen::Matrix<long double, -1, 1>;

namespace
{
// Residuals of the minimisers over K_0, K_1, ... (long double, twice orthogonalised), and the minimisers
struct Ref
{
  std::vector<double> res;
  std::vector<Vec> x;
  int dim = 0; // dimension of the full Krylov space
};
Ref reference(const Mat & A, const Vec & b, const Vec & x0, int m)
{
  LMat L = A.cast<long double>();
  LVec r = b.cast<long double>() - L * x0.cast<long double>();
  Ref out;
  out.res.push_back(static_cast<double>(r.norm()));
  out.x.push_back(x0);
  int n = static_cast<int>(b.size());
  LMat V(n, 0);
  LVec v = r;
  for(int k = 1; k <= m; k++)
  {
    long double before = v.norm();
    for(int rep = 0; rep < 3; rep++) v -= V * (V.transpose() * v);
    if(!(v.norm() > 1e-12L * before) || before == 0) break;
    V.conservativeResize(n, k);
    V.col(k - 1) = v.normalized();
    out.dim = k;
    LMat W = L * V;
    LVec y = W.householderQr().solve(r);
    out.res.push_back(static_cast<double>((r - W * y).norm()));
    out.x.push_back(x0 + (V * y).cast<double>());
    v = L * V.col(k - 1);
  }
  return out;
}
Mat orth(pbt::Case & c, int n)
{
  Mat M = c.mat(n, n, 1.0) + 1e-3 * Mat::Identity(n, n);
  return Mat(M.householderQr().householderQ());
}
Mat matrix(pbt::Case & c, int n)
{
  Mat A;
  switch(c.integer(0, 7))
  {
    case 0: A = Mat::Identity(n, n) * c.real(0.5, 3); break;
    case 1: A = c.mat(n, n, 1.0); break;
    case 2: // cyclic shift: the residual stagnates until the last step
      A = Mat::Zero(n, n);
      for(int i = 0; i < n; i++) A((i + 1) % n, i) = c.boolean() ? 1 : -1;
      break;
    case 3: // few distinct eigenvalues: early exact convergence
    {
      Mat Q = orth(c, n);
      Vec d(n);
      double e[3] = {c.real(0.5, 3), -c.real(0.5, 3), c.real(0.5, 3)};
      for(int i = 0; i < n; i++) d[i] = e[c.integer(0, 2)];
      A = Q * d.asDiagonal() * Q.transpose();
      break;
    }
    case 4: // symmetric positive definite
    {
      Mat M = c.mat(n, n, 1.0);
      A = M * M.transpose() + 0.1 * Mat::Identity(n, n);
      break;
    }
    case 5: // skew plus little
    {
      Mat M = c.mat(n, n, 1.0);
      A = M - M.transpose() + c.pick({0.5, 0.05}) * Mat::Identity(n, n);
      break;
    }
    case 6: // triangular
      A = c.mat(n, n, 1.0).triangularView<Eigen::Upper>();
      for(int i = 0; i < n; i++) A(i, i) = c.real(0.3, 2) * (c.boolean() ? 1 : -1);
      break;
    default: // prescribed singular values
    {
      Vec d(n);
      for(int i = 0; i < n; i++) d[i] = c.logreal(0.03, 30);
      A = orth(c, n) * d.asDiagonal() * orth(c, n).transpose();
    }
  }
  return A * c.pick({1.0, 1e-6, 1e6});
}
struct Sys
{
  Mat A;
  Vec b, x0;
  int k_max;
  double eps;
  bool tri, reorth;
  std::string str() const
  {
    return pbt::cat("A=", pbt::str(A), " b=", pbt::str(b.transpose()), " x0=", pbt::str(x0.transpose()), " k_max=", k_max, " eps=", eps, " triangular=", tri, " reorth=", reorth);
  }
};
Sys system(pbt::Case & c, double max_cond)
{
  Sys s;
  int n = c.weighted({6, 1}) == 0 ? c.integer(1, 8) : c.integer(8, 16);
  s.A = matrix(c, n);
  Eigen::JacobiSVD<Mat> svd(s.A);
  double smax = svd.singularValues()[0], smin = svd.singularValues()[n - 1];
  if(!(smin > smax / max_cond)) c.discard("singular or ill-conditioned");
  switch(c.integer(0, 3))
  {
    case 0: s.x0 = Vec::Zero(n); break;
    default: s.x0 = c.vec(n, c.pick({1.0, 10.0, 0.01})); break;
  }
  if(c.boolean(1, 6))
    s.b = s.A * s.x0 + c.vec(n, 1e-3 * smax); // nearly converged start
  else if(c.boolean(1, 4))
  {
    s.b = Vec::Zero(n);
    s.b[c.integer(0, n - 1)] = smax;
  }
  else
    s.b = c.vec(n, smax);
  s.k_max = c.boolean() ? 100 : c.integer(0, n + 1);
  s.eps = c.pick({1e-10, 1e-6, 1e-2});
  s.tri = !c.boolean(1, 3);
  s.reorth = !c.boolean(1, 3);
  return s;
}
} // namespace

PBT_PROPERTY(minimal_residual, 3)
{
  Sys s = system(c, 1e3);
  c.describe([=] { return s.str(); });
  int n = static_cast<int>(s.b.size());
  nmpc_cgmres::Gmres g;
  g.make_triangular_ = s.tri;
  g.apply_reorth_ = s.reorth;
  if(c.boolean(1, 4))
  {
    // a used object
    Vec tmp = c.vec(n + 1, 1.0);
    Mat T = Mat::Identity(n + 1, n + 1);
    T(0, n) = 0.7;
    Vec rhs = c.vec(n + 1, 1.0);
    g.solve(Eigen::Ref<const Mat>(T), rhs, tmp, 3, 1e-12);
  }
  Vec x = s.x0, b0 = s.b;
  int calls = 0;
  bool matrix_interface = c.boolean();
  if(matrix_interface)
    g.solve(Eigen::Ref<const Mat>(s.A), s.b, x, s.k_max, s.eps);
  else
  {
    nmpc_cgmres::Gmres::AmulFunc f = [&](const Eigen::Ref<const Vec> & v) -> Vec {
      calls++;
      return s.A * v;
    };
    g.solve(f, s.b, x, s.k_max, s.eps);
  }
  c.check(b0 == s.b, "right-hand side changed");
  int m = static_cast<int>(g.err_list_.size()) - 1, lim = std::min(s.k_max, n);
  double bn = s.b.norm();
  Ref ref = reference(s.A, s.b, s.x0, std::max(m, 0));
  double scale = s.A.norm() * (1 + s.x0.norm()) + bn, tol = 1e-9 * scale;
  c.checkf(m >= 0 && m <= lim, [&] { return pbt::cat(m, " steps, limit ", lim); });
  // nothing below the rounding level can be compared
  for(int k = 0; k <= m; k++)
  {
    double r = k < static_cast<int>(ref.res.size()) ? ref.res[k] : 0;
    c.checkf(std::abs(g.err_list_[k] - r) <= tol, [&] { return pbt::cat("residual reported after ", k, " steps ", g.err_list_[k], ", minimal over the Krylov space ", r); });
    if(k) c.checkf(g.err_list_[k] <= g.err_list_[k - 1] * (1 + 1e-9) + 1e-12 * scale, [&] { return pbt::cat("residual grows from ", g.err_list_[k - 1], " to ", g.err_list_[k]); });
    // stopping rule
    if(k < m) c.checkf(g.err_list_[k] > s.eps * bn, [&] { return pbt::cat("continued at residual ", g.err_list_[k], " with tolerance ", s.eps * bn); });
  }
  if(m < lim) c.checkf(g.err_list_[m] <= s.eps * bn, [&] { return pbt::cat("stopped at residual ", g.err_list_[m], " with tolerance ", s.eps * bn, " after ", m, " of ", lim, " steps"); });
  double truth = (s.b - s.A * x).norm();
  c.checkf(std::abs(truth - g.err_list_.back()) <= tol, [&] { return pbt::cat("true residual ", truth, ", reported ", g.err_list_.back()); });
  if(m < static_cast<int>(ref.x.size()))
    c.checkf((x - ref.x[m]).norm() <= 1e-7 * (1 + x.norm() + s.x0.norm()) * 10, [&] { return pbt::cat("solution ", pbt::str(x.transpose()), ", minimiser ", pbt::str(ref.x[m].transpose())); });
  if(lim == n)
  {
    Vec ex = s.A.fullPivLu().solve(s.b);
    c.checkf(truth <= std::max(s.eps * bn, tol), [&] { return pbt::cat("with as many steps as unknowns the residual is ", truth); });
    if(s.eps <= 1e-10) c.checkf((x - ex).norm() <= 1e-5 * (1 + ex.norm() + s.x0.norm()), [&] { return pbt::cat("solution ", pbt::str(x.transpose()), " instead of ", pbt::str(ex.transpose())); });
  }
  if(!matrix_interface) c.checkf(calls == m + 1, [&] { return pbt::cat(calls, " products for ", m, " steps"); });
  if(m >= 2) c.nontrivial();
}
// Options do not change the result
PBT_PROPERTY(options_agree, 1)
{
  Sys s = system(c, 1e3);
  c.describe([=] { return s.str(); });
  std::vector<Vec> xs;
  std::vector<size_t> len;
  for(int i = 0; i < 4; i++)
  {
    nmpc_cgmres::Gmres g;
    g.make_triangular_ = i & 1;
    g.apply_reorth_ = i & 2;
    Vec x = s.x0;
    g.solve(Eigen::Ref<const Mat>(s.A), s.b, x, s.k_max, s.eps);
    xs.push_back(x);
    len.push_back(g.err_list_.size());
    for(double e : g.err_list_)
      if(std::abs(e - s.eps * s.b.norm()) < 1e-9 * (s.A.norm() * (1 + s.x0.norm()) + s.b.norm())) c.discard("stopping decided by rounding");
  }
  for(int i = 1; i < 4; i++)
    c.checkf(len[i] == len[0] && (xs[i] - xs[0]).norm() <= 1e-7 * (1 + xs[0].norm()), [&] { return pbt::cat("options ", i, ": ", pbt::str(xs[i].transpose()), " instead of ", pbt::str(xs[0].transpose())); });
  if(len[0] > 2) c.nontrivial();
}
// Larger and worse conditioned systems: the reported residual is the true one and full dimension solves
PBT_PROPERTY(large, 1)
{
  int n = c.integer(10, 60);
  Vec d(n);
  double cond = c.pick({1e1, 1e3, 1e5});
  uint64_t seed = c.choice(1ull << 40);
  auto rnd = [&](int r, int k) {
    Mat M(r, k);
    for(int i = 0; i < M.size(); i++) M.data()[i] = 2.0 * (pbt::splitmix(seed) >> 11) / 9007199254740992.0 - 1.0;
    return M;
  };
  for(int i = 0; i < n; i++) d[i] = std::pow(cond, -static_cast<double>(i) / n);
  Mat Q1 = Mat(rnd(n, n).householderQr().householderQ()), Q2 = Mat(rnd(n, n).householderQr().householderQ());
  Mat A = Q1 * d.asDiagonal() * (c.boolean() ? Q2 : Mat(Q1.transpose()));
  Vec b = rnd(n, 1), x0 = c.boolean() ? Vec(rnd(n, 1)) : Vec(Vec::Zero(n));
  int k = c.boolean() ? 1000 : c.integer(1, n);
  c.describe([=] { return pbt::cat("n=", n, " cond=", cond, " k_max=", k); });
  nmpc_cgmres::Gmres g;
  g.make_triangular_ = c.boolean(2, 3);
  g.apply_reorth_ = c.boolean(2, 3);
  Vec x = x0;
  g.solve(Eigen::Ref<const Mat>(A), b, x, k, 1e-10);
  double truth = (b - A * x).norm(), e = g.err_list_.back(), scale = b.norm() + x0.norm() + (x - x0).norm();
  c.checkf(std::abs(truth - e) <= 1e-10 * scale * cond, [&] { return pbt::cat("true residual ", truth, ", reported ", e); });
  if(k >= n) c.checkf(truth <= 1e-10 * b.norm() + 1e-12 * scale * cond, [&] { return pbt::cat("residual ", truth, " with ", g.err_list_.size() - 1, " steps for ", n, " unknowns"); });
  for(size_t i = 1; i < g.err_list_.size(); i++) c.check(g.err_list_[i] <= g.err_list_[i - 1] * (1 + 1e-9) + 1e-13 * scale, "residual history grows");
  c.nontrivial();
}
