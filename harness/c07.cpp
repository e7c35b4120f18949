// C07: the box-constrained QP solver returns the exact constrained minimiser and describes it truthfully.
#include "qp.h"

namespace
{
template<int D>
void checkQP(pbt::Case & c, const QP & q, nmpc_ddp::BoxQP<D> & qp)
{
  typedef Eigen::Matrix<double, D, 1> V;
  V x = q.has_x0 ? qp.solve(q.H, q.g, q.lo, q.hi, q.x0) : qp.solve(q.H, q.g, q.lo, q.hi);
  c.checkf(x.size() == q.n && x.allFinite(), [&] { return std::string("solution has a wrong size or is not finite"); });
  Vec X = x;
  for(int i = 0; i < q.n; i++)
    c.checkf(X[i] >= q.lo[i] && X[i] <= q.hi[i], [&] { return pbt::cat("x[", i, "]=", X[i], " is outside [", q.lo[i], ",", q.hi[i], "]"); });
  auto ref = boxref::solve(q.H, q.g, q.lo, q.hi);
  double o = boxref::obj(q.H, q.g, X);
  double floor = 1e-15 / Eigen::SelfAdjointEigenSolver<Mat>(q.H).eigenvalues().minCoeff(); // absolute gradient threshold 1e-8
  double scale = 1e-12 + std::abs(ref.obj) + std::abs(o) + X.cwiseAbs().dot(q.H.cwiseAbs() * X.cwiseAbs());
  c.checkf(qp.retval_ > 0, [&] { return pbt::cat("status ", qp.retval_, " on a strictly convex problem"); });
  c.checkf(o - ref.obj <= 1e-8 * scale + floor, [&] { return pbt::cat("objective ", o, " but optimum is ", ref.obj, " status ", qp.retval_); });
  c.label(pbt::cat("status ", qp.retval_));
  // Free set and factor
  Vec grad = q.g + q.H * X;
  std::vector<bool> free(q.n, false);
  for(int i : qp.free_idxs_)
  {
    c.check(i >= 0 && i < q.n && !free[i], "free index list is invalid");
    free[i] = true;
  }
  double tolg = 1e-3 * (1e-6 + q.g.cwiseAbs().maxCoeff() + (q.H.cwiseAbs() * X.cwiseAbs()).maxCoeff());
  int nact = 0;
  for(int i = 0; i < q.n; i++)
  {
    if(!free[i])
    {
      nact++;
      c.checkf(X[i] == q.lo[i] || X[i] == q.hi[i], [&] { return pbt::cat("clamped variable ", i, " is not at a limit"); });
      c.checkf((X[i] == q.lo[i] && grad[i] >= -tolg) || (X[i] == q.hi[i] && grad[i] <= tolg), [&] { return pbt::cat("clamped variable ", i, " has gradient ", grad[i], " pointing into the feasible set"); });
    }
  }
  if(ref.margin > 1e-6 && ref.margin > 1e-4 * scale)
  {
    for(int i = 0; i < q.n; i++)
      c.checkf(qp.retval_ == 4 /* free set of the last but one iterate */ || free[i] == (ref.act[i] == 0) || q.lo[i] == q.hi[i], [&] { return pbt::cat("variable ", i, " reported ", free[i] ? "free" : "clamped", " but the optimum has it ", ref.act[i] ? "clamped" : "free"); });
    c.checkf((X - ref.x).cwiseAbs().maxCoeff() <= 1e-5 * (1 + ref.x.cwiseAbs().maxCoeff()),
             [&] { return pbt::cat("solution ", pbt::str(X.transpose()), " but the optimum is ", pbt::str(ref.x.transpose())); });
  }
  if(!qp.free_idxs_.empty())
  {
    int m = static_cast<int>(qp.free_idxs_.size());
    Mat Hf(m, m);
    for(int a = 0; a < m; a++)
      for(int b = 0; b < m; b++) Hf(a, b) = q.H(qp.free_idxs_[a], qp.free_idxs_[b]);
    c.check(qp.llt_free_ != nullptr, "no factorisation of the free block");
    Mat R = qp.llt_free_->reconstructedMatrix();
    c.checkf(R.rows() == m && (R - Hf).cwiseAbs().maxCoeff() <= 1e-9 * (1 + Hf.cwiseAbs().maxCoeff()), [&] { return pbt::cat("factorisation is not that of the free block: ", pbt::str(R), " vs ", pbt::str(Hf)); });
  }
  // Trace
  const auto & tr = qp.traceDataList();
  c.check(!tr.empty() && static_cast<int>(tr.size()) <= qp.config().max_iter + 1, "trace length");
  if(nact > 0 && nact < q.n) c.label("mixed active set");
  if(nact > 0) c.nontrivial();
}
} // namespace

PBT_PROPERTY(dynamic_size, 4)
{
  QP q = makeQP(c, c.boolean(1, 100) ? c.integer(7, 8) : c.integer(1, 6));
  c.describe([=] { return q.describe(); });
  nmpc_ddp::BoxQP<Eigen::Dynamic> qp(q.n);
  qp.config().print_level = c.boolean(1, 16) ? c.integer(1, 3) : 0;
  checkQP(c, q, qp);
}
PBT_PROPERTY(fixed_size, 2)
{
  QP q = makeQP(c, 3);
  c.describe([=] { return q.describe(); });
  nmpc_ddp::BoxQP<3> qp;
  qp.config().print_level = 0;
  checkQP(c, q, qp);
}
// One solver object reused for a history of problems answers each of them as a fresh one does
PBT_PROPERTY(reused, 2)
{
  int n = c.integer(1, 5), m = c.integer(2, 4);
  std::vector<QP> qs;
  for(int i = 0; i < m; i++) qs.push_back(makeQP(c, n));
  c.describe([=] {
    std::string s;
    for(auto & q : qs) s += q.describe() + " | ";
    return s;
  });
  nmpc_ddp::BoxQP<Eigen::Dynamic> qp(n);
  qp.config().print_level = 0;
  for(auto & q : qs)
  {
    qp.config().print_level = c.boolean(1, 16) ? c.integer(1, 3) : 0;
    checkQP(c, q, qp);
    nmpc_ddp::BoxQP<Eigen::Dynamic> fresh(n);
    fresh.config().print_level = 0;
    Vec a = q.has_x0 ? qp.solve(q.H, q.g, q.lo, q.hi, q.x0) : qp.solve(q.H, q.g, q.lo, q.hi);
    Vec b = q.has_x0 ? fresh.solve(q.H, q.g, q.lo, q.hi, q.x0) : fresh.solve(q.H, q.g, q.lo, q.hi);
    c.checkf(a == b && qp.retval_ == fresh.retval_ && qp.free_idxs_ == fresh.free_idxs_,
             [&] { return pbt::cat("a reused solver returns ", pbt::str(a.transpose()), ", a fresh one ", pbt::str(b.transpose())); });
  }
}
// Truncated runs and non-default tolerances: still feasible, never worse than the (projected) guess, objective history
// monotone, and the status tells whether the iteration limit was hit. Indefinite problems stay feasible.
PBT_PROPERTY(truncated, 2)
{
  int n = c.integer(1, 5);
  QP q = makeQP(c, n);
  bool indefinite = c.boolean(1, 4);
  if(indefinite) q.H -= c.real(0, 2) * Mat::Identity(n, n);
  c.describe([=] { return q.describe(); });
  nmpc_ddp::BoxQP<Eigen::Dynamic> qp(n);
  qp.config().print_level = 0;
  qp.config().max_iter = c.integer(1, 4);
  qp.config().step_factor = c.real(0.3, 0.9);
  qp.config().armijo_param = c.real(0.01, 0.4);
  Vec guess = q.x0.cwiseMin(q.hi).cwiseMax(q.lo);
  if(indefinite)
    for(int i = 0; i < n; i++)
      if(!(std::abs(q.lo[i]) < 1e9 && std::abs(q.hi[i]) < 1e9)) c.discard("unbounded indefinite problem");
  Vec x = q.has_x0 ? qp.solve(q.H, q.g, q.lo, q.hi, q.x0) : qp.solve(q.H, q.g, q.lo, q.hi);
  for(int i = 0; i < n; i++)
    c.checkf(x[i] >= q.lo[i] && x[i] <= q.hi[i], [&] { return pbt::cat("x[", i, "]=", x[i], " is outside [", q.lo[i], ",", q.hi[i], "]"); });
  double o0 = boxref::obj(q.H, q.g, guess), o1 = boxref::obj(q.H, q.g, x);
  double scale = 1e-12 + std::abs(o0) + std::abs(o1) + guess.cwiseAbs().dot(q.H.cwiseAbs() * guess.cwiseAbs());
  c.checkf(o1 <= o0 + 1e-10 * scale, [&] { return pbt::cat("objective went from ", o0, " to ", o1, " status ", qp.retval_); });
  const auto & tr = qp.traceDataList();
  c.check(!tr.empty() && static_cast<int>(tr.size()) <= qp.config().max_iter + 1, "trace length");
  c.checkf(std::abs(tr[0].obj - o0) <= 1e-10 * scale && (Vec(tr[0].x) - guess).cwiseAbs().maxCoeff() == 0,
           [&] { return pbt::cat("trace starts at objective ", tr[0].obj, " instead of ", o0); });
  if(indefinite && qp.retval_ < 0) c.label("reported not positive definite");
  if(!indefinite) c.checkf(qp.retval_ > 0 && qp.retval_ != 2, [&] { return pbt::cat("status ", qp.retval_, " on a strictly convex problem"); });
  if(qp.retval_ == 1)
    c.label("iteration limit");
  else if(!indefinite)
  {
    auto ref = boxref::solve(q.H, q.g, q.lo, q.hi);
    double floor = 1e-15 / Eigen::SelfAdjointEigenSolver<Mat>(q.H).eigenvalues().minCoeff();
    double sc = 1e-12 + std::abs(ref.obj) + x.cwiseAbs().dot(q.H.cwiseAbs() * x.cwiseAbs());
    c.checkf(o1 - ref.obj <= 1e-8 * sc + floor, [&] { return pbt::cat("status ", qp.retval_, " but objective ", o1, " and optimum ", ref.obj); });
    c.label("converged");
  }
  if(o1 < o0) c.nontrivial();
}
