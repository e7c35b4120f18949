// C40, Box QP: poisoned memory and sanitizers.
#include "poison.h"

#include <iostream>
#include <memory>

#include <nmpc_ddp/BoxQP.h>

namespace
{
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
template<int N>
void box(pbt::Case & c)
{
  struct Q
  {
    Mat H;
    Vec g, lo, hi, x;
    bool guess;
  };
  std::vector<Q> qs;
  int k = c.integer(1, 3), dim = N == Eigen::Dynamic ? c.integer(1, 5) : N;
  for(int i = 0; i < k; i++)
  {
    Q q;
    int n = N == Eigen::Dynamic && c.boolean(1, 4) ? c.integer(1, 5) : dim;
    Mat M = c.mat(n, n, 1.0);
    q.H = M * M.transpose() + c.pick({0.1, 1.0, 0.0, -0.5}) * Mat::Identity(n, n);
    q.g = c.vec(n, 2.0);
    q.lo = c.vec(n, 1.0);
    q.hi = q.lo + c.vec(n, 1.0).cwiseAbs();
    q.x = c.vec(n, 2.0);
    q.guess = c.boolean();
    qs.push_back(q);
  }
  int max_iter = c.integer(1, 10);
  c.describe([=] {
    std::string r;
    for(auto & q : qs) r += pbt::cat("H=", pbt::str(q.H), " g=", pbt::str(q.g.transpose()), " lo=", pbt::str(q.lo.transpose()), " hi=", pbt::str(q.hi.transpose()), "; ");
    return r;
  });
  poison::compare(c, [&] {
    poison::Out out;
    std::shared_ptr<nmpc_ddp::BoxQP<N>> s;
    for(auto & q : qs)
    {
      if(!s || s->var_dim_ != q.g.size()) s = std::make_shared<nmpc_ddp::BoxQP<N>>(static_cast<int>(q.g.size()));
      s->config().max_iter = max_iter;
      Vec r;
      if(q.guess)
        r = s->solve(q.H, q.g, q.lo, q.hi, q.x);
      else
        r = s->solve(q.H, q.g, q.lo, q.hi);
      poison::put(out, r);
      poison::put(out, s->retval_);
      for(int i : s->free_idxs_) poison::put(out, i);
    }
    return out;
  });
  if(k >= 2) c.nontrivial();
}
} // namespace
PBT_PROPERTY(boxqp_dynamic, 1)
{
  box<Eigen::Dynamic>(c);
}
PBT_PROPERTY(boxqp_fixed, 1)
{
  box<3>(c);
}
