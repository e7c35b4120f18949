// Generated box-constrained quadratic programs
#pragma once
#include "boxref.h"

#include <iostream>
#include <memory>
#include <unordered_map>

#include <nmpc_ddp/BoxQP.h>

using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

namespace
{
struct QP
{
  int n;
  Mat H;
  Vec g, lo, hi, x0;
  bool has_x0;
  std::string describe() const
  {
    return pbt::cat("n=", n, " H=", pbt::str(H), " g=", pbt::str(g.transpose()), " lo=", pbt::str(lo.transpose()),
                    " hi=", pbt::str(hi.transpose()), " x0=", pbt::str(x0.transpose()));
  }
};
QP makeQP(pbt::Case & c, int n)
{
  QP q;
  q.n = n;
  double s = c.weighted({3, 1}) == 0 ? 1.0 : c.logreal(1e-2, 1e2);
  Mat L = c.mat(n, n, 1.0);
  double d = c.logreal(1e-3, 2.0);
  q.H = s * (L * L.transpose() + d * Mat::Identity(n, n));
  q.g = c.vec(n, s * c.pick({1.0, 5.0, 0.2}));
  double w = c.logreal(0.02, 10);
  q.lo.resize(n);
  q.hi.resize(n);
  for(int i = 0; i < n; i++)
  {
    double m = c.real(-1, 1) * w, h = w * c.real(0, 1);
    q.lo[i] = m - h;
    q.hi[i] = m + h;
    switch(c.weighted({14, 1, 1, 1, 1, 2}))
    {
      case 1:
        q.hi[i] = q.lo[i];
        break;
      case 2:
        q.lo[i] = -1e10;
        break;
      case 3:
        q.hi[i] = 1e10;
        break;
      case 4:
        q.lo[i] = -std::numeric_limits<double>::infinity();
        q.hi[i] = std::numeric_limits<double>::infinity();
        break;
      case 5:
        q.lo[i] = 0;
        q.hi[i] = h;
        break;
      default:
        break;
    }
  }
  q.has_x0 = c.boolean(2, 3);
  q.x0 = q.has_x0 ? c.vec(n, c.pick({1.0, 20.0, 0.1})) : Vec(Vec::Zero(n));
  // starts at, or a hair's breadth away from, a limit
  if(q.has_x0 && c.boolean(1, 3))
    for(int i = 0; i < n; i++)
    {
      int side = c.integer(0, 2);
      double l = side == 1 ? q.lo[i] : q.hi[i];
      if(side == 0 || std::abs(l) > 1e9) continue;
      double d = c.boolean(1, 3) ? 0.0 : w * c.logreal(1e-14, 1e-2);
      q.x0[i] = side == 1 ? l + d : l - d;
    }
  return q;
}
} // namespace
