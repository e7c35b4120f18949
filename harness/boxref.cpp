#include "boxref.h"

namespace boxref
{
Sol solve(const Eigen::MatrixXd & H, const Eigen::VectorXd & g, const Eigen::VectorXd & lo, const Eigen::VectorXd & hi)
{
  int n = static_cast<int>(g.size());
  Sol best;
  double best_viol = std::numeric_limits<double>::infinity();
  int total = 1;
  for(int i = 0; i < n; i++) total *= 3;
  for(int code = 0; code < total; code++)
  {
    std::vector<int> act(n);
    std::vector<int> fr;
    int q = code;
    bool skip = false;
    Eigen::VectorXd x = Eigen::VectorXd::Zero(n);
    for(int i = 0; i < n; i++)
    {
      act[i] = q % 3 == 0 ? 0 : (q % 3 == 1 ? -1 : 1);
      q /= 3;
      if(act[i] < 0) x[i] = lo[i];
      if(act[i] > 0) x[i] = hi[i];
      if(act[i] != 0 && std::isinf(x[i])) skip = true;
      if(act[i] == 0) fr.push_back(i);
    }
    if(skip) continue;
    int m = static_cast<int>(fr.size());
    if(m)
    {
      Eigen::MatrixXd Hf(m, m);
      Eigen::VectorXd r(m);
      Eigen::VectorXd gx = g + H * x;
      for(int a = 0; a < m; a++)
      {
        for(int b = 0; b < m; b++) Hf(a, b) = H(fr[a], fr[b]);
        r[a] = -gx[fr[a]];
      }
      Eigen::VectorXd y = Hf.partialPivLu().solve(r);
      for(int a = 0; a < m; a++) x[fr[a]] = y[a];
    }
    Eigen::VectorXd grad = g + H * x;
    double viol = 0, margin = std::numeric_limits<double>::infinity();
    for(int i = 0; i < n; i++)
    {
      double v, mg;
      if(act[i] == 0)
      {
        mg = std::min(x[i] - lo[i], hi[i] - x[i]);
        v = -mg;
      }
      else
      {
        mg = lo[i] == hi[i] ? std::abs(grad[i]) : (act[i] < 0 ? grad[i] : -grad[i]);
        v = lo[i] == hi[i] ? 0 : -mg;
      }
      viol = std::max(viol, v);
      margin = std::min(margin, mg);
    }
    if(viol < best_viol)
    {
      best_viol = viol;
      best.found = true;
      best.x = x.cwiseMin(hi).cwiseMax(lo);
      best.grad = g + H * best.x;
      best.act = act;
      best.margin = margin;
      best.obj = obj(H, g, best.x);
    }
  }
  return best;
}
} // namespace boxref
