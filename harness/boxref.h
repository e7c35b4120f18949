// Reference solution of a small strictly convex box-constrained QP by enumerating the 3^n active sets.
#pragma once

#include "pbt.h"

namespace boxref
{
struct Sol
{
  bool found = false;
  Eigen::VectorXd x;
  Eigen::VectorXd grad;
  double obj = 0;
  std::vector<int> act; // -1 lower, 0 free, 1 upper
  double margin = 0; // distance of the solution from a change of active set
};
inline double obj(const Eigen::MatrixXd & H, const Eigen::VectorXd & g, const Eigen::VectorXd & x)
{
  return x.dot(g) + 0.5 * x.dot(H * x);
}
// The active set with the smallest KKT violation (exact up to rounding for a strictly convex problem)
Sol solve(const Eigen::MatrixXd & H, const Eigen::VectorXd & g, const Eigen::VectorXd & lo, const Eigen::VectorXd & hi);
} // namespace boxref
