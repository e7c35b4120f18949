// Oracle side of the FMPC harnesses: KKT residual, dense Newton step, step length rules, merit function.
#pragma once

#include "gen.h"

namespace fmpcref
{
using gen::Mat;
using gen::Vec;

struct Var
{
  std::vector<Vec> x, u, lam, s, nu;
  bool finite() const;
  std::string str() const;
};
double maxDiff(const Var & a, const Var & b);
double maxAbs(const Var & a);
Var add(const Var & v, double alpha_s, double alpha_nu, const Var & d);

struct Prob
{
  std::shared_ptr<const gen::Spec> spec;
  int k0 = 0, N = 1;
  Vec x0;
};

// Norm of the KKT conditions (complementarity: s .* nu), and its largest term for scaling
double kkt(const Prob & p, const Var & v);
// Objective sum dt * L + phi
double objective(const Prob & p, const Var & v);
// One dense linear system for the whole horizon
struct Newton
{
  Var d;
  double rcond = 0; // of the dense system
};
// Smallest eigenvalue magnitude of the stage systems of the block elimination, relative to their size
double stageMargin(const Prob & p, const Var & v);
// Largest weight of a constraint in the eliminated system
double barrierWeight(const Var & v, double eps);
Newton newton(const Prob & p, const Var & v, double eps);
double barrier(const Prob & p, const Var & v); // clamp(0.5 * mean(s .* nu), 1e-8, 1e6)
// Fraction-to-boundary step lengths
void fraction(const Var & v, const Var & d, double & as, double & anu);
// l1 merit function; the derivative of the constraint part is deriv_con +- slack_con (the sign of residuals that are
// zero up to rounding is open)
struct Merit
{
  double value = 0, obj = 0, con = 0, deriv_obj = 0, deriv_con = 0, slack_con = 0, min_residual = 0;
};
Merit merit(const Prob & p, const Var & v, const Var * d, double eps);
} // namespace fmpcref
