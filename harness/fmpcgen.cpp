// Definitions for fmpc.h that do not depend on the library
#include "fmpcref.h"
namespace hfmpc
{
using fmpcref::Prob;
using fmpcref::Var;
using gen::Mat;
using gen::Vec;
void addConstraints(pbt::Case & c, gen::Spec & s, int k0, const std::vector<Vec> & x, const std::vector<Vec> & u, bool nonlinear)
{
  double margin = c.logreal(0.05, 3);
  for(size_t p = 0; p < s.palette.size(); p++)
  {
    gen::Stage & st = s.palette[p];
    int nz = s.nx + st.nu;
    for(int j = 0; j < st.nc; j++)
    {
      if(c.boolean())
        st.G(j, c.integer(0, nz - 1)) = c.boolean() ? 1 : -1;
      else
        for(int i = 0; i < nz; i++) st.G(j, i) = c.real(-1, 1);
    }
    if(nonlinear && st.nc > 0 && c.boolean(1, 3))
    {
      st.gamp = c.real(0.02, 0.5);
      st.GW = c.mat(st.nc, nz, 1.0);
      st.gph = c.vec(st.nc, 2.0);
    }
    Vec mx = Vec::Constant(st.nc, -0.5);
    for(size_t i = 0; i < u.size(); i++)
      if(s.which[k0 + static_cast<int>(i)] == static_cast<int>(p)) mx = mx.cwiseMax(s.g(k0 + static_cast<long>(i), x[i], u[i])).eval();
    st.e = -mx;
    for(int j = 0; j < st.nc; j++) st.e[j] -= margin * c.real(0.2, 1);
  }
}
Var constantGuess(const Prob & p, double x, double u, double lam, double sl, double nu)
{
  Var v;
  for(int i = 0; i <= p.N; i++)
  {
    v.x.push_back(Vec::Constant(p.spec->nx, x));
    v.lam.push_back(Vec::Constant(p.spec->nx, lam));
    if(i == p.N) break;
    const auto & st = p.spec->at(p.k0 + i);
    v.u.push_back(Vec::Constant(st.nu, u));
    v.s.push_back(Vec::Constant(st.nc, sl));
    v.nu.push_back(Vec::Constant(st.nc, nu));
  }
  return v;
}
Var randomGuess(pbt::Case & c, const Prob & p, const std::vector<Vec> & xf, const std::vector<Vec> & uf)
{
  Var v;
  bool feasible = c.boolean(1, 4);
  double sc = c.pick({1.0, 0.1, 4.0});
  for(int i = 0; i <= p.N; i++)
  {
    v.x.push_back(feasible ? xf[i] : Vec(c.vec(p.spec->nx, sc)));
    v.lam.push_back(c.vec(p.spec->nx, sc));
    if(i == p.N) break;
    const auto & st = p.spec->at(p.k0 + i);
    v.u.push_back(feasible ? uf[i] : Vec(c.vec(st.nu, sc)));
    Vec s(st.nc), n(st.nc);
    for(int j = 0; j < st.nc; j++)
    {
      s[j] = c.logreal(1e-2, 5);
      n[j] = c.logreal(1e-2, 5);
    }
    if(feasible) s = -p.spec->g(p.k0 + i, v.x[i], v.u[i]);
    v.s.push_back(s);
    v.nu.push_back(n);
  }
  return v;
}
Var start(const Prob & p, const Var & guess, bool init_complementary)
{
  Var v = guess;
  if(!init_complementary) return v;
  for(int i = 0; i < p.N; i++)
  {
    Vec g = p.spec->g(p.k0 + i, v.x[i], v.u[i]);
    v.s[i].resize(g.size());
    v.nu[i].resize(g.size());
    for(int j = 0; j < g.size(); j++)
    {
      v.s[i][j] = 1.01 * std::max(-g[j], 1e-2);
      v.nu[i][j] = 1.01 * std::max(1e-4 / v.s[i][j], 1e-2);
    }
  }
  return v;
}
} // namespace hfmpc
