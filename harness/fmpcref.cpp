#include "fmpcref.h"

namespace fmpcref
{
bool Var::finite() const
{
  for(auto * l : {&x, &u, &lam, &s, &nu})
    for(auto & v : *l)
      if(!v.allFinite()) return false;
  return true;
}
std::string Var::str() const
{
  std::string r;
  const char * names[] = {"x", "u", "lambda", "s", "nu"};
  int i = 0;
  for(auto * l : {&x, &u, &lam, &s, &nu})
  {
    r += std::string(" ") + names[i++] + "=";
    for(size_t k = 0; k < l->size() && k < 5; k++) r += pbt::str((*l)[k].transpose());
  }
  return r;
}
static double diffList(const std::vector<Vec> & a, const std::vector<Vec> & b)
{
  if(a.size() != b.size()) return std::numeric_limits<double>::infinity();
  double m = 0;
  for(size_t i = 0; i < a.size(); i++)
  {
    if(a[i].size() != b[i].size()) return std::numeric_limits<double>::infinity();
    for(int j = 0; j < a[i].size(); j++)
    {
      double d = std::abs(a[i][j] - b[i][j]);
      if(!(d <= m)) m = std::isnan(d) ? std::numeric_limits<double>::infinity() : d;
    }
  }
  return m;
}
double maxDiff(const Var & a, const Var & b)
{
  return std::max({diffList(a.x, b.x), diffList(a.u, b.u), diffList(a.lam, b.lam), diffList(a.s, b.s), diffList(a.nu, b.nu)});
}
double maxAbs(const Var & a)
{
  double m = 0;
  for(auto * l : {&a.x, &a.u, &a.lam, &a.s, &a.nu})
    for(auto & v : *l)
      if(v.size()) m = std::max(m, v.cwiseAbs().maxCoeff());
  return m;
}
Var add(const Var & v, double as, double an, const Var & d)
{
  Var r = v;
  for(size_t i = 0; i < v.x.size(); i++)
  {
    r.x[i] += as * d.x[i];
    r.lam[i] += an * d.lam[i];
  }
  for(size_t i = 0; i < v.u.size(); i++)
  {
    r.u[i] += as * d.u[i];
    r.s[i] += as * d.s[i];
    r.nu[i] += an * d.nu[i];
  }
  return r;
}
double kkt(const Prob & p, const Var & v)
{
  const gen::Spec & s = *p.spec;
  double e = (p.x0 - v.x[0]).squaredNorm();
  Vec g;
  Mat H;
  for(int i = 0; i < p.N; i++)
  {
    long k = p.k0 + i;
    Mat A, B, C, D;
    s.fDeriv(k, v.x[i], v.u[i], A, B);
    s.gDeriv(k, v.x[i], v.u[i], C, D);
    s.LDeriv(k, v.x[i], v.u[i], g, H);
    e += (s.f(k, v.x[i], v.u[i]) - v.x[i + 1]).squaredNorm();
    e += (s.g(k, v.x[i], v.u[i]) + v.s[i]).squaredNorm();
    e += (s.dt * g.head(s.nx) - v.lam[i] + A.transpose() * v.lam[i + 1] + C.transpose() * v.nu[i]).squaredNorm();
    e += (s.dt * g.tail(v.u[i].size()) + B.transpose() * v.lam[i + 1] + D.transpose() * v.nu[i]).squaredNorm();
    e += v.s[i].cwiseProduct(v.nu[i]).squaredNorm();
  }
  s.phiDeriv(p.k0 + p.N, v.x[p.N], g, H);
  e += (g - v.lam[p.N]).squaredNorm();
  return std::sqrt(e);
}
double objective(const Prob & p, const Var & v)
{
  double J = 0;
  for(int i = 0; i < p.N; i++) J += p.spec->dt * p.spec->L(p.k0 + i, v.x[i], v.u[i]);
  return J + p.spec->phi(p.k0 + p.N, v.x[p.N]);
}
double stageMargin(const Prob & p, const Var & v)
{
  const gen::Spec & sp = *p.spec;
  Vec g;
  Mat P, H, A, B, C, D;
  sp.phiDeriv(p.k0 + p.N, v.x[p.N], g, P);
  double m = 1;
  for(int i = p.N - 1; i >= 0; i--)
  {
    long k = p.k0 + i;
    int nu = static_cast<int>(v.u[i].size()), nx = sp.nx;
    sp.fDeriv(k, v.x[i], v.u[i], A, B);
    sp.gDeriv(k, v.x[i], v.u[i], C, D);
    sp.LDeriv(k, v.x[i], v.u[i], g, H);
    Mat J(C.rows(), nx + nu), F(nx, nx + nu);
    J << C, D;
    F << A, B;
    Mat Q = sp.dt * H + J.transpose() * v.nu[i].cwiseQuotient(v.s[i]).asDiagonal() * J + F.transpose() * P * F;
    P = Q.topLeftCorner(nx, nx);
    if(nu == 0) continue;
    Mat G = Q.bottomRightCorner(nu, nu);
    Eigen::SelfAdjointEigenSolver<Mat> es(G);
    double sc = std::max(es.eigenvalues().cwiseAbs().maxCoeff(), 1e-3 * Q.cwiseAbs().maxCoeff());
    m = std::min(m, es.eigenvalues().cwiseAbs().minCoeff() / sc);
    Mat Qux = Q.bottomLeftCorner(nu, nx);
    P = P - Qux.transpose() * G.ldlt().solve(Qux);
    P = 0.5 * (P + P.transpose()).eval();
  }
  return m;
}
double barrierWeight(const Var & v, double eps)
{
  double m = 0;
  for(size_t i = 0; i < v.s.size(); i++)
    for(int j = 0; j < v.s[i].size(); j++) m = std::max(m, (v.nu[i][j] + eps / v.s[i][j]) / v.s[i][j]);
  return m;
}
Newton newton(const Prob & p, const Var & v, double eps)
{
  const gen::Spec & sp = *p.spec;
  int N = p.N, nx = sp.nx;
  std::vector<int> ox(N + 1), ol(N + 1), ou(N), os(N), on(N);
  int n = 0;
  for(int i = 0; i <= N; i++)
  {
    ox[i] = n;
    n += nx;
    ol[i] = n;
    n += nx;
    if(i < N)
    {
      ou[i] = n;
      n += static_cast<int>(v.u[i].size());
      os[i] = n;
      n += static_cast<int>(v.s[i].size());
      on[i] = n;
      n += static_cast<int>(v.s[i].size());
    }
  }
  Mat M = Mat::Zero(n, n);
  Vec r = Vec::Zero(n);
  int row = 0;
  Mat I = Mat::Identity(nx, nx);
  M.block(row, ox[0], nx, nx) = I;
  r.segment(row, nx) = p.x0 - v.x[0];
  row += nx;
  Vec g;
  Mat H;
  for(int i = 0; i < N; i++)
  {
    long k = p.k0 + i;
    int nu = static_cast<int>(v.u[i].size()), nc = static_cast<int>(v.s[i].size());
    Mat A, B, C, D;
    sp.fDeriv(k, v.x[i], v.u[i], A, B);
    sp.gDeriv(k, v.x[i], v.u[i], C, D);
    sp.LDeriv(k, v.x[i], v.u[i], g, H);
    // dynamics
    M.block(row, ox[i], nx, nx) = A;
    M.block(row, ou[i], nx, nu) = B;
    M.block(row, ox[i + 1], nx, nx) = -I;
    r.segment(row, nx) = v.x[i + 1] - sp.f(k, v.x[i], v.u[i]);
    row += nx;
    // stationarity x
    M.block(row, ol[i], nx, nx) = -I;
    M.block(row, ox[i], nx, nx) = sp.dt * H.topLeftCorner(nx, nx);
    M.block(row, ou[i], nx, nu) = sp.dt * H.topRightCorner(nx, nu);
    M.block(row, ol[i + 1], nx, nx) = A.transpose();
    M.block(row, on[i], nx, nc) = C.transpose();
    r.segment(row, nx) = -(sp.dt * g.head(nx) - v.lam[i] + A.transpose() * v.lam[i + 1] + C.transpose() * v.nu[i]);
    row += nx;
    // stationarity u
    M.block(row, ox[i], nu, nx) = sp.dt * H.bottomLeftCorner(nu, nx);
    M.block(row, ou[i], nu, nu) = sp.dt * H.bottomRightCorner(nu, nu);
    M.block(row, ol[i + 1], nu, nx) = B.transpose();
    M.block(row, on[i], nu, nc) = D.transpose();
    r.segment(row, nu) = -(sp.dt * g.tail(nu) + B.transpose() * v.lam[i + 1] + D.transpose() * v.nu[i]);
    row += nu;
    // inequality
    M.block(row, ox[i], nc, nx) = C;
    M.block(row, ou[i], nc, nu) = D;
    for(int j = 0; j < nc; j++) M(row + j, os[i] + j) = 1;
    r.segment(row, nc) = -(sp.g(k, v.x[i], v.u[i]) + v.s[i]);
    row += nc;
    // complementarity
    for(int j = 0; j < nc; j++)
    {
      M(row + j, os[i] + j) = v.nu[i][j];
      M(row + j, on[i] + j) = v.s[i][j];
      r[row + j] = eps - v.s[i][j] * v.nu[i][j];
    }
    row += nc;
  }
  sp.phiDeriv(p.k0 + N, v.x[N], g, H);
  M.block(row, ox[N], nx, nx) = H;
  M.block(row, ol[N], nx, nx) = -I;
  r.segment(row, nx) = v.lam[N] - g;
  // Row equilibration, then LU with one refinement step
  for(int i = 0; i < n; i++)
  {
    double m = M.row(i).cwiseAbs().maxCoeff();
    if(m > 0)
    {
      M.row(i) /= m;
      r[i] /= m;
    }
  }
  Eigen::PartialPivLU<Mat> lu(M);
  Vec d = lu.solve(r);
  d += lu.solve(r - M * d);
  Newton out;
  out.rcond = lu.rcond();
  for(int i = 0; i <= N; i++)
  {
    out.d.x.push_back(d.segment(ox[i], nx));
    out.d.lam.push_back(d.segment(ol[i], nx));
    if(i < N)
    {
      out.d.u.push_back(d.segment(ou[i], v.u[i].size()));
      out.d.s.push_back(d.segment(os[i], v.s[i].size()));
      out.d.nu.push_back(d.segment(on[i], v.s[i].size()));
    }
  }
  return out;
}
double barrier(const Prob & p, const Var & v)
{
  double a = 0;
  int n = 0;
  for(int i = 0; i < p.N; i++)
  {
    a += v.s[i].dot(v.nu[i]);
    n += static_cast<int>(v.s[i].size());
  }
  if(n) a /= n;
  return std::min(std::max(0.5 * a, 1e-8), 1e6);
}
void fraction(const Var & v, const Var & d, double & as, double & an)
{
  as = an = 1;
  for(size_t i = 0; i < v.s.size(); i++)
    for(int j = 0; j < v.s[i].size(); j++)
    {
      if(d.s[i][j] < 0) as = std::min(as, -0.995 * v.s[i][j] / d.s[i][j]);
      if(d.nu[i][j] < 0) an = std::min(an, -0.995 * v.nu[i][j] / d.nu[i][j]);
    }
}
static double l1(const Vec & f, const Vec * df, const Vec & parts, Merit & m)
{
  double v = 0;
  for(int i = 0; i < f.size(); i++)
  {
    v += std::abs(f[i]);
    m.min_residual = std::min(m.min_residual, std::abs(f[i]));
    if(!df) continue;
    if(std::abs(f[i]) <= 1e-9)
      m.slack_con += parts[i];
    else
      m.deriv_con += f[i] > 0 ? (*df)[i] : -(*df)[i];
  }
  return v;
}
Merit merit(const Prob & p, const Var & v, const Var * d, double eps)
{
  const gen::Spec & s = *p.spec;
  Merit m;
  m.min_residual = std::numeric_limits<double>::infinity();
  Vec df, parts, g;
  Mat H;
  if(d)
  {
    df = -d->x[0];
    parts = df.cwiseAbs();
  }
  m.con += l1(p.x0 - v.x[0], d ? &df : nullptr, parts, m);
  for(int i = 0; i < p.N; i++)
  {
    long k = p.k0 + i;
    m.obj += s.dt * s.L(k, v.x[i], v.u[i]);
    for(int j = 0; j < v.s[i].size(); j++) m.obj -= eps * std::log(v.s[i][j]);
    Mat A, B, C, D;
    if(d)
    {
      s.LDeriv(k, v.x[i], v.u[i], g, H);
      m.deriv_obj += s.dt * g.dot(gen::Spec::cat(d->x[i], d->u[i]));
      for(int j = 0; j < v.s[i].size(); j++) m.deriv_obj -= eps * d->s[i][j] / v.s[i][j];
      s.fDeriv(k, v.x[i], v.u[i], A, B);
      df = A * d->x[i] + B * d->u[i] - d->x[i + 1];
      parts = Vec(A * d->x[i]).cwiseAbs() + Vec(B * d->u[i]).cwiseAbs() + d->x[i + 1].cwiseAbs();
    }
    m.con += l1(s.f(k, v.x[i], v.u[i]) - v.x[i + 1], d ? &df : nullptr, parts, m);
    if(d)
    {
      s.gDeriv(k, v.x[i], v.u[i], C, D);
      df = C * d->x[i] + D * d->u[i] + d->s[i];
      parts = Vec(C * d->x[i]).cwiseAbs() + Vec(D * d->u[i]).cwiseAbs() + d->s[i].cwiseAbs();
    }
    m.con += l1(s.g(k, v.x[i], v.u[i]) + v.s[i], d ? &df : nullptr, parts, m);
  }
  m.obj += s.phi(p.k0 + p.N, v.x[p.N]);
  if(d)
  {
    s.phiDeriv(p.k0 + p.N, v.x[p.N], g, H);
    m.deriv_obj += g.dot(d->x[p.N]);
  }
  return m;
}
} // namespace fmpcref
