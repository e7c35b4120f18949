// Definitions for gen.h (compiled once; see there).
#include "gen.h"

#include "boxref.h"

namespace gen
{

Vec Spec::f(long k, const Vec & x, const Vec & u) const
{
  const Stage & s = at(k);
  Vec r = s.A * x + s.B * u + s.f;
  if(s.amp != 0) r += s.amp * (s.W * cat(x, u) + s.ph).array().sin().matrix();
  return r;
}

void Spec::fDeriv(long k, const Vec & x, const Vec & u, Mat & A, Mat & B) const
{
  const Stage & s = at(k);
  A = s.A;
  B = s.B;
  if(s.amp != 0)
  {
    Vec c = s.amp * (s.W * cat(x, u) + s.ph).array().cos().matrix();
    A += c.asDiagonal() * s.W.leftCols(nx);
    B += c.asDiagonal() * s.W.rightCols(s.nu);
  }
}

double Spec::L(long k, const Vec & x, const Vec & u) const
{
  const Stage & s = at(k);
  Vec z = cat(x, u);
  double r = 0.5 * z.dot(s.H * z) + s.h.dot(z) + s.c0;
  if(s.camp != 0) r += s.camp * std::cos(s.w.dot(z) + s.cph);
  return r;
}

void Spec::LDeriv(long k, const Vec & x, const Vec & u, Vec & g, Mat & H) const
{
  const Stage & s = at(k);
  Vec z = cat(x, u);
  g = s.H * z + s.h;
  H = s.H;
  if(s.camp != 0)
  {
    double a = s.w.dot(z) + s.cph;
    g -= s.camp * std::sin(a) * s.w;
    H -= s.camp * std::cos(a) * s.w * s.w.transpose();
  }
}

double Spec::phi(long k, const Vec & x) const
{
  const Term & s = term(k);
  double r = 0.5 * x.dot(s.Q * x) + s.q.dot(x) + s.c0;
  if(s.camp != 0) r += s.camp * std::cos(s.w.dot(x) + s.cph);
  return r;
}

void Spec::phiDeriv(long k, const Vec & x, Vec & g, Mat & H) const
{
  const Term & s = term(k);
  g = s.Q * x + s.q;
  H = s.Q;
  if(s.camp != 0)
  {
    double a = s.w.dot(x) + s.cph;
    g -= s.camp * std::sin(a) * s.w;
    H -= s.camp * std::cos(a) * s.w * s.w.transpose();
  }
}

Vec Spec::g(long k, const Vec & x, const Vec & u) const
{
  const Stage & s = at(k);
  Vec r = s.e;
  if(s.nc == 0) return r;
  Vec z = cat(x, u);
  r += s.G * z;
  if(s.gamp != 0) r += s.gamp * (s.GW * z + s.gph).array().sin().matrix();
  return r;
}

void Spec::gDeriv(long k, const Vec & x, const Vec & u, Mat & C, Mat & D) const
{
  const Stage & s = at(k);
  Mat J = s.G;
  if(s.nc > 0 && s.gamp != 0)
    J += (s.gamp * (s.GW * cat(x, u) + s.gph).array().cos().matrix()).asDiagonal() * s.GW;
  C = J.leftCols(nx);
  D = J.rightCols(s.nu);
}

std::string Spec::describe() const
{
  std::ostringstream o;
  o << "nx=" << nx << " dt=" << dt << " toff=" << toff << " grid=" << which.size() << " palette=" << palette.size()
    << " map=";
  for(size_t i = 0; i < which.size() && i < 40; i++) o << which[i];
  for(auto & s : palette)
    o << " {nu=" << s.nu << " nc=" << s.nc << " A=" << pbt::str(s.A) << " B=" << pbt::str(s.B) << " f=" << pbt::str(s.f)
      << " amp=" << s.amp << " H=" << pbt::str(s.H) << " h=" << pbt::str(s.h) << " camp=" << s.camp << " G=" << pbt::str(s.G)
      << " e=" << pbt::str(s.e) << " gamp=" << s.gamp << "}";
  return o.str();
}

Mat psd(pbt::Case & c, int n, int rank, double scale)
{
  Mat L = c.mat(n, rank, 1.0);
  return scale * L * L.transpose();
}

Spec makeSpec(pbt::Case & c, const SpecOpt & o)
{
  Spec s;
  s.nx = o.nx;
  s.dt = c.weighted({3, 2, 1}) == 0 ? 0.1 : (c.boolean() ? 1.0 : c.logreal(1e-3, 2.0));
  s.toff = c.weighted({2, 1, 1}) == 0 ? 0.0 : c.boolean(1, 10) ? c.real(-1e5, 1e6) : c.real(-20, 50);
  int P = c.integer(1, o.max_palette);
  for(int p = 0; p < P; p++)
  {
    Stage st;
    st.nu = o.nu >= 0 ? o.nu : c.weighted({8, 32, 32, 16, 4, 4, 1, 1}); // 0..7
    if(o.nu < 0) st.nu = std::min(st.nu, o.max_nu);
    st.nc = o.nc >= 0 ? o.nc : std::min(c.weighted({16, 24, 24, 16, 4, 2, 1}), o.max_nc);
    int nz = o.nx + st.nu;
    double rho = c.real(0.1, o.max_rho);
    Mat M = c.mat(o.nx, o.nx, 1.0);
    double fn = M.norm();
    st.A = fn > 1e-9 ? Mat(M * (rho / std::max(fn, 0.3))) : M;
    st.B = c.mat(o.nx, st.nu, 1.0) * c.pick({1.0, 0.1, 3.0});
    st.f = c.boolean() ? Vec(c.vec(o.nx, 0.5)) : Vec(Vec::Zero(o.nx));
    st.W = Mat::Zero(o.nx, nz);
    st.ph = Vec::Zero(o.nx);
    if(o.nonlinear && c.boolean(2, 3))
    {
      st.amp = c.real(0.02, 0.4);
      st.W = c.mat(o.nx, nz, 1.0);
      st.ph = c.vec(o.nx, 2.0);
    }
    double qs = c.logreal(0.05, 10);
    st.H = psd(c, nz, c.integer(1, nz), qs);
    double r = c.logreal(o.min_r, 10);
    for(int i = o.nx; i < nz; i++) st.H(i, i) += r;
    st.h = c.boolean(3, 4) ? Vec(c.vec(nz, 2.0)) : Vec(Vec::Zero(nz));
    st.c0 = c.boolean(1, 4) ? c.real(-3, 3) : 0.0;
    st.w = Vec::Zero(nz);
    if(o.nonlinear && c.boolean(1, 2))
    {
      st.w = c.vec(nz, 1.0);
      st.cph = c.real(-3, 3);
      double w2 = st.w.squaredNorm() + 1e-9;
      // keep Huu positive definite unless non-convexity is wanted
      st.camp = o.nonconvex_cost ? c.real(-3, 3) : 0.5 * r / w2 * c.real(-1, 1);
    }
    st.G = Mat::Zero(st.nc, nz);
    st.e = Vec::Zero(st.nc);
    st.GW = Mat::Zero(st.nc, nz);
    st.gph = Vec::Zero(st.nc);
    s.palette.push_back(st);
  }
  int T = c.integer(1, 2);
  for(int p = 0; p < T; p++)
  {
    Term t;
    t.Q = psd(c, o.nx, c.integer(1, o.nx), c.logreal(0.05, 20));
    t.q = c.boolean(3, 4) ? Vec(c.vec(o.nx, 2.0)) : Vec(Vec::Zero(o.nx));
    t.c0 = c.boolean(1, 4) ? c.real(-3, 3) : 0.0;
    t.w = Vec::Zero(o.nx);
    if(o.nonlinear && o.nonconvex_cost && c.boolean(1, 3))
    {
      t.w = c.vec(o.nx, 1.0);
      t.cph = c.real(-3, 3);
      t.camp = c.real(-2, 2);
    }
    s.terms.push_back(t);
  }
  for(int k = 0; k < o.grid; k++) s.which.push_back(P == 1 ? 0 : c.integer(0, P - 1));
  return s;
}

Rollout rollout(const Spec & s, int k0, const Vec & x0, const std::vector<Vec> & u)
{
  Rollout r;
  int N = static_cast<int>(u.size());
  r.x.push_back(x0);
  r.cost.resize(N + 1);
  for(int i = 0; i < N; i++)
  {
    r.cost[i] = s.L(k0 + i, r.x[i], u[i]);
    r.x.push_back(s.f(k0 + i, r.x[i], u[i]));
  }
  r.cost[N] = s.phi(k0 + N, r.x[N]);
  r.total = r.cost.sum();
  return r;
}

std::vector<Vec> gradient(const Spec & s, int k0, const Rollout & r, const std::vector<Vec> & u)
{
  int N = static_cast<int>(u.size());
  std::vector<Vec> out(N);
  Vec p;
  Mat Hd;
  s.phiDeriv(k0 + N, r.x[N], p, Hd);
  for(int i = N - 1; i >= 0; i--)
  {
    Mat A, B;
    Vec g;
    s.fDeriv(k0 + i, r.x[i], u[i], A, B);
    s.LDeriv(k0 + i, r.x[i], u[i], g, Hd);
    out[i] = g.tail(u[i].size()) + B.transpose() * p;
    p = (g.head(s.nx) + A.transpose() * p).eval();
  }
  return out;
}

Condensed condense(const Spec & s, int k0, int N, const Vec & x0)
{
  Condensed q;
  q.off.push_back(0);
  for(int i = 0; i < N; i++) q.off.push_back(q.off.back() + s.at(k0 + i).nu);
  int n = q.off[N];
  q.H = Mat::Zero(n, n);
  q.g = Vec::Zero(n);
  Mat S = Mat::Zero(s.nx, n); // x_i = S U + d
  Vec d = x0;
  for(int i = 0; i < N; i++)
  {
    const Stage & st = s.at(k0 + i);
    Mat Z = Mat::Zero(s.nx + st.nu, n);
    Z.topRows(s.nx) = S;
    for(int j = 0; j < st.nu; j++) Z(s.nx + j, q.off[i] + j) = 1;
    Vec z0 = Vec::Zero(s.nx + st.nu);
    z0.head(s.nx) = d;
    q.H += Z.transpose() * st.H * Z;
    q.g += Z.transpose() * (st.H * z0 + st.h);
    q.c += 0.5 * z0.dot(st.H * z0) + st.h.dot(z0) + st.c0;
    Mat S2 = st.A * S;
    for(int j = 0; j < st.nu; j++) S2.col(q.off[i] + j) += st.B.col(j);
    S = S2;
    d = (st.A * d + st.f).eval();
  }
  const Term & t = s.term(k0 + N);
  q.H += S.transpose() * t.Q * S;
  q.g += S.transpose() * (t.Q * d + t.q);
  q.c += 0.5 * d.dot(t.Q * d) + t.q.dot(d) + t.c0;
  return q;
}

std::vector<Vec> split(const Spec & s, int k0, int N, const Vec & U)
{
  std::vector<Vec> u;
  int o = 0;
  for(int i = 0; i < N; i++)
  {
    u.push_back(U.segment(o, s.at(k0 + i).nu));
    o += s.at(k0 + i).nu;
  }
  return u;
}

Gains referenceGains(const Spec & s, int k0, const std::vector<Vec> & x, const std::vector<Vec> & u, int reg_type,
                            double lambda, const std::vector<Vec> * lo, const std::vector<Vec> * hi)
{
  int N = static_cast<int>(u.size());
  Gains G;
  G.k.resize(N);
  G.K.resize(N);
  Vec Vx;
  Mat Vxx;
  double e = 0; // bound on the distance of Vx from the gradient with respect to the state, over the relative gain
  s.phiDeriv(k0 + N, x[N], Vx, Vxx);
  for(int i = N - 1; i >= 0; i--)
  {
    int nu = static_cast<int>(u[i].size());
    Mat A, B, H;
    Vec g;
    s.fDeriv(k0 + i, x[i], u[i], A, B);
    s.LDeriv(k0 + i, x[i], u[i], g, H);
    Mat F(s.nx, s.nx + nu);
    F << A, B;
    Vec q = g + F.transpose() * Vx;
    Mat Q = H + F.transpose() * Vxx * F;
    Mat Vr = Vxx;
    if(reg_type == 2) Vr += lambda * Mat::Identity(s.nx, s.nx);
    Mat Qr = H + F.transpose() * Vr * F;
    Vec Qu = q.tail(nu), Qx = q.head(s.nx);
    Mat Quu = Q.bottomRightCorner(nu, nu), Qux = Q.bottomLeftCorner(nu, s.nx), Qxx = Q.topLeftCorner(s.nx, s.nx);
    Mat QuuR = Qr.bottomRightCorner(nu, nu), QuxR = Qr.bottomLeftCorner(nu, s.nx);
    if(reg_type == 1) QuuR += lambda * Mat::Identity(nu, nu);
    Vec k = Vec::Zero(nu);
    Mat K = Mat::Zero(nu, s.nx);
    if(nu > 0)
    {
      Eigen::SelfAdjointEigenSolver<Mat> es(0.5 * (QuuR + QuuR.transpose()));
      double mx = es.eigenvalues().cwiseAbs().maxCoeff();
      double mn = es.eigenvalues().minCoeff();
      G.min_pivot = std::min(G.min_pivot, mn / std::max(mx, 1e-300));
      G.min_eig = std::min(G.min_eig, mn);
      if(!(mn > 0))
      {
        G.pd = false;
        return G;
      }
      if(lo)
      {
        auto b = boxref::solve(0.5 * (QuuR + QuuR.transpose()), Qu, (*lo)[k0 + i] - u[i], (*hi)[k0 + i] - u[i]);
        G.min_margin = std::min(G.min_margin, b.margin);
        k = b.x;
        std::vector<int> fr;
        for(int j = 0; j < nu; j++)
          if(b.act[j] == 0)
            fr.push_back(j);
          else
            G.clamped++;
        int m = static_cast<int>(fr.size());
        if(m)
        {
          Mat Hf(m, m), R(m, s.nx);
          for(int a = 0; a < m; a++)
          {
            R.row(a) = QuxR.row(fr[a]);
            for(int b2 = 0; b2 < m; b2++) Hf(a, b2) = QuuR(fr[a], fr[b2]);
          }
          Mat Kf = -Hf.partialPivLu().solve(R);
          for(int a = 0; a < m; a++) K.row(fr[a]) = Kf.row(a);
        }
      }
      else
      {
        Eigen::PartialPivLU<Mat> lu(QuuR);
        k = -lu.solve(Qu);
        K = -lu.solve(QuxR);
      }
    }
    double ku = 1 + u[i].norm();
    G.grad_scale = std::max(G.grad_scale, QuuR.norm() * ku + B.norm() * e);
    e = A.norm() * e + (K.norm() * (Quu.norm() + QuuR.norm()) + Qux.norm()) * ku;
    G.dV1 += k.dot(Qu);
    G.dV2 += 0.5 * k.dot(Quu * k);
    Vx = Qx + K.transpose() * Quu * k + K.transpose() * Qu + Qux.transpose() * k;
    Vxx = Qxx + K.transpose() * Quu * K + K.transpose() * Qux + Qux.transpose() * K;
    Vxx = (0.5 * (Vxx + Vxx.transpose())).eval();
    G.k[i] = k;
    G.K[i] = K;
  }
  return G;
}

void inject(Eigen::Ref<Mat> m, int pos, double v)
{
  if(m.size() > 0) m(pos % m.rows(), (pos / m.rows()) % m.cols()) = v;
}

} // namespace gen
