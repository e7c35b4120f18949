// C35: run() is the loop of plant and controller, and logs it.
#include "cg.h"
#include "dump.h"

#include <dlfcn.h>
using namespace cg;

// run() writes to fixed files in /tmp: keep them in the scratch directory, one set per process
static std::string redirect(const char * p)
{
  std::string s(p);
  if(s.rfind("/tmp/cgmres_", 0) == 0) return dump::dir() + "/" + std::to_string(getpid()) + "_" + s.substr(5);
  return s;
}
extern "C" FILE * fopen64(const char * p, const char * m)
{
  static auto real = reinterpret_cast<FILE * (*)(const char *, const char *)>(dlsym(RTLD_NEXT, "fopen64"));
  return real(redirect(p).c_str(), m);
}
extern "C" FILE * fopen(const char * p, const char * m)
{
  static auto real = reinterpret_cast<FILE * (*)(const char *, const char *)>(dlsym(RTLD_NEXT, "fopen"));
  return real(redirect(p).c_str(), m);
}

namespace
{
using Rows = std::vector<std::vector<double>>;
Rows load(const char * name, std::string * raw = nullptr)
{
  std::string p = redirect((std::string("/tmp/cgmres_") + name + ".dat").c_str());
  std::ifstream in(p);
  if(!in) throw pbt::Failure("log file was not written: " + p);
  Rows r;
  std::string l;
  while(std::getline(in, l))
  {
    if(raw) *raw += l + "\n";
    if(raw) continue;
    std::vector<double> v;
    std::string w;
    std::istringstream is(l);
    while(std::getline(is, w, ','))
    {
      size_t a = w.find_first_not_of(" \t"), b = w.find_last_not_of(" \t\r");
      if(a == std::string::npos) throw pbt::Failure("empty field in a log: " + l);
      v.push_back(dump::number(w.substr(a, b - a + 1)));
    }
    r.push_back(v);
  }
  in.close();
  unlink(p.c_str());
  return r;
}
bool near(double file, double v)
{
  return std::abs(file - v) <= 2e-5 * std::abs(v) + 1e-9 || (std::isnan(file) && std::isnan(v));
}
} // namespace

PBT_PROPERTY(simulation, 1)
{
  auto m = std::make_shared<Model>(makeModel(c, ModelOpt()));
  auto s = makeSetting(c);
  s.N = c.integer(1, 5);
  s.k_max = c.integer(1, 6);
  // a duration that is a multiple of the period, which counts if no rounding is involved
  bool whole = c.boolean(1, 4);
  if(whole) s.dt = std::exp2(std::round(std::log2(s.dt)));
  s.zeta = std::min(s.zeta, 1.2 / s.dt); // a larger gain makes the continuation itself unstable
  bool default_sim = c.boolean(1, 4); // without an integrator for the plant that of the horizon is used
  if(default_sim) s.sim_rk = s.rk;
  int steps = c.integer(0, 12), stride = c.integer(1, 5);
  double duration = (whole ? steps : steps + c.real(0.1, 0.9)) * s.dt;
  auto p = std::make_shared<Problem>(m);
  p->x_initial_ = c.vec(m->nx, 1.5);
  p->u_initial_ = c.vec(m->nu, 1.0);
  p->state_eq_param_ = c.vec(c.integer(1, 3), 2.0);
  c.describe([=, x0 = p->x_initial_] { return pbt::cat("steps=", steps, " stride=", stride, " x0=", pbt::str(x0.transpose()), " ", s.str(), " ", m->str()); });
  auto fresh = [&] {
    auto sol = default_sim ? std::make_shared<nmpc_cgmres::CgmresSolver>(p, s.ode(s.rk)) : std::make_shared<nmpc_cgmres::CgmresSolver>(p, s.ode(s.rk), s.ode(s.sim_rk));
    s.apply(*sol);
    sol->sim_duration_ = duration;
    sol->dump_step_ = stride;
    return sol;
  };
  auto sol = fresh();
  if(c.boolean(1, 4))
  {
    // an earlier, different run of the same object
    int n = sol->horizon_divide_num_;
    sol->horizon_divide_num_ = n + 1;
    sol->sim_duration_ = 2.5 * s.dt;
    sol->run();
    sol->horizon_divide_num_ = n;
    sol->sim_duration_ = duration;
  }
  sol->run();
  Rows X = load("x"), U = load("u"), E = load("err");
  std::string raw;
  load("param", &raw);
  // The same loop with the public steps
  auto ref = fresh();
  ref->setup();
  Vec x = p->x_initial_, u = ref->u_;
  // ... and once more from a slightly different state, to see how much rounding may matter
  auto ref2 = fresh();
  ref2->setup();
  Vec x2 = x + 1e-12 * (Vec::Ones(m->nx) + x), u2 = ref2->u_;
  auto plant = s.ode(s.sim_rk);
  size_t row = 0;
  bool wild = false;
  double t = 0;
  for(int i = 0; i <= steps; i++, t += s.dt)
  {
    auto f = [&](double tt, const Ref & xx, const Ref & uu, Eigen::Ref<Vec> d) { d = m->f(tt, xx, uu); };
    auto advance = [&](nmpc_cgmres::CgmresSolver & r, Vec & xx, Vec & uu) {
      Vec nx(m->nx);
      plant->solve(f, t, xx, uu, s.dt, nx);
      r.calcControlInput(t, xx, nx, uu);
      xx = nx;
    };
    advance(*ref, x, u);
    advance(*ref2, x2, u2);
    wild = wild || !(u.norm() < 1e4) || !(x.norm() < 1e4) || !((x - x2).norm() + (u - u2).norm() < 1e-8 * (1 + x.norm() + u.norm()));
    if(i % stride) continue;
    if(!wild)
    {
      c.checkf(row < X.size() && row < U.size() && row < E.size(), [&] { return pbt::cat("only ", X.size(), " rows are logged"); });
      c.check(X[row].size() == static_cast<size_t>(m->nx) + 1 && U[row].size() == static_cast<size_t>(m->nu) + 1 && E[row].size() == 2, "number of columns");
      c.check(near(X[row][0], t) && near(U[row][0], t) && near(E[row][0], t), "logged time");
      double sc = 1e-6 * (1 + x.norm() + u.norm());
      for(int j = 0; j < m->nx; j++) c.checkf(near(X[row][j + 1], x[j]) || std::abs(X[row][j + 1] - x[j]) < sc, [&] { return pbt::cat("logged state ", X[row][j + 1], " at t=", t, ", simulated ", x[j]); });
      for(int j = 0; j < m->nu; j++) c.checkf(near(U[row][j + 1], u[j]) || std::abs(U[row][j + 1] - u[j]) < sc, [&] { return pbt::cat("logged input ", U[row][j + 1], " at t=", t, ", applied ", u[j]); });
      double e = stack(ref->DhDu_list_).norm();
      c.checkf(near(E[row][1], e) || std::abs(E[row][1] - e) < sc, [&] { return pbt::cat("logged residual ", E[row][1], " at t=", t, ", actual ", e); });
    }
    row++;
  }
  c.checkf(X.size() == row && U.size() == row && E.size() == row, [&] { return pbt::cat(X.size(), ", ", U.size(), ", ", E.size(), " rows for ", row, " logged steps"); });
  if(!wild) c.check((sol->x_ - x).norm() <= 1e-6 * (1 + x.norm()) && (sol->u_ - u).norm() <= 1e-6 * (1 + u.norm()), "final state or input");
  // parameters
  auto at = raw.find("\"log_dt\":");
  c.check(at != std::string::npos && near(strtod(raw.c_str() + at + 9, nullptr), s.dt * stride), "log_dt");
  at = raw.find("\"state_eq_param\": [");
  c.check(at != std::string::npos, "state_eq_param");
  std::istringstream ps(raw.substr(at + 19));
  for(int j = 0; j < p->state_eq_param_.size(); j++)
  {
    double v;
    char sep;
    ps >> v >> sep;
    c.check(near(v, p->state_eq_param_[j]), "value in state_eq_param");
  }
  // Repeating the run reproduces the logs
  if(c.boolean()) sol = fresh();
  sol->run();
  Rows X2 = load("x"), U2 = load("u"), E2 = load("err");
  raw.clear();
  load("param", &raw);
  auto same = [](const Rows & a, const Rows & b) {
    if(a.size() != b.size()) return false;
    for(size_t i = 0; i < a.size(); i++)
      for(size_t j = 0; j < a[i].size(); j++)
        if(!(a[i][j] == b[i][j] || (std::isnan(a[i][j]) && std::isnan(b[i][j])))) return false;
    return true;
  };
  c.check(same(X, X2) && same(U, U2) && same(E, E2), "a repeated run gives different logs");
  if(row >= 2) c.nontrivial();
}
