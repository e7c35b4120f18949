// C09: what a DDP solve returns does not depend on what the solver object did before.
#include "ddp_scenario.h"
using namespace hddp;

namespace
{
using Sc = Scenario<kNX, kNU>;
using S = Sc::S;

bool same(double a, double b)
{
  return a == b || (std::isnan(a) && std::isnan(b));
}
bool same(const Vec & a, const Vec & b)
{
  if(a.size() != b.size()) return false;
  for(int i = 0; i < a.size(); i++)
    if(!same(a[i], b[i])) return false;
  return true;
}
template<class L>
bool sameList(const L & a, const L & b)
{
  if(a.size() != b.size()) return false;
  for(size_t i = 0; i < a.size(); i++)
    if(!same(Vec(a[i]), Vec(b[i]))) return false;
  return true;
}
std::string compare(const S & a, const S & b)
{
  const auto &da = a.controlData(), &db = b.controlData();
  if(!sameList(da.u_list, db.u_list)) return pbt::cat("inputs differ: ", strList(fromList(da.u_list)), " vs ", strList(fromList(db.u_list)));
  if(!sameList(da.x_list, db.x_list)) return pbt::cat("states differ: ", strList(fromList(da.x_list)), " vs ", strList(fromList(db.x_list)));
  if(!same(Vec(da.cost_list), Vec(db.cost_list))) return "costs differ";
  const auto &ta = a.traceDataList(), &tb = b.traceDataList();
  if(ta.size() != tb.size()) return pbt::cat("traces differ in length: ", ta.size(), " vs ", tb.size());
  for(size_t i = 0; i < ta.size(); i++)
    if(ta[i].iter != tb[i].iter || !same(ta[i].cost, tb[i].cost) || !same(ta[i].lambda, tb[i].lambda) || !same(ta[i].dlambda, tb[i].dlambda)
       || !same(ta[i].alpha, tb[i].alpha) || !same(ta[i].k_rel_norm, tb[i].k_rel_norm) || !same(ta[i].cost_update_actual, tb[i].cost_update_actual)
       || !same(ta[i].cost_update_expected, tb[i].cost_update_expected) || !same(ta[i].cost_update_ratio, tb[i].cost_update_ratio))
      return pbt::cat("trace entry ", i, " differs");
  return "";
}
} // namespace

PBT_PROPERTY_I(history, 4)
{
  ScenarioOpt o;
  o.max_iter = 8;
  o.max_n = 8;
  o.extra = 10;
  auto s = makeScenario<kNX, kNU>(c, o);
  int maxN = s.spec->gridSize() - 1;
  if(!s.limits) s.limits = std::make_shared<Limits>(randomLimits(c, *s.spec, true));
  auto logp = std::make_shared<std::string>();
  std::string & log = *logp;
  c.describe([s, logp] { return *logp + s.describe(); });
  // The object under test
  auto problem = std::make_shared<Sc::P>(s.spec);
  S solver(problem);
  int n_ops = c.integer(2, 6), solves = 0, events = 0, last_k0 = -1, last_N = -1;
  for(int op = 0; op < n_ops; op++)
  {
    bool last = op == n_ops - 1;
    // Reconfigure
    if(op > 0 && c.boolean(1, 2))
    {
      randomConfig(c, s.cfg, true);
      s.cfg.max_iter = c.integer(0, 10);
      s.cfg.print_level = c.weighted({3, 1}) ? c.integer(1, 3) : 0;
    }
    int oldN = s.N;
    bool use_own = solves > 0 && s.N > 0 && c.boolean(1, 3) && last_N == s.N && last_k0 == s.k0;
    if(op > 0 && !use_own && c.boolean(1, 2))
    {
      s.N = c.integer(c.boolean(1, 10) ? 0 : 1, std::min(maxN, 14));
      s.k0 = c.integer(0, std::min(s.spec->gridSize() - 1 - s.N, 6));
    }
    s.constrained = c.boolean(2, 5);
    s.cfg.with_input_constraint = s.constrained;
    s.cfg.horizon_steps = s.N;
    int shift = 0;
    if(use_own && kNU != Eigen::Dynamic) shift = c.integer(0, 1);
    if(s.k0 + shift + s.N < s.spec->gridSize()) s.k0 += shift;
    bool keep_x = !use_own && solves > 0 && c.boolean(1, 3);
    bool plan_as_guess = false;
    if(!use_own)
    {
      if(!keep_x) s.x0 = c.vec(kNX, 2.0);
      auto u_old = s.u0;
      if(solves > 0 && c.boolean()) u_old = fromList(solver.controlData().u_list);
      bool keep_u = solves > 0 && c.boolean(1, 3) && static_cast<int>(u_old.size()) == s.N;
      if(keep_u)
        for(int i = 0; i < s.N; i++) keep_u = keep_u && u_old[i].size() == s.spec->at(s.k0 + i).nu;
      s.u0 = keep_u ? u_old : randomInputs(c, *s.spec, s.k0, s.N, 2.0);
      plan_as_guess = keep_u;
      if(keep_u && keep_x) c.label("same state and guess again");
    }
    solver.config() = s.cfg;
    solver.setInputLimitsFunc(s.limitsFunc());
    int kind = last ? 0 : c.weighted({6, 1, 1, 1, 1});
    auto list = toList<kNX, kNU>(s.u0);
    log += pbt::cat("[op ", op, ": kind ", kind, " N ", oldN, "->", s.N, " k0 ", s.k0, " constrained ", s.constrained, " own ", use_own, " keep_x ", keep_x, " keep_u ", plan_as_guess, " max_iter ", s.cfg.max_iter, "] ");
    if(kind == 1)
    {
      // rejected arguments
      auto bad = list;
      gen::lengthen(bad);
      try
      {
        solver.solve(s.t0(), s.x0, bad);
      }
      catch(const std::exception &)
      {
      }
      events++;
      continue;
    }
    if(kind == 2)
    {
      // the problem throws in the middle of the solve
      problem->throw_at = problem->calls + c.integer(1, 6 * s.N);
      try
      {
        solver.solve(s.t0(), s.x0, list);
      }
      catch(const std::exception &)
      {
      }
      problem->throw_at = -1;
      events++;
      solves = 0; // its outputs are unspecified now
      continue;
    }
    if(kind == 3)
    {
      // non-finite values
      problem->fault.cb = c.integer(0, 5);
      problem->fault.region = 1e-9;
      problem->fault.value = c.boolean() ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
      solver.solve(s.t0(), s.x0, list);
      problem->fault = gen::Fault();
      events++;
      solves = 0;
      continue;
    }
    if(kind == 4)
    {
      // unsupported mode: throws, after at most one evaluation of the second derivatives into properly sized containers
      solver.config().use_state_eq_second_derivative = true;
      bool thrown = false;
      problem->mon = gen::Monitor();
      try
      {
        solver.solve(s.t0(), s.x0, list);
      }
      catch(const std::exception &)
      {
        thrown = true;
      }
      c.check(thrown || s.cfg.max_iter == 0 || s.N == 0, "second-order derivatives of the dynamics are silently ignored");
      c.check(problem->mon.bad_tensor == 0, "the containers for the second derivatives of the dynamics depend on earlier solves");
      events++;
      solves = 0;
      continue;
    }
    // A regular solve, compared with a fresh solver
    bool ok;
    Sc f = s;
    f.pre.clear();
    if(use_own)
    {
      f.x0 = solver.controlData().x_list[1];
      f.u0 = fromList(solver.controlData().u_list);
      if(c.boolean())
        ok = solver.solve(s.t0(), solver.controlData().x_list[1], solver.controlData().u_list);
      else
        ok = solver.solve(s.t0(), f.x0, solver.controlData().u_list);
      events++;
    }
    else if(solves > 0 && c.boolean(1, 3))
    {
      // start at a state of the previous plan, also when the horizon changes
      const auto & xs = solver.controlData().x_list;
      const auto & x = xs[c.integer(0, static_cast<int>(xs.size()) - 1)];
      f.x0 = s.x0 = x;
      ok = solver.solve(s.t0(), x, list);
      c.label(s.N > last_N ? "state of the previous plan, longer horizon" : "state of the previous plan");
    }
    else
      ok = solver.solve(s.t0(), s.x0, list);
    if(c.boolean()) f.cfg.print_level = 0;
    f.build();
    bool ok2 = f.solve();
    c.checkf(ok == ok2, [&] { return pbt::cat("after a history the solver returns ", ok, ", a new one ", ok2); });
    std::string d = compare(solver, *f.solver);
    c.checkf(d.empty(), [&] { return "a used solver and a new one disagree: " + d; });
    solves++;
    last_k0 = s.k0;
    last_N = s.N;
    if(use_own) c.label("own outputs as arguments");
  }
  if(events) c.label("eventful history");
  if(n_ops >= 3) c.nontrivial();
}
// Two solvers on one problem object, used alternately, do not influence each other.
PBT_PROPERTY_I(interleaved, 1)
{
  ScenarioOpt o;
  o.max_iter = 8;
  o.max_n = 8;
  auto a = makeScenario<kNX, kNU>(c, o);
  c.describe([=] { return a.describe(); });
  auto b = a;
  b.x0 = c.vec(kNX, 2.0);
  b.u0 = randomInputs(c, *b.spec, b.k0, b.N, 2.0);
  S s1(a.problem), s2(a.problem);
  for(S * p : {&s1, &s2})
  {
    p->config() = a.cfg;
    if(a.limits) p->setInputLimitsFunc(a.limitsFunc());
  }
  s1.solve(a.t0(), a.x0, toList<kNX, kNU>(a.u0));
  s2.solve(b.t0(), b.x0, toList<kNX, kNU>(b.u0));
  s1.solve(a.t0(), a.x0, toList<kNX, kNU>(a.u0));
  a.pre.clear();
  b.pre.clear();
  a.build();
  b.build();
  a.solve();
  b.solve();
  std::string d = compare(s1, *a.solver), e = compare(s2, *b.solver);
  c.checkf(d.empty() && e.empty(), [&] { return "solvers sharing a problem influence each other: " + d + e; });
  c.nontrivial();
}
