// C25: malformed guesses are rejected before any work, well-formed ones never.
#include "fmpc.h"
using namespace hfmpc;
using Sc = Scenario<kNX, kNU, kNC>;

PBT_PROPERTY_I(malformed, 3)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  auto what = std::make_shared<std::string>();
  c.describe([=] { return "defect: " + *what + "; " + s.describe(); });
  bool init = s.cfg.init_complementary_variable;
  bool used = c.boolean();
  if(used) s.solve();
  long before = s.problem->mon.total();
  int N = s.prob.N;
  auto v = Sc::toVar(s.guess);
  auto g = Sc::toVar(s.guess);
  auto length = [&](auto & l, const char * n) {
    auto add = l.empty() ? typename std::decay_t<decltype(l)>::value_type() : l.back();
    int d = c.integer(1, 2);
    if(c.boolean() || l.empty())
      for(int i = 0; i < d; i++) l.push_back(add);
    else if(c.boolean(1, 8))
      l.clear();
    else
      l.resize(std::max<int>(0, static_cast<int>(l.size()) - d));
    *what = pbt::cat("length of ", n, " ", l.size(), " with ", N, " steps");
  };
  auto sign = [&](auto & l, const char * n) {
    int i = c.integer(0, N - 1);
    if(l[i].size() == 0) c.discard("no constraint at this step");
    int j = c.integer(0, static_cast<int>(l[i].size()) - 1);
    l[i][j] = c.pick({-1.0, -1e-9, -1e-300, -1e9});
    *what = pbt::cat(n, "[", i, "][", j, "] = ", l[i][j]);
  };
  [[maybe_unused]] auto dim = [&](auto & l, const char * n) {
    int i = c.integer(0, N - 1), d = static_cast<int>(l[i].size());
    int e = c.boolean() ? d + 1 : d - 1;
    if(e < 0) e = d + 2;
    l[i] = Vec::Constant(e, 1.0);
    *what = pbt::cat("dimension of ", n, "[", i, "] ", e, " instead of ", d);
  };
  switch(c.integer(0, N == 0 ? 4 : 11))
  {
    case 0: length(v.x_list, "x_list"); break;
    case 1: length(v.u_list, "u_list"); break;
    case 2: length(v.lambda_list, "lambda_list"); break;
    case 3: length(v.s_list, "s_list"); break;
    case 4: length(v.nu_list, "nu_list"); break;
    case 5:
      if(init) c.discard("slacks are overwritten");
      sign(v.s_list, "s_list");
      break;
    case 6:
      if(init) c.discard("multipliers are overwritten");
      sign(v.nu_list, "nu_list");
      break;
    case 7:
      if constexpr(kNU == Eigen::Dynamic)
        dim(v.u_list, "u_list");
      else
        c.discard("fixed dimension");
      break;
    case 8:
      if(init) c.discard("slacks are overwritten");
      if constexpr(kNC == Eigen::Dynamic)
        dim(v.s_list, "s_list");
      else
        c.discard("fixed dimension");
      break;
    case 9:
      // errors that cancel in the sum
      if constexpr(kNC == Eigen::Dynamic)
      {
        if(init) c.discard("slacks are overwritten");
        int i = c.integer(0, N - 1), d = static_cast<int>(v.s_list[i].size());
        bool longer = d == 0 || c.boolean();
        if(c.boolean() && d > 0)
        {
          v.s_list[i] = Vec::Constant(longer ? d + 1 : d - 1, 1.0);
          v.nu_list[i] = Vec::Constant(longer ? d - 1 : d + 1, 1.0);
          *what = pbt::cat("dimensions of s and nu at step ", i, ": ", v.s_list[i].size(), " and ", v.nu_list[i].size(), " instead of ", d);
        }
        else
        {
          int j = c.integer(0, N - 1);
          if(i == j || v.s_list[i] .size() == v.s_list[j].size()) c.discard("equal dimensions");
          std::swap(v.s_list[i], v.s_list[j]);
          std::swap(v.nu_list[i], v.nu_list[j]);
          *what = pbt::cat("slacks and multipliers of steps ", i, " and ", j, " exchanged");
        }
      }
      else
        c.discard("fixed dimension");
      break;
    case 10:
      if constexpr(kNU == Eigen::Dynamic)
      {
        int i = c.integer(0, N - 1), j = c.integer(0, N - 1);
        if(i == j || v.u_list[i].size() == v.u_list[j].size()) c.discard("equal dimensions");
        std::swap(v.u_list[i], v.u_list[j]);
        *what = pbt::cat("inputs of steps ", i, " and ", j, " exchanged");
      }
      else
      {
        // lengths that cancel in the sum
        v.s_list.push_back(v.s_list.back());
        v.nu_list.pop_back();
        *what = "s_list too long and nu_list too short";
      }
      break;
    default:
      if(init) c.discard("multipliers are overwritten");
      if constexpr(kNC == Eigen::Dynamic)
        dim(v.nu_list, "nu_list");
      else
        c.discard("fixed dimension");
      break;
  }
  bool thrown = false;
  std::string msg;
  try
  {
    s.solver->solve(s.t0(), s.prob.x0, v);
  }
  catch(const std::exception & e)
  {
    thrown = true;
    msg = e.what();
  }
  c.checkf(thrown, [&] { return "a malformed guess is accepted: " + *what; });
  c.check(!msg.empty(), "exception without a message");
  c.checkf(s.problem->mon.total() == before, [&] { return "the problem was evaluated with a malformed guess: " + *what; });
  // as if nothing had happened
  auto st = s.solver->solve(s.t0(), s.prob.x0, g);
  auto f = s;
  f.pre.clear();
  f.build();
  auto st2 = f.solve();
  std::string d = compareSolvers(*s.solver, *f.solver) + compare(s.result(), f.result());
  if(used && !s.cfg.update_barrier_eps) d = st == st2 ? d : ""; // same barrier parameter anyway
  c.checkf(st == st2 && d.empty(), [&] { return "after a rejected guess the solver behaves differently: " + d; });
  c.nontrivial();
}
// Anything well-formed is accepted, however extreme
PBT_PROPERTY_I(well_formed, 1)
{
  Opt o;
  auto s = makeScenario<kNX, kNU, kNC>(c, o);
  c.describe([=] { return s.describe(); });
  for(auto * l : {&s.guess.s, &s.guess.nu})
    for(auto & e : *l)
      for(int j = 0; j < e.size(); j++) e[j] = c.pick({1.0, 0.0, -0.0, 1e-300, 1e300, 1e-12});
  for(auto * l : {&s.guess.x, &s.guess.u, &s.guess.lam})
    for(auto & e : *l)
      for(int j = 0; j < e.size(); j++)
        if(c.boolean(1, 8)) e[j] = c.pick({1e150, -1e150, 1e-300});
  if(s.cfg.init_complementary_variable && kNC == Eigen::Dynamic && c.boolean())
    for(auto & e : s.guess.s) e.resize(0); // overwritten anyway
  try
  {
    auto st = s.solve();
    c.check(st != Sc::Status::Uninitialized && st != Sc::Status::IterationContinued, "internal status");
  }
  catch(const std::exception & e)
  {
    c.fail(std::string("a well-formed guess is rejected: ") + e.what());
  }
  c.check(s.problem->mon.total() > 0, "no work done");
  c.nontrivial();
}
