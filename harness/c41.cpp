// C41: solver objects do not influence each other - before, nested in callbacks, or in other threads.
#include "indep.h"

#include <algorithm>
#include <atomic>
#include <cfenv>
#include <iostream>
#include <thread>

namespace indep
{
std::vector<Kind> & kinds()
{
  static std::vector<Kind> k;
  return k;
}
} // namespace indep
using namespace indep;

namespace
{
void sortKinds()
{
  auto & k = kinds();
  std::sort(k.begin(), k.end(), [](const Kind & a, const Kind & b) { return a.name < b.name; });
}
bool same(const Out & a, const Out & b)
{
  if(a.size() != b.size()) return false;
  for(size_t i = 0; i < a.size(); i++)
    if(!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}
std::string diff(const Out & a, const Out & b)
{
  if(a.size() != b.size()) return pbt::cat("amount of output differs: ", a.size(), " instead of ", b.size());
  for(size_t i = 0; i < a.size(); i++)
    if(!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return pbt::cat("output ", i, " is ", a[i], " instead of ", b[i]);
  return "";
}
Job pick(pbt::Case & c, int k)
{
  auto & kd = kinds()[k];
  Job j = kd.make(c);
  j.name = kd.name;
  return j;
}
// What belongs to the caller
struct Global
{
  std::streamsize prec = std::cout.precision(), width = std::cout.width();
  std::ios::fmtflags flags = std::cout.flags(), eflags = std::cerr.flags();
  std::streamsize eprec = std::cerr.precision();
  char fill = std::cout.fill();
  std::ios::iostate exc = std::cout.exceptions();
  std::string loc = std::locale().name();
  int round = std::fegetround(), fex = fegetexcept();
  void check(pbt::Case & c) const
  {
    Global g;
    c.check(g.prec == prec && g.width == width && g.flags == flags && g.eflags == eflags && g.eprec == eprec && g.fill == fill && g.exc == exc, "the formatting of the standard streams was changed");
    c.check(g.loc == loc, "the global locale was changed");
    c.check(g.round == round && g.fex == fex, "the floating-point environment was changed");
  }
};
} // namespace

// B runs inside callbacks of A
PBT_PROPERTY(nested, 6)
{
  sortKinds();
  int n = static_cast<int>(kinds().size());
  int ka = c.integer(0, n - 1), kb = c.boolean(2, 3) ? ka : c.integer(0, n - 1);
  Job a = pick(c, ka), b = pick(c, kb);
  int first = c.integer(1, 12), stride = c.integer(1, 40), times = c.integer(1, 4);
  if(c.boolean()) first = c.integer(1, 200);
  // the formatting the caller has chosen
  std::cout.precision(c.integer(2, 12));
  if(c.boolean()) std::cout.setf(std::ios::scientific, std::ios::floatfield);
  else std::cout.unsetf(std::ios::floatfield);
  c.describe([=] { return pbt::cat(b.name, " inside of ", a.name, " at callback ", first, " then every ", stride, ", ", times, " times; outer: ", a.desc, "; inner: ", b.desc); });
  Global g;
  Out ra = a.run(Ctx()), rb = b.run(Ctx());
  g.check(c);
  std::vector<Out> in;
  long calls = 0;
  Ctx ctx;
  ctx.hook = [&] {
    calls++;
    if(calls >= first && (calls - first) % stride == 0 && static_cast<int>(in.size()) < times) in.push_back(b.run(Ctx()));
  };
  Out na = a.run(ctx);
  for(auto & o : in) c.checkf(same(o, rb), [&] { return "running " + b.name + " inside a callback of " + a.name + " changes its result: " + diff(o, rb); });
  c.checkf(same(na, ra), [&] { return "a " + b.name + " run inside a callback changes the result of the surrounding " + a.name + ": " + diff(na, ra); });
  g.check(c);
  c.label(a.name + (in.empty() ? " (no callback reached)" : ""));
  if(!in.empty()) c.nontrivial();
}
// A, then B (several times), then A
PBT_PROPERTY(one_after_the_other, 2)
{
  sortKinds();
  int n = static_cast<int>(kinds().size());
  int ka = c.integer(0, n - 1), kb = c.boolean(2, 3) ? ka : c.integer(0, n - 1);
  Job a = pick(c, ka), b = pick(c, kb);
  c.describe([=] { return pbt::cat(a.name, " before and after ", b.name, ": ", a.desc, "; ", b.desc); });
  Out r = a.run(Ctx());
  int k = c.integer(1, 2);
  for(int i = 0; i < k; i++) b.run(Ctx());
  Out q = a.run(Ctx());
  c.checkf(same(q, r), [&] { return "a run of " + b.name + " changes a later run of " + a.name + ": " + diff(q, r); });
  c.nontrivial();
}
// Several threads, each with its own objects (the sanitizer build also reports data races)
PBT_PROPERTY(threads, 2)
{
  sortKinds();
  int n = static_cast<int>(kinds().size());
  int k = c.integer(2, 3), ka = c.integer(0, n - 1);
  std::vector<Job> jobs;
  for(int i = 0; i < k; i++) jobs.push_back(pick(c, i == 0 || c.boolean(2, 3) ? ka : c.integer(0, n - 1)));
  c.describe([=] {
    std::string r = "in parallel:";
    for(auto & j : jobs) r += " " + j.name + ": " + j.desc + ";";
    return r;
  });
  std::vector<Out> ref, got(jobs.size());
  std::vector<std::string> err(jobs.size());
  Ctx ctx;
  ctx.quiet = true;
  for(auto & j : jobs) ref.push_back(j.run(ctx));
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for(size_t i = 0; i < jobs.size(); i++)
    th.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while(ready.load(std::memory_order_relaxed) < static_cast<int>(jobs.size())) std::this_thread::yield();
      try
      {
        got[i] = jobs[i].run(ctx);
      }
      catch(const std::exception & e)
      {
        err[i] = e.what();
      }
    });
  for(auto & t : th) t.join();
  for(size_t i = 0; i < jobs.size(); i++)
  {
    c.checkf(err[i].empty(), [&] { return jobs[i].name + " in parallel with others: " + err[i]; });
    c.checkf(same(got[i], ref[i]), [&] { return jobs[i].name + " in parallel with others gives another result: " + diff(got[i], ref[i]); });
  }
  c.nontrivial();
}
