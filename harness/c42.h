// A virtual clock behind std::chrono: time passes only in callbacks and by the ticks of the readings.
#pragma once
#include "pbt.h"

namespace vclock
{
extern long now_ns, reads, ticked_ns;
constexpr long kTick = 1000; // ns per reading ...
extern long tick[8], period; // ... unless a case chooses a pattern
inline void read()
{
  long d = period ? tick[reads % period] : kTick;
  reads++;
  ticked_ns += d;
  now_ns += d;
}
// Readings that take long: which part of the computation is how long does not depend on callbacks only
inline bool choosePattern(pbt::Case & c)
{
  reads = ticked_ns = 0;
  period = c.boolean(1, 3) ? c.integer(1, 8) : 0;
  for(int i = 0; i < period; i++) tick[i] = c.boolean(1, 3) ? 1000L * c.integer(1, 5000) : kTick;
  return period > 0;
}
inline void pass(long ns)
{
  now_ns += ns;
}
struct Span
{
  long t0 = now_ns, r0 = reads, k0 = ticked_ns;
  double ms() const
  {
    return 1e-6 * static_cast<double>(now_ns - t0);
  }
  double ticked() const
  {
    return 1e-6 * static_cast<double>(ticked_ns - k0);
  }
  long readings() const
  {
    return reads - r0;
  }
};
// a is at most b / a equals b, up to the ticks of the readings
struct Checker
{
  pbt::Case & c;
  double eps;
  bool read; // the solver reads the clock that is replaced here
  void le(const char * what, double a, double b) const
  {
    c.checkf(a <= b + 1e-9 * (1 + std::abs(b)), [&] { return pbt::cat(what, ": ", a, " > ", b, " [ms]"); });
  }
  void same(const char * what, double a, double b) const
  {
    if(read) c.checkf(std::abs(a - b) <= eps, [&] { return pbt::cat(what, ": ", a, " instead of ", b, " [ms] (tolerance ", eps, ")"); });
  }
  void exact(const char * what, double a, double b) const
  {
    c.checkf(std::abs(a - b) <= 1e-9 * (1 + std::abs(b)), [&] { return pbt::cat(what, ": ", a, " instead of ", b, " [ms]"); });
  }
  void nonneg(std::initializer_list<double> l) const
  {
    for(double v : l) c.checkf(v >= 0 && std::isfinite(v), [&] { return pbt::cat("a duration is ", v); });
  }
};
} // namespace vclock
