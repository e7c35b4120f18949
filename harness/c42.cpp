// C42: the virtual clock (overrides the ones of the C++ library)
#include "c42.h"

#include <chrono>

namespace vclock
{
long now_ns = 1700000000000000000L, reads = 0, ticked_ns = 0, tick[8], period = 0;
}
namespace std
{
namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
  vclock::read();
  return time_point(duration(vclock::now_ns));
}
steady_clock::time_point steady_clock::now() noexcept
{
  vclock::read();
  return time_point(duration(vclock::now_ns));
}
} // namespace _V2
} // namespace chrono
} // namespace std
