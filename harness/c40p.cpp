#include "poison.h"

#include <cstdlib>

namespace
{
int g_byte = -1;
}
void poison::set(int byte)
{
  g_byte = byte;
}
__attribute__((noinline)) void poison::stack(int byte)
{
  volatile char buf[96 * 1024];
  for(size_t i = 0; i < sizeof(buf); i++) buf[i] = static_cast<char>(byte);
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_FUZZER)
extern "C" void * __libc_malloc(size_t);
extern "C" void * malloc(size_t n)
{
  void * p = __libc_malloc(n);
  if(p && g_byte >= 0) memset(p, g_byte, n);
  return p;
}
#endif
