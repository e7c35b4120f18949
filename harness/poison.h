// Fills fresh heap and stack memory with a chosen byte, so that a result that depends on uninitialised memory differs
// between two executions of the same history.
#pragma once
#include "pbt.h"

namespace poison
{
void set(int byte); // -1: leave the memory alone
void stack(int byte);
struct Scope
{
  explicit Scope(int byte)
  {
    set(byte);
    stack(byte);
  }
  ~Scope()
  {
    set(-1);
  }
};
using Out = std::vector<double>;
inline void put(Out & o, double v)
{
  o.push_back(v);
}
template<class D>
void put(Out & o, const Eigen::MatrixBase<D> & m)
{
  o.push_back(static_cast<double>(m.rows()));
  o.push_back(static_cast<double>(m.cols()));
  for(int j = 0; j < m.cols(); j++)
    for(int i = 0; i < m.rows(); i++) o.push_back(static_cast<double>(m(i, j)));
}
template<class L>
void putList(Out & o, const L & l)
{
  o.push_back(static_cast<double>(l.size()));
  for(const auto & e : l) put(o, e);
}
inline bool same(const Out & a, const Out & b)
{
  if(a.size() != b.size()) return false;
  for(size_t i = 0; i < a.size(); i++)
    if(!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}
inline void bytes(pbt::Case & c, int & a, int & b)
{
  // zero; a huge number; NaN; a small and a large regular number
  static const int v[] = {0x00, 0xff, 0x41, 0x7f, 0xbf};
  int i = c.integer(0, 4), j = c.integer(0, 3);
  a = v[i];
  b = v[(i + 1 + j) % 5];
}
// Runs a history with two fillings of the memory
template<class F>
void compare(pbt::Case & c, F && run)
{
  int a, b;
  bytes(c, a, b);
  Out x, y;
  {
    Scope s(a);
    x = run();
  }
  {
    Scope s(b);
    y = run();
  }
  c.checkf(same(x, y), [&] {
    size_t i = 0;
    while(i < x.size() && i < y.size() && (x[i] == y[i] || (std::isnan(x[i]) && std::isnan(y[i])))) i++;
    return pbt::cat("the result depends on uninitialised memory: value ", i, " of ", x.size(), "/", y.size(), " is ",
                    i < x.size() ? x[i] : 0.0, " with memory filled with ", a, " and ", i < y.size() ? y[i] : 0.0, " with ", b);
  });
}
} // namespace poison
