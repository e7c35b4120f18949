// Self-contained uses of the library ("jobs") that can be repeated, nested and run concurrently.
#pragma once
#include "pbt.h"

#include <memory>

namespace indep
{
using Out = std::vector<double>;
struct Ctx
{
  std::function<void()> hook; // called in every callback of the user's problem
  bool quiet = false;
  void touch() const
  {
    if(hook) hook();
  }
};
struct Job
{
  std::string name, desc;
  std::function<Out(const Ctx &)> run; // makes its own objects; every run must give the same numbers
};
using Factory = std::function<Job(pbt::Case &)>;
struct Kind
{
  std::string name;
  Factory make;
};
std::vector<Kind> & kinds();
struct RegKind
{
  RegKind(const std::string & n, Factory f)
  {
    kinds().push_back({n, f});
  }
};
inline void put(Out & o, double v)
{
  o.push_back(v);
}
template<class D>
void put(Out & o, const Eigen::MatrixBase<D> & m)
{
  o.push_back(static_cast<double>(m.rows()));
  o.push_back(static_cast<double>(m.cols()));
  for(int j = 0; j < m.cols(); j++)
    for(int i = 0; i < m.rows(); i++) o.push_back(static_cast<double>(m(i, j)));
}
template<class L>
void putList(Out & o, const L & l)
{
  o.push_back(static_cast<double>(l.size()));
  for(const auto & e : l) put(o, e);
}
} // namespace indep
