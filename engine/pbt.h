// Minimal choice-sequence property-based testing engine.
//
// A property is a function `void(pbt::Case &)`. Every random decision is drawn from the Case as a bounded integer
// ("choice"); 0 is always the simplest choice. The recorded choice list is therefore a complete description of the
// generated input: it is the replay file, it is what the shrinker minimises, and (PBT_FUZZER) it is what libFuzzer
// mutates. Each case is a pure function of (code, seed, property name, case index).
#pragma once

#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <Eigen/Dense>

namespace pbt
{
struct Failure : std::runtime_error
{
  using std::runtime_error::runtime_error;
};
// The generated case is outside the property's domain or the oracle cannot decide it (counted, never a failure).
struct Discard : std::runtime_error
{
  using std::runtime_error::runtime_error;
};

inline uint64_t splitmix(uint64_t & s)
{
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

class Case
{
public:
  // random mode
  explicit Case(uint64_t seed) : rng_(seed), random_(true) {}
  // replay mode
  explicit Case(const std::vector<uint64_t> & choices) : random_(false), in_(choices) {}

  // Integer in [0, n), 0 simplest
  uint64_t choice(uint64_t n);

  int integer(int lo, int hi) // inclusive, shrinks towards lo
  {
    return lo + static_cast<int>(choice(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool boolean(int num = 1, int den = 2) // true with probability num/den, shrinks towards false
  {
    return choice(den) >= static_cast<uint64_t>(den - num);
  }
  template<class T>
  T pick(std::initializer_list<T> l)
  {
    return *(l.begin() + choice(l.size()));
  }
  // weighted pick: returns index
  int weighted(std::initializer_list<int> w)
  {
    int tot = 0;
    for(int v : w) tot += v;
    int c = static_cast<int>(choice(tot));
    int i = 0;
    for(int v : w)
    {
      if(c < v) return i;
      c -= v;
      i++;
    }
    return static_cast<int>(w.size()) - 1;
  }
  // Real in [lo, hi]; shrinks towards 0 when the range contains it, else towards lo
  double real(double lo, double hi)
  {
    const uint64_t M = 1ull << 24;
    double f = static_cast<double>(choice(M + 1)) / static_cast<double>(M);
    if(lo < 0 && hi > 0)
    {
      bool neg = f > 0 && choice(2) == 1;
      return neg ? lo * f : hi * f;
    }
    return lo + (hi - lo) * f;
  }
  // log-uniform positive real, shrinks towards 1 when contained, else lo
  double logreal(double lo, double hi)
  {
    double l = std::log(lo), h = std::log(hi);
    return std::exp(real(l, h));
  }
  Eigen::VectorXd vec(int n, double scale)
  {
    Eigen::VectorXd v(n);
    for(int i = 0; i < n; i++) v[i] = real(-scale, scale);
    return v;
  }
  Eigen::MatrixXd mat(int r, int c, double scale)
  {
    Eigen::MatrixXd m(r, c);
    for(int i = 0; i < r; i++)
      for(int j = 0; j < c; j++) m(i, j) = real(-scale, scale);
    return m;
  }

  // Classification / evidence
  void label(const std::string & l)
  {
    labels_[l]++;
  }
  void nontrivial()
  {
    nontrivial_ = true;
  }
  // Human readable description, only rendered when somebody looks at it
  void describe(const std::function<std::string()> & f)
  {
    describe_ = f;
  }
  void note(const std::string & s)
  {
    if(notes_.size() < 4000) notes_ += s + "; ";
  }
  [[noreturn]] void fail(const std::string & msg)
  {
    throw Failure(msg);
  }
  void check(bool ok, const std::string & msg)
  {
    checks_++;
    if(!ok) throw Failure(msg);
  }
  template<class F>
  void checkf(bool ok, F && f)
  {
    checks_++;
    if(!ok) throw Failure(f());
  }
  void discard(const std::string & why)
  {
    throw Discard(why);
  }

  const std::vector<uint64_t> & choices() const
  {
    return out_;
  }

  std::map<std::string, uint64_t> labels_;
  std::function<std::string()> describe_;
  std::string notes_;
  bool nontrivial_ = false;
  uint64_t checks_ = 0;

private:
  uint64_t rng_ = 0;
  bool random_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  std::vector<uint64_t> out_;
};

using Property = std::function<void(Case &)>;

// Registers a (sub-)property of this binary. weight = share of the generated cases.
struct Reg
{
  Reg(const char * name, Property p, int weight = 1);
};

#define PBT_PROPERTY(NAME, WEIGHT)                        \
  static void NAME(pbt::Case & c);                        \
  static pbt::Reg reg_##NAME(#NAME, NAME, WEIGHT);        \
  static void NAME(pbt::Case & c)

// As PBT_PROPERTY, for a source file that is compiled once per template instantiation (PBT_SUFFIX names it).
#ifdef PBT_SUFFIX
#  define PBT_PROPERTY_I(NAME, WEIGHT)                           \
    static void NAME(pbt::Case & c);                             \
    static pbt::Reg reg_##NAME(#NAME PBT_SUFFIX, NAME, WEIGHT);  \
    static void NAME(pbt::Case & c)
#endif

inline std::string str(const Eigen::Ref<const Eigen::MatrixXd> & m)
{
  static const Eigen::IOFormat f(17, Eigen::DontAlignCols, ", ", "; ", "", "", "[", "]");
  std::ostringstream o;
  o << m.format(f);
  return o.str();
}
template<class... A>
std::string cat(const A &... a)
{
  std::ostringstream o;
  o.precision(17);
  (o << ... << a);
  return o.str();
}
} // namespace pbt
