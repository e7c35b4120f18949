// Reading the space separated trace and log files.
#pragma once
#include "pbt.h"

#include <cstdlib>
#include <fstream>

#include <unistd.h>

namespace dump
{
inline std::string dir()
{
  const char * d = getenv("PBT_SCRATCH");
  return d ? d : "/tmp";
}
inline std::string path()
{
  return dir() + "/dump." + std::to_string(getpid()) + ".txt";
}
// A file left by somebody else, longer than what will be written
inline void litter(const std::string & p)
{
  std::ofstream o(p);
  for(int i = 0; i < 200; i++) o << "1 2 3 4 5 6 7 8 9 10 11 12 old" << std::endl;
}
struct File
{
  std::vector<std::string> header;
  std::vector<std::vector<double>> rows;
  std::string head() const
  {
    std::string s;
    for(auto & h : header) s += h + " ";
    return s;
  }
};
inline double number(const std::string & w)
{
  char * e = nullptr;
  double v = strtod(w.c_str(), &e);
  if(!e || *e) throw pbt::Failure("not a number in the file: " + w);
  return v;
}
inline std::vector<std::string> words(const std::string & l)
{
  std::istringstream i(l);
  std::vector<std::string> r;
  std::string w;
  while(i >> w) r.push_back(w);
  return r;
}
inline File read(const std::string & p, bool header = true)
{
  File f;
  std::ifstream in(p);
  if(!in) throw pbt::Failure("file was not written: " + p);
  std::string l;
  bool first = header;
  while(std::getline(in, l))
  {
    auto w = words(l);
    if(w.empty()) continue;
    if(first)
    {
      f.header = w;
      first = false;
      continue;
    }
    std::vector<double> r;
    for(auto & s : w) r.push_back(number(s));
    f.rows.push_back(r);
  }
  in.close();
  unlink(p.c_str());
  return f;
}
// Six significant digits are printed (or more)
inline bool close(double file, double mem)
{
  return file == mem || (std::isnan(file) && std::isnan(mem)) || std::abs(file - mem) <= 2e-5 * std::abs(mem) + 1e-300;
}
inline void compare(pbt::Case & c, const File & f, size_t r, const std::vector<double> & v)
{
  c.checkf(f.rows[r].size() == v.size(), [&] { return pbt::cat("row ", r, " has ", f.rows[r].size(), " columns"); });
  for(size_t k = 0; k < v.size(); k++)
    c.checkf(close(f.rows[r][k], v[k]), [&] { return pbt::cat("row ", r, " column ", f.header.size() > k ? f.header[k] : std::to_string(k), ": ", f.rows[r][k], " in the file, ", v[k], " in memory"); });
}
} // namespace dump
