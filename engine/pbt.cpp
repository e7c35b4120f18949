#include "pbt.h"

#include <algorithm>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void __gcov_dump() __attribute__((weak));

namespace pbt
{
namespace
{
struct Entry
{
  std::string name;
  Property prop;
  int weight;
};
std::vector<Entry> & registry()
{
  static std::vector<Entry> r;
  return r;
}

// Shared with the parent so that the choices of a crashing case survive the crash.
constexpr size_t kMaxChoices = 1 << 18;
struct Shared
{
  volatile int64_t case_index;
  volatile int64_t sub;
  volatile int64_t state; // 0 running, 1 passed, 2 failed, 3 discarded
  volatile uint64_t n;
  char msg[4096];
  uint64_t choices[kMaxChoices];
};
Shared * g_shared = nullptr;
} // namespace

Reg::Reg(const char * name, Property p, int weight)
{
  registry().push_back({name, std::move(p), weight});
}

uint64_t Case::choice(uint64_t n)
{
  uint64_t v = 0;
  if(random_)
  {
    if(n > 1) v = splitmix(rng_) % n;
  }
  else if(pos_ < in_.size())
  {
    v = in_[pos_++];
    if(n == 0 || v >= n) v = n ? v % n : 0;
  }
  out_.push_back(v);
  if(g_shared)
  {
    uint64_t k = g_shared->n;
    if(k < kMaxChoices)
    {
      g_shared->choices[k] = v;
      g_shared->n = k + 1;
    }
  }
  return v;
}

namespace
{
uint64_t fnv(const std::string & s, uint64_t h = 1469598103934665603ull)
{
  for(unsigned char c : s)
  {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}
uint64_t hashChoices(const std::vector<uint64_t> & v)
{
  uint64_t h = 1469598103934665603ull;
  for(uint64_t x : v)
  {
    h ^= x;
    h *= 1099511628211ull;
    h ^= h >> 29;
  }
  return h;
}
std::string jsonEsc(const std::string & s)
{
  std::string o;
  for(char c : s)
  {
    if(c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if(c == '\n')
      o += "\\n";
    else if(static_cast<unsigned char>(c) < 0x20)
      o += ' ';
    else
      o += c;
  }
  return o;
}

int subOf(uint64_t index)
{
  int tot = 0;
  for(auto & e : registry()) tot += e.weight;
  int c = static_cast<int>(index % tot);
  for(size_t i = 0; i < registry().size(); i++)
  {
    if(c < registry()[i].weight) return static_cast<int>(i);
    c -= registry()[i].weight;
  }
  return 0;
}
uint64_t seedOf(uint64_t seed, uint64_t index)
{
  uint64_t s = seed * 0x9E3779B97F4A7C15ull ^ fnv(registry()[subOf(index)].name) ^ (index * 0xD6E8FEB86659FD93ull);
  splitmix(s);
  return splitmix(s);
}

enum Result
{
  PASS = 1,
  FAIL = 2,
  DISCARD = 3
};

Result runCase(int sub, Case & c, std::string & msg)
{
  try
  {
    registry()[sub].prop(c);
    return PASS;
  }
  catch(const Failure & e)
  {
    msg = e.what();
    return FAIL;
  }
  catch(const Discard & e)
  {
    msg = e.what();
    return DISCARD;
  }
  catch(const std::exception & e)
  {
    msg = std::string("unexpected exception: ") + e.what();
    return FAIL;
  }
  catch(...)
  {
    msg = "unexpected exception";
    return FAIL;
  }
}

double g_cpu_limit = 30;
// not std::chrono, which a harness may replace with a virtual clock
double wallClock()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
void armCpuLimit(double sec)
{
  itimerval t{};
  t.it_value.tv_sec = static_cast<long>(sec);
  t.it_value.tv_usec = static_cast<long>((sec - std::floor(sec)) * 1e6);
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

void quiet()
{
  // The library prints to stdout; the runner's own report goes through files and the parent.
  if(!getenv("PBT_VERBOSE"))
  {
    if(!freopen("/dev/null", "w", stdout)) {}
  }
}

// Run one choice list in a child process. Returns FAIL with a message on violation, crash or hang.
Result runForked(int sub, const std::vector<uint64_t> & in, std::vector<uint64_t> & out, std::string & msg,
                 double cpu_limit)
{
  g_shared->n = 0;
  g_shared->state = 0;
  g_shared->msg[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if(pid == 0)
  {
    quiet();
    armCpuLimit(cpu_limit);
    Case c(in);
    std::string m;
    Result r = runCase(sub, c, m);
    strncpy(g_shared->msg, m.c_str(), sizeof(g_shared->msg) - 1);
    g_shared->state = r;
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  out.assign(g_shared->choices, g_shared->choices + g_shared->n);
  if(g_shared->state != 0)
  {
    msg = g_shared->msg;
    return static_cast<Result>(g_shared->state);
  }
  if(WIFSIGNALED(status) && WTERMSIG(status) == SIGVTALRM)
    msg = "HANG: case did not finish within its CPU limit";
  else if(WIFSIGNALED(status))
    msg = std::string("CRASH: signal ") + strsignal(WTERMSIG(status));
  else
    msg = "CRASH: process exited with status " + std::to_string(WEXITSTATUS(status));
  return FAIL;
}

bool simpler(const std::vector<uint64_t> & a, const std::vector<uint64_t> & b)
{
  if(a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

void shrink(int sub, std::vector<uint64_t> & best, std::string & msg, double budget_s)
{
  double t0 = wallClock();
  auto left = [&] { return budget_s - (wallClock() - t0); };
  int tries = 0;
  bool hang = msg.rfind("HANG", 0) == 0;
  if(hang) return;
  auto attempt = [&](const std::vector<uint64_t> & cand)
  {
    if(left() <= 0 || tries > 6000) return false;
    tries++;
    std::vector<uint64_t> out;
    std::string m;
    if(runForked(sub, cand, out, m, std::min(g_cpu_limit, 5.0)) == FAIL && m.rfind("HANG", 0) != 0
       && simpler(out, best))
    {
      best = out;
      msg = m;
      return true;
    }
    return false;
  };
  bool improved = true;
  while(improved && left() > 0)
  {
    improved = false;
    for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && left() > 0; len /= 2)
    {
      for(size_t i = 0; i < best.size() && left() > 0;)
      {
        std::vector<uint64_t> cand = best;
        cand.erase(cand.begin() + i, cand.begin() + std::min(i + len, cand.size()));
        if(attempt(cand))
        {
          improved = true;
          continue;
        }
        bool nz = false;
        cand = best;
        for(size_t j = i; j < std::min(i + len, cand.size()); j++)
        {
          nz |= cand[j] != 0;
          cand[j] = 0;
        }
        if(nz && attempt(cand)) improved = true;
        i += len;
      }
    }
    for(size_t i = 0; i < best.size() && left() > 0; i++)
    {
      // round reals to coarse values, then binary search down
      for(uint64_t div : {1ull << 22, 1ull << 18, 1ull << 14})
      {
        if(i < best.size() && best[i] > div && best[i] % div)
        {
          auto cand = best;
          cand[i] -= cand[i] % div;
          if(attempt(cand))
          {
            improved = true;
            break;
          }
        }
      }
      uint64_t lo = 0;
      for(int k = 0; k < 8 && i < best.size() && best[i] > lo; k++)
      {
        auto cand = best;
        cand[i] = lo + (best[i] - lo) / 2;
        if(cand[i] == best[i]) break;
        if(attempt(cand))
          improved = true;
        else
          lo = cand[i] + 1;
      }
    }
  }
}

void writeReplay(const std::string & path, int sub, const std::vector<uint64_t> & choices, const std::string & msg)
{
  std::ofstream o(path);
  o << "# replay file: sub-property, then the generator choices\n";
  std::string m = msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  o << "# " << m.substr(0, 2000) << "\n";
  o << registry()[sub].name << "\n" << choices.size() << "\n";
  for(uint64_t v : choices) o << v << "\n";
}
} // namespace

int runMain(int argc, char ** argv)
{
  uint64_t seed = 1, cases = 1000;
  int jobs = 8;
  double max_s = 500;
  std::string out_path, replay_out = "replay.txt", replay_in, only;
  for(int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if(a == "--seed")
      seed = std::stoull(val());
    else if(a == "--cases")
      cases = std::stoull(val());
    else if(a == "--jobs")
      jobs = std::stoi(val());
    else if(a == "--max-s")
      max_s = std::stod(val());
    else if(a == "--out")
      out_path = val();
    else if(a == "--replay-out")
      replay_out = val();
    else if(a == "--replay")
      replay_in = val();
    else if(a == "--only")
      only = val();
    else if(a == "--cpu-limit")
      g_cpu_limit = std::stod(val());
    else
    {
      std::cerr << "unknown argument " << a << std::endl;
      return 2;
    }
  }
  std::sort(registry().begin(), registry().end(), [](const Entry & a, const Entry & b) { return a.name < b.name; });
  if(!only.empty())
  {
    auto & r = registry();
    r.erase(std::remove_if(r.begin(), r.end(), [&](const Entry & e) { return e.name != only; }), r.end());
  }
  if(registry().empty())
  {
    std::cerr << "no properties" << std::endl;
    return 2;
  }
  g_shared = static_cast<Shared *>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

  if(!replay_in.empty())
  {
    std::ifstream in(replay_in);
    std::string line, name;
    while(std::getline(in, line))
    {
      if(line.empty() || line[0] == '#') continue;
      name = line;
      break;
    }
    size_t n = 0;
    in >> n;
    std::vector<uint64_t> ch(n);
    for(auto & v : ch) in >> v;
    int sub = -1;
    for(size_t i = 0; i < registry().size(); i++)
      if(registry()[i].name == name) sub = static_cast<int>(i);
    if(sub < 0)
    {
      std::cerr << "unknown sub-property in replay file: " << name << std::endl;
      return 2;
    }
    std::string msg;
    std::vector<uint64_t> o;
    Result r = runForked(sub, ch, o, msg, g_cpu_limit);
    {
      // Render the case description in a second child (the first may have crashed)
      fflush(nullptr);
      pid_t pid = fork();
      if(pid == 0)
      {
        armCpuLimit(g_cpu_limit);
        int fd = dup(1);
        quiet();
        Case c(ch);
        std::string m;
        runCase(sub, c, m);
        FILE * f = fdopen(fd, "w");
        fprintf(f, "case: %s\n%s\n", c.notes_.c_str(), c.describe_ ? c.describe_().c_str() : "");
        fclose(f);
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
    }
    std::cout << name << ": " << (r == FAIL ? "FAIL " : r == PASS ? "pass " : "discard ") << msg << std::endl;
    return r == FAIL ? 1 : 0;
  }

  // Workers
  std::string base = out_path.empty() ? ("/tmp/pbt." + std::to_string(getpid())) : out_path;
  auto * slots = static_cast<Shared *>(
      mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  auto * stop = static_cast<volatile int *>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto * next = reinterpret_cast<uint64_t *>(const_cast<int *>(stop) + 16);
  double t0 = wallClock();
  std::vector<pid_t> pids(jobs);
  fflush(nullptr);
  for(int w = 0; w < jobs; w++)
  {
    pid_t pid = fork();
    if(pid == 0)
    {
      quiet();
      g_shared = &slots[w];
      std::map<std::string, uint64_t> labels, per_sub, disc;
      std::set<uint64_t> distinct;
      uint64_t evals = 0, nontriv = 0, discards = 0, checks = 0;
      std::vector<std::string> samples;
      bool timeout = false;
      for(;;)
      {
        // Cases are handed out one by one; which worker runs a case does not influence the case.
        uint64_t i = __atomic_fetch_add(next, 1, __ATOMIC_RELAXED);
        if(i >= cases) break;
        if(*stop) break; // another worker found a failure
        if(wallClock() - t0 > max_s)
        {
          timeout = true;
          break;
        }
        int sub = subOf(i);
        g_shared->case_index = static_cast<int64_t>(i);
        g_shared->sub = sub;
        g_shared->n = 0;
        g_shared->state = 0;
        armCpuLimit(g_cpu_limit);
        Case c(seedOf(seed, i));
        std::string msg;
        Result r = runCase(sub, c, msg);
        evals++;
        checks += c.checks_;
        per_sub[registry()[sub].name]++;
        for(auto & kv : c.labels_) labels[registry()[sub].name + ":" + kv.first]++;
        if(r == FAIL)
        {
          strncpy(g_shared->msg, msg.c_str(), sizeof(g_shared->msg) - 1);
          g_shared->state = FAIL;
          *stop = 1;
          break;
        }
        if(r == DISCARD)
        {
          discards++;
          disc[registry()[sub].name + ":" + msg]++;
        }
        else if(c.nontrivial_)
        {
          if(distinct.insert(hashChoices(c.choices())).second) nontriv++;
          if(samples.size() < 2 && c.describe_ && evals % 7 == 3)
            samples.push_back(registry()[sub].name + ": " + c.describe_() + " " + c.notes_);
        }
        g_shared->state = PASS;
      }
      std::ofstream o(base + ".w" + std::to_string(w));
      o << evals << " " << nontriv << " " << discards << " " << checks << " " << (timeout ? 1 : 0) << "\n";
      o << per_sub.size() << "\n";
      for(auto & kv : per_sub) o << kv.first << "\n" << kv.second << "\n";
      o << labels.size() << "\n";
      for(auto & kv : labels) o << kv.first << "\n" << kv.second << "\n";
      o << disc.size() << "\n";
      for(auto & kv : disc) o << kv.first << "\n" << kv.second << "\n";
      o << samples.size() << "\n";
      for(auto & s : samples)
      {
        std::string l = s.substr(0, 1500);
        std::replace(l.begin(), l.end(), '\n', ' ');
        o << l << "\n";
      }
      o.close();
      std::ofstream hs(base + ".h" + std::to_string(w), std::ios::binary);
      for(uint64_t h : distinct) hs.write(reinterpret_cast<const char *>(&h), sizeof(h));
      hs.close();
      if(__gcov_dump) __gcov_dump(); // only in a coverage build
      _exit(0);
    }
    pids[w] = pid;
  }
  struct Fail
  {
    int64_t index;
    int sub;
    std::vector<uint64_t> choices;
    std::string msg;
  };
  std::vector<Fail> fails;
  for(int n = 0; n < jobs; n++)
  {
    int status = 0;
    pid_t p = wait(&status);
    int w = static_cast<int>(std::find(pids.begin(), pids.end(), p) - pids.begin());
    if(w >= jobs) continue;
    Shared & s = slots[w];
    bool failed = s.state == FAIL;
    std::string msg = s.msg;
    if(!failed && !(WIFEXITED(status) && WEXITSTATUS(status) == 0))
    {
      failed = true;
      if(WIFSIGNALED(status) && WTERMSIG(status) == SIGVTALRM)
        msg = "HANG: case did not finish within its CPU limit";
      else
        msg = WIFSIGNALED(status) ? std::string("CRASH: signal ") + strsignal(WTERMSIG(status))
                                  : "CRASH: exit " + std::to_string(WEXITSTATUS(status));
    }
    if(failed) *stop = 1;
    if(failed)
      fails.push_back({s.case_index, static_cast<int>(s.sub),
                       std::vector<uint64_t>(s.choices, s.choices + s.n), msg});
  }
  std::sort(fails.begin(), fails.end(), [](const Fail & a, const Fail & b) { return a.index < b.index; });

  uint64_t evals = 0, nontriv = 0, discards = 0, checks = 0, timeouts = 0;
  std::map<std::string, uint64_t> labels, per_sub, disc;
  std::vector<std::string> samples;
  std::vector<uint64_t> hashes;
  for(int w = 0; w < jobs; w++)
  {
    std::string hf = base + ".h" + std::to_string(w);
    {
      std::ifstream in(hf, std::ios::binary);
      uint64_t h;
      while(in.read(reinterpret_cast<char *>(&h), sizeof(h))) hashes.push_back(h);
    }
    unlink(hf.c_str());
    std::string f = base + ".w" + std::to_string(w);
    std::ifstream in(f);
    if(in)
    {
      uint64_t a, b, d, k, t;
      if(in >> a >> b >> d >> k >> t)
      {
        evals += a;
        (void)b;
        discards += d;
        checks += k;
        timeouts += t;
        for(auto * m : {&per_sub, &labels, &disc})
        {
          size_t n = 0;
          in >> n;
          std::string l;
          std::getline(in, l);
          for(size_t i = 0; i < n; i++)
          {
            std::string key, v;
            std::getline(in, key);
            std::getline(in, v);
            (*m)[key] += std::stoull(v);
          }
        }
        size_t n = 0;
        in >> n;
        std::string l;
        std::getline(in, l);
        for(size_t i = 0; i < n; i++)
        {
          std::getline(in, l);
          if(samples.size() < 6) samples.push_back(l);
        }
      }
    }
    in.close();
    unlink(f.c_str());
  }

  std::sort(hashes.begin(), hashes.end());
  nontriv = static_cast<uint64_t>(std::unique(hashes.begin(), hashes.end()) - hashes.begin());

  // Confirm and shrink the first failure that reproduces
  std::string verdict = "ok", fail_msg;
  int unconfirmed = 0;
  for(auto & f : fails)
  {
    std::vector<uint64_t> o;
    std::string m;
    bool confirmed = true;
    int reps = f.msg.rfind("HANG", 0) == 0 ? 1 : 3;
    for(int i = 0; i < reps && confirmed; i++) confirmed = runForked(f.sub, f.choices, o, m, g_cpu_limit) == FAIL;
    if(!confirmed)
    {
      unconfirmed++;
      std::cerr << "unconfirmed failure (does not reproduce): " << f.msg << std::endl;
      continue;
    }
    std::vector<uint64_t> best = f.choices;
    std::string msg = m;
    shrink(f.sub, best, msg, 60);
    writeReplay(replay_out, f.sub, best, msg);
    verdict = "violation";
    fail_msg = registry()[f.sub].name + " (case " + std::to_string(f.index) + "): " + msg;
    break;
  }

  // A failed assertion or a crash that does not reproduce in isolation is still a failure of deterministic code (state
  // leaking between runs, uninitialised memory); a hang or a kill may be the machine's doing.
  if(verdict == "ok")
    for(auto & f : fails)
    {
      if(f.msg.rfind("HANG", 0) == 0 || f.msg.find(strsignal(SIGKILL)) != std::string::npos) continue;
      std::string msg = "(depends on the runs before it: seed " + std::to_string(seed) + ", case "
                        + std::to_string(f.index) + ") " + f.msg;
      writeReplay(replay_out, f.sub, f.choices, msg);
      verdict = "violation";
      fail_msg = registry()[f.sub].name + " (case " + std::to_string(f.index) + "): " + msg;
      break;
    }

  std::ostringstream js;
  js << "{\"verdict\": \"" << verdict << "\", \"message\": \"" << jsonEsc(fail_msg) << "\", \"evaluations\": " << evals
     << ", \"distinct_nontrivial\": " << nontriv << ", \"discarded\": " << discards << ", \"assertions\": " << checks
     << ", \"workers_stopped_by_time\": " << timeouts << ", \"unconfirmed\": " << unconfirmed;
  auto dump = [&](const char * name, const std::map<std::string, uint64_t> & m)
  {
    js << ", \"" << name << "\": {";
    bool first = true;
    for(auto & kv : m)
    {
      js << (first ? "" : ", ") << "\"" << jsonEsc(kv.first) << "\": " << kv.second;
      first = false;
    }
    js << "}";
  };
  dump("per_subproperty", per_sub);
  dump("labels", labels);
  dump("discard_reasons", disc);
  js << ", \"samples\": [";
  for(size_t i = 0; i < samples.size(); i++) js << (i ? ", " : "") << "\"" << jsonEsc(samples[i]) << "\"";
  js << "]}";
  if(!out_path.empty())
    std::ofstream(out_path) << js.str() << std::endl;
  else
    std::cout << js.str() << std::endl;
  if(verdict != "ok") return 1;
  if(unconfirmed) return 3;
  return 0;
}
} // namespace pbt

#ifdef PBT_FUZZER
#  include <atomic>
// Coverage-guided mode: the first byte selects the sub-property, the rest are 4-byte little-endian choices.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
  static bool init = false;
  if(!init)
  {
    init = true;
    std::sort(pbt::registry().begin(), pbt::registry().end(),
              [](const pbt::Entry & a, const pbt::Entry & b) { return a.name < b.name; });
    if(!getenv("PBT_VERBOSE"))
      if(!freopen("/dev/null", "w", stdout)) {}
  }
  if(size < 2) return 0;
  int sub = data[0] % pbt::registry().size();
  std::vector<uint64_t> ch;
  for(size_t i = 1; i + 3 < size; i += 4)
    ch.push_back(uint64_t(data[i]) | uint64_t(data[i + 1]) << 8 | uint64_t(data[i + 2]) << 16
                 | uint64_t(data[i + 3]) << 24);
  pbt::Case c(ch);
  std::string msg;
  if(pbt::runCase(sub, c, msg) == pbt::FAIL)
  {
    if(const char * p = getenv("PBT_REPLAY_OUT")) pbt::writeReplay(p, sub, c.choices(), msg);
    fprintf(stderr, "PBT-FAIL %s: %s\n", pbt::registry()[sub].name.c_str(), msg.c_str());
    abort();
  }
  return 0;
}
#else
int main(int argc, char ** argv)
{
  return pbt::runMain(argc, argv);
}
#endif
