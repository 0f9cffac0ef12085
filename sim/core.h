// Deterministic simulation core: one seed -> one plan (list of events) -> one execution.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>

namespace sim
{
// ---------------------------------------------------------------- PRNG
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed ^ 0x1234567ull)
  {
    // streams of neighbouring seeds must not overlap: the state starts at a hash of the seed
    s = next() ^ 0x5851F42D4C957F2Dull;
    s = next();
  }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double uni(double a = 0., double b = 1.)
  {
    return a + (b - a) * ((next() >> 11) * (1.0 / 9007199254740992.0));
  }
  double gauss()
  {
    double u = uni(1e-12, 1.), v = uni();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  int range(int n)
  {
    return n <= 0 ? 0 : (int)(next() % (uint64_t)n);
  }
  int between(int a, int b)  // inclusive
  {
    return a + range(b - a + 1);
  }
  bool chance(double p)
  {
    return uni() < p;
  }
  template <class T>
  const T& pick(const std::vector<T>& v)
  {
    return v[range((int)v.size())];
  }
  int weighted(const std::vector<double>& w)
  {
    double tot = 0;
    for (double x : w)
      tot += x;
    double r = uni() * tot;
    for (size_t i = 0; i < w.size(); i++)
    {
      r -= w[i];
      if (r < 0)
        return (int)i;
    }
    return (int)w.size() - 1;
  }
};

// ---------------------------------------------------------------- plan
struct Event
{
  std::string kind;
  uint64_t sub = 0;       // sub-seed: every parameter of the event derives from it
  std::string fault = "-";  // "-" or the fault injected while the event runs
};

struct Plan
{
  uint64_t config = 1;  // seed of the configuration draw (never minimised away)
  std::vector<Event> ev;
};

struct Violation : std::exception
{
  std::string cls, what_;
  Violation(std::string c, std::string w) : cls(c), what_(w)
  {
  }
  const char* what() const noexcept override
  {
    return what_.c_str();
  }
};

// ---------------------------------------------------------------- run context
struct Ctx
{
  uint64_t hash = 1469598103934665603ull;  // event-log hash
  uint64_t abs_hash = 1469598103934665603ull;
  double sim_time = 0;
  long steps = 0, checks = 0;
  std::map<std::string, long> faults;    // faults that actually fired
  std::map<std::string, long> counters;  // interesting things that happened (reach)
  std::set<uint64_t> states;             // distinct abstract states reached
  bool verbose = false;
  std::string known;  // known-finding tag reported by this run (if any)

  void mix(uint64_t v)
  {
    for (int i = 0; i < 8; i++)
    {
      hash ^= (v >> (8 * i)) & 0xff;
      hash *= 1099511628211ull;
    }
  }
  void mixd(double d)
  {
    uint64_t u;
    if (d == 0)
      d = 0;
    memcpy(&u, &d, 8);
    mix(u);
  }
  void mixs(const std::string& s)
  {
    for (char c : s)
    {
      hash ^= (unsigned char)c;
      hash *= 1099511628211ull;
    }
  }
  template <class V>
  void mixv(const V& v)
  {
    for (int i = 0; i < (int)v.size(); i++)
      mixd(v.data()[i]);
  }
  void fault(const std::string& k)
  {
    faults[k]++;
    mixs("F:" + k);
  }
  void hit(const std::string& k, long n = 1)
  {
    counters[k] += n;
  }
  // abstract state, e.g. "solver has {position,com} tasks, last solve failed"
  void state(const std::string& s)
  {
    uint64_t h = 1469598103934665603ull;
    for (char c : s)
    {
      h ^= (unsigned char)c;
      h *= 1099511628211ull;
    }
    states.insert(h);
  }
  void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void check(bool ok, const std::string& cls, const std::string& what)
  {
    checks++;
    if (!ok)
      throw Violation(cls, what);
  }
  // lazily formatted
  template <class F>
  void checkf(bool ok, const char* cls, F f)
  {
    checks++;
    if (!ok)
      throw Violation(cls, f());
  }
};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- scenario
struct Scenario
{
  virtual ~Scenario()
  {
  }
  // Runs once in the zygote, before any fork (e.g. loading robot models)
  virtual void setup()
  {
  }
  virtual Plan generate(uint64_t seed, bool thorough) = 0;
  virtual void run(const Plan& plan, Ctx& ctx) = 0;
};
using Factory = std::function<Scenario*()>;
std::map<std::string, Factory>& registry();
struct Reg
{
  Reg(const std::string& name, Factory f)
  {
    registry()[name] = f;
  }
};
#define SIM_SCENARIO(NAME, CLS) static sim::Reg reg_##CLS(NAME, []() -> sim::Scenario* { return new CLS; })

// ---------------------------------------------------------------- seams
namespace mem
{
struct Env
{
  uint64_t seed = 1;
  bool permute = false;   // permute the addresses handed out
  int fill_alloc = -1;    // byte written in fresh memory, -1: leave what is there
  int fill_free = 0xDB;   // byte written in freed memory
};
void fresh();
void begin(const Env& env);
void end();
Env random_env(Rng& r);
void set_fill(int fill_alloc);  // change what fresh memory contains, from now on
// Fail the nth (1-based) allocation from now on; sticky: and all the following ones
void arm(long nth, bool sticky);
bool disarm();  // true if a failure was injected
long count();   // allocations since begin()/reset_count
void reset_count();
long live();         // live blocks
long live_bytes();   // live bytes
const char* error();  // heap error (double free, invalid free, overflow), or null
bool is_live(const void* p);
extern void (*yield_hook)(int);
}  // namespace mem

namespace qp
{
enum Fault
{
  None = 0,
  Infeasible,   // solver reports infinity, x untouched
  InfeasibleGarbage,  // solver reports infinity, x garbage
  NaN,          // solver returns NaN solution
  Throw,        // allocation failure inside the solver
  Drift         // numerical breakdown: the solver reports success on a solution that is off
};
void arm(Fault f, int nth);  // nth (1-based) QP from now on
bool disarm();               // true if fired
long count();
// keeps the last QP handed to the back end; how far the answer is from an optimum of that very QP (relative)
extern bool remember;
double backend_error();
bool backend_failed();         // the last QP given to eiquadprog was feasible at x=0, and eiquadprog did not solve it
Fault fault_from(const std::string& s);
// What identifies the last QP given to eiquadprog, up to the order of its rows and an orthogonal change of basis. Two QPs that are the
// same in that sense and end differently tell about eiquadprog, not about placo.
using Print = std::vector<double>;
extern bool want_print;
const Print& last_print();     // empty if no QP was given since forget_print()
void forget_print();
bool same_qp(const Print& a, const Print& b);
extern void (*on_stall)();   // called (from a signal handler) when eiquadprog itself stops making progress
}  // namespace qp

namespace rnd
{
void seed(uint64_t s);
long count();
}  // namespace rnd

int sim_main(int argc, char** argv);
}  // namespace sim
