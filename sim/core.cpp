#include "core.h"
#include <cstdarg>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim
{
std::map<std::string, Factory>& registry()
{
  static std::map<std::string, Factory> r;
  return r;
}

std::string fmt(const char* f, ...)
{
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

static FILE* g_log = nullptr;
void Ctx::log(const char* f, ...)
{
  if (!verbose)
    return;
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  fprintf(g_log ? g_log : stderr, "%s\n", buf);
  fflush(g_log ? g_log : stderr);
}

static std::string esc(const std::string& s)
{
  std::string o;
  for (char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if ((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}

static void write_plan(FILE* f, const std::string& scenario, uint64_t seed, const Plan& p)
{
  fprintf(f, "scenario %s\nseed %llu\nconfig %llu\n", scenario.c_str(), (unsigned long long)seed,
          (unsigned long long)p.config);
  for (auto& e : p.ev)
    fprintf(f, "event %s %llu %s\n", e.kind.c_str(), (unsigned long long)e.sub, e.fault.c_str());
}

static bool read_plan(const char* path, std::string& scenario, uint64_t& seed, Plan& p)
{
  std::ifstream f(path);
  if (!f)
    return false;
  std::string line;
  while (std::getline(f, line))
  {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "scenario")
      is >> scenario;
    else if (k == "seed")
      is >> seed;
    else if (k == "config")
      is >> p.config;
    else if (k == "event")
    {
      Event e;
      is >> e.kind >> e.sub >> e.fault;
      p.ev.push_back(e);
    }
  }
  return true;
}

static std::string result_json(uint64_t seed, const Ctx& c, const Plan& p, const std::string& status,
                               const std::string& cls, const std::string& what)
{
  std::ostringstream o;
  uint64_t kh = 1469598103934665603ull;
  for (auto& e : p.ev)
    for (char ch : e.kind + "/" + e.fault + ";")
    {
      kh ^= (unsigned char)ch;
      kh *= 1099511628211ull;
    }
  o << "{\"seed\":" << seed << ",\"status\":\"" << status << "\",\"class\":\"" << esc(cls) << "\",\"what\":\""
    << esc(what) << "\",\"hash\":\"" << std::hex << c.hash << "\",\"sched\":\"" << kh << std::dec
    << "\",\"events\":" << p.ev.size() << ",\"steps\":" << c.steps << ",\"checks\":" << c.checks
    << ",\"sim_time\":" << c.sim_time << ",\"known\":\"" << esc(c.known) << "\",\"faults\":{";
  bool first = true;
  for (auto& kv : c.faults)
  {
    o << (first ? "" : ",") << "\"" << esc(kv.first) << "\":" << kv.second;
    first = false;
  }
  o << "},\"counters\":{";
  first = true;
  for (auto& kv : c.counters)
  {
    o << (first ? "" : ",") << "\"" << esc(kv.first) << "\":" << kv.second;
    first = false;
  }
  o << "},\"states\":[";
  first = true;
  int n = 0;
  for (auto s : c.states)
  {
    if (n++ > 400)
      break;
    o << (first ? "" : ",") << "\"" << std::hex << s << std::dec << "\"";
    first = false;
  }
  o << "]}";
  return o.str();
}

static std::string run_once(Scenario* sc, uint64_t seed, const Plan& plan, bool verbose)
{
  Ctx ctx;
  ctx.verbose = verbose;
  std::string status = "ok", cls, what;
  try
  {
    mem::fresh();
    sc->run(plan, ctx);
  }
  catch (Violation& v)
  {
    status = "violation";
    cls = v.cls;
    what = v.what_;
  }
  catch (std::exception& e)
  {
    status = "violation";
    cls = "unexpected-exception";
    what = std::string("exception escaped to the caller: ") + e.what();
  }
  mem::disarm();
  qp::disarm();
  if (status == "ok" && mem::error())
  {
    status = "violation";
    cls = "heap";
    what = mem::error();
  }
  return result_json(seed, ctx, plan, status, cls, what);
}

static int g_result_fd = -1;
static uint64_t g_run_seed = 0;
static void stall(int)
{
  char buf[256];
  int n = snprintf(buf, sizeof buf,
                   "{\"seed\":%llu,\"status\":\"skip\",\"class\":\"qp-cycling\",\"what\":\"eiquadprog did not return\","
                   "\"hash\":\"0\",\"sched\":\"0\"}",
                   (unsigned long long)g_run_seed);
  if (write(g_result_fd, buf, n)) {}
  _exit(0);
}
static void stalled()
{
}

// Runs the plan in a forked child: exact isolation, and a crash is an outcome
static std::string run_forked(Scenario* sc, uint64_t seed, const Plan& plan, bool verbose, int limit_s)
{
  int fd[2];
  if (pipe(fd))
    _exit(3);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0)
  {
    close(fd[0]);
    int dn = open("/dev/null", O_WRONLY);
    g_log = fdopen(dup(2), "w");
    dup2(dn, 1);
    if (!verbose)
      dup2(dn, 2);
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = limit_s;  // CPU seconds: a run normally takes far less than one
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    g_result_fd = fd[1];
    g_run_seed = seed;
    signal(SIGVTALRM, stall);
    qp::on_stall = stalled;
    std::string r = run_once(sc, seed, plan, verbose);
    size_t off = 0;
    while (off < r.size())
    {
      ssize_t k = write(fd[1], r.data() + off, r.size() - off);
      if (k <= 0)
        break;
      off += k;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string out;
  char buf[65536];
  ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0)
    out.append(buf, k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st) || out.empty() || out.back() != '}')
  {
    Ctx c;
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    std::string cls = "crash", what;
    if (sig == SIGXCPU || sig == SIGKILL)
    {
      cls = "hang";
      what = fmt("no progress: the run used its %d s of CPU time", limit_s);
    }
    else if (sig)
      what = fmt("the process died with signal %d (%s)", sig, strsignal(sig));
    else
      what = fmt("the process exited unexpectedly (status %d)", st);
    return result_json(seed, c, plan, "violation", cls, what);
  }
  return out;
}

int sim_main(int argc, char** argv)
{
  std::string mode = argc > 1 ? argv[1] : "";
  bool verbose = getenv("SIM_VERBOSE") != nullptr;
  bool thorough = getenv("SIM_THOROUGH") != nullptr;
  int limit_s = getenv("SIM_LIMIT") ? atoi(getenv("SIM_LIMIT")) : 60;
  signal(SIGPIPE, SIG_IGN);
  // same addresses in every process: one seed is one execution
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
  {
    setenv("SIM_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  try
  {
    if (mode == "run" && argc >= 6)
    {
      // run SCENARIO FIRST COUNT STRIDE : seeds FIRST, FIRST+STRIDE, ...
      std::string name = argv[2];
      uint64_t first = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10);
      double budget = argc > 6 ? atof(argv[6]) : 1e9;
      if (!registry().count(name))
        return 2;
      Scenario* sc = registry()[name]();
      sc->setup();
      struct timespec t0, t1;
      clock_gettime(CLOCK_MONOTONIC, &t0);
      for (uint64_t i = 0; i < count; i++)
      {
        uint64_t seed = first + i * stride;
        Plan p = sc->generate(seed, thorough);
        std::string r = run_forked(sc, seed, p, verbose, limit_s);
        printf("%s\n", r.c_str());
        fflush(stdout);
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > budget)
          break;
      }
      return 0;
    }
    if (mode == "plan" && argc >= 4)
    {
      std::string name = argv[2];
      uint64_t seed = strtoull(argv[3], 0, 10);
      if (!registry().count(name))
        return 2;
      Scenario* sc = registry()[name]();
      Plan p = sc->generate(seed, thorough);
      write_plan(stdout, name, seed, p);
      return 0;
    }
    if (mode == "replay" && argc >= 3)
    {
      // several plan files may be given: one JSON line for each
      Scenario* sc = nullptr;
      std::string loaded;
      for (int i = 2; i < argc; i++)
      {
        std::string name;
        uint64_t seed = 0;
        Plan p;
        if (!read_plan(argv[i], name, seed, p) || !registry().count(name))
          return 2;
        if (!sc || loaded != name)
        {
          sc = registry()[name]();
          sc->setup();
          loaded = name;
        }
        printf("%s\n", run_forked(sc, seed, p, verbose, limit_s).c_str());
        fflush(stdout);
      }
      return 0;
    }
  }
  catch (std::exception& e)
  {
    fprintf(stderr, "simulator error: %s\n", e.what());
    return 2;
  }
  fprintf(stderr, "usage: sim run SCENARIO FIRST COUNT STRIDE [BUDGET] | plan SCENARIO SEED | replay FILE...\n");
  return 2;
}
}  // namespace sim

int main(int argc, char** argv)
{
  return sim::sim_main(argc, argv);
}
