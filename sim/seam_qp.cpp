// QP seam: placo calls eiquadprog through this symbol; the simulator owns it and can make the solver fail.
#include "core.h"
#include "refqp.h"
#include <dlfcn.h>
#include <limits>
#include <Eigen/Dense>
#include <cstdlib>
#include <iostream>
#include <unistd.h>
#include <csignal>
#include <sys/time.h>

namespace sim::qp
{
void (*on_stall)() = nullptr;
static Fault g_fault = None;
static int g_nth = 0;
static bool g_fired = false;
static long g_count = 0;
static bool g_backend_failed = false;
bool remember = false;
static Eigen::MatrixXd g_G, g_CE, g_CI;
static Eigen::VectorXd g_g0, g_ce0, g_ci0, g_x;
double backend_error()
{
  if (g_G.rows() == 0 || g_x.size() != g_G.rows())
    return 0;
  Eigen::VectorXd g = g_G * g_x + g_g0;
  std::vector<Eigen::VectorXd> c;
  for (int k = 0; k < g_CE.cols(); k++)
    if (g_CE.col(k).norm() > 1e-12)
      c.push_back(g_CE.col(k).normalized());
  int nf = c.size();
  double infeas = 0;
  for (int k = 0; k < g_CI.cols(); k++)
  {
    double n = g_CI.col(k).norm();
    if (n > 1e-12)  // eiquadprog's own feasibility tolerance grows with the conditioning of the QP
      infeas = std::max(infeas, -(g_CI.col(k).dot(g_x) + g_ci0[k]) / n / (1 + g_x.norm()));
    if (n > 1e-12 && (g_CI.col(k).dot(g_x) + g_ci0[k]) / n < 1e-6 * (1 + g_x.norm()))
      c.push_back(g_CI.col(k) / n);
  }
  Eigen::MatrixXd M(g.size(), c.size());
  for (size_t k = 0; k < c.size(); k++)
    M.col(k) = c[k];
  double r = refqp::nnls_residual(M, g, nf), scale = (g_G.cwiseAbs() * g_x.cwiseAbs()).norm() + g_g0.norm() + 1e-9;
  return std::max(r / scale, infeas);
}
bool backend_failed()
{
  return g_backend_failed;
}
void arm(Fault f, int nth)
{
  g_fault = f;
  g_nth = nth;
  g_fired = false;
}
bool disarm()
{
  bool f = g_fired;
  g_fault = None;
  g_fired = false;
  return f;
}
long count()
{
  return g_count;
}
bool want_print = false;
static Print g_print;
const Print& last_print()
{
  return g_print;
}
void forget_print()
{
  g_print.clear();
}
bool same_qp(const Print& a, const Print& b)
{
  if (a.empty() || a.size() != b.size())
    return false;
  // (the number of free variables depends on the rank found for the equalities, an edge as well)
  for (size_t i = 1; i < a.size(); i++)
    if (!(std::fabs(a[i] - b[i]) <= 1e-6 * (1 + std::fabs(a[i]))))
      return false;
  return true;
}
static void take_print(const Eigen::MatrixXd& G, const Eigen::VectorXd& g0, const Eigen::MatrixXd& CE, const Eigen::VectorXd& ce0,
                       const Eigen::MatrixXd& CI, const Eigen::VectorXd& ci0)
{
  g_print = { (double)G.rows(), (double)CE.cols(), (double)CI.cols(), G.norm(), G.trace(), g0.norm() };
  auto add = [&](const Eigen::MatrixXd& C, const Eigen::VectorXd& c0, bool sign) {
    std::vector<double> n, c;
    for (int k = 0; k < C.cols(); k++)
    {
      n.push_back(C.col(k).norm());
      c.push_back(sign ? c0[k] : std::fabs(c0[k]));
    }
    std::sort(n.begin(), n.end());
    std::sort(c.begin(), c.end());
    g_print.insert(g_print.end(), n.begin(), n.end());
    g_print.insert(g_print.end(), c.begin(), c.end());
  };
  add(CE, ce0, false);
  add(CI, ci0, true);
}
Fault fault_from(const std::string& s)
{
  if (s == "qp-infeasible")
    return Infeasible;
  if (s == "qp-infeasible-garbage")
    return InfeasibleGarbage;
  if (s == "qp-nan")
    return NaN;
  if (s == "qp-throw")
    return Throw;
  if (s == "qp-drift")
    return Drift;
  return None;
}
static Fault take()
{
  g_count++;
  if (g_fault != None && --g_nth <= 0 && !g_fired)
  {
    g_fired = true;
    return g_fault;
  }
  return None;
}
}  // namespace sim::qp

namespace eiquadprog::solvers
{
using namespace Eigen;
// Same declarations as eiquadprog/eiquadprog.hpp
double solve_quadprog(MatrixXd& G, VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0, const MatrixXd& CI,
                      const VectorXd& ci0, VectorXd& x, VectorXi& A, size_t& q)
{
  using F = double (*)(MatrixXd&, VectorXd&, const MatrixXd&, const VectorXd&, const MatrixXd&, const VectorXd&,
                       VectorXd&, VectorXi&, size_t&);
  static F real = (F)dlsym(RTLD_NEXT, "_ZN10eiquadprog7solvers14solve_quadprogERN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEE"
                                      "RNS2_IdLin1ELi1ELi0ELin1ELi1EEERKS3_RKS5_S8_SA_S6_RNS2_IiLin1ELi1ELi0ELin1ELi1EEERm");
  if (!real)
  {
    fprintf(stderr, "simulator error: eiquadprog not found\n");
    _exit(3);
  }
  if (sim::mem::yield_hook)
    sim::mem::yield_hook(2);
  if (sim::qp::want_print)
    sim::qp::take_print(G, g0, CE, ce0, CI, ci0);
  sim::qp::Fault f = sim::qp::take();
  sim::qp::g_backend_failed = false;
  if (f == sim::qp::Throw)
    throw std::bad_alloc();
  if (f == sim::qp::Infeasible || (f == sim::qp::NaN && x.size() == 0))
  {
    q = 0;
    return std::numeric_limits<double>::infinity();
  }
  if (f == sim::qp::InfeasibleGarbage)
  {
    for (int i = 0; i < x.size(); i++)
      x[i] = 1e3 * (i + 1);
    q = 0;
    return std::numeric_limits<double>::infinity();
  }
  if (f == sim::qp::NaN)
  {
    for (int i = 0; i < x.size(); i++)
      x[i] = std::numeric_limits<double>::quiet_NaN();
    q = 0;
    return std::numeric_limits<double>::quiet_NaN();
  }
  // eiquadprog has no iteration limit and can cycle on degenerate problems: such a run is abandoned (it tells
  // nothing about placo), see DESIGN.md
  static bool dump = getenv("SIM_DUMP_QP") != nullptr;
  MatrixXd G0;
  if (sim::qp::remember)
  {
    sim::qp::g_G = G;
    sim::qp::g_g0 = g0;
    sim::qp::g_CE = CE;
    sim::qp::g_ce0 = ce0;
    sim::qp::g_CI = CI;
    sim::qp::g_ci0 = ci0;
  }
  if (dump)
    G0 = G;
  struct itimerval it = {};
  bool watch = sim::qp::on_stall != nullptr;
  if (watch)
  {
    it.it_value.tv_sec = 1;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
  }
  bool sane = sim::mem::error() == nullptr;
  double res = real(G, g0, CE, ce0, CI, ci0, x, A, q);
  if (sim::qp::remember)
    sim::qp::g_x = x;
  if (f == sim::qp::Drift)
  {
    sim::Rng r(sim::qp::g_count * 1000003ull + x.size());
    double amp = std::pow(10., r.uni(-2.5, 0));
    for (int i = 0; i < x.size(); i++)
      x[i] += r.uni(-amp, amp);
  }
  if (watch)
  {
    it.it_value.tv_sec = 0;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    if (sane && sim::mem::error())
      raise(SIGVTALRM);  // eiquadprog overran its own buffers
  }
  {
    bool feasible = (ce0.size() == 0 || ce0.cwiseAbs().maxCoeff() < 1e-12) && (ci0.size() == 0 || ci0.minCoeff() > -1e-9);
    bool solved = res != std::numeric_limits<double>::infinity() && !x.hasNaN() &&
                  (ce0.size() == 0 || (CE.transpose() * x + ce0).cwiseAbs().maxCoeff() < 1e-6) &&
                  (ci0.size() == 0 || (CI.transpose() * x + ci0).minCoeff() > -1e-4);
    sim::qp::g_backend_failed = feasible && !solved;
  }
  if (dump)
  {
    IOFormat f(17, 0, ", ", "\n");
    std::cerr << "QP G\n" << G0.format(f) << "\ng0 " << g0.transpose() << "\nCE\n" << CE.transpose() << "\nce0 " << ce0.transpose()
              << "\nCI\n" << CI.transpose() << "\nci0 " << ci0.transpose() << "\nx " << x.transpose() << "\nres " << res
              << " q " << q << std::endl;
  }
  return res;
}
}  // namespace eiquadprog::solvers

namespace sim::rnd
{
static uint64_t g_s = 12345;
static long g_n = 0;
void seed(uint64_t s)
{
  g_s = s * 0x9E3779B97F4A7C15ull + 99;
}
long count()
{
  return g_n;
}
}  // namespace sim::rnd
extern "C" int rand(void) noexcept
{
  sim::rnd::g_n++;
  uint64_t z = (sim::rnd::g_s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return (int)((z ^ (z >> 31)) & 0x7fffffff);
}
extern "C" void srand(unsigned s) noexcept
{
  // the application does not own the seed in the simulation
}
