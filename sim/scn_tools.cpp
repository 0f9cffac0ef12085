// P23: expressions, integrators and polynoms over the life of a problem. P27: splines and swing-foot curves.
#include "core.h"
#include "placo/problem/problem.h"
#include "placo/problem/integrator.h"
#include "placo/problem/problem_polynom.h"
#include "placo/problem/sparsity.h"
#include "placo/humanoid/lipm.h"
#include "placo/humanoid/swing_foot.h"
#include "placo/humanoid/swing_foot_cubic.h"
#include "placo/humanoid/swing_foot_quintic.h"
#include "placo/tools/cubic_spline.h"
#include "placo/tools/cubic_spline_3d.h"
#include "placo/tools/polynom.h"
#include <memory>

using namespace sim;
using namespace placo::problem;
using Eigen::MatrixXd;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::VectorXd;

namespace
{
const int MAXV = 80;  // columns of the reference maps

// exp(M) by its series, with scaling
MatrixXd ref_exp(const MatrixXd& M0)
{
  int s = 6;
  MatrixXd M = M0 / 64.;
  MatrixXd E = MatrixXd::Identity(M.rows(), M.cols()), term = E;
  for (int k = 1; k < 25; k++)
  {
    term = MatrixXd(term * M) / k;
    E += term;
  }
  while (s--)
    E = MatrixXd(E * E);
  return E;
}

struct RefE
{
  MatrixXd A;  // rows x MAXV
  VectorXd b;
  int rows() const
  {
    return b.size();
  }
  bool constant = false;  // made of constants only
  VectorXd at(const VectorXd& x) const
  {
    return A.leftCols(x.size()) * x + b;
  }
};

RefE ref_const(const VectorXd& v)
{
  RefE r;
  r.A = MatrixXd::Zero(v.size(), MAXV);
  r.b = v;
  r.constant = true;
  return r;
}
RefE operator*(const MatrixXd& M, const RefE& e)
{
  RefE r;
  r.A = M * e.A;
  r.b = M * e.b;
  r.constant = e.constant;
  return r;
}
RefE add(const RefE& a, const RefE& b, double sb = 1)
{
  RefE r;
  r.A = a.A + sb * b.A;
  r.b = a.b + sb * b.b;
  r.constant = a.constant && b.constant;
  return r;
}
RefE row(const RefE& e, int k, int n = 1)
{
  RefE r;
  r.A = e.A.middleRows(k, n);
  r.b = e.b.segment(k, n);
  r.constant = e.constant;
  return r;
}

struct Item
{
  Expression e;
  RefE r;
};

struct RefInteg
{
  MatrixXd M;
  RefE x0;
  int order, var;
  double dt, t0;
  int N, k_start;
  // state at t (from the start), as an affine map
  RefE state(double t) const
  {
    int step = std::max(0, std::min(N - 1, (int)std::floor(t / dt)));
    RefE s = x0;
    MatrixXd E = ref_exp(M * dt);
    for (int k = 0; k <= step; k++)
    {
      double d = dt;
      if (k == step)
      {
        d = t - step * dt;
        E = ref_exp(M * d);
      }
      RefE n = MatrixXd(E.topLeftCorner(order, order)) * s;
      n.A.col(k_start + k) += E.block(0, order, order, 1);
      n.constant = false;
      s = n;
    }
    return s;
  }
  RefE at_step(int step) const
  {
    return step == 0 ? x0 : state(step * dt);
  }
  RefE command(int k) const
  {
    RefE r;
    r.A = MatrixXd::Zero(1, MAXV);
    r.b = VectorXd::Zero(1);
    r.A(0, k_start + k) = 1;
    return r;
  }
};

struct Integ
{
  std::unique_ptr<Integrator> in;
  RefInteg r;
};
struct Lip
{
  std::unique_ptr<placo::humanoid::LIPM> l;
  RefInteg x, y;
};
struct Copy  // a trajectory taken some time ago, and what it must keep answering
{
  Integrator::Trajectory tr;
  RefInteg r;
  VectorXd x;
};

struct FWorld
{
  Problem pb;
  std::vector<Variable*> vars;
  std::vector<int> k0, sz;
  int n = 0;
  std::vector<Item> pool;
  std::vector<Integ> integs;
  std::vector<Lip> lipms;
  std::vector<Copy> copies;
  VectorXd x;               // values of the last success (size: variables at that time)
  std::vector<char> solved;  // variables that have a value
};

struct Formula : Scenario
{
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> kinds = { "var", "leaf", "arith", "shape", "scale", "cmp", "integ", "iexpr", "solve", "ivalue", "polynom", "lipm",
                                       "lquery", "retime", "sparsity" };
    std::vector<double> w = { 1.2, 2, 5, 2, 3, 3, 1.2, 4, 2.5, 3, 1.2, 0.8, 2, 0.5, 0.8 };
    for (auto& x : w)
      if (r.chance(0.25))
        x *= r.chance(0.5) ? 0 : 3;
    double pf = r.chance(0.6) ? 0.3 : 0.;
    std::vector<std::string> faults = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw" };
    int n = r.between(10, thorough ? 70 : 35);
    p.ev.push_back({ "var", r.next(), "-" });
    p.ev.push_back({ "leaf", r.next(), "-" });
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted(w)];
      e.sub = r.next();
      if (e.kind == "solve" && r.chance(pf))
        e.fault = r.pick(faults);
      p.ev.push_back(e);
    }
    return p;
  }

  VectorXd vec(Rng& r, int n, double a = 2)
  {
    VectorXd v(n);
    for (int i = 0; i < n; i++)
      v[i] = r.chance(0.1) ? 0. : r.uni(-a, a);
    return v;
  }

  void same(FWorld& w, const Expression& e, const RefE& ref, Rng& r, Ctx& ctx, const char* what)
  {
    ctx.checkf(e.A.rows() == ref.rows() && e.b.size() == ref.rows() && e.rows() == ref.rows(), "rows",
               [&] { return fmt("%s: the expression has %d/%d rows, %d expected", what, (int)e.A.rows(), (int)e.b.size(), ref.rows()); });
    ctx.checkf(e.cols() <= w.n, "cols", [&] { return fmt("%s: the expression uses %d variables, the problem has %d", what, e.cols(), w.n); });
    for (int k = 0; k < 2; k++)
    {
      VectorXd x = vec(r, w.n);
      VectorXd got = e.value(x), exp = ref.at(x);
      double tol = 1e-9 * (1 + ref.A.cwiseAbs().sum() + ref.b.cwiseAbs().sum());
      ctx.checkf(got.size() == exp.size() && (got - exp).cwiseAbs().maxCoeff() <= tol, "value", [&] {
        int i;
        (got - exp).cwiseAbs().maxCoeff(&i);
        return fmt("%s: row %d is worth %.9g, it should be %.9g", what, i, got[i], exp[i]);
      });
    }
  }

  // The constraint holds at x, row by row, exactly when the comparison does
  void same_cmp(FWorld& w, const ProblemConstraint& c, const RefE& diff, bool equality, Rng& r, Ctx& ctx, const char* what)
  {
    ctx.checkf(equality == (c.type == ProblemConstraint::Equality), "type", [&] { return fmt("%s: wrong type of constraint", what); });
    ctx.checkf(c.expression.A.rows() == diff.rows() && c.expression.b.size() == diff.rows(), "rows",
               [&] { return fmt("%s: the constraint has %d rows, %d expected", what, (int)c.expression.A.rows(), diff.rows()); });
    for (int k = 0; k < 3; k++)
    {
      VectorXd x = vec(r, w.n);
      VectorXd got = c.expression.value(x), exp = diff.at(x);
      double tol = 1e-9 * (1 + diff.A.cwiseAbs().sum() + diff.b.cwiseAbs().sum());
      for (int i = 0; i < exp.size(); i++)
        ctx.checkf(equality ? std::fabs(std::fabs(got[i]) - std::fabs(exp[i])) <= tol : std::fabs(got[i] - exp[i]) <= tol, "comparison",
                   [&] { return fmt("%s: row %d is %.9g from its bound, it should be %.9g", what, i, got[i], exp[i]); });
    }
  }

  void push(FWorld& w, Expression e, RefE ref, Rng& r, Ctx& ctx, const char* what)
  {
    same(w, e, ref, r, ctx, what);
    ctx.hit("expressions");
    if (ref.rows() == 0 || ref.rows() > 10 || ref.A.cwiseAbs().maxCoeff() > 1e4 || ref.b.cwiseAbs().maxCoeff() > 1e4)
      return;
    if (w.pool.size() >= 14)
      w.pool.erase(w.pool.begin() + r.range(w.pool.size()));
    w.pool.push_back({ e, ref });
  }

  int new_var(FWorld& w, Variable& v, int size)
  {
    w.vars.push_back(&v);
    w.k0.push_back(w.n);
    w.sz.push_back(size);
    w.solved.push_back(0);
    w.n += size;
    return w.vars.size() - 1;
  }

  RefE ref_var(FWorld& w, int v, int start, int rows)
  {
    RefE e;
    e.A = MatrixXd::Zero(rows, MAXV);
    e.b = VectorXd::Zero(rows);
    for (int i = 0; i < rows; i++)
      e.A(i, w.k0[v] + start + i) = 1;
    return e;
  }

  static bool broadcast(const RefE& a)
  {
    return a.constant && a.rows() == 1;
  }
  // no variable in it, but not known to be constant: whether it mixes with other sizes is not specified
  static bool unsure(const RefE& a)
  {
    return a.rows() == 1 && !a.constant && a.A.isZero();
  }
  static RefE spread(const RefE& a, int n)
  {
    if (a.rows() == n)
      return a;
    RefE e;
    e.A = a.A.replicate(n, 1);
    e.b = a.b.replicate(n, 1);
    e.constant = a.constant;
    return e;
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng cfg(plan.config);
    mem::begin(mem::random_env(cfg));
    {
      FWorld w;
      w.pb.use_sparsity = cfg.chance(0.5);
      w.pb.rewrite_equalities = cfg.chance(0.5);
      for (auto& ev : plan.ev)
      {
        ctx.steps++;
        ctx.mixs(ev.kind);
        step(w, ev, ctx);
        ctx.check(!mem::error(), "heap", std::string("heap corrupted after ") + ev.kind + ": " + (mem::error() ? mem::error() : ""));
        Rng r(ev.sub ^ 77);
        // what exists keeps its meaning
        if (w.pool.size())
        {
          Item& it = w.pool[r.range(w.pool.size())];
          same(w, it.e, it.r, r, ctx, "an expression built earlier");
        }
        if (w.copies.size())
        {
          Copy& c = w.copies[r.range(w.copies.size())];
          check_values(w, c.r, c.x, r, ctx, "a trajectory taken earlier", [&](double t, int d) { return c.tr.value(t, d); });
        }
        ctx.state(fmt("%s n%d p%d i%d l%d c%d %s", ev.kind.c_str(), (int)w.vars.size(), (int)w.pool.size() / 4, (int)w.integs.size(),
                      (int)w.lipms.size(), (int)w.copies.size(), ev.fault.c_str()));
      }
    }
    mem::end();
  }

  // value(t, diff) against the affine map applied to the solved values
  template <class F>
  void check_values(FWorld& w, const RefInteg& in, const VectorXd& x, Rng& r, Ctx& ctx, const char* what, F value)
  {
    double T = in.N * in.dt;
    for (int k = 0; k < 3; k++)
    {
      double t = r.chance(0.2) ? in.dt * r.between(0, in.N) : (r.chance(0.15) ? r.uni(-0.5, T + 0.5) : r.uni(0, T));
      double tc = std::max(0., std::min(T, t));
      int d = r.between(0, in.order);
      double exp;
      if (d == in.order)
      {
        double u = tc / in.dt;
        if (std::fabs(u - std::round(u)) < 1e-6 && std::round(u) > 0 && std::round(u) < in.N)
          continue;  // the command steps there
        int s = std::max(0, std::min(in.N - 1, (int)std::floor(u)));
        exp = x[in.k_start + s];
      }
      else
        exp = in.state(tc).at(x)[d];
      double got = value(in.t0 + t, d);
      double scale = 1 + in.state(tc).at(x).cwiseAbs().sum() + x.cwiseAbs().maxCoeff();
      ctx.checkf(std::fabs(got - exp) < 1e-7 * scale, "trajectory", [&] {
        return fmt("%s (order %d, %d steps of %.3f s from %.3f): derivative %d at t=%.5f is %.9g, the solved values give %.9g", what, in.order,
                   in.N, in.dt, in.t0, d, in.t0 + t, got, exp);
      });
      ctx.hit("trajectory-values");
    }
  }

  bool ready(FWorld& w, const RefInteg& in)
  {
    if (in.k_start + in.N > w.x.size())
      return false;
    // the initial state may depend on variables that are not solved yet
    for (int c = w.x.size(); c < MAXV; c++)
      if (in.x0.A.col(c).cwiseAbs().maxCoeff() > 0)
        return false;
    return true;
  }

  void same_sparsity(Sparsity& s, const std::vector<char>& cols, Ctx& ctx, const char* what)
  {
    int last = -1;
    std::vector<char> got(cols.size(), 0);
    for (auto& i : s.intervals)
    {
      ctx.checkf(i.start > last && i.end >= i.start && i.end < (int)cols.size(), "sparsity-order",
                 [&] { return fmt("%s: interval [%d, %d] overlaps another one or is out of order", what, i.start, i.end); });
      for (int c = i.start; c <= i.end; c++)
        got[c] = 1;
      last = i.end;
    }
    for (int c = 0; c < (int)cols.size(); c++)
      ctx.checkf(got[c] == cols[c], "sparsity-columns",
                 [&] { return fmt("%s: column %d is %s the pattern", what, c, got[c] ? "wrongly in" : "missing from"); });
  }

  // Column patterns, against sets of columns
  void sparsity(FWorld&, Rng& r, Ctx& ctx)
  {
    int n = r.between(1, 40);
    Sparsity s[2];
    std::vector<char> cols[2];
    for (int k = 0; k < 2; k++)
    {
      cols[k].assign(n, 0);
      if (r.chance(0.3))
      {
        // from a matrix
        double density = r.uni(0, 1);
        MatrixXd M = MatrixXd::Zero(r.between(1, 6), n);
        for (int c = 0; c < n; c++)
          if (r.chance(density))
          {
            M(r.range(M.rows()), c) = r.uni(0.5, 2) * (r.chance(0.5) ? 1 : -1);
            cols[k][c] = 1;
          }
        s[k] = Sparsity::detect_columns_sparsity(M);
        same_sparsity(s[k], cols[k], ctx, "detected pattern");
      }
      int m = r.between(0, 8);
      for (int i = 0; i < m; i++)
      {
        int a = r.range(n), len = r.chance(0.7) ? r.between(0, 4) : r.between(0, n);
        int b = std::min(n - 1, a + len);
        s[k].add_interval(a, b);
        for (int c = a; c <= b; c++)
          cols[k][c] = 1;
        same_sparsity(s[k], cols[k], ctx, "pattern after add_interval");
      }
    }
    Sparsity sum = s[0] + s[1];
    std::vector<char> both(n);
    for (int c = 0; c < n; c++)
      both[c] = cols[0][c] || cols[1][c];
    same_sparsity(sum, both, ctx, "sum of two patterns");
    same_sparsity(s[0], cols[0], ctx, "left operand after the sum");
    same_sparsity(s[1], cols[1], ctx, "right operand after the sum");
  }

  void step(FWorld& w, const Event& ev, Ctx& ctx)
  {
    Rng r(ev.sub);
    const std::string& k = ev.kind;
    if (k == "var")
    {
      int s = r.between(1, 6);
      if (w.n + s > MAXV - 2)
        return;
      new_var(w, w.pb.add_variable(s), s);
    }
    else if (k == "leaf")
    {
      int c = r.range(5);
      if (w.vars.empty() || c == 0)
      {
        VectorXd v = vec(r, r.between(1, 5));
        push(w, r.chance(0.5) ? Expression::from_vector(v) : Expression(v), ref_const(v), r, ctx, "a constant");
      }
      else if (c == 1)
      {
        double f = r.uni(-2, 2);
        push(w, Expression::from_double(f), ref_const(VectorXd::Constant(1, f)), r, ctx, "a scalar constant");
      }
      else
      {
        int v = r.range(w.vars.size());
        if (c == 2)
          push(w, w.vars[v]->expr(), ref_var(w, v, 0, w.sz[v]), r, ctx, "a variable");
        else
        {
          int st = r.range(w.sz[v]);
          if (c == 3)
            push(w, w.vars[v]->expr(st), ref_var(w, v, st, w.sz[v] - st), r, ctx, "the end of a variable");
          else if (r.chance(0.15))
          {
            // a part that is not in the variable
            int n = w.sz[v] - st + r.between(1, 3);
            bool threw = false;
            try
            {
              w.vars[v]->expr(st, n);
            }
            catch (const std::runtime_error&)
            {
              threw = true;
            }
            ctx.counters["out-of-range"]++;
            ctx.check(threw, "bounds", "a variable of " + std::to_string(w.sz[v]) + " gave its rows " + std::to_string(st) + " to " + std::to_string(st + n - 1));
          }
          else
          {
            int n = r.between(1, w.sz[v] - st);
            push(w, w.vars[v]->expr(st, n), ref_var(w, v, st, n), r, ctx, "a part of a variable");
          }
        }
      }
    }
    else if (k == "arith" && w.pool.size())
    {
      Item a = w.pool[r.range(w.pool.size())];
      Item b = w.pool[r.range(w.pool.size())];
      for (int t = 0; t < 4 && b.r.rows() != a.r.rows(); t++)
        b = w.pool[r.range(w.pool.size())];
      int n = a.r.rows();
      switch (r.range(10))
      {
        case 0:
        case 1:
        case 2:
        {
          bool minus = r.chance(0.5);
          if (a.r.rows() != b.r.rows() && (unsure(a.r) || unsure(b.r)))
            break;
          bool ok = a.r.rows() == b.r.rows() || broadcast(a.r) || broadcast(b.r);
          bool threw = false;
          Expression e;
          try
          {
            e = minus ? a.e - b.e : a.e + b.e;
          }
          catch (const std::runtime_error&)
          {
            threw = true;
          }
          ctx.check(threw == !ok, "mismatch", ok ? "adding compatible expressions was refused" : "adding expressions of different sizes was accepted");
          if (ok)
          {
            int m = std::max(a.r.rows(), b.r.rows());
            push(w, e, add(spread(a.r, m), spread(b.r, m), minus ? -1 : 1), r, ctx, minus ? "a - b" : "a + b");
          }
          break;
        }
        case 3:
        {
          VectorXd v = vec(r, n);
          push(w, a.e + v, add(a.r, ref_const(v)), r, ctx, "e + vector");
          break;
        }
        case 4:
        {
          VectorXd v = vec(r, n);
          push(w, v + a.e, add(a.r, ref_const(v)), r, ctx, "vector + e");
          break;
        }
        case 5:
        {
          VectorXd v = vec(r, n);
          push(w, a.e - v, add(a.r, ref_const(v), -1), r, ctx, "e - vector");
          break;
        }
        case 6:
        {
          VectorXd v = vec(r, n);
          push(w, v - a.e, add(ref_const(v), a.r, -1), r, ctx, "vector - e");
          break;
        }
        case 7:
        {
          double f = r.uni(-2, 2);
          bool left = r.chance(0.5);
          push(w, left ? f + a.e : a.e + f, add(a.r, ref_const(VectorXd::Constant(n, f))), r, ctx, "e + number");
          break;
        }
        case 8:
        {
          double f = r.uni(-2, 2);
          push(w, a.e - f, add(a.r, ref_const(VectorXd::Constant(n, f)), -1), r, ctx, "e - number");
          break;
        }
        default:
        {
          double f = r.uni(-2, 2);
          push(w, f - a.e, add(ref_const(VectorXd::Constant(n, f)), a.r, -1), r, ctx, "number - e");
        }
      }
    }
    else if (k == "scale" && w.pool.size())
    {
      Item a = w.pool[r.range(w.pool.size())];
      int n = a.r.rows();
      switch (r.range(5))
      {
        case 0:
        {
          double f = r.uni(-2, 2);
          bool left = r.chance(0.5);
          push(w, left ? f * a.e : a.e * f, (f * MatrixXd::Identity(n, n)) * a.r, r, ctx, "e * number");
          break;
        }
        case 1:
          push(w, -a.e, (-MatrixXd::Identity(n, n)) * a.r, r, ctx, "-e");
          break;
        case 2:
        {
          int m = r.between(1, 4);
          MatrixXd M(m, n);
          for (int i = 0; i < M.size(); i++)
            M.data()[i] = r.uni(-1, 1);
          bool l = r.chance(0.5);
          push(w, l ? a.e.left_multiply(M) : M * a.e, M * a.r, r, ctx, "matrix * e");
          break;
        }
        default:
        {
          Item b = w.pool[r.range(w.pool.size())];
          if (r.chance(0.6))
          {
            // a product that exists: scalar times constant
            VectorXd v = vec(r, r.between(1, 4));
            b.e = Expression::from_vector(v);
            b.r = ref_const(v);
            int i = r.range(n);
            a.e = a.e.slice(i, 1);
            a.r = row(a.r, i);
            if (r.chance(0.5))
              std::swap(a, b);
          }
          bool ok1 = a.r.rows() == 1 && b.r.constant, ok2 = b.r.rows() == 1 && a.r.constant;
          bool threw = false;
          Expression e;
          try
          {
            e = a.e * b.e;
          }
          catch (const std::runtime_error&)
          {
            threw = true;
          }
          // (an expression multiplied by a null matrix has no variable, but is not known to be constant)
          if (a.r.A.isZero() != a.r.constant || b.r.A.isZero() != b.r.constant)
            break;
          ctx.check(threw == !(ok1 || ok2), "mismatch",
                    threw ? "the product of a scalar and a constant was refused" : "a product that is not linear was accepted");
          if (ok1)
          {
            RefE p;
            p.A = b.r.b * a.r.A.row(0);
            p.b = b.r.b * a.r.b[0];
            p.constant = a.r.constant;
            push(w, e, p, r, ctx, "scalar * constant");
          }
          else if (ok2)
          {
            RefE p;
            p.A = a.r.b * b.r.A.row(0);
            p.b = a.r.b * b.r.b[0];
            p.constant = b.r.constant;
            push(w, e, p, r, ctx, "constant * scalar");
          }
        }
      }
    }
    else if (k == "sparsity")
      sparsity(w, r, ctx);
    else if (k == "shape" && w.pool.size())
    {
      Item a = w.pool[r.range(w.pool.size())];
      int n = a.r.rows();
      switch (r.range(4))
      {
        case 0:
        {
          int s = r.range(n), m = r.between(1, n - s);
          bool tail = r.chance(0.3);
          if (r.chance(0.1))
          {
            bool threw = false;
            try
            {
              Expression e = a.e.slice(s, n - s + r.between(1, 3));
            }
            catch (const std::runtime_error&)
            {
              threw = true;
            }
            ctx.counters["out-of-range"]++;
            ctx.check(threw, "bounds", "rows past the end of an expression were given");
            break;
          }
          push(w, tail ? a.e.slice(s) : a.e.slice(s, m), row(a.r, s, tail ? n - s : m), r, ctx, "a slice");
          break;
        }
        case 1:
        {
          Item b = w.pool[r.range(w.pool.size())];
          RefE s;
          s.A.resize(n + b.r.rows(), MAXV);
          s.A << a.r.A, b.r.A;
          s.b.resize(n + b.r.rows());
          s.b << a.r.b, b.r.b;
          s.constant = a.r.constant && b.r.constant;
          push(w, a.e / b.e, s, r, ctx, "stacked expressions");
          break;
        }
        case 2:
          push(w, a.e.sum(), MatrixXd::Ones(1, n) * a.r, r, ctx, "the sum of the rows");
          break;
        default:
          push(w, a.e.mean(), (MatrixXd::Ones(1, n) / n) * a.r, r, ctx, "the mean of the rows");
      }
    }
    else if (k == "cmp" && w.pool.size())
    {
      Item a = w.pool[r.range(w.pool.size())];
      int n = a.r.rows();
      double f = r.uni(-2, 2);
      VectorXd v = vec(r, n);
      RefE rf = ref_const(VectorXd::Constant(n, f)), rv = ref_const(v);
      Item b = w.pool[r.range(w.pool.size())];
      switch (r.range(13))
      {
        case 0: same_cmp(w, a.e >= f, add(a.r, rf, -1), false, r, ctx, "e >= number"); break;
        case 1: same_cmp(w, a.e <= f, add(rf, a.r, -1), false, r, ctx, "e <= number"); break;
        case 2: same_cmp(w, f >= a.e, add(rf, a.r, -1), false, r, ctx, "number >= e"); break;
        case 3: same_cmp(w, f <= a.e, add(a.r, rf, -1), false, r, ctx, "number <= e"); break;
        case 4: same_cmp(w, a.e >= v, add(a.r, rv, -1), false, r, ctx, "e >= vector"); break;
        case 5: same_cmp(w, a.e <= v, add(rv, a.r, -1), false, r, ctx, "e <= vector"); break;
        case 6: same_cmp(w, v >= a.e, add(rv, a.r, -1), false, r, ctx, "vector >= e"); break;
        case 7: same_cmp(w, v <= a.e, add(a.r, rv, -1), false, r, ctx, "vector <= e"); break;
        case 8: same_cmp(w, a.e == v, add(a.r, rv, -1), true, r, ctx, "e == vector"); break;
        case 9: same_cmp(w, a.e == f, add(a.r, rf, -1), true, r, ctx, "e == number"); break;
        default:
        {
          int c = r.range(3);
          if (b.r.rows() != n && (unsure(a.r) || unsure(b.r)))
            break;
          bool ok = b.r.rows() == n || broadcast(a.r) || broadcast(b.r), threw = false;
          ProblemConstraint pc;
          try
          {
            pc = c == 0 ? a.e >= b.e : (c == 1 ? a.e <= b.e : a.e == b.e);
          }
          catch (const std::runtime_error&)
          {
            threw = true;
          }
          ctx.check(threw == !ok, "mismatch", ok ? "comparing compatible expressions was refused" : "comparing expressions of different sizes was accepted");
          if (ok)
          {
            int m = std::max(n, b.r.rows());
            RefE x = spread(a.r, m), y = spread(b.r, m);
            same_cmp(w, pc, c == 1 ? add(y, x, -1) : add(x, y, -1), c == 2, r, ctx, "e compared to e");
          }
        }
      }
      ctx.hit("comparisons");
    }
    else if (k == "integ")
    {
      int order = r.between(1, 4), N = r.between(1, 6);
      if (w.n + N > MAXV - 2 || w.integs.size() >= 5)
        return;
      Integ in;
      RefInteg& R = in.r;
      R.order = order;
      R.N = N;
      R.dt = r.uni(0.02, 0.5);
      R.t0 = r.chance(0.5) ? 0. : r.uni(-3, 3);
      Variable& v = w.pb.add_variable(N);
      R.k_start = w.n;
      R.var = new_var(w, v, N);
      R.M = MatrixXd::Zero(order + 1, order + 1);
      for (int i = 0; i < order; i++)
        R.M(i, i + 1) = 1;
      bool custom = r.chance(0.3);
      if (custom)
        for (int i = 0; i < order; i++)
          for (int j = 0; j <= order; j++)
            if (r.chance(0.5))
              R.M(i, j) = r.uni(-2, 2);
      Expression x0;
      std::vector<int> cand, chain;
      for (size_t i = 0; i < w.pool.size(); i++)
        if (w.pool[i].r.rows() == order)
          cand.push_back(i);
      for (size_t i = 0; i < w.integs.size(); i++)
        if (w.integs[i].r.order == order)
          chain.push_back(i);
      if (chain.size() && r.chance(0.5))
      {
        Integ& p = w.integs[r.pick(chain)];
        x0 = p.in->expr(-1);
        R.x0 = p.r.at_step(p.r.N);
        ctx.hit("chained");
      }
      else if (cand.size() && r.chance(0.5))
      {
        int i = r.pick(cand);
        x0 = w.pool[i].e;
        R.x0 = w.pool[i].r;
      }
      else
      {
        VectorXd c = vec(r, order, 1);
        x0 = Expression::from_vector(c);
        R.x0 = ref_const(c);
      }
      if (R.x0.A.cwiseAbs().maxCoeff() > 1e3)
        return;
      if (r.chance(0.1))
      {
        bool threw = false;
        try
        {
          Integrator bad(v, Expression::from_vector(VectorXd::Zero(order + 1)), order, R.dt);
        }
        catch (const std::runtime_error&)
        {
          threw = true;
        }
        ctx.check(threw, "mismatch", "an integrator accepted an initial state of the wrong size");
      }
      in.in.reset(custom ? new Integrator(v, x0, R.M, R.dt) : new Integrator(v, x0, order, R.dt));
      in.in->t_start = R.t0;
      w.integs.push_back(std::move(in));
    }
    else if (k == "iexpr" && w.integs.size())
    {
      Integ& in = w.integs[r.range(w.integs.size())];
      RefInteg& R = in.r;
      if (r.chance(0.1))
      {
        // outside of what exists
        bool threw = false;
        int c = r.range(4);
        try
        {
          if (c == 0)
            in.in->expr(R.N + r.between(1, 3), r.between(-1, R.order));
          else if (c == 1)
            in.in->expr(-r.between(2, 4), 0);
          else if (c == 2)
            in.in->expr(r.between(0, R.N), R.order + 1);
          else
            in.in->expr_t(R.t0 + r.uni(0, R.N * R.dt), r.chance(0.5) ? R.order + 1 : -2);
        }
        catch (const std::runtime_error&)
        {
          threw = true;
        }
        ctx.check(threw, "bounds", "an integrator gave an expression for a step or derivative that does not exist");
      }
      else if (r.chance(0.5))
      {
        int s = r.between(-1, R.N), d = r.between(-1, R.order);
        int rs = s < 0 ? R.N : s;
        Expression e = in.in->expr(s, d);
        RefE ref;
        if (d == R.order)
          ref = R.command(std::min(rs, R.N - 1));
        else
          ref = d < 0 ? R.at_step(rs) : row(R.at_step(rs), d);
        ref.constant = false;
        push(w, e, ref, r, ctx, "the state of an integrator at a step");
      }
      else
      {
        double t = r.uni(0, R.N * R.dt);
        int d = r.between(-1, R.order);
        double u = t / R.dt;
        if (d == R.order && std::fabs(u - std::round(u)) < 1e-6)
          return;
        Expression e = in.in->expr_t(R.t0 + t, d);
        RefE ref = d == R.order ? R.command(std::min(R.N - 1, (int)std::floor(u))) : R.state(t);
        if (d >= 0 && d < R.order)
          ref = row(ref, d);
        ref.constant = false;
        push(w, e, ref, r, ctx, "the state of an integrator at a time");
      }
    }
    else if (k == "retime" && w.integs.size())
    {
      Integ& in = w.integs[r.range(w.integs.size())];
      in.r.t0 = r.uni(-3, 3);
      in.in->t_start = in.r.t0;
      ctx.hit("retimed");
    }
    else if (k == "solve")
    {
      solve(w, ev, r, ctx);
    }
    else if (k == "ivalue" && w.integs.size())
    {
      Integ& in = w.integs[r.range(w.integs.size())];
      RefInteg& R = in.r;
      if (!w.solved[R.var])
      {
        bool threw = false;
        try
        {
          if (r.chance(0.5))
            in.in->value(R.t0, 0);
          else
            in.in->get_trajectory();
        }
        catch (const std::runtime_error&)
        {
          threw = true;
        }
        ctx.check(threw, "unsolved", "an integrator gave the value of a variable that was never solved");
        return;
      }
      if (!ready(w, R))
        return;
      check_values(w, R, w.x, r, ctx, "an integrator", [&](double t, int d) { return in.in->value(t, d); });
      if (r.chance(0.5))
      {
        Integrator::Trajectory tr = in.in->get_trajectory();
        check_values(w, R, w.x, r, ctx, "a trajectory", [&](double t, int d) { return tr.value(t, d); });
        ctx.checkf(std::fabs(tr.duration() - R.N * R.dt) < 1e-9, "duration", [&] {
          return fmt("a trajectory of %d steps of %.4f s says it lasts %.4f s", R.N, R.dt, tr.duration());
        });
        if (w.copies.size() > 4)
          w.copies.erase(w.copies.begin());
        w.copies.push_back({ tr, R, w.x });
      }
    }
    else if (k == "polynom" && w.vars.size())
    {
      int v = r.range(w.vars.size());
      ProblemPolynom p(*w.vars[v]);
      int n = w.sz[v], d = r.between(0, std::min(n, 3));
      double x = r.uni(-2, 2);
      RefE ref;
      ref.A = MatrixXd::Zero(1, MAXV);
      ref.b = VectorXd::Zero(1);
      for (int i = 0; i < n; i++)
      {
        int deg = n - 1 - i;
        double c = 1;
        for (int j = 0; j < d; j++)
          c *= deg - j;
        if (deg >= d)
          ref.A(0, w.k0[v] + i) = c * std::pow(x, deg - d);
      }
      ref.constant = false;
        push(w, p.expr(x, d), ref, r, ctx, "a polynom");
      if (w.solved[v])
      {
        double got = p.get_polynom().value(x, d);
        VectorXd xs = VectorXd::Zero(MAXV);
        xs.head(w.x.size()) = w.x;
        double exp = ref.at(xs)[0];
        ctx.checkf(std::fabs(got - exp) < 1e-8 * (1 + ref.A.cwiseAbs().sum() * w.x.cwiseAbs().maxCoeff()), "polynom", [&] {
          return fmt("derivative %d of a solved polynom at %.4f is %.9g, its coefficients give %.9g", d, x, got, exp);
        });
        ctx.hit("polynom-values");
      }
    }
    else if (k == "lipm")
    {
      int N = r.between(1, 5);
      if (w.n + 2 * N > MAXV - 2 || w.lipms.size() >= 4)
        return;
      Lip l;
      for (RefInteg* R : { &l.x, &l.y })
      {
        R->order = 3;
        R->N = N;
        R->M = MatrixXd::Zero(4, 4);
        R->M(0, 1) = R->M(1, 2) = R->M(2, 3) = 1;
      }
      double dt = r.uni(0.02, 0.3);
      if (w.lipms.size() && r.chance(0.6))
      {
        Lip& p = w.lipms.back();
        double t0 = p.x.t0 + p.x.N * p.x.dt;
        if (r.chance(0.5))
          l.l.reset(new placo::humanoid::LIPM(w.pb, dt, N, t0, *p.l));
        else
          l.l.reset(new placo::humanoid::LIPM(placo::humanoid::LIPM::build_LIPM_from_previous(w.pb, dt, N, t0, *p.l)));
        l.x.x0 = p.x.at_step(p.x.N);
        l.y.x0 = p.y.at_step(p.y.N);
        l.x.t0 = l.y.t0 = t0;
      }
      else
      {
        VectorXd a = vec(r, 3, 1), b = vec(r, 3, 1);
        double t0 = r.uni(-2, 2);
        l.l.reset(new placo::humanoid::LIPM(w.pb, dt, N, t0, Vector2d(a[0], b[0]), Vector2d(a[1], b[1]), Vector2d(a[2], b[2])));
        l.x.x0 = ref_const(a);
        l.y.x0 = ref_const(b);
        l.x.t0 = l.y.t0 = t0;
      }
      l.x.dt = l.y.dt = dt;
      l.x.k_start = w.n;
      l.x.var = new_var(w, *l.l->x_var, N);
      l.y.k_start = w.n;
      l.y.var = new_var(w, *l.l->y_var, N);
      ctx.checkf(std::fabs(l.l->t_end() - (l.x.t0 + N * dt)) < 1e-9, "lipm", [&] { return fmt("a LIPM ends at %.5f", l.l->t_end()); });
      w.lipms.push_back(std::move(l));
    }
    else if (k == "lquery" && w.lipms.size())
    {
      Lip& l = w.lipms[r.range(w.lipms.size())];
      double om = r.uni(2, 7);
      auto comb = [&](double c0, double c1, double c2, double c3, double t, int s) {
        // c0 pos + c1 vel + c2 acc + c3 jerk at time t (from the start), s: step of the command
        RefE out;
        out.A = MatrixXd::Zero(2, MAXV);
        out.b = VectorXd::Zero(2);
        int i = 0;
        for (RefInteg* R : { &l.x, &l.y })
        {
          RefE st = t == 0 ? R->x0 : R->state(t);
          MatrixXd c(1, 3);
          c << c0, c1, c2;
          RefE e = c * st;
          if (c3 != 0)
            e = add(e, R->command(s), c3);
          out.A.row(i) = e.A;
          out.b[i] = e.b[0];
          i++;
        }
        return out;
      };
      const double C[7][4] = { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 }, { 1, 1 / om, 0, 0 }, { 1, 0, -1 / (om * om), 0 },
                               { 0, 1, 0, -1 / (om * om) } };
      const char* names[7] = { "pos", "vel", "acc", "jerk", "dcm", "zmp", "dzmp" };
      int q = r.range(7);
      const double* c = C[q];
      if (r.chance(0.5))
      {
        int s = r.between(0, l.x.N);
        Expression e = q == 0 ? l.l->pos(s) : q == 1 ? l.l->vel(s) : q == 2 ? l.l->acc(s) : q == 3 ? l.l->jerk(s) :
                       q == 4 ? l.l->dcm(s, om) : q == 5 ? l.l->zmp(s, om * om) : l.l->dzmp(s, om * om);
        RefE lr = comb(c[0], c[1], c[2], c[3], s * l.x.dt, std::min(s, l.x.N - 1));
        lr.constant = false;
        push(w, e, lr, r, ctx, names[q]);
      }
      else if (w.solved[l.x.var] && w.solved[l.y.var] && ready(w, l.x) && ready(w, l.y))
      {
        auto tr = l.l->get_trajectory();
        double t = r.uni(0, l.x.N * l.x.dt), u = t / l.x.dt, T = l.x.t0 + t;
        if (std::fabs(u - std::round(u)) < 1e-6)
          return;
        VectorXd got = q == 0 ? tr.pos(T) : q == 1 ? tr.vel(T) : q == 2 ? tr.acc(T) : q == 3 ? tr.jerk(T) :
                       q == 4 ? tr.dcm(T, om) : q == 5 ? tr.zmp(T, om * om) : tr.dzmp(T, om * om);
        VectorXd exp = comb(c[0], c[1], c[2], c[3], t, (int)std::floor(u)).at(w.x);
        double scale = 1 + w.x.cwiseAbs().maxCoeff() + exp.cwiseAbs().maxCoeff();
        ctx.checkf((got - exp).cwiseAbs().maxCoeff() < 1e-6 * scale, "lipm", [&] {
          return fmt("%s of a LIPM trajectory at %.5f is %.9g, %.9g, the solved values give %.9g, %.9g", names[q], T, got[0], got[1], exp[0], exp[1]);
        });
        ctx.hit("lipm-values");
      }
    }
  }

  void solve(FWorld& w, const Event& ev, Rng& r, Ctx& ctx)
  {
    if (w.vars.empty())
      return;
    w.pb.clear_constraints();
    for (size_t v = 0; v < w.vars.size(); v++)
      w.pb.add_constraint(w.vars[v]->expr() == vec(r, w.sz[v], 1)).configure(ProblemConstraint::Soft, r.uni(0.5, 2));
    if (w.pool.size() && r.chance(0.5))
    {
      Item& it = w.pool[r.range(w.pool.size())];
      w.pb.add_constraint(it.e == vec(r, it.r.rows(), 1)).configure(ProblemConstraint::Soft, r.uni(0.1, 2));
    }
    qp::Fault qf = qp::fault_from(ev.fault);
    if (qf != qp::None)
      qp::arm(qf, 1);
    bool ok = true;
    try
    {
      w.pb.solve();
    }
    catch (const QPError&)
    {
      ok = false;
    }
    catch (const std::exception&)
    {
      ok = false;
    }
    bool fired = qp::disarm();
    if (fired)
      ctx.fault(ev.fault);
    if (!ok)
    {
      ctx.check(fired, "refused", "a problem without any hard constraint was refused");
      ctx.hit("solve-failed");
    }
    else
    {
      w.x = VectorXd::Zero(w.n);
      for (size_t v = 0; v < w.vars.size(); v++)
      {
        w.x.segment(w.k0[v], w.sz[v]) = w.vars[v]->value;
        w.solved[v] = 1;
      }
      ctx.hit("solve-ok");
    }
    // what the expressions say of the solution
    if (w.x.size())
      for (auto& it : w.pool)
        if (it.e.cols() <= w.x.size() && r.chance(0.5))
        {
          VectorXd got = it.e.value(w.pb.x), exp = it.r.at(w.x);
          ctx.checkf((got - exp).cwiseAbs().maxCoeff() < 1e-8 * (1 + it.r.A.cwiseAbs().sum() * (1 + w.x.cwiseAbs().maxCoeff()) + it.r.b.norm()),
                     "solution", [&] { return fmt("an expression is worth %.9g at the solution, the variables give %.9g", got[0], exp[0]); });
        }
  }
};
SIM_SCENARIO("formula", Formula);

// ------------------------------------------------------------------------------------------------ curves
double wrap(double a)
{
  return std::remainder(a, 2 * M_PI);
}

struct RefSpline
{
  bool angular = false;
  struct P
  {
    double t, x, dx;
  };
  std::vector<P> p;
  void add(double t, double x, double dx)
  {
    if (angular && p.size())
      x = p.back().x + wrap(x - p.back().x);
    p.push_back({ t, x, dx });
  }
  bool knot(double t) const
  {
    for (auto& q : p)
      if (std::fabs(q.t - t) < 1e-9)
        return true;
    return false;
  }
  // Hermite interpolation
  double at(double t, int d) const
  {
    if (p.size() == 1)
      return p[0].x;
    size_t i = 1;
    while (i + 1 < p.size() && t > p[i].t)
      i++;
    const P &a = p[i - 1], &b = p[i];
    double h = b.t - a.t, s = std::max(0., std::min(1., (t - a.t) / h));
    double s2 = s * s, s3 = s2 * s;
    if (d == 0)
      return (2 * s3 - 3 * s2 + 1) * a.x + (s3 - 2 * s2 + s) * h * a.dx + (-2 * s3 + 3 * s2) * b.x + (s3 - s2) * h * b.dx;
    if (d == 1)
      return ((6 * s2 - 6 * s) * a.x + (3 * s2 - 4 * s + 1) * h * a.dx + (-6 * s2 + 6 * s) * b.x + (3 * s2 - 2 * s) * h * b.dx) / h;
    return ((12 * s - 6) * a.x + (6 * s - 4) * h * a.dx + (-12 * s + 6) * b.x + (6 * s - 2) * h * b.dx) / (h * h);
  }
  double scale() const
  {
    double m = 1;
    for (size_t i = 1; i < p.size(); i++)
    {
      double h = p[i].t - p[i - 1].t;
      m = std::max(m, (std::fabs(p[i].x) + std::fabs(p[i - 1].x) + std::fabs(p[i].dx) + std::fabs(p[i - 1].dx)) / (h * h));
    }
    return m;
  }
};

struct CWorld
{
  struct S
  {
    placo::tools::CubicSpline s;
    RefSpline r;
  };
  struct S3
  {
    placo::tools::CubicSpline3D s;
    RefSpline r[3];
  };
  std::vector<S> sp;
  std::vector<S3> sp3;
  // swing feet: a curve, retargeted while in flight
  struct Sw
  {
    placo::humanoid::SwingFoot::Trajectory tr;
    Vector3d start, target;
    double t0, t1, height, since;
  };
  std::vector<Sw> sw;
};

struct Curves : Scenario
{
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> kinds = { "new", "point", "badpoint", "query", "clear", "copy", "duration", "swing", "retarget", "swing-cubic",
                                       "swing-quintic", "polynom" };
    std::vector<double> w = { 1, 6, 1, 6, 0.6, 0.8, 1.5, 1, 2, 1, 1, 0.5 };
    for (auto& x : w)
      if (r.chance(0.25))
        x *= r.chance(0.5) ? 0 : 3;
    w[1] = std::max(w[1], 2.);
    int n = r.between(10, thorough ? 80 : 40);
    p.ev.push_back({ "new", r.next(), "-" });
    for (int i = 0; i < n; i++)
      p.ev.push_back({ kinds[r.weighted(w)], r.next(), "-" });
    return p;
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng cfg(plan.config);
    mem::begin(mem::random_env(cfg));
    {
      CWorld w;
      for (auto& ev : plan.ev)
      {
        ctx.steps++;
        ctx.mixs(ev.kind);
        step(w, ev, ctx);
        ctx.check(!mem::error(), "heap", std::string("heap corrupted after ") + ev.kind + ": " + (mem::error() ? mem::error() : ""));
        int np = 0;
        for (auto& s : w.sp)
          np += s.r.p.size();
        ctx.state(fmt("%s %d %d %d p%d", ev.kind.c_str(), (int)w.sp.size(), (int)w.sp3.size(), (int)w.sw.size(), np / 2));
      }
      // every spline keeps its meaning until the end
      Rng r(plan.config ^ 5);
      for (auto& s : w.sp)
        query(s.s, s.r, r, ctx, 3);
    }
    mem::end();
  }

  void query(placo::tools::CubicSpline& s, const RefSpline& ref, Rng& r, Ctx& ctx, int n)
  {
    if (ref.p.empty())
    {
      placo::tools::CubicSpline fresh(ref.angular);
      double t = r.uni(-1, 1);
      ctx.check(s.pos(t) == fresh.pos(t) && s.vel(t) == fresh.vel(t), "cleared", "a cleared spline does not answer as a new one");
      return;
    }
    double T0 = ref.p.front().t, T1 = ref.p.back().t;
    for (int k = 0; k < n; k++)
    {
      double t = r.chance(0.3) ? ref.p[r.range(ref.p.size())].t : (r.chance(0.15) ? r.uni(T0 - 1, T1 + 1) : r.uni(T0, T1));
      int d = ref.p.size() < 2 ? 0 : r.range(3);
      if ((d == 2 && ref.knot(t)) || (d > 0 && (t < T0 || t > T1)))
        d = 0;
      double got = d == 0 ? s.pos(t) : d == 1 ? s.vel(t) : s.acc(t);
      double exp = ref.at(std::max(T0, std::min(T1, t)), d);
      ctx.mixd(got);
      ctx.checkf(std::fabs(got - exp) < 1e-6 * ref.scale(), "spline", [&] {
        return fmt("derivative %d of a%s spline of %d points at t=%.5f is %.9g, it should be %.9g", d, ref.angular ? "n angular" : "", (int)ref.p.size(), t,
                   got, exp);
      });
      ctx.hit("spline-values");
    }
  }

  void step(CWorld& w, const Event& ev, Ctx& ctx)
  {
    Rng r(ev.sub);
    const std::string& k = ev.kind;
    if (k == "new")
    {
      if (r.chance(0.3))
      {
        if (w.sp3.size() < 3)
          w.sp3.emplace_back();
      }
      else if (w.sp.size() < 5)
      {
        bool a = r.chance(0.5);
        w.sp.push_back({ placo::tools::CubicSpline(a), RefSpline() });
        w.sp.back().r.angular = a;
      }
    }
    else if (k == "point" || k == "badpoint")
    {
      bool bad = k == "badpoint";
      if (w.sp3.size() && r.chance(0.25))
      {
        auto& s = w.sp3[r.range(w.sp3.size())];
        double t = s.r[0].p.empty() ? r.uni(-2, 2) : s.r[0].p.back().t + r.uni(0.05, 1);
        if (bad && s.r[0].p.size())
          t = s.r[0].p.back().t - (r.chance(0.5) ? 0. : r.uni(0, 1));
        else
          bad = false;
        Vector3d x(r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)), dx(r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3));
        bool threw = false;
        try
        {
          s.s.add_point(t, x, dx);
        }
        catch (const std::runtime_error&)
        {
          threw = true;
        }
        ctx.check(threw == bad, "order", bad ? "a 3D spline accepted a point that is not after the last one" : "a 3D spline refused a point");
        if (!bad)
          for (int i = 0; i < 3; i++)
            s.r[i].add(t, x[i], dx[i]);
      }
      else if (w.sp.size())
      {
        auto& s = w.sp[r.range(w.sp.size())];
        double t = s.r.p.empty() ? r.uni(-2, 2) : s.r.p.back().t + r.uni(0.05, 1);
        if (bad && s.r.p.size())
          t = s.r.p.back().t - (r.chance(0.5) ? 0. : r.uni(0, 1));
        else
          bad = false;
        double x = r.uni(-9, 9), dx = r.uni(-3, 3);
        if (s.r.angular && s.r.p.size() && std::fabs(std::fabs(wrap(x - s.r.p.back().x)) - M_PI) < 1e-6)
          x += 0.1;
        bool threw = false;
        try
        {
          s.s.add_point(t, x, dx);
        }
        catch (const std::runtime_error&)
        {
          threw = true;
        }
        ctx.check(threw == bad, "order", bad ? "a spline accepted a point that is not after the last one" : "a spline refused a point");
        if (!bad)
          s.r.add(t, x, dx);
        if (bad)
          ctx.hit("refused-points");
      }
    }
    else if (k == "query")
    {
      if (w.sp3.size() && r.chance(0.3))
      {
        auto& s = w.sp3[r.range(w.sp3.size())];
        if (s.r[0].p.size() < 2)
          return;
        double t = r.chance(0.3) ? s.r[0].p[r.range(s.r[0].p.size())].t : r.uni(s.r[0].p.front().t, s.r[0].p.back().t);
        int d = r.range(3);
        if (d == 2 && s.r[0].knot(t))
          d = 1;
        Vector3d got = d == 0 ? s.s.pos(t) : d == 1 ? s.s.vel(t) : s.s.acc(t);
        for (int i = 0; i < 3; i++)
          ctx.checkf(std::fabs(got[i] - s.r[i].at(t, d)) < 1e-6 * s.r[i].scale(), "spline3d", [&] {
            return fmt("derivative %d of axis %d of a 3D spline at t=%.5f is %.9g, it should be %.9g", d, i, t, got[i], s.r[i].at(t, d));
          });
        ctx.hit("spline3d-values");
      }
      else if (w.sp.size())
      {
        auto& s = w.sp[r.range(w.sp.size())];
        query(s.s, s.r, r, ctx, 3);
      }
    }
    else if (k == "clear")
    {
      if (w.sp3.size() && r.chance(0.3))
      {
        auto& s = w.sp3[r.range(w.sp3.size())];
        s.s.clear();
        for (auto& q : s.r)
          q.p.clear();
      }
      else if (w.sp.size())
      {
        auto& s = w.sp[r.range(w.sp.size())];
        s.s.clear();
        s.r.p.clear();
        ctx.hit("cleared");
      }
    }
    else if (k == "copy" && w.sp.size() && w.sp.size() < 6)
    {
      CWorld::S c = w.sp[r.range(w.sp.size())];
      w.sp.push_back(c);
      ctx.hit("copies");
    }
    else if (k == "duration")
    {
      if (w.sp3.size() && r.chance(0.3))
      {
        auto& s = w.sp3[r.range(w.sp3.size())];
        double exp = s.r[0].p.empty() ? 0. : s.r[0].p.back().t - s.r[0].p.front().t;
        double got = s.s.duration();
        ctx.checkf(std::fabs(got - exp) < 1e-9, "duration", [&] { return fmt("a 3D spline lasting %.5f s says %.5f", exp, got); });
      }
      else if (w.sp.size())
      {
        auto& s = w.sp[r.range(w.sp.size())];
        double exp = s.r.p.empty() ? 0. : s.r.p.back().t - s.r.p.front().t;
        double got = s.s.duration();
        ctx.checkf(std::fabs(got - exp) < 1e-9, "duration", [&] { return fmt("a spline of %d points lasting %.5f s says %.5f", (int)s.r.p.size(), exp, got); });
        ctx.hit("durations");
      }
    }
    else if (k == "swing")
    {
      CWorld::Sw s;
      s.t0 = r.uni(-2, 2);
      s.t1 = s.t0 + r.uni(0.2, 1);
      s.since = s.t0;
      s.height = r.uni(0.02, 0.1);
      s.start = Vector3d(r.uni(-1, 1), r.uni(-1, 1), r.chance(0.5) ? 0 : r.uni(0, 0.02));
      s.target = s.start + Vector3d(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.chance(0.5) ? 0 : r.uni(0, 0.02));
      s.tr = placo::humanoid::SwingFoot::make_trajectory(s.t0, s.t1, s.height, s.start, s.target);
      check_swing(s, ctx, true);
      if (w.sw.size() > 3)
        w.sw.erase(w.sw.begin());
      w.sw.push_back(s);
    }
    else if (k == "retarget" && w.sw.size())
    {
      CWorld::Sw& s = w.sw[r.range(w.sw.size())];
      double t = r.uni(s.since, s.t1);
      if (s.t1 - t < 0.1)
        return;
      CWorld::Sw n = s;
      n.target.head(2) += Vector2d(r.uni(-0.2, 0.2), r.uni(-0.2, 0.2));
      n.since = t;
      Vector3d p0 = s.tr.pos(t), v0 = s.tr.vel(t);
      n.tr = placo::humanoid::SwingFoot::remake_trajectory(s.tr, t, n.target);
      ctx.check((s.tr.pos(t) - p0).norm() == 0 && (s.tr.vel(t) - v0).norm() == 0, "swing", "retargeting a swing changed the old one");
      Vector3d p1 = n.tr.pos(t), v1 = n.tr.vel(t);
      ctx.checkf((p1 - p0).norm() < 1e-7 && (v1 - v0).norm() < 1e-6 * (1 + v0.norm()), "swing-jump",
                 [&] { return fmt("retargeting a swing foot makes it jump by %.3g m, %.3g m/s", (p1 - p0).norm(), (v1 - v0).norm()); });
      check_swing(n, ctx, false);
      s = n;
      ctx.sim_time += t - s.t0;
      ctx.hit("retargets");
    }
    else if (k == "swing-cubic")
    {
      double t0 = r.uni(-2, 2), D = r.uni(0.2, 1), el = r.chance(0.5) ? 0. : r.uni(0, 0.9), h = r.uni(0.02, 0.1), rr = r.chance(0.3) ? 0. : r.uni(0.1, 0.8);
      Vector3d a(r.uni(-1, 1), r.uni(-1, 1), r.uni(0, 0.05)), b = a + Vector3d(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-0.02, 0.02));
      Vector3d v = r.chance(0.5) ? Vector3d::Zero().eval() : Vector3d(r.uni(-1, 1), r.uni(-1, 1), r.uni(-0.3, 0.3));
      double vs = t0 - el * D, te = t0 + (1 - el) * D;
      double ta = vs + D / 2 - D / 2 * rr, tb = vs + D / 2 + D / 2 * rr;
      if (std::fabs(ta - t0) < 0.02 || std::fabs(tb - t0) < 0.02)
        return;
      auto tr = placo::humanoid::SwingFootCubic::make_trajectory(t0, D, h, rr, a, b, el, v);
      ctx.checkf((tr.pos(t0) - a).norm() < 1e-6 && (tr.vel(t0) - v).norm() < 1e-4, "swing-start", [&] { return fmt("a swing foot does not start from where the foot is"); });
      ctx.checkf((tr.pos(te) - b).norm() < 1e-6 && tr.vel(te).norm() < 1e-4, "swing-end", [&] { return fmt("a swing foot does not land where and when asked, at rest"); });
      for (double t : { ta, tb })
        if (t > t0)
          ctx.checkf(std::fabs(tr.pos(t).z() - h) < 1e-6 && std::fabs(tr.vel(t).z()) < 1e-4, "swing-height",
                     [&] { return fmt("a swing foot is at %.5f instead of its height %.5f", tr.pos(t).z(), h); });
      // on its way, the foot goes straight to the target and stays between the floor and its height
      double t = r.uni(t0, te);
      RefSpline rx;
      rx.p = { { t0, a.x(), v.x() }, { te, b.x(), 0 } };
      ctx.checkf(std::fabs(tr.pos(t).x() - rx.at(t, 0)) < 1e-6, "swing-path", [&] { return fmt("a swing foot leaves its path by %.3g m", tr.pos(t).x() - rx.at(t, 0)); });
      ctx.hit("swing-cubic");
    }
    else if (k == "swing-quintic")
    {
      double t0 = r.uni(0, 1), t1 = t0 + r.uni(0.4, 1), h = r.uni(0.02, 0.1);
      Vector3d a(r.uni(-1, 1), r.uni(-1, 1), 0), b = a + Vector3d(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), 0);
      auto tr = placo::humanoid::SwingFootQuintic::make_trajectory(t0, t1, h, a, b);
      ctx.checkf((tr.pos(t0) - a).norm() < 1e-5 && tr.vel(t0).norm() < 1e-4, "swing-start", [&] { return fmt("a quintic swing foot starts %.3g m away", (tr.pos(t0) - a).norm()); });
      ctx.checkf((tr.pos(t1) - b).norm() < 1e-5 && tr.vel(t1).norm() < 1e-4, "swing-end", [&] { return fmt("a quintic swing foot lands %.3g m away", (tr.pos(t1) - b).norm()); });
      for (double f : { 0.25, 0.75 })
      {
        double z = tr.pos(t0 + f * (t1 - t0)).z();
        ctx.checkf(std::fabs(z - h) < 1e-5, "swing-height", [&] { return fmt("a quintic swing foot is at %.5f instead of %.5f", z, h); });
      }
      double t = r.uni(t0, t1), d = 1e-5;
      Vector3d v = (tr.pos(t + d) - tr.pos(t - d)) / (2 * d);
      ctx.checkf((v - tr.vel(t)).norm() < 1e-3 * (1 + v.norm()), "swing-vel", [&] { return fmt("the velocity of a quintic swing foot is not the one of its motion"); });
      ctx.hit("swing-quintic");
    }
    else if (k == "polynom")
    {
      int n = r.between(1, 6);
      VectorXd c(n);
      for (int i = 0; i < n; i++)
        c[i] = r.uni(-2, 2);
      placo::tools::Polynom p(c);
      double x = r.uni(-2, 2);
      int d = r.between(0, n);
      double exp = 0;
      for (int i = 0; i < n; i++)
      {
        int deg = n - 1 - i;
        double f = 1;
        for (int j = 0; j < d; j++)
          f *= deg - j;
        if (deg >= d)
          exp += c[i] * f * std::pow(x, deg - d);
      }
      double got = p.value(x, d);
      ctx.checkf(std::fabs(got - exp) < 1e-8 * (1 + std::fabs(exp)) * 100, "polynom", [&] { return fmt("derivative %d of a polynom at %.4f is %.9g, not %.9g", d, x, got, exp); });
    }
  }

  void check_swing(CWorld::Sw& s, Ctx& ctx, bool first)
  {
    Vector3d e = s.tr.pos(s.t1), v = s.tr.vel(s.t1);
    ctx.checkf((e - s.target).norm() < 1e-6, "swing-end", [&] { return fmt("a swing foot lands %.3g m away from its target", (e - s.target).norm()); });
    ctx.checkf(v.head(2).norm() < 1e-5, "swing-end", [&] { return fmt("a swing foot lands sliding at %.3g m/s", v.head(2).norm()); });
    if (first)
      ctx.checkf((s.tr.pos(s.t0) - s.start).norm() < 1e-6 && s.tr.vel(s.t0).head(2).norm() < 1e-5, "swing-start",
                 [&] { return fmt("a swing foot does not start from the foot at rest"); });
    for (double f : { 0.25, 0.75 })
    {
      double t = s.t0 + f * (s.t1 - s.t0);
      ctx.checkf(std::fabs(s.tr.pos(t).z() - s.height) < 1e-6, "swing-height",
                 [&] { return fmt("a swing foot is at %.5f instead of its height %.5f", s.tr.pos(t).z(), s.height); });
    }
  }
};
SIM_SCENARIO("curves", Curves);
}  // namespace
