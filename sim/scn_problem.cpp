// P20/P21: histories of a QP problem object.
#include "core.h"
#include "refqp.h"
#include "placo/problem/problem.h"
#include "placo/problem/integrator.h"
#include "placo/problem/polygon_constraint.h"
#include <memory>
#include <limits>

using namespace sim;
using namespace placo::problem;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace
{
struct Mirror
{
  refqp::Row row;
  ProblemConstraint* handle;
};

struct Integ
{
  std::unique_ptr<Integrator> in;
  int var;          // index of the variable
  VectorXd x0;      // constant initial state
  int prev = -1;    // or: chained after integrator prev
  int order;
  double dt, t0;
};

// One problem object, and the harness' own record of what was asked from it
struct World
{
  std::unique_ptr<Problem> pb;
  std::vector<Variable*> vars;
  std::vector<Mirror> rows;
  std::vector<Integ> integs;
  std::vector<VectorXd> last;  // last good value of each variable
  std::vector<int> version;
  VectorXd last_x;
  int nvar = 0;
  double reg = 1e-8;
  bool clean = true;   // hard equalities known to be consistent and independent
  int hard_eq_rows = 0;
  VectorXd witness;    // a point satisfying every hard constraint
  bool solvable = true;
};

struct ProblemScenario : Scenario
{
  bool atomicity;
  ProblemScenario(bool a) : atomicity(a)
  {
  }

  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    int n = r.between(8, thorough ? 60 : 30);
    // swarm: each run uses its own mix of operations
    std::vector<std::string> kinds = { "var", "eq", "ineq", "softeq", "softineq", "limit", "poly", "integ", "weight",
                                       "flags", "clear", "solve", "conflict", "baddim", "resetvars" };
    std::vector<double> w = { 2, 2, 3, 4, 2, 1, 1, 1.5, 2, 1, 0.7, 8, 0.8, 0.4, 0.25 };
    for (auto& x : w)
      if (r.chance(0.25))
        x *= r.chance(0.5) ? 0 : 3;
    w[0] = std::max(w[0], 1.);
    w[11] = 8;
    std::vector<std::string> faults = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw", "qp-drift" };
    double pf = atomicity ? 0.35 : (r.chance(0.5) ? 0.15 : 0.);
    p.ev.push_back({ "var", r.next(), "-" });
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted(w)];
      e.sub = r.next();
      if (e.kind == "solve" && r.chance(pf))
        e.fault = r.pick(faults);
      p.ev.push_back(e);
    }
    p.ev.push_back({ "solve", r.next(), "-" });
    return p;
  }

  void add_row(World& w, ProblemConstraint& c, refqp::Row row)
  {
    w.rows.push_back({ row, &c });
  }

  // A random affine expression of the existing variables, built with the public operators, and its matrices
  void random_expr(World& w, Rng& r, int rows, Expression& e, MatrixXd& A, VectorXd& b)
  {
    A = MatrixXd::Zero(rows, w.nvar);
    b = VectorXd::Zero(rows);
    bool first = true;
    int terms = r.between(1, 3);
    for (int t = 0; t < terms; t++)
    {
      Variable* v = w.vars[r.range(w.vars.size())];
      int sz = v->size();
      MatrixXd M(rows, sz);
      for (int i = 0; i < M.size(); i++)
        M.data()[i] = r.chance(0.3) ? 0. : r.uni(-2, 2);
      Expression term = M * v->expr();
      A.block(0, v->k_start, rows, sz) += M;
      if (first)
        e = term;
      else
        e = e + term;
      first = false;
    }
    VectorXd c(rows);
    for (int i = 0; i < rows; i++)
      c[i] = r.uni(-1, 1);
    e = e + c;
    b += c;
  }

  void grow(World& w, Rng& r)
  {
    VectorXd old = w.witness;
    w.witness = VectorXd::Zero(w.nvar);
    w.witness.head(old.size()) = old;
    for (int i = old.size(); i < w.nvar; i++)
      w.witness[i] = r.uni(-1, 1);
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng cfg(plan.config);
    World w;
    w.pb.reset(new Problem);
    w.witness = VectorXd::Zero(0);
    w.pb->use_sparsity = cfg.chance(0.5);
    w.pb->rewrite_equalities = cfg.chance(0.5);
    if (cfg.chance(0.8))
    {
      w.reg = std::pow(10., cfg.uni(-5, -2));
      w.pb->regularization = w.reg;
    }
    mem::begin(mem::random_env(cfg));

    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      ctx.steps++;
      ctx.mixs(ev.kind);
      if (ev.kind != "var" && w.vars.empty())
        continue;
      if (ev.kind == "var")
      {
        if (w.nvar > 40)
          continue;
        int sz = r.between(1, 6);
        Variable& v = w.pb->add_variable(sz);
        ctx.check(v.k_start == w.nvar && v.size() == sz, "variable", "a new variable does not extend the decision vector");
        w.vars.push_back(&v);
        w.last.push_back(VectorXd());
        w.version.push_back(0);
        w.nvar += sz;
        grow(w, r);
      }
      else if (ev.kind == "eq" || ev.kind == "ineq" || ev.kind == "softeq" || ev.kind == "softineq")
      {
        bool hard = ev.kind[0] != 's';
        bool eq = ev.kind.find("ineq") == std::string::npos;
        int rows = r.between(1, eq && hard ? 2 : 4);
        if (hard && eq && w.hard_eq_rows + rows > w.nvar / 2)
          continue;
        Expression e;
        refqp::Row row;
        random_expr(w, r, rows, e, row.A, row.b);
        // hard constraints are drawn so that the witness satisfies them
        VectorXd at = row.A * w.witness + row.b;
        VectorXd rhs(rows);
        for (int i = 0; i < rows; i++)
          rhs[i] = hard ? (eq ? at[i] : at[i] - r.uni(0., 1.)) : r.uni(-2, 2);
        row.equality = eq;
        row.hard = hard;
        if (hard && eq)
        {
          // redundant hard equalities have no unique multipliers: not part of the property
          w.hard_eq_rows += rows;
          w.rows.push_back({ row, nullptr });
          bool ok = independent(w);
          w.rows.pop_back();
          if (!ok)
          {
            w.hard_eq_rows -= rows;
            continue;
          }
        }
        int form = r.range(3);
        ProblemConstraint pc;
        if (eq)
          pc = form == 0 ? (e == rhs) : (form == 1 ? (e - rhs == 0.) : (e == Expression::from_vector(rhs)));
        else
          pc = form == 0 ? (e >= rhs) : (form == 1 ? (rhs <= e) : (Expression::from_vector(rhs) <= e));
        row.b -= rhs;
        ProblemConstraint& c = w.pb->add_constraint(pc);
        row.weight = 1.;
        if (!hard)
        {
          row.weight = std::pow(10., r.uni(-1, 2));
          if (r.chance(0.5))
            c.configure(ProblemConstraint::Soft, row.weight);
          else
            c.configure("soft", row.weight);
        }
        else if (r.chance(0.3))
          c.configure("hard", r.uni(0.1, 10));
        add_row(w, c, row);
      }
      else if (ev.kind == "limit")
      {
        int rows = r.between(1, 3);
        Expression e;
        refqp::Row row;
        MatrixXd A;
        VectorXd b;
        random_expr(w, r, rows, e, A, b);
        VectorXd at = A * w.witness + b, t(rows);
        for (int i = 0; i < rows; i++)
          t[i] = std::fabs(at[i]) + r.uni(0.05, 1.);
        ProblemConstraint& c = w.pb->add_limit(e, t);
        row.equality = false;
        row.A = MatrixXd(2 * rows, w.nvar);
        row.A << -A, A;
        row.b = VectorXd(2 * rows);
        row.b << t - b, t + b;
        add_row(w, c, row);
      }
      else if (ev.kind == "poly")
      {
        if (w.nvar < 2)
          continue;
        Expression e;
        refqp::Row row;
        MatrixXd A;
        VectorXd b;
        random_expr(w, r, 2, e, A, b);
        VectorXd at = A * w.witness + b;
        // clockwise regular polygon around (near) the witness
        int k = r.between(3, 6);
        double rad = r.uni(0.5, 2), off = r.uni(0, 6.28);
        double inrad = rad * std::cos(M_PI / k);
        Eigen::Vector2d c0(at[0] + r.uni(-.3, .3) * inrad, at[1] + r.uni(-.3, .3) * inrad);
        std::vector<Eigen::Vector2d> poly;
        for (int i = 0; i < k; i++)
          poly.push_back(c0 + rad * Eigen::Vector2d(std::cos(off - 2 * M_PI * i / k), std::sin(off - 2 * M_PI * i / k)));
        double margin = r.uni(0, 0.3) * inrad;
        ProblemConstraint& c = w.pb->add_constraint(PolygonConstraint::in_polygon_xy(e, poly, margin));
        row.equality = false;
        row.A = MatrixXd(k, w.nvar);
        row.b = VectorXd(k);
        for (int i = 0; i < k; i++)
        {
          // inward distance to each edge, from the polygon centre
          Eigen::Vector2d mid = (poly[i] + poly[(i + 1) % k]) / 2;
          Eigen::Vector2d nrm = (c0 - mid).normalized();
          row.A.row(i) = nrm.transpose() * A;
          row.b[i] = nrm.dot(Eigen::Vector2d(b[0], b[1]) - mid) - margin;
        }
        add_row(w, c, row);
      }
      else if (ev.kind == "integ")
      {
        if (w.nvar > 30)
          continue;
        Integ in;
        in.order = r.between(1, 3);
        in.dt = r.uni(0.05, 0.3);
        in.t0 = r.chance(0.5) ? 0. : r.uni(-1, 1);
        int sz = r.between(2, 6);
        // chained after an integrator of the same order, or from a constant
        for (int k = (int)w.integs.size() - 1; k >= 0; k--)
          if (w.integs[k].order == in.order && r.chance(0.6))
          {
            in.prev = k;
            break;
          }
        Variable& v = w.pb->add_variable(sz);
        w.vars.push_back(&v);
        w.last.push_back(VectorXd());
        w.version.push_back(0);
        in.var = w.vars.size() - 1;
        w.nvar += sz;
        grow(w, r);
        if (in.prev >= 0)
          in.in.reset(new Integrator(v, w.integs[in.prev].in->expr(-1), in.order, in.dt));
        else
        {
          in.x0 = VectorXd(in.order);
          for (int i = 0; i < in.order; i++)
            in.x0[i] = r.uni(-1, 1);
          in.in.reset(new Integrator(v, Expression(in.x0), in.order, in.dt));
        }
        in.in->t_start = in.t0;
        w.integs.push_back(std::move(in));
        // a soft target on the final state
        double target = r.uni(-1, 1), weight = std::pow(10., r.uni(-1, 2));
        int diff = r.range(w.integs.back().order);
        ProblemConstraint& c = w.pb->add_constraint(w.integs.back().in->expr(-1, diff) == target);
        c.configure(ProblemConstraint::Soft, weight);
        refqp::Row row;
        lin_final(w, w.integs.size() - 1, diff, row.A, row.b);
        row.b[0] -= target;
        row.hard = false;
        row.weight = weight;
        add_row(w, c, row);
      }
      else if (ev.kind == "weight")
      {
        // reconfigure an existing constraint through the reference placo handed out
        if (w.rows.empty())
          continue;
        Mirror& m = w.rows[r.range(w.rows.size())];
        if (m.row.hard)
          continue;
        m.row.weight = std::pow(10., r.uni(-1, 2));
        m.handle->configure(ProblemConstraint::Soft, m.row.weight);
      }
      else if (ev.kind == "flags")
      {
        w.pb->use_sparsity = r.chance(0.5);
        w.pb->rewrite_equalities = r.chance(0.5);
        if (r.chance(0.3))
        {
          w.reg = std::pow(10., r.uni(-6, -2));
          w.pb->regularization = w.reg;
        }
      }
      else if (ev.kind == "clear")
      {
        w.pb->clear_constraints();
        w.rows.clear();
        w.hard_eq_rows = 0;
        w.solvable = true;
      }
      else if (ev.kind == "resetvars")
      {
        w.pb->clear_constraints();
        w.rows.clear();
        w.integs.clear();
        w.pb->clear_variables();
        w.vars.clear();
        w.last.clear();
        w.version.clear();
        w.nvar = 0;
        w.witness = VectorXd::Zero(0);
        w.hard_eq_rows = 0;
        w.solvable = true;
        w.last_x = VectorXd();
        ctx.check(w.pb->n_variables == 0, "variable", "clear_variables() left decision variables behind");
      }
      else if (ev.kind == "conflict")
      {
        // contradictory hard inequalities: the problem is infeasible from now on (until cleared)
        Variable* v = w.vars[r.range(w.vars.size())];
        double at = w.witness[v->k_start];
        double gap = r.uni(0.2, 2);
        ProblemConstraint& c1 = w.pb->add_constraint(v->expr(0, 1) >= at + gap);
        ProblemConstraint& c2 = w.pb->add_constraint(v->expr(0, 1) <= at - gap);
        refqp::Row r1, r2;
        r1.equality = r2.equality = false;
        r1.A = MatrixXd::Zero(1, w.nvar);
        r1.A(0, v->k_start) = 1;
        r1.b = VectorXd::Constant(1, -at - gap);
        r2.A = -r1.A;
        r2.b = VectorXd::Constant(1, at - gap);
        add_row(w, c1, r1);
        add_row(w, c2, r2);
        w.solvable = false;
      }
      else if (ev.kind == "baddim")
      {
        // an expression that refers to more variables than the problem has (e.g. from another problem)
        Problem other;
        other.add_variable(w.nvar);
        Variable& ov = other.add_variable(r.between(1, 20));
        bool soft = r.chance(0.5), eq = r.chance(0.6);
        ProblemConstraint pc = eq ? (ov.expr() == 0.) : (ov.expr() >= 0.);
        ProblemConstraint& c = w.pb->add_constraint(pc);
        if (soft)
          c.configure(ProblemConstraint::Soft, 1.);
        bool thrown = false;
        try
        {
          w.pb->solve();
        }
        catch (QPError& e)
        {
          thrown = true;
        }
        ctx.hit("bad-size-rejected");
        ctx.check(thrown, "bad-size", "a constraint on variables the problem does not have was accepted by solve()");
        ctx.check(!mem::error(), "heap", std::string("solve() with a constraint on unknown variables: ") + (mem::error() ? mem::error() : ""));
        check_kept(w, ctx, "a rejected problem");
        w.pb->clear_constraints();
        w.rows.clear();
        w.hard_eq_rows = 0;
        w.solvable = true;
      }
      else if (ev.kind == "solve")
        do_solve(w, ev, r, ctx);
    }
  }

  // x(final) of integrator k as a linear function of the decision vector, by plain recurrence
  void lin_final(World& w, int k, int diff, MatrixXd& A, VectorXd& b)
  {
    MatrixXd SA;
    VectorXd Sb;
    lin_state(w, k, w.vars[w.integs[k].var]->size(), SA, Sb);
    A = SA.row(diff);
    b = VectorXd::Constant(1, Sb[diff]);
  }
  void lin_state(World& w, int k, int steps, MatrixXd& A, VectorXd& b)
  {
    Integ& in = w.integs[k];
    int o = in.order;
    if (in.prev >= 0)
      lin_state(w, in.prev, w.vars[w.integs[in.prev].var]->size(), A, b);
    else
    {
      A = MatrixXd::Zero(o, w.nvar);
      b = in.x0;
    }
    if (A.cols() < w.nvar)
    {
      MatrixXd B = MatrixXd::Zero(o, w.nvar);
      B.leftCols(A.cols()) = A;
      A = B;
    }
    MatrixXd F = MatrixXd::Zero(o, o);
    VectorXd G(o);
    taylor(o, in.dt, F, G);
    for (int s = 0; s < steps; s++)
    {
      A = F * A;
      b = F * b;
      A.col(w.vars[in.var]->k_start + s) += G;
    }
  }
  static void taylor(int o, double dt, MatrixXd& F, VectorXd& G)
  {
    // chain of integrators: exact polynomial transition
    for (int i = 0; i < o; i++)
    {
      double f = 1;
      for (int j = i; j < o; j++)
      {
        F(i, j) = f;
        f *= dt / (j - i + 1);
      }
      G[i] = f;
    }
  }

  void check_kept(World& w, Ctx& ctx, const char* why)
  {
    for (size_t i = 0; i < w.vars.size(); i++)
    {
      ctx.checkf(w.vars[i]->version == w.version[i], "failed-solve-version",
                 [&] { return fmt("%s changed the version of a variable", why); });
      bool same = w.vars[i]->value.size() == w.last[i].size() && (w.last[i].size() == 0 || w.vars[i]->value == w.last[i]);
      ctx.checkf(same, "failed-solve-value", [&] { return fmt("%s changed the value of a variable", why); });
    }
    if (w.last_x.size() && w.last_x.size() <= w.nvar)
    {
      bool ok = w.pb->x.size() >= w.last_x.size() && (w.pb->x.head(w.last_x.size()) - w.last_x).cwiseAbs().maxCoeff() == 0;
      ctx.checkf(ok, "failed-solve-x", [&] {
        return fmt("%s overwrote the last computed solution (problem.x no longer matches the variables' values)", why);
      });
    }
  }

  void do_solve(World& w, const Event& ev, Rng& r, Ctx& ctx)
  {
    qp::Fault qf = qp::fault_from(ev.fault);
    if (qf != qp::None)
      qp::arm(qf, 1);
    bool af = ev.fault.rfind("alloc", 0) == 0;
    if (af)
      mem::arm(r.between(1, 60 + 6 * (int)w.rows.size()), ev.fault == "alloc-sticky");
    std::string how = "ok";
    try
    {
      w.pb->solve();
    }
    catch (QPError& e)
    {
      how = "qperror";
    }
    catch (std::bad_alloc& e)
    {
      how = "bad_alloc";
    }
    bool mf = mem::disarm(), qff = qp::disarm();
    if (mf)
      ctx.fault(ev.fault);
    if (qff)
      ctx.fault(ev.fault);
    ctx.mixs(how);
    ctx.hit("solve-" + how);
    ctx.state(fmt("%s v%d r%d sp%d rw%d slv%d %s", how.c_str(), (int)w.vars.size(), (int)w.rows.size(), w.pb->use_sparsity,
                  w.pb->rewrite_equalities, w.solvable, ev.fault.c_str()));
    if (how == "ok")
    {
      ctx.check(w.solvable, "infeasible-accepted", "solve() reported success on contradictory hard constraints");
      ctx.check(!(qff && qf != qp::None && qf != qp::Drift), "failure-swallowed", "solve() reported success although the QP solver failed");
      VectorXd x = VectorXd::Zero(w.nvar);
      for (size_t i = 0; i < w.vars.size(); i++)
      {
        Variable* v = w.vars[i];
        ctx.check(v->value.size() == v->size(), "value-size", "a solved variable has a value of the wrong size");
        x.segment(v->k_start, v->size()) = v->value;
        ctx.check(v->version != w.version[i], "version", "a successful solve() did not change the version of a variable");
      }
      ctx.check(x.allFinite(), "nan", "solve() reported success with a non-finite solution");
      ctx.check(w.pb->x.size() >= w.nvar && (w.pb->x.head(w.nvar) - x).cwiseAbs().maxCoeff() < 1e-12, "x-mismatch",
                "problem.x does not match the values of the variables");
      refqp::Model m;
      m.n = w.nvar;
      m.reg = w.reg;
      for (auto& mm : w.rows)
        m.rows.push_back(mm.row);
      auto v = refqp::judge(m, x);
      ctx.log("solve ok: infeas %.3g (eq %.3g in %.3g) kkt %.3g scale %.3g x %.3g", v.infeas, v.eq_abs, v.in_abs, v.kkt, v.scale, x.norm());
      bool drifted = qff && qf == qp::Drift;
      if (drifted)
        ctx.checkf(v.eq_abs < 1e-5 && v.in_abs < 2e-3, "infeasible", [&] {
          return fmt("solve() accepted a wrong result of the QP solver: a hard constraint is violated (equality by %.3g, inequality by %.3g)", v.eq_abs,
                     v.in_abs);
        });
      // (eiquadprog stops when the sum of the violations is small before the magnitude of the objective)
      ctx.checkf(drifted || v.infeas < 1e-5 || (v.eq_abs < 1e-6 && v.in_abs < 5e-4), "infeasible", [&] {
        return fmt("the solution violates a hard constraint of the problem (relative violation %.3g)", v.infeas);
      });
      ctx.checkf(drifted || v.kkt < 1e-5, "not-optimal", [&] {
        return fmt("the solution is not the minimum of the weighted soft constraints (relative KKT residual %.3g)", v.kkt);
      });
      if (!drifted)
        check_active(w, x, v, ctx);
      check_integrators(w, x, r, ctx);
      // remember
      for (size_t i = 0; i < w.vars.size(); i++)
      {
        w.last[i] = w.vars[i]->value;
        w.version[i] = w.vars[i]->version;
      }
      w.last_x = x;
      ctx.mixv(x);
    }
    else
    {
      if (how == "qperror" && !qff)
      {
        // a refusal is legitimate only if the constraints are indeed contradictory
        ctx.check(!w.solvable, "feasible-rejected",
                  "solve() raised QPError on a problem whose hard constraints are satisfiable");
      }
      if (how == "bad_alloc")
      {
        ctx.check(mf || qff, "bad-alloc", "std::bad_alloc without an injected failure");
        // out of memory half-way through publishing the result is not promised to be atomic: start again from
        // whatever is there
        for (size_t i = 0; i < w.vars.size(); i++)
        {
          w.last[i] = w.vars[i]->value;
          w.version[i] = w.vars[i]->version;
        }
        w.last_x = VectorXd();
        return;
      }
      check_kept(w, ctx, "a failed solve()");
    }
  }

  bool independent(World& w)
  {
    MatrixXd A(w.hard_eq_rows, w.nvar);
    A.setZero();
    int k = 0;
    for (auto& m : w.rows)
      if (m.row.hard && m.row.equality)
      {
        A.block(k, 0, m.row.A.rows(), m.row.A.cols()) = m.row.A;
        k += m.row.A.rows();
      }
    Eigen::JacobiSVD<MatrixXd> svd(A);
    return svd.singularValues().minCoeff() > 1e-2 * svd.singularValues().maxCoeff();
  }

  void check_active(World& w, const VectorXd& x, const refqp::Verdict& whole, Ctx& ctx)
  {
    refqp::Model m;
    m.n = w.nvar;
    m.reg = w.reg;
    bool dropped = false;
    for (auto& mm : w.rows)
    {
      bool active = mm.handle->is_active;
      VectorXd e = refqp::eval(mm.row, x);
      double tol = 1e-4 * (1 + x.norm());
      if (mm.row.equality || active || !mm.row.hard)
        m.rows.push_back(mm.row);
      else
        dropped = true;
      if (mm.row.equality)
        continue;
      if (active && mm.row.hard)
        ctx.check(e.cwiseAbs().minCoeff() < tol, "active", "a hard inequality is reported active although no row of it is tight");
      if (active && !mm.row.hard)
        ctx.check(e.minCoeff() < tol, "active", "a soft inequality is reported active although it is satisfied with a margin");
      if (!active && !mm.row.hard && mm.row.weight > 1e-3)
        ctx.check(e.minCoeff() > -tol, "active", "a soft inequality is not reported active although it is not satisfied");
    }
    // what is not active does not matter: the optimum stays one without it
    if (dropped && whole.kkt < 1e-7)
    {
      auto v = refqp::judge(m, x);
      ctx.log("without the inactive constraints: kkt %.3g", v.kkt);
      ctx.checkf(v.kkt < 1e-5, "active", [&] {
        return fmt("a hard inequality that binds the optimum is not reported active (relative KKT residual without those: %.3g)", v.kkt);
      });
    }
  }

  void check_integrators(World& w, const VectorXd& x, Rng& r, Ctx& ctx)
  {
    for (size_t k = 0; k < w.integs.size(); k++)
    {
      Integ& in = w.integs[k];
      Variable* v = w.vars[in.var];
      double T = v->size() * in.dt;
      MatrixXd F = MatrixXd::Zero(in.order, in.order);
      VectorXd G(in.order);
      Integrator::Trajectory tr = in.in->get_trajectory();
      for (int s = 0; s < 3; s++)
      {
        double t = r.uni(0, T);
        int step = std::min((int)(t / in.dt), v->size() - 1);
        MatrixXd A;
        VectorXd b;
        lin_state(w, k, step, A, b);
        VectorXd st = A * x + b;
        taylor(in.order, t - step * in.dt, F, G);
        VectorXd ref = F * st + G * v->value[step];
        int d = r.range(in.order);
        double got = r.chance(0.5) ? in.in->value(in.t0 + t, d) : tr.value(in.t0 + t, d);
        ctx.checkf(std::fabs(got - ref[d]) < 1e-6 * (1 + ref.norm() + st.norm()), "integrator", [&] {
          return fmt("integrator %d (order %d) at t=%.4f diff %d: %.9g, the solved variables give %.9g", (int)k, in.order, t, d,
                     got, ref[d]);
        });
      }
      ctx.hit("integrator-checked");
    }
  }
};
struct ProblemHist : ProblemScenario
{
  ProblemHist() : ProblemScenario(false)
  {
  }
};
struct ProblemAtom : ProblemScenario
{
  ProblemAtom() : ProblemScenario(true)
  {
  }
};
SIM_SCENARIO("problem", ProblemHist);
SIM_SCENARIO("problem_fault", ProblemAtom);
}  // namespace
