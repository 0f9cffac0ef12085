// P01-P05: a kinematics solver driven tick by tick, while the user edits it and faults hit it.
#include <sstream>
#include "core.h"
#include "kinworld.h"
#include <limits>

using namespace sim;
using namespace kin;
using placo::problem::QPError;

namespace
{
enum Mode
{
  LIMITS,
  OPT,
  FAIL,
  CONSTR
};

struct Snapshot
{
  VectorXd q, qd, qdd;
};
static Snapshot snap(RobotWrapper& r)
{
  return { r.state.q, r.state.qd, r.state.qdd };
}
static bool same(const VectorXd& a, const VectorXd& b)
{
  return a.size() == b.size() && (a.size() == 0 || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}

struct KinScenario : Scenario
{
  Mode mode;
  std::map<std::string, RobotWrapper*> robots_;
  KinScenario(Mode m) : mode(m)
  {
  }
  void setup() override
  {
    for (std::string n : { "sigmaban", "quadruped", "arm" })
      robots_[n] = make(n);
  }

  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> kinds = { "task",  "rmtask", "con",    "rmcon", "target",   "reprio", "mask", "unmask",
                                       "fbase", "limits", "limset", "dt",    "teleport", "tick",   "peek", "clear" };
    std::vector<double> w = { 3, 1, 0.8, 0.5, 1.5, 1.2, 0.6, 0.4, 0.4, 0.5, 0.5, 0.3, 0.5, 8, 1, 0.1 };
    for (auto& x : w)
      if (r.chance(0.3))
        x *= r.chance(0.5) ? 0 : 3;
    w[0] = std::max(w[0], 1.5);
    w[13] = 8;
    int n = r.between(10, thorough ? 60 : 28);
    double pf = mode == FAIL ? 0.3 : (r.chance(0.5) ? 0.1 : 0);
    std::vector<std::string> faults = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw", "dt-zero", "bad-constraint", "conflict" };
    p.ev.push_back({ "task", r.next(), "-" });
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted(w)];
      e.sub = r.next();
      if (e.kind == "tick" && r.chance(pf))
        e.fault = r.pick(faults);
      p.ev.push_back(e);
    }
    p.ev.push_back({ "tick", r.next(), "-" });
    return p;
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    qp::remember = mode == OPT;
    Rng cfg(plan.config);
    static const std::vector<std::string> names = { "sigmaban", "quadruped", "arm" };
    std::string name = cfg.pick(names);
    RobotWrapper& robot = *robots_[name];
    mem::begin(mem::random_env(cfg));
    rnd::seed(cfg.next());
    robot.reset();
    robot.state.q = random_q(robot.model, cfg);
    robot.state.qd.setZero();
    robot.state.qdd.setZero();
    robot.update_kinematics();
    World w(robot, name);
    double reach = cfg.chance(0.5) ? 0.05 : 0.4;
    w.solver->dt = cfg.chance(0.7) ? cfg.uni(0.001, 0.1) : 0.;
    if (cfg.chance(0.7))
      w.solver->problem.regularization = std::pow(10., cfg.uni(-8, -3));
    bool vl = w.solver->dt > 0 && cfg.chance(0.6);
    w.limits(cfg.chance(0.9), vl);
    if (cfg.chance(0.2))
    {
      w.fbase_masked = true;
      w.solver->mask_fbase(true);
    }
    // swarm on the task types
    std::vector<std::string> types;
    for (auto& t : ALL_TASKS)
      if (cfg.chance(0.6))
        types.push_back(t);
    if (types.empty())
      types.push_back("position");
    if (cfg.chance(0.85))
    {
      std::unique_ptr<TSpec> t(new TSpec);
      t->type = "reg";
      t->d = 1e-4;
      w.add(std::move(t));
    }
    std::vector<double> pr = { 0.15, 0.75, 0.1 };
    if (cfg.chance(0.3))
      pr = { 0.5, 0.5, 0 };
    if (cfg.chance(0.3))
      pr = { 0, 1, 0 };
    ctx.sim_time = 0;

    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      ctx.steps++;
      ctx.mixs(ev.kind);
      auto timed = [&](const TSpec& t) { return t.type == "kinetic" || t.type == "momentum"; };
      if (ev.kind == "task")
      {
        if (w.tasks.size() >= 8)
          continue;
        auto t = w.random_task(r, types, reach);
        if (timed(*t) && w.solver->dt == 0)
          continue;
        t->prio = (Prio)r.weighted(pr);
        if (t->type == "reg" || t->type == "kinetic" || t->type == "manip")
          t->prio = SOFT;
        ctx.hit("task-" + t->type);
        w.add(std::move(t));
      }
      else if (ev.kind == "rmtask")
      {
        if (w.tasks.size())
          w.remove(r.range(w.tasks.size()));
      }
      else if (ev.kind == "con")
      {
        if (w.cons.size() < 4)
          if (auto c = random_con(w, r))
          {
            ctx.hit("con-" + c->type);
            w.add(std::move(c));
          }
      }
      else if (ev.kind == "rmcon")
      {
        if (w.cons.size())
          w.remove_con(r.range(w.cons.size()));
      }
      else if (ev.kind == "target")
      {
        if (w.tasks.size())
        {
          auto& t = *w.tasks[r.range(w.tasks.size())];
          bool edited = r.chance(0.35);
          if (edited)
            w.edit(t, r);
          w.aim(t, r, reach);
          // a single parameter may be written, the others stay as they are
          if (!edited && t.type == "reg" && t.jw.size())
            ((placo::kinematics::RegularizationTask*)t.h[0])->set_joint_weight(t.jw.begin()->first, t.jw.begin()->second = std::pow(10., r.uni(-4, 1)));
          else
            t.push(t.h, robot);
        }
      }
      else if (ev.kind == "reprio")
      {
        if (w.tasks.size() && r.chance(0.8))
        {
          auto& t = *w.tasks[r.range(w.tasks.size())];
          if (t.type != "reg" && t.type != "kinetic" && t.type != "manip")
            t.prio = (Prio)r.weighted(pr);
          if (t.type != "kinetic")
            t.weight = std::pow(10., r.uni(-1.5, 1.5));
          t.weight2 = std::pow(10., r.uni(-1.5, 1.5));
          t.configure(t.h);
        }
        else if (w.cons.size())
        {
          auto& c = *w.cons[r.range(w.cons.size())];
          c.prio = r.chance(0.5) ? HARD : SOFT;
          c.weight = std::pow(10., r.uni(-1, 2));
          c.configure(c.h);
        }
      }
      else if (ev.kind == "mask")
      {
        if (w.masked.size() < 4)
        {
          // the floating base is a joint as well
          std::string j = r.chance(0.1) ? std::string("root_joint") : r.pick(w.joints);
          w.masked.insert(j);
          w.solver->mask_dof(j);
        }
      }
      else if (ev.kind == "unmask")
      {
        std::string j = w.masked.empty() || r.chance(0.2) ? r.pick(w.joints) : (r.chance(0.5) ? *w.masked.begin() : *w.masked.rbegin());
        w.masked.erase(j);
        w.solver->unmask_dof(j);
      }
      else if (ev.kind == "fbase")
      {
        w.fbase_masked = r.chance(0.5);
        w.solver->mask_fbase(w.fbase_masked);
      }
      else if (ev.kind == "limits")
        w.limits(r.chance(0.8), w.solver->dt > 0 && r.chance(0.6));
      else if (ev.kind == "limset")
      {
        std::string j = r.pick(w.joints);
        double q = robot.get_joint(j);
        if (r.chance(0.5))
          robot.set_joint_limits(j, q - r.uni(0, 0.2), q + r.uni(0, 0.2));
        else if (r.chance(0.8))
          robot.set_velocity_limit(j, r.uni(0.05, 3));
        else
          robot.set_velocity_limits(r.uni(0.2, 5));
      }
      else if (ev.kind == "dt")
      {
        bool need = w.vl;
        for (auto& t : w.tasks)
          need |= timed(*t);
        for (auto& c : w.cons)
          need |= c->dcm;
        w.solver->dt = need || r.chance(0.8) ? r.uni(0.001, 0.1) : 0.;
      }
      else if (ev.kind == "teleport")
      {
        robot.state.q = random_q(robot.model, r, 0.8, 1.5);
        for (int k = 7; k < robot.model.nq; k++)
          robot.state.q[k] = std::max(robot.model.lowerPositionLimit[k], std::min(robot.model.upperPositionLimit[k], robot.state.q[k]));
        if (r.chance(0.5))
          robot.state.qd.setZero();
        robot.update_kinematics();
        w.refresh();
        ctx.hit("teleport");
      }
      else if (ev.kind == "clear")
      {
        w.solver->clear();
        w.tasks.clear();
        w.cons.clear();
      }
      else if (ev.kind == "tick" || ev.kind == "peek")
      {
        tick(w, ev, r, ctx);
        if (robot.state.q.norm() > 1e3)
        {
          ctx.hit("runaway");
          break;
        }
      }
    }
  }

  std::unique_ptr<CSpec> random_con(World& w, Rng& r)
  {
    std::unique_ptr<CSpec> c(new CSpec);
    static const std::vector<std::string> ty = { "compoly", "cone", "yaw", "dist", "half", "selfcol" };
    c->type = r.pick(ty);
    auto eff = effectors(w.name);
    c->fa = w.frame(r.pick(eff));
    c->fb = w.frame(r.pick(eff));
    if (w.ref.m.frames[c->fa].parentJoint == w.ref.m.frames[c->fb].parentJoint && c->type != "compoly" && c->type != "half" && c->type != "selfcol")
      return nullptr;
    if (c->type == "compoly")
    {
      Eigen::Vector2d com = w.ref.com().head(2);
      int k = r.between(3, 6);
      double rad = r.uni(0.03, 0.2), off = r.uni(0, 6.28), in = rad * std::cos(M_PI / k);
      Eigen::Vector2d c0 = com + Eigen::Vector2d(r.uni(-.4, .4), r.uni(-.4, .4)) * in;
      for (int i = 0; i < k; i++)
        c->poly.push_back(c0 + rad * Eigen::Vector2d(std::cos(off - 2 * M_PI * i / k), std::sin(off - 2 * M_PI * i / k)));
      c->margin = r.uni(0, 0.3) * in;
      c->dcm = w.solver->dt > 0 && r.chance(0.3);
      c->omega = r.uni(3, 8);
    }
    if (c->type == "dist")
    {
      double dd = (w.ref.pos(c->fb) - w.ref.pos(c->fa)).norm();
      if (dd < 0.05)
        return nullptr;
      c->d = dd + r.uni(0.0, 0.05);
    }
    if (c->type == "half")
    {
      int n = r.between(1, 3), nq = w.robot.model.nq;
      c->A = MatrixXd::Zero(n, nq);
      for (int i = 0; i < n; i++)
        for (int k = 0; k < 3; k++)
          c->A(i, 7 + r.range(nq - 7)) = r.uni(-1, 1);
      c->b = c->A.rightCols(nq - 7) * w.ref.q.tail(nq - 7);
      for (int i = 0; i < n; i++)
        c->b[i] += r.uni(0.0, 0.2);
    }
    if (c->type == "cone" || c->type == "yaw")
    {
      double cur = std::fabs(c->angle(w.ref));
      if (cur > 2)
        return nullptr;
      c->d = cur + r.uni(0.02, 0.3);
    }
    if (c->type == "selfcol")
    {
      if (w.name != "arm")
        return nullptr;
      for (auto& k : w.cons)
        if (k->type == "selfcol")
          return nullptr;
      c->margin = 0.005;
      c->d = 0.03;
    }
    c->prio = r.chance(0.6) ? HARD : SOFT;
    c->weight = std::pow(10., r.uni(-1, 2));
    return c;
  }

  // dq = 0 satisfies every hard constraint, and hard equalities are well conditioned: no reason to refuse
  bool must_succeed(World& w, const refqp::Model& m, bool complete)
  {
    if (!complete)
      return false;
    std::vector<VectorXd> eq;
    VectorXd x = VectorXd::Zero(m.n);
    for (auto& row : m.rows)
    {
      if (!row.hard)
        continue;
      VectorXd e = refqp::eval(row, x);
      if (row.equality && e.cwiseAbs().maxCoeff() > 1e-12)
        return false;
      if (!row.equality && e.minCoeff() < -1e-9)
        return false;
      if (row.equality)
        for (int k = 0; k < row.A.rows(); k++)
        {
          VectorXd v = VectorXd::Zero(m.n);
          v.head(row.A.cols()) = row.A.row(k).transpose();
          eq.push_back(v);
        }
    }
    if (eq.empty())
      return true;
    if ((int)eq.size() > m.n - 1)
      return false;
    MatrixXd E(eq.size(), m.n);
    for (size_t k = 0; k < eq.size(); k++)
      E.row(k) = eq[k];
    Eigen::JacobiSVD<MatrixXd> svd(E);
    return svd.singularValues().minCoeff() > 1e-3;
  }

  bool conditioned(World& w)
  {
    for (auto& t : w.tasks)
    {
      if (t->type != "reg" && t->type != "kinetic" && !t->regular(w.ref))
        return false;
    }
    for (auto& c : w.cons)
      if (c->type == "dist" && (w.ref.pos(c->fb) - w.ref.pos(c->fa)).norm() < 1e-2)
        return false;
    return true;
  }

  void tick(World& w, const Event& ev, Rng& r, Ctx& ctx)
  {
    RobotWrapper& robot = w.robot;
    KinematicsSolver& s = *w.solver;
    bool apply = ev.kind == "tick";
    Snapshot before = snap(robot);
    if (s.dt > 0 && r.chance(0.05))
    {
      // looking at the solver changes nothing, and every task is there
      std::ostringstream os;
      s.dump_status_stream(os);
      std::string text = os.str();
      int shown = 0;
      for (size_t i = text.find("\n  * "); i != std::string::npos; i = text.find("\n  * ", i + 1))
        shown += text.compare(i + 5, 8, "Scaling:") != 0;
      ctx.check(shown == count_handles(w), "dump", "dump_status() does not show every task");
      ctx.check(same(robot.state.q, before.q) && same(robot.state.qd, before.qd) && same(robot.state.qdd, before.qdd), "dump", "dump_status() changed the state of the robot");
      ctx.hit("dumped");
    }
    double dt0 = s.dt;
    bool vl0 = w.vl;
    // ---- faults
    bool expect_failure = false;
    qp::Fault qf = qp::fault_from(ev.fault);
    std::vector<std::unique_ptr<CSpec>> extra;
    std::vector<Constraint*> extra_h;
    std::unique_ptr<TSpec> t1, t2;
    if (qf != qp::None)
      qp::arm(qf, 1);
    if (ev.fault == "dt-zero")
    {
      // the user enabled the velocity limits and lost the period
      s.dt = 0;
      s.enable_velocity_limits(true);
      expect_failure = true;
    }
    if (ev.fault == "bad-constraint")
    {
      std::unique_ptr<CSpec> c(new CSpec);
      c->type = "half";
      c->A = MatrixXd::Ones(1, robot.model.nq + (r.chance(0.5) ? 1 : 0));
      c->b = VectorXd::Ones(c->A.cols() == robot.model.nq ? 2 : 1);
      extra_h.push_back(c->install(s));
      extra.push_back(std::move(c));
      expect_failure = true;
    }
    if (ev.fault == "conflict")
    {
      // two hard half-spaces that exclude each other
      double at = r.uni(-1, 1);
      for (int k = 0; k < 2; k++)
      {
        std::unique_ptr<CSpec> c(new CSpec);
        c->type = "half";
        c->A = MatrixXd::Zero(1, robot.model.nq);
        c->A(0, 7) = k ? 1 : -1;
        c->b = VectorXd::Constant(1, (k ? at : -at) - 0.5);
        extra_h.push_back(c->install(s));
        extra.push_back(std::move(c));
      }
      expect_failure = true;
    }
    std::string how = "ok";
    VectorXd dq;
    try
    {
      dq = s.solve(apply);
    }
    catch (QPError& e)
    {
      how = "qperror";
    }
    catch (std::bad_alloc& e)
    {
      how = "bad_alloc";
    }
    catch (std::runtime_error& e)
    {
      how = "error";
    }
    bool backend_failed = qp::backend_failed();
    bool qff = qp::disarm();
    if (qff || expect_failure)
      ctx.fault(ev.fault);
    for (auto c : extra_h)
      s.remove_constraint(*c);
    s.dt = dt0;
    s.enable_velocity_limits(vl0);
    ctx.mixs(how);
    ctx.hit("solve-" + how);
    std::set<std::string> tt;
    for (auto& t : w.tasks)
      tt.insert(t->type + "012"[t->prio]);
    for (auto& c : w.cons)
      tt.insert(c->type + "hs"[c->prio]);
    std::string st = w.name + how + ev.fault + (w.jl ? "j" : "") + (w.vl ? "v" : "") + (w.fbase_masked ? "f" : "");
    for (auto& x : tt)
      st += x + ",";
    ctx.state(st);
    if (mem::error())
      throw Violation("heap", mem::error());

    if (mode == FAIL)
      check_failure(w, ctx, how, expect_failure || qff, before, apply);
    if (how != "ok")
    {
      if (mode == OPT && !qff && !expect_failure)
      {
        bool complete, scaled;
        auto m = w.model(complete, scaled);
        bool must = !backend_failed && conditioned(w) && must_succeed(w, m, complete);
        ctx.checkf(!must, "feasible-rejected",
                   [&] { return std::string("solve() failed although not moving satisfies every hard task and constraint: ") + how; });
        ctx.hit("refused");
      }
      return;
    }
    if (expect_failure || qff)
    {
      if (mode == FAIL)
        throw Violation("failure-swallowed", "solve() reported success: " + ev.fault);
      return;
    }
    // solve(false) must not move the robot; solve(true) moves it by the returned step
    VectorXd q1 = robot.state.q;
    if (mode == LIMITS)
      check_limits(w, ctx, before, dq, apply);
    if (mode == OPT)
      check_optimal(w, r, ctx, dq, before);
    if (apply)
    {
      ctx.sim_time += s.dt;
      ctx.mixv(robot.state.q);
      // integrated errors in the base quaternion are the user's business
      robot.update_kinematics();
      w.refresh();
    }
  }

  void check_failure(World& w, Ctx& ctx, const std::string& how, bool injected, const Snapshot& before, bool apply)
  {
    RobotWrapper& robot = w.robot;
    if (how != "ok" || !apply)
    {
      ctx.check(same(robot.state.q, before.q), "failed-solve-q", "a solve() that failed or was not asked to apply changed the robot's configuration");
      ctx.check(same(robot.state.qd, before.qd), "failed-solve-qd", "a solve() that failed or was not asked to apply changed the robot's velocity");
      ctx.check(same(robot.state.qdd, before.qdd), "failed-solve-qdd", "a solve() that failed or was not asked to apply changed the robot's acceleration");
    }
    if (how != "ok")
    {
      ctx.hit("failed");
      ctx.check((int)w.solver->tasks_count() == count_handles(w), "failed-solve-tasks", "a failed solve() changed the solver's tasks");
      // the solver recovers: it does what a fresh solver does
      if (!injected)
        return;
      std::string a = "ok", b = "ok";
      VectorXd x, y;
      bool degenerate = !conditioned(w);
      qp::want_print = true;
      qp::forget_print();
      try
      {
        x = w.solver->solve(false);
      }
      catch (std::exception& e)
      {
        a = "error";
      }
      qp::Print pa = qp::last_print();
      qp::forget_print();
      auto tw = w.twin();
      try
      {
        y = tw->solve(false);
      }
      catch (std::exception& e)
      {
        b = "error";
      }
      qp::want_print = false;
      if (a != b && qp::same_qp(pa, qp::last_print()))
      {
        // eiquadprog finds the same problem feasible in one order of its rows only
        ctx.hit("edge");
        return;
      }
      if (degenerate || weak(w))
        return;
      ctx.checkf(a == b, "recovery", [&] { return "after a failure: solve() gives " + a + " and a fresh solver with the same tasks gives " + b; });
      if (a == "ok")
      {
        ctx.hit("recovered");
        // (on the same QP, the back end loses digits depending on the order of its rows)
        double tol = qp::same_qp(pa, qp::last_print()) ? 3e-2 : 1e-3;
        ctx.checkf((x - y).norm() < tol * (1 + y.norm()), "recovery", [&] {
          return fmt("after a failure, solve() differs by %.3g from a fresh solver with the same tasks", (x - y).norm());
        });
      }
    }
  }
  int count_handles(World& w)
  {
    int n = 0;
    for (auto& t : w.tasks)
      n += t->h.size();
    return n;
  }
  // Hard tasks that fight each other: what the QP answers is decided by rounding
  bool weak(World& w)
  {
    bool complete, scaled;
    auto m = w.model(complete, scaled);
    MatrixXd E = MatrixXd::Zero(0, m.n);
    bool hard_ineq = false;
    for (auto& row : m.rows)
      if (row.hard && row.equality)
      {
        int k = E.rows();
        E.conservativeResize(k + row.A.rows(), m.n);
        E.bottomRows(row.A.rows()).setZero();
        E.block(k, 0, row.A.rows(), row.A.cols()) = row.A;
      }
    (void)hard_ineq;
    for (auto& t : w.tasks)
      if (t->type == "axis" || t->type == "orientation" || t->type == "frame" || t->type == "relori" || t->type == "relframe")
        for (auto& b : t->lin(w.ref, 1.))
          if (b.b.norm() > 2.9)
            return true;
    if (E.rows() == 0)
      return false;
    if (E.rows() > m.n)
      return true;
    Eigen::JacobiSVD<MatrixXd> svd(E);
    return svd.singularValues().minCoeff() < 1e-3;
  }

  void check_limits(World& w, Ctx& ctx, const Snapshot& b, const VectorXd& dq, bool apply)
  {
    RobotWrapper& robot = w.robot;
    const double tol = 2e-3;  // Problem::solve() promises 1e-3 (the QP solver's own tolerance on badly conditioned problems)
    ctx.check(dq.allFinite(), "nan", "solve() returned a non-finite step");
    VectorXd qn = b.q.tail(dq.size() - 6) + dq.tail(dq.size() - 6);
    for (int k = 6; k < dq.size(); k++)
    {
      double q = qn[k - 6];
      std::string j = robot.model.names[k - 6 + 2];
      double sc = tol;
      if (w.jl)
      {
        double lo = robot.model.lowerPositionLimit[k + 1], up = robot.model.upperPositionLimit[k + 1];
        ctx.checkf(q >= lo - sc && q <= up + sc, "joint-limit", [&] { return fmt("joint %s at %.6f, its limits are [%.6f, %.6f]", j.c_str(), q, lo, up); });
      }
      if (w.vl)
      {
        double v = robot.model.velocityLimit[k] * w.solver->dt;
        ctx.checkf(std::fabs(dq[k]) <= v + sc, "velocity-limit", [&] { return fmt("joint %s moves by %.6f in one step, %.6f allowed", j.c_str(), dq[k], v); });
      }
    }
    for (auto& j : w.masked)
    {
      int i = w.ref.m.idx_vs[w.ref.m.getJointId(j)], nv = w.ref.m.nvs[w.ref.m.getJointId(j)];
      ctx.checkf(dq.segment(i, nv).norm() < 1e-5 * (1 + dq.norm()), "masked-dof", [&] { return fmt("masked joint %s moves by %.3g", j.c_str(), dq.segment(i, nv).norm()); });
    }
    if (w.fbase_masked)
      ctx.check(dq.head(6).norm() < 1e-6, "masked-fbase", "the masked floating base moves");
    if (!apply)
    {
      ctx.check(same(robot.state.q, b.q) && same(robot.state.qd, b.qd) && same(robot.state.qdd, b.qdd), "not-applied", "solve() without apply changed the robot's state");
      return;
    }
    VectorXd q1 = pinocchio::integrate(w.ref.m, b.q, dq);
    ctx.check((q1 - robot.state.q).norm() < 1e-9 * (1 + q1.norm()), "applied-q", "the robot's configuration is not the previous one moved by the returned step");
    ctx.check(std::fabs(robot.state.q.segment(3, 4).norm() - 1) < 1e-6, "quaternion", "the floating base orientation is not a unit quaternion any more");
    if (w.solver->dt > 0)
    {
      VectorXd v = pinocchio::difference(w.ref.m, b.q, q1) / w.solver->dt;
      ctx.check((v - robot.state.qd).norm() < 1e-6 * (1 + v.norm()), "applied-qd", "the robot's velocity is not the applied step divided by dt");
      VectorXd a = (v - b.qd) / w.solver->dt;
      ctx.check((a - robot.state.qdd).norm() < 1e-6 * (1 + a.norm()), "applied-qdd", "the robot's acceleration is not the change of velocity divided by dt");
    }
    else
      ctx.check(same(robot.state.qd, b.qd) && same(robot.state.qdd, b.qdd), "applied-qd", "without dt, solve() changed the robot's velocity");
  }

  void check_optimal(World& w, Rng& r, Ctx& ctx, const VectorXd& dq, const Snapshot& before)
  {
    bool complete, scaled;
    // the reference is evaluated where the robot was
    w.ref.set(before.q, before.qd);
    // Huge steps: the hard constraints can only be met through rounding residues in the Jacobians (the free-flying
    // base has none but the 1e-8 regularisation)
    if (!conditioned(w) || dq.norm() > 1e3 || before.q.norm() > 1e3)
    {
      ctx.hit("unjudged");
      return;
    }
    double magnitude = 0;
    auto m = w.model(complete, scaled);
    VectorXd x(m.n);
    x.head(dq.size()) = dq;
    if (scaled)
    {
      x[dq.size()] = w.solver->scale;
      ctx.check(w.solver->scale > -2e-3 && w.solver->scale < 1 + 2e-3, "scale", fmt("the scale factor of scaled tasks is not in [0, 1]: %.9g", w.solver->scale));
    }
    if (complete && !weak(w))
    {
      auto v = refqp::judge(m, x);
      magnitude = v.scale;
      if (ctx.verbose)
        for (auto& t : w.tasks)
          for (auto& b : t->lin(w.ref, w.solver->dt))
            ctx.log("  %s prio %d weight %.3g |A| %.3g |b| %.3g smin %.3g (%s, %s)", t->type.c_str(), t->prio, t->weight, b.A.norm(), b.b.norm(),
                    Eigen::JacobiSVD<MatrixXd>(b.A).singularValues().minCoeff(), w.ref.m.frames[t->fa].name.c_str(), w.ref.m.frames[t->fb].name.c_str());
      ctx.log("dq %.3g", dq.norm());
      ctx.log("tick: infeas %.3g kkt %.3g scale %.3g", v.infeas, v.kkt, v.scale);
      ctx.checkf(v.eq_abs < 1e-5 * (1 + x.norm()), "hard-task", [&] { return fmt("the step violates a hard task or a mask by %.3g", v.eq_abs); });
      ctx.checkf(v.in_abs < 2e-3, "hard-constraint", [&] { return fmt("the step violates a hard constraint or limit by %.3g", v.in_abs); });
      if (v.residual >= 1e-4 * (v.scale + 0.1))
      {
        double be = qp::backend_error();
        ctx.log("back end's own error %.3g", be);
        if (be > 1e-7)
        {
          ctx.hit("backend-inaccurate");
          return;
        }
      }
      ctx.checkf(v.residual < 1e-4 * (v.scale + 0.1), "not-optimal", [&] {
        return fmt("the step is not the weighted optimum of the solver's current tasks (relative KKT residual %.3g)", v.kkt);
      });
      ctx.hit("judged");
    }
    if (r.chance(0.5) && !weak(w))
    {
      // history independence: same specification in a fresh solver, at the state before the step
      RobotWrapper& robot = w.robot;
      Snapshot after = snap(robot);
      robot.state.q = before.q;
      robot.state.qd = before.qd;
      robot.state.qdd = before.qdd;
      auto tw = w.twin();
      VectorXd y;
      bool ok = true;
      try
      {
        y = tw->solve(false);
      }
      catch (std::exception& e)
      {
        ok = false;
      }
      if (!ok || (magnitude > 1e5 && (dq - y).norm() >= 1e-3 * (1 + y.norm()) && (dq - y).norm() < 5e-2 * (1 + y.norm())))
      {
        // (eiquadprog may find the same problem feasible in one order of its rows only, and loses digits on huge ones)
        qp::want_print = true;
        qp::forget_print();
        qp::Print pa, pb;
        try
        {
          tw->solve(false);
        }
        catch (std::exception& e)
        {
        }
        pb = qp::last_print();
        qp::forget_print();
        try
        {
          w.solver->solve(false);
        }
        catch (std::exception& e)
        {
        }
        pa = qp::last_print();
        qp::want_print = false;
        ok = qp::same_qp(pa, pb);
        if (ok)
        {
          ctx.hit("edge");
          y = dq;
        }
      }
      robot.state.q = after.q;
      robot.state.qd = after.qd;
      robot.state.qdd = after.qdd;
      ctx.check(ok, "history", "a fresh solver with the same tasks refuses what this solver solved");
      ctx.hit("twin");
      ctx.checkf((dq - y).norm() < 1e-3 * (1 + y.norm()), "history", [&] {
        return fmt("the step depends on the solver's history: it differs by %.3g from a fresh solver with the same tasks", (dq - y).norm());
      });
    }
  }
};

// ---------------------------------------------------------------- P05: geometric constraints along a motion
struct KinConstr : KinScenario
{
  KinConstr() : KinScenario(CONSTR)
  {
  }
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    int n = r.between(15, thorough ? 90 : 40);
    std::vector<std::string> faults = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw" };
    for (int i = r.between(1, 3); i > 0; i--)
      p.ev.push_back({ "con", r.next(), "-" });
    for (int i = r.between(1, 3); i > 0; i--)
      p.ev.push_back({ "task", r.next(), "-" });
    double pf = r.chance(0.5) ? 0.15 : 0;
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = r.chance(0.8) ? "tick" : (r.chance(0.6) ? "target" : (r.chance(0.5) ? "con" : (r.chance(0.5) ? "nudge" : "rmcon")));
      e.sub = r.next();
      if (e.kind == "tick" && r.chance(pf))
        e.fault = r.pick(faults);
      p.ev.push_back(e);
    }
    return p;
  }
  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng cfg(plan.config);
    static const std::vector<std::string> names = { "sigmaban", "quadruped", "arm", "arm" };
    std::string name = cfg.pick(names);
    RobotWrapper& robot = *robots_[name];
    mem::begin(mem::random_env(cfg));
    robot.reset();
    robot.state.q = random_q(robot.model, cfg);
    robot.state.qd.setZero();
    robot.state.qdd.setZero();
    robot.update_kinematics();
    World w(robot, name);
    KinematicsSolver& s = *w.solver;
    s.dt = cfg.uni(0.002, 0.02);
    robot.set_velocity_limits(cfg.uni(0.5, 3));
    w.limits(true, cfg.chance(0.8));
    if (cfg.chance(0.5))
    {
      w.fbase_masked = true;
      s.mask_fbase(true);
    }
    {
      std::unique_ptr<TSpec> t(new TSpec);
      t->type = "reg";
      t->d = 1e-3;
      w.add(std::move(t));
    }
    Ref prev(robot.model);
    static const std::vector<std::string> types = { "position", "orientation", "frame", "relpos", "relori", "com", "joints" };
    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      ctx.steps++;
      ctx.mixs(ev.kind);
      if (ev.kind == "con")
      {
        if (w.cons.size() < 4)
          if (auto c = random_con(w, r))
          {
            c->prio = r.chance(0.9) ? HARD : SOFT;
            if (c->type == "cone")
              c->d = std::max(c->d, 0.15);
            ctx.hit("con-" + c->type);
            w.add(std::move(c));
          }
      }
      else if (ev.kind == "rmcon")
      {
        if (w.cons.size())
          w.remove_con(r.range(w.cons.size()));
      }
      else if (ev.kind == "task")
      {
        auto t = w.random_task(r, types, 0.5);
        t->weight = std::pow(10., r.uni(-1, 1));
        w.add(std::move(t));
      }
      else if (ev.kind == "target")
      {
        auto& t = *w.tasks[r.range(w.tasks.size())];
        if (t.type != "reg")
        {
          w.aim(t, r, 0.5);
          t.push(t.h, robot);
        }
      }
      else if (ev.kind == "nudge")
      {
        // something else moves the robot a little, possibly out of the constraints
        VectorXd dq(w.ref.nv());
        for (int k = 0; k < dq.size(); k++)
          dq[k] = r.uni(-0.05, 0.05);
        robot.state.q = pinocchio::integrate(w.ref.m, robot.state.q, dq);
        for (int k = 7; k < robot.model.nq; k++)
          robot.state.q[k] = std::max(robot.model.lowerPositionLimit[k], std::min(robot.model.upperPositionLimit[k], robot.state.q[k]));
        robot.update_kinematics();
        w.refresh();
        ctx.fault("nudge");
      }
      else
      {
        step(w, prev, ev, r, ctx);
        if (robot.state.q.norm() > 100)
          break;
      }
    }
  }
  void step(World& w, Ref& prev, const Event& ev, Rng& r, Ctx& ctx)
  {
    RobotWrapper& robot = w.robot;
    KinematicsSolver& s = *w.solver;
    VectorXd q0 = robot.state.q;
    qp::Fault qf = qp::fault_from(ev.fault);
    if (qf != qp::None)
      qp::arm(qf, 1);
    // what would be done without the constraints
    VectorXd dq, free;
    bool has_free = false;
    if (qf == qp::None && r.chance(0.3) && w.cons.size())
    {
      auto save = std::move(w.cons);
      w.cons.clear();
      auto tw = w.twin();
      w.cons = std::move(save);
      try
      {
        free = tw->solve(false);
        has_free = true;
      }
      catch (std::exception& e)
      {
      }
    }
    std::string how = "ok";
    try
    {
      dq = s.solve(true);
    }
    catch (QPError& e)
    {
      how = "qperror";
    }
    catch (std::bad_alloc& e)
    {
      how = "bad_alloc";
    }
    if (qp::disarm())
      ctx.fault(ev.fault);
    ctx.mixs(how);
    ctx.hit("solve-" + how);
    std::string st = w.name + how + ev.fault + (w.vl ? "v" : "") + (w.fbase_masked ? "f" : "");
    for (auto& c : w.cons)
      st += c->type + "hs"[c->prio] + (c->h ? "" : "?");
    ctx.state(st);
    if (how != "ok")
      return;
    ctx.sim_time += s.dt;
    ctx.mixv(robot.state.q);
    prev.set(q0);
    Ref tmp(robot.model);
    const double eps = 1e-4;
    auto margins = [&](const CSpec& c, const VectorXd& d, double f) {
      tmp.set(pinocchio::integrate(w.ref.m, q0, VectorXd(d * f)));
      return c.margins(tmp, &prev, s.dt, &robot.collision_model);
    };
    bool all_inactive = has_free && free.norm() < 0.3;
    for (auto& c : w.cons)
    {
      if (!regular(*c, prev))
      {
        all_inactive = false;
        ctx.hit("singular");
        continue;
      }
      auto m0 = margins(*c, dq, 0), m1 = margins(*c, dq, 1);
      double n = dq.norm() + 1e-12, e = std::min(1., eps / n);
      auto mp = margins(*c, dq, e), mm = margins(*c, dq, -e);
      for (size_t k = 0; k < m0.size(); k++)
      {
        double lin = m0[k] + (mp[k] - mm[k]) / (2 * e), rem = std::fabs(m1[k] - lin);
        if (c->type == "selfcol" && m0[k] + c->margin > c->d - 1e-6)
          continue;  // further than the trigger distance
        if (c->prio == HARD)
        {
          ctx.hit("margin-" + c->type);
          if (lin < 1e-3)
            ctx.hit("tight-" + c->type);
          double tol = 2e-3 + rem + 1e-3 * n;
          ctx.log("%s margin %.4f -> %.4f (first order %.4f) |dq| %.4f", c->type.c_str(), m0[k], m1[k], lin, n);
          ctx.checkf(m1[k] >= -tol, ("left-" + c->type).c_str(), [&] {
            return fmt("after a successful solve(), the hard %s constraint is violated by %.4f (it was %s%.4f before the step, first-order prediction %.4f)",
                       c->type.c_str(), -m1[k], m0[k] >= 0 ? "satisfied by " : "violated by ", std::fabs(m0[k]), -lin);
          });
        }
      }
      if (all_inactive)
      {
        double nf = free.norm() + 1e-12, ef = std::min(1., eps / nf);
        auto fp = margins(*c, free, ef), fm = margins(*c, free, -ef);
        for (size_t k = 0; k < m0.size(); k++)
        {
          double lin = m0[k] + (fp[k] - fm[k]) / (2 * ef);
          bool angular = c->type == "cone" || c->type == "yaw";
          if (lin < (angular ? 0.1 : 1e-3) || (angular && nf > 0.05))
            all_inactive = false;
        }
      }
    }
    if (all_inactive && w.cons.size())
    {
      ctx.hit("inactive");
      ctx.checkf((dq - free).norm() < 5e-3 + 2e-2 * free.norm(), "interference", [&] {
        return fmt("constraints that are satisfied with a margin change the motion (by %.3g)", (dq - free).norm());
      });
    }
    robot.update_kinematics();
    w.refresh();
  }
  bool regular(const CSpec& c, Ref& ref)
  {
    if (c.type == "cone")
    {
      double a = c.angle(ref);
      return a > 0.03 && a < 3.0;
    }
    if (c.type == "yaw")
    {
      Vector3d x = ref.rot(c.fa).transpose() * ref.rot(c.fb).col(0);
      return x.head(2).norm() > 0.2 && std::fabs(c.angle(ref)) < 2.8;
    }
    if (c.type == "dist")
      return (ref.pos(c.fb) - ref.pos(c.fa)).norm() > 0.05;
    return true;
  }
};
SIM_SCENARIO("kin_constr", KinConstr);

// ---------------------------------------------------------------- P04: convergence once faults stop
struct KinConv : KinScenario
{
  KinConv() : KinScenario(OPT)
  {
  }
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> faults = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw" };
    for (int i = r.between(1, 4); i > 0; i--)
      p.ev.push_back({ "task", r.next(), "-" });
    for (int k = r.between(0, thorough ? 25 : 10); k > 0; k--)
    {
      Event e;
      int a = r.range(10);
      e.kind = a < 5 ? "tick" : (a == 5 ? "teleport" : (a == 6 ? "target" : (a == 7 ? "task" : (a == 8 ? "rmtask" : "reprio"))));
      e.sub = r.next();
      if (e.kind == "tick" && r.chance(0.4))
        e.fault = r.pick(faults);
      p.ev.push_back(e);
    }
    p.ev.push_back({ "settle", r.next(), "-" });
    if (r.chance(0.4))
    {
      p.ev.push_back({ r.chance(0.5) ? "task" : "rmtask", r.next(), "-" });
      p.ev.push_back({ "settle", r.next(), "-" });
    }
    return p;
  }
  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng cfg(plan.config);
    static const std::vector<std::string> names = { "sigmaban", "quadruped", "arm" };
    std::string name = cfg.pick(names);
    RobotWrapper& robot = *robots_[name];
    mem::begin(mem::random_env(cfg));
    robot.reset();
    robot.state.q = random_q(robot.model, cfg, 0.6);
    robot.state.qd.setZero();
    robot.state.qdd.setZero();
    robot.update_kinematics();
    World w(robot, name);
    KinematicsSolver& s = *w.solver;
    s.dt = cfg.uni(0.01, 0.1);
    w.limits(true, cfg.chance(0.4));
    if (w.vl)
      robot.set_velocity_limits(cfg.uni(0.5, 2) / s.dt);
    double rg = cfg.chance(0.7) ? 1e-6 : 0;
    if (rg > 0)
    {
      std::unique_ptr<TSpec> t(new TSpec);
      t->type = "reg";
      t->d = rg;
      w.add(std::move(t));
    }
    static const std::vector<std::string> types = { "position", "orientation", "frame", "relpos", "relori", "relframe",
                                                    "com",      "distance",    "axis",  "joints" };
    double hardp = cfg.chance(0.4) ? 0.3 : 0;
    Ref goal(robot.model);
    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      ctx.steps++;
      ctx.mixs(ev.kind);
      if (ev.kind == "task")
      {
        if (w.tasks.size() < 6)
        {
          auto t = w.random_task(r, types, 0.2);
          t->weight = std::pow(10., r.uni(-1, 1));
          t->weight2 = std::pow(10., r.uni(-1, 1));
          t->prio = r.chance(hardp) ? HARD : SOFT;
          w.add(std::move(t));
        }
      }
      else if (ev.kind == "rmtask")
      {
        size_t i = r.range(w.tasks.size() + 1);
        if (i < w.tasks.size() && w.tasks[i]->type != "reg")
          w.remove(i);
      }
      else if (ev.kind == "reprio")
      {
        size_t i = r.range(w.tasks.size() + 1);
        if (i < w.tasks.size() && w.tasks[i]->type != "reg")
        {
          w.tasks[i]->weight = std::pow(10., r.uni(-1, 1));
          w.tasks[i]->configure(w.tasks[i]->h);
        }
      }
      else if (ev.kind == "target")
      {
        size_t i = r.range(w.tasks.size() + 1);
        if (i < w.tasks.size() && w.tasks[i]->type != "reg")
        {
          w.aim(*w.tasks[i], r, 0.2);
          w.tasks[i]->push(w.tasks[i]->h, robot);
        }
      }
      else if (ev.kind == "teleport")
      {
        robot.state.q = random_q(robot.model, r, 0.6);
        robot.update_kinematics();
        w.refresh();
        ctx.fault("teleport");
      }
      else if (ev.kind == "tick")
      {
        qp::Fault qf = qp::fault_from(ev.fault);
        if (qf != qp::None)
          qp::arm(qf, 1);
        try
        {
          s.solve(true);
        }
        catch (QPError& e)
        {
        }
        catch (std::bad_alloc& e)
        {
        }
        if (qp::disarm())
          ctx.fault(ev.fault);
        robot.update_kinematics();
        w.refresh();
        if (robot.state.q.norm() > 1e3)
        {
          robot.state.q = random_q(robot.model, r, 0.6);
          robot.update_kinematics();
          w.refresh();
        }
      }
      else if (ev.kind == "settle")
        settle(w, goal, r, ctx);
    }
  }
  static double worst(World& w, Ref& ref)
  {
    double e = 0;
    for (auto& t : w.tasks)
      if (t->type != "reg")
        e = std::max(e, t->err(ref));
    return e;
  }
  void settle(World& w, Ref& goal, Rng& r, Ctx& ctx)
  {
    RobotWrapper& robot = w.robot;
    KinematicsSolver& s = *w.solver;
    if (w.tasks.size() < 2)
      return;
    // Targets: what the tasks measure at a nearby configuration, so that they can be reached all together
    robot.state.q = random_q(robot.model, r, 0.5);
    robot.update_kinematics();
    w.refresh();
    VectorXd dq(w.ref.nv());
    for (int k = 0; k < dq.size(); k++)
      dq[k] = r.uni(-0.3, 0.3);
    VectorXd qg = pinocchio::integrate(w.ref.m, robot.state.q, dq);
    for (int k = 7; k < robot.model.nq; k++)
    {
      double lo = robot.model.lowerPositionLimit[k] + 0.05, up = robot.model.upperPositionLimit[k] - 0.05;
      if (lo < up)
        qg[k] = std::max(lo, std::min(up, qg[k]));
    }
    goal.set(qg);
    for (auto& t : w.tasks)
      if (t->type != "reg" && t->type != "gear")
      {
        w.aim_at(*t, goal);
        t->push(t->h, robot);
      }
    // The reference: plain Gauss-Newton on the weighted errors; the tasks can be reached that way, far from any limit
    Ref ref(robot.model);
    ref.set(robot.state.q);
    int need = -1;
    double e0 = worst(w, ref);
    if (e0 < 1e-3)
      return;
    const int K = 15, TOTAL = 60;
    for (int it = 0; it < K && need < 0; it++)
    {
      MatrixXd H = MatrixXd::Identity(ref.nv(), ref.nv()) * s.problem.regularization;
      VectorXd g = VectorXd::Zero(ref.nv());
      for (auto& t : w.tasks)
      {
        if (t->type != "reg" && !t->regular(ref))
          return ctx.hit("settle-singular");
        auto bl = t->lin(ref, s.dt);
        for (size_t k = 0; k < bl.size(); k++)
        {
          double wt = (k ? t->weight2 : t->weight) * (t->prio == SOFT ? 1 : 1e4);
          H += wt * bl[k].A.transpose() * bl[k].A;
          g += wt * bl[k].A.transpose() * bl[k].b;
        }
      }
      // hard tasks that are (nearly) redundant have no well-defined step
      MatrixXd E(0, ref.nv());
      for (auto& t : w.tasks)
        if (t->prio == HARD)
          for (auto& b : t->lin(ref, s.dt))
          {
            E.conservativeResize(E.rows() + b.A.rows(), ref.nv());
            E.bottomRows(b.A.rows()) = b.A;
          }
      if (E.rows() > ref.nv() || (E.rows() && Eigen::JacobiSVD<MatrixXd>(E).singularValues().minCoeff() < 0.05))
        return ctx.hit("settle-dependent");
      VectorXd step = H.ldlt().solve(g);
      if (step.norm() > 2)
        return ctx.hit("settle-far");
      VectorXd q = pinocchio::integrate(ref.m, ref.q, step);
      for (int k = 7; k < robot.model.nq; k++)
      {
        if (q[k] > robot.model.upperPositionLimit[k] - 0.02 || q[k] < robot.model.lowerPositionLimit[k] + 0.02)
          return ctx.hit("settle-limit");
        if (w.vl && std::fabs(step[k - 1]) > 0.9 * robot.model.velocityLimit[k - 1] * s.dt)
          return ctx.hit("settle-velocity");
      }
      ref.set(q);
      if (worst(w, ref) < 1e-6)
        need = it;
    }
    if (need < 0)
      return ctx.hit("settle-unreachable");
    // hard tasks that are not independent may legitimately be refused
    int hard = 0;
    for (auto& t : w.tasks)
      hard += t->prio != SOFT;
    bool refused = false;
    for (int it = 0; it < TOTAL; it++)
    {
      try
      {
        s.solve(true);
      }
      catch (QPError& e)
      {
        refused = true;
        break;
      }
      ctx.sim_time += s.dt;
      robot.update_kinematics();
    }
    if (refused)
    {
      ctx.check(hard > 0, "refused", "solve() failed in a closed loop towards reachable targets, with soft tasks only");
      ctx.hit("settle-refused");
      return;
    }
    w.refresh();
    double e1 = worst(w, w.ref);
    ctx.hit("settled");
    ctx.mixv(robot.state.q);
    std::string st = w.name;
    for (auto& t : w.tasks)
      st += t->type + "012"[t->prio];
    ctx.state(st);
    for (auto& t : w.tasks)
      ctx.log("  %s prio %d w %.3g %.3g err %.3g (%s %s) mask %s/%s", t->type.c_str(), t->prio, t->weight, t->weight2, t->err(w.ref),
              w.ref.m.frames[t->fa].name.c_str(), w.ref.m.frames[t->fb].name.c_str(), t->mask.axes.c_str(), t->mask.frame.c_str());
    ctx.log("settle: error %.3g -> %.3g in %d steps (reference: %d)", e0, e1, TOTAL, need);
    ctx.checkf(e1 < 1e-4, "not-converged", [&] {
      return fmt("the tasks' error is %.3g after %d steps (it was %.3g); their targets are reachable and plain Gauss-Newton gets there in %d steps", e1,
                 TOTAL, e0, need + 1);
    });
  }
};
SIM_SCENARIO("kin_conv", KinConv);

template <int M>
struct KinMode : KinScenario
{
  KinMode() : KinScenario((Mode)M)
  {
  }
};
using KinLimits = KinMode<LIMITS>;
using KinOpt = KinMode<OPT>;
using KinFail = KinMode<FAIL>;
SIM_SCENARIO("kin_limits", KinLimits);
SIM_SCENARIO("kin_opt", KinOpt);
SIM_SCENARIO("kin_fail", KinFail);
}  // namespace
