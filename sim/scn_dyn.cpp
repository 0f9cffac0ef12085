// P06-P09: a dynamics solver driven tick by tick, while tasks, contacts, limits and options change and faults hit it.
#include <sstream>
#include "core.h"
#include "dynworld.h"

using namespace sim;
using namespace dyn;
using placo::problem::QPError;

namespace
{
enum Mode
{
  EOM,
  CONTACTS,
  FAIL,
  OPT
};

struct Snapshot
{
  VectorXd q, qd, qdd;
};
static Snapshot snap(RobotWrapper& r)
{
  return { r.state.q, r.state.qd, r.state.qdd };
}
static void restore(RobotWrapper& r, const Snapshot& s)
{
  r.state.q = s.q;
  r.state.qd = s.qd;
  r.state.qdd = s.qdd;
}
static bool same(const VectorXd& a, const VectorXd& b)
{
  return a.size() == b.size() && (a.size() == 0 || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
static bool same(const Snapshot& a, const Snapshot& b)
{
  return same(a.q, b.q) && same(a.qd, b.qd) && same(a.qdd, b.qdd);
}

struct Out
{
  bool threw = false, success = false;
  std::string what;
  DynamicsSolver::Result res;
  std::vector<VectorXd> wrench;
};

struct DynScenario : Scenario
{
  Mode mode;
  std::map<std::string, RobotWrapper*> robots_;
  DynScenario(Mode m) : mode(m)
  {
  }
  void setup() override
  {
    for (std::string n : { "sigmaban", "quadruped", "arm" })
      robots_[n] = make(n);
  }

  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> kinds = { "task",   "rmtask", "contact", "rmcontact", "target", "reprio", "recontact", "fbase",
                                       "limits", "limset", "option",  "teleport",  "push",   "tick",   "gains",     "clear" };
    std::vector<double> w = { 2.5, 0.8, 1.5, 0.5, 1.5, 0.8, 1, 0.4, 0.7, 0.4, 0.6, 0.3, 0.6, 8, 0.3, 0.1 };
    if (mode == CONTACTS)
      w[2] = 3;
    for (auto& x : w)
      if (r.chance(0.3))
        x *= r.chance(0.5) ? 0 : 3;
    w[13] = 8;
    int n = r.between(8, thorough ? 50 : 24);
    double pf = mode == FAIL ? 0.35 : (r.chance(0.5) ? 0.1 : 0);
    std::vector<std::string> faults = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw", "dt-zero", "scaled", "conflict", "masked-contact", "no-size" };
    p.ev.push_back({ "task", r.next(), "-" });
    if (mode == CONTACTS)
      p.ev.push_back({ "contact", r.next(), "-" });
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted(w)];
      e.sub = r.next();
      if (e.kind == "tick" && r.chance(pf))
        e.fault = r.pick(faults);
      p.ev.push_back(e);
    }
    p.ev.push_back({ "tick", r.next(), "-" });
    return p;
  }

  Out call(World& w, DynamicsSolver& s, const std::vector<Contact*>& ch, bool integrate)
  {
    Out o;
    try
    {
      o.res = s.solve(integrate);
      o.success = o.res.success;
      if (o.success)
        for (auto* c : ch)
          o.wrench.push_back(c->wrench);
    }
    catch (Violation&)
    {
      throw;
    }
    catch (std::exception& e)
    {
      o.threw = true;
      o.what = e.what();
    }
    return o;
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    qp::remember = mode == OPT || mode == CONTACTS;
    Rng cfg(plan.config);
    static const std::vector<std::string> names = { "sigmaban", "quadruped", "arm" };
    std::string name = cfg.pick(names);
    RobotWrapper& robot = *robots_[name];
    mem::begin(mem::random_env(cfg));
    rnd::seed(cfg.next());
    robot.reset();
    robot.state.q = random_q(robot.model, cfg);
    robot.state.qd = VectorXd::Zero(robot.model.nv);
    robot.state.qdd = VectorXd::Zero(robot.model.nv);
    double vscale = cfg.chance(0.5) ? 0.3 : 1.5;
    if (cfg.chance(0.5))
      for (int i = 0; i < robot.model.nv; i++)
        robot.state.qd[i] = vscale * cfg.uni(-1, 1);
    for (int k = 6; k < robot.model.nv; k++)
    {
      // some actuators are weak, some are slow
      robot.model.effortLimit[k] = cfg.chance(0.3) ? cfg.uni(0.5, 5) : cfg.uni(5, 100);
      robot.model.velocityLimit[k] = cfg.chance(0.3) ? cfg.uni(0.5, 3) : cfg.uni(3, 30);
    }
    if (cfg.chance(0.2))
      robot.set_gravity(random_vec(cfg, 9.81));
    std::vector<std::string> jn = robot.joint_names();
    if (cfg.chance(0.4))
      for (auto& j : jn)
        if (cfg.chance(0.5))
        {
          robot.set_rotor_inertia(j, cfg.uni(0, 1e-3));
          robot.set_gear_ratio(j, cfg.uni(1, 100));
        }
    robot.update_kinematics();
    World w(robot, name);
    w.fbase_masked = cfg.chance(0.3);
    w.dt = cfg.chance(0.8) ? cfg.uni(0.001, 0.02) : 0.;
    bool lim = cfg.chance(0.6);
    if (lim)
    {
      w.tl = cfg.chance(0.5);
      if (w.dt > 0)
      {
        w.jl = cfg.chance(0.4);
        w.vl = cfg.chance(0.4);
        w.vtl = cfg.chance(0.25);
      }
    }
    w.options(*w.solver);
    if (cfg.chance(0.5))
      w.solver->problem.regularization = std::pow(10., cfg.uni(-8, -5));
    std::vector<std::string> types;
    for (std::string t : { "position", "orientation", "rel_position", "com", "joints", "torque", "gear", "rel_orientation" })
      if (cfg.chance(t == "rel_orientation" ? 0.15 : 0.6))
        types.push_back(t);
    if (types.empty())
      types.push_back("position");
    std::vector<std::string> ctypes;
    for (std::string t : { "point", "upoint", "fixed", "planar", "ext", "puppet", "task", "line", "uline" })
      if (cfg.chance(0.6))
        ctypes.push_back(t);
    if (ctypes.empty())
      ctypes.push_back("planar");
    double phard = cfg.pick(std::vector<double>{ 0, 0.1, 0.4 });
    double reach = cfg.chance(0.5) ? 0.05 : 0.3;

    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      ctx.steps++;
      ctx.mixs(ev.kind);
      if (ev.kind == "task")
      {
        if (w.tasks.size() >= 7)
          continue;
        auto t = w.random_task(r, types, reach);
        t->hard = r.chance(phard);
        ctx.hit("task-" + t->type);
        w.add(std::move(t));
      }
      else if (ev.kind == "rmtask")
      {
        std::vector<size_t> free;
        for (size_t i = 0; i < w.tasks.size(); i++)
          if (!w.tasks[i]->users)
            free.push_back(i);
        if (!free.empty())
          w.remove(r.pick(free));
      }
      else if (ev.kind == "contact")
        add_contact(w, r, ctypes, ctx);
      else if (ev.kind == "rmcontact")
      {
        if (!w.contacts.empty())
          w.remove_contact(r.range(w.contacts.size()));
      }
      else if (ev.kind == "recontact")
      {
        if (w.contacts.empty())
          continue;
        auto& c = *w.contacts[r.range(w.contacts.size())];
        if (r.chance(0.5))
          c.active = !c.active;
        else
          vary(c, r);
        c.push(c.h);
      }
      else if (ev.kind == "target" || ev.kind == "reprio")
      {
        if (w.tasks.empty())
          continue;
        auto& t = *w.tasks[r.range(w.tasks.size())];
        if (ev.kind == "target")
        {
          w.refresh();
          w.aim(t, r, reach);
          if (t.type == "gear" && !t.gears.empty())
          {
            auto it = t.gears.begin();
            std::advance(it, r.range(t.gears.size()));
            for (auto& e : it->second)
              e.second = r.uni(-2, 2);
            std::string src = r.pick(w.joints);
            if (r.chance(0.4) && src != it->first && !t.gears.count(src))
              it->second = { { src, r.uni(-2, 2) } };
          }
          if (t.type == "joints" && r.chance(0.3))
          {
            t.joints[r.pick(w.joints)] = Vector3d::Zero();
            w.aim(t, r, reach);
          }
          bool held = false;  // (contacts rely on the axes of their tasks)
          for (auto& c : w.contacts)
            held |= c->t1 == &t || c->t2 == &t;
          if (t.axes.size() && !held && r.chance(0.3))
            t.axes = r.pick(std::vector<std::string>{ "xyz", "xy", "z", "yz" });
          if (t.type == "torque" && t.joints.size() > 1 && r.chance(0.4))
            t.joints.erase(t.joints.begin());
        }
        else
        {
          t.hard = r.chance(phard);
          t.weight = std::pow(10., r.uni(-2, 2));
          t.kp = std::pow(10., r.uni(0, 3));
          t.kd = r.chance(0.6) ? -1 : r.uni(0, 60);
        }
        t.push(t.h, *w.solver);
      }
      else if (ev.kind == "gains")
      {
        double kp = std::pow(10., r.uni(0, 3)), kd = r.chance(0.5) ? -1 : r.uni(0, 60);
        w.solver->set_kp(kp);
        w.solver->set_kd(kd);
        for (auto& t : w.tasks)
        {
          t->kp = kp;
          t->kd = kd;
        }
      }
      else if (ev.kind == "fbase")
      {
        w.fbase_masked = !w.fbase_masked;
        w.options(*w.solver);
      }
      else if (ev.kind == "limits")
      {
        w.tl = r.chance(0.4);
        w.jl = w.dt > 0 && r.chance(0.4);
        w.vl = w.dt > 0 && r.chance(0.4);
        w.vtl = w.dt > 0 && r.chance(0.25);
        w.options(*w.solver);
      }
      else if (ev.kind == "limset")
      {
        w.tlim[r.pick(jn)] = r.uni(0.5, 20);
        w.qsafe[r.pick(jn)] = r.uni(0.2, 50);
        w.options(*w.solver);
      }
      else if (ev.kind == "option")
      {
        switch (r.range(5))
        {
          case 0:
            w.gravity_only = !w.gravity_only;
            break;
          case 1:
            w.damping = r.chance(0.5) ? r.uni(0, 1) : 0.;
            break;
          case 2:
            w.torque_cost = std::pow(10., r.uni(-4, 0));
            break;
          case 3:
            w.extra = r.chance(0.7) ? VectorXd(VectorXd::NullaryExpr(robot.model.nv, [&](int) { return r.uni(-2, 2); })) : VectorXd();
            break;
          case 4:
            if (w.dt > 0)
              w.dt = r.uni(0.001, 0.02);
        }
        w.options(*w.solver);
      }
      else if (ev.kind == "teleport")
      {
        robot.state.q = random_q(robot.model, r);
        robot.state.qd.setZero();
        robot.state.qdd.setZero();
        if (r.chance(0.5))
        {
          // a joint beyond its limit
          int j = r.between(6, robot.model.nv - 1);
          double lo = robot.model.lowerPositionLimit[j + 1], hi = robot.model.upperPositionLimit[j + 1];
          if (hi - lo < 10)
          {
            robot.state.q[j + 1] = r.chance(0.5) ? hi + r.uni(0, 0.1) : lo - r.uni(0, 0.1);
            if (w.jl)
              ctx.fault("beyond-limit");
          }
        }
        robot.update_kinematics();
        ctx.fault("teleport");
      }
      else if (ev.kind == "push")
      {
        for (int i = 0; i < robot.model.nv; i++)
          robot.state.qd[i] += vscale * r.uni(-1, 1);
        robot.update_kinematics();
        ctx.fault("push");
      }
      else if (ev.kind == "clear")
      {
        w.solver->clear();
        w.contacts.clear();
        w.tasks.clear();
      }
      else if (ev.kind == "tick")
        tick(w, ev, r, ctx);
      const char* err = mem::error();
      ctx.check(!err, "heap", err ? err : "");
    }
    w.solver.reset();
    const char* err = mem::error();
    ctx.check(!err, "heap", err ? err : "");
    mem::end();
  }

  void vary(CSpec& c, Rng& r)
  {
    c.mu = r.uni(0.1, 1.5);
    c.wf = r.chance(0.3) ? std::pow(10., r.uni(-6, -2)) : 0;
    c.wt = r.chance(0.3) ? std::pow(10., r.uni(-6, -2)) : 0;
    c.wm = r.chance(0.3) ? std::pow(10., r.uni(-6, -2)) : 0;
    c.length = r.uni(0.02, 0.3);
    c.width = r.uni(0.02, 0.3);
    c.R = r.chance(0.5) ? Matrix3d(Matrix3d::Identity()) : random_rot(r, 0.6);
    if (c.type == "ext")
      for (int i = 0; i < 6; i++)
        c.w_ext[i] = r.uni(-10, 10);
  }

  void add_contact(World& w, Rng& r, const std::vector<std::string>& ctypes, Ctx& ctx)
  {
    if (w.contacts.size() >= 4)
      return;
    std::unique_ptr<CSpec> c(new CSpec);
    c->type = r.pick(ctypes);
    w.refresh();
    vary(*c, r);
    int f = w.ref.m.getFrameId(w.frames[r.range(w.frames.size())]);
    c->frame = f;
    c->local = r.chance(0.5);
    auto mk = [&](const std::string& type, const std::string& axes) {
      std::unique_ptr<TSpec> t(new TSpec);
      t->type = type;
      t->fa = f;
      t->v = w.ref.pos(f);
      t->R = w.ref.rot(f);
      t->kp = r.uni(10, 500);
      t->axes = axes;
      t->hard = r.chance(0.3);
      t->weight = std::pow(10., r.uni(0, 3));
      return w.add(std::move(t));
    };
    if (c->type == "point" || c->type == "upoint")
      c->t1 = mk("position", "xyz");
    else if (c->type == "fixed" || c->type == "planar")
    {
      c->t1 = mk("position", "xyz");
      c->t2 = mk("orientation", "xyz");
    }
    else if (c->type == "line" || c->type == "uline")
    {
      c->t1 = mk("position", "xyz");
      c->t2 = mk("orientation", "yz");
    }
    else if (c->type == "task")
    {
      std::vector<TSpec*> cand;
      for (auto& t : w.tasks)
        if (!t->tau() && t->type != "rel_orientation" && t->type != "gear")
          cand.push_back(t.get());
      if (cand.empty())
        return;
      c->t1 = r.pick(cand);
    }
    ctx.hit("contact-" + c->type);
    w.add_contact(std::move(c));
  }

  std::string describe(World& w)
  {
    std::set<std::string> s;
    for (auto& t : w.tasks)
      s.insert(t->type + (t->hard ? "!" : ""));
    for (auto& c : w.contacts)
      s.insert("c:" + c->type + (c->active ? "" : "-"));
    std::string o = w.name + fmt("%d%d%d%d%d%d", w.fbase_masked, w.jl, w.vl, w.tl, w.vtl, w.gravity_only);
    for (auto& x : s)
      o += "," + x;
    return o;
  }

  void tick(World& w, const Event& ev, Rng& r, Ctx& ctx)
  {
    RobotWrapper& robot = w.robot;
    bool integrate = w.dt > 0 && r.chance(0.8);
    w.refresh();
    Snapshot before = snap(robot);
    if (r.chance(0.05))
    {
      // looking at the solver changes nothing, and every task is there
      std::ostringstream os;
      w.solver->dump_status_stream(os);
      std::string text = os.str();
      size_t shown = 0;
      for (size_t i = text.find("\n  * "); i != std::string::npos; i = text.find("\n  * ", i + 1))
        shown++;
      ctx.check(shown == w.tasks.size(), "dump", "dump_status() does not show every task");
      ctx.check(same(before, snap(robot)), "dump", "dump_status() changed the state of the robot");
    }
    std::string fault = ev.fault;
    // faults of the caller
    double saved_dt = w.dt;
    std::unique_ptr<TSpec> extra1, extra2;
    Task *h1 = nullptr, *h2 = nullptr;
    Contact* hc = nullptr;
    bool must_fail = false, must_throw = false;
    if (fault == "dt-zero")
    {
      if (w.jl || w.vl || w.vtl || integrate)
      {
        w.solver->dt = 0;
        must_throw = w.jl || w.vl || w.vtl;
        must_fail = true;
        integrate = true;
      }
      else
        fault = "-";
    }
    else if (fault == "scaled")
    {
      h1 = &w.solver->add_com_task(Vector3d::Zero());
      h1->configure("x", "scaled", 1.);
      must_throw = true;
    }
    else if (fault == "conflict")
    {
      std::string j = w.joints[r.range(w.joints.size())];
      auto& a = w.solver->add_joints_task();
      auto& b = w.solver->add_joints_task();
      a.set_joint(j, w.robot.get_joint(j) + 1, 0, 0);
      b.set_joint(j, w.robot.get_joint(j) - 1, 0, 0);
      a.configure("a", "hard", 1.);
      b.configure("b", "hard", 1.);
      h1 = &a;
      h2 = &b;
      must_fail = true;
    }
    else if (fault == "masked-contact")
    {
      auto& p = w.solver->add_position_task(w.frames[0], Vector3d::Zero());
      p.mask.set_axises("xy");
      h1 = &p;
      hc = &w.solver->add_unilateral_point_contact(p);
      must_throw = true;
    }
    else if (fault == "no-size")
    {
      auto& p = w.solver->add_position_task(w.frames[0], Vector3d::Zero());
      auto& o = w.solver->add_orientation_task(w.frames[0], Matrix3d::Identity());
      FrameTask ft(&p, &o);
      h1 = &p;
      h2 = &o;
      hc = &w.solver->add_planar_contact(ft);
      must_throw = true;
    }
    else if (fault.substr(0, 3) == "qp-")
      qp::arm(qp::fault_from(fault), 1);

    std::vector<Contact*> ch;
    for (auto& c : w.contacts)
      ch.push_back(c->h);
    std::vector<VectorXd> wrench_before;
    for (auto* c : ch)
      wrench_before.push_back(c->wrench);
    Out o = call(w, *w.solver, ch, integrate);
    bool fired = fault.substr(0, 3) == "qp-" ? qp::disarm() : fault != "-";
    if (fired)
      ctx.fault(fault);
    Snapshot after = snap(robot);
    ctx.log("tick %s: threw %d success %d %s [%s]", fault.c_str(), o.threw, o.success, o.what.c_str(), describe(w).c_str());

    if (!o.success)
    {
      ctx.check(same(before, after), "failed-state", "a dynamics solve that failed changed the state of the robot");
      ctx.hit(o.threw ? "threw" : "failed");
    }
    if (fired)
    {
      if (must_throw)
        ctx.check(o.threw, "misuse", "a dynamics solve that can't be formulated (" + fault + ") did not raise");
      else
        ctx.check(!o.success, "false-success", "a dynamics solve whose QP failed (" + fault + ") is reported as a success");
      if (fault != "qp-throw" && fault != "dt-zero" && !must_throw)
        ctx.check(!o.threw, "failure-throws", "an infeasible dynamics QP (" + fault + ") is not reported by success = false but raised: " + o.what);
    }
    if (h1)
    {
      if (hc)
        w.solver->remove_contact(*hc);
      w.solver->remove_task(*h1);
      if (h2)
        w.solver->remove_task(*h2);
    }
    w.solver->dt = saved_dt;
    if (fired)
    {
      if (integrate && r.chance(0.7))
        robot.update_kinematics();
      // recovery
      if (r.chance(0.6))
        recovery(w, ctx);
      ctx.mix(o.success);
      ctx.state("F" + fault + describe(w));
      return;
    }
    ctx.state(describe(w) + (o.success ? "+" : "-"));
    ctx.mix(o.success);
    if (!o.success)
    {
      ctx.check(!o.threw, "raised", "a well-formed dynamics problem raised: " + o.what);
      // what can't be infeasible: no hard task, no limit, no unilateral contact
      bool easy = !(w.jl || w.vl || w.tl || w.vtl);
      for (auto& t : w.tasks)
        easy = easy && !t->hard;
      for (auto& c : w.contacts)
        easy = easy && (!c->active || (c->type != "upoint" && c->type != "planar" && c->type != "uline"));
      ctx.check(!easy || huge(w), "feasible-rejected", "a dynamics problem without hard task, limit or unilateral contact is reported infeasible");
      if (easy)
        ctx.hit("huge-rejected");
      if (r.chance(0.3))
        recovery(w, ctx);
      return;
    }
    judge(w, o, before, after, integrate, r, ctx);
    if (integrate)
    {
      ctx.sim_time += w.dt;
      robot.update_kinematics();
      double big = robot.state.qd.cwiseAbs().maxCoeff();
      if (!(big < 50))
      {
        // the simulated robot would not survive this: start again elsewhere
        robot.state.q = random_q(robot.model, r);
        robot.state.qd.setZero();
        robot.state.qdd.setZero();
        robot.update_kinematics();
        ctx.hit("runaway");
      }
    }
  }

  bool huge(World& w)
  {
    bool complete;
    auto m = w.model(complete);
    double s = 0;
    for (auto& r : m.rows)
      s = std::max(s, r.b.cwiseAbs().maxCoeff());
    return s > 1e5;
  }

  void recovery(World& w, Ctx& ctx)
  {
    w.robot.update_kinematics();
    w.refresh();
    std::vector<Contact*> ch;
    for (auto& c : w.contacts)
      ch.push_back(c->h);
    Snapshot s = snap(w.robot);
    qp::want_print = true;
    qp::forget_print();
    Out a = call(w, *w.solver, ch, false);
    qp::Print pa = qp::last_print();
    std::vector<Task*> th2;
    std::vector<Contact*> ch2;
    auto tw = w.twin(th2, ch2);
    qp::forget_print();
    Out b = call(w, *tw, ch2, false);
    qp::want_print = false;
    if (a.success != b.success && !a.threw && !b.threw && qp::same_qp(pa, qp::last_print()))
    {
      // eiquadprog finds the same problem feasible in one order of its rows only
      ctx.hit("edge");
      return;
    }
    ctx.check(same(s, snap(w.robot)), "peek-state", "solve(false) changed the state of the robot");
    ctx.hit("recovery");
    compare(w, a, b, ctx, "recovery", "after a failure: ");
  }

  void compare(World& w, const Out& a, const Out& b, Ctx& ctx, const char* cls, const std::string& pre)
  {
    if (a.success != b.success || a.threw != b.threw)
    {
      // on the edge of feasibility, the order of the tasks may decide
      bool complete;
      auto m = w.model(complete);
      const Out& ok = a.success ? a : b;
      if (!ok.success)
        ctx.check(false, cls, pre + "one solver raises and the other one reports a failure");
      if (!complete)
        return;
      auto v = refqp::judge(m, stack(w, ok));
      if (v.in_abs > 1e-7 || v.eq_abs > 1e-8 || conditioning(m) < 1e-6)
      {
        ctx.hit("edge");
        return;
      }
      ctx.check(false, cls, pre + fmt("solve() %s and a fresh solver with the same tasks %s", a.success ? "succeeds" : "fails", b.success ? "succeeds" : "fails"));
    }
    if (!a.success)
      return;
    double d = (a.res.tau - b.res.tau).norm(), s = 1 + b.res.tau.norm();
    double d2 = (a.res.qdd - b.res.qdd).norm(), s2 = 1 + b.res.qdd.norm();
    if (s2 > 1e5)
      return;
    if (d >= 1e-3 * s || d2 >= 1e-3 * s2)
    {
      bool complete;
      auto m = w.model(complete);
      if (conditioning(m) < 1e-6)
      {
        ctx.hit("edge");
        return;
      }
    }
    ctx.checkf(d < 1e-3 * s && d2 < 1e-3 * s2, cls, [&] {
      return pre + fmt("the result differs from a fresh solver with the same tasks, contacts and options (torques by %.3g, accelerations by %.3g)", d, d2);
    });
  }

  double conditioning(const refqp::Model& m)
  {
    int n = 0;
    for (auto& r : m.rows)
      if (r.hard && r.equality)
        n += r.A.rows();
    if (!n)
      return 1;
    MatrixXd A(n, m.n);
    int k = 0;
    for (auto& r : m.rows)
      if (r.hard && r.equality)
      {
        for (int i = 0; i < r.A.rows(); i++)
          A.row(k++) = r.A.row(i) / std::max(1e-9, r.A.row(i).norm());
      }
    if (n > m.n)
      return 0;
    auto sv = Eigen::JacobiSVD<MatrixXd>(A).singularValues();
    return sv.minCoeff() / sv.maxCoeff();
  }

  VectorXd stack(World& w, const Out& o)
  {
    int n = o.res.qdd.size();
    for (size_t i = 0; i < w.contacts.size(); i++)
      if (w.contacts[i]->active)
        n += o.wrench[i].size();
    VectorXd x(n);
    x.head(o.res.qdd.size()) = o.res.qdd;
    int k = o.res.qdd.size();
    for (size_t i = 0; i < w.contacts.size(); i++)
      if (w.contacts[i]->active)
      {
        x.segment(k, o.wrench[i].size()) = o.wrench[i];
        k += o.wrench[i].size();
      }
    return x;
  }

  void judge(World& w, Out& o, const Snapshot& before, const Snapshot& after, bool integrate, Rng& r, Ctx& ctx)
  {
    int N = w.ref.nv();
    const VectorXd &qdd = o.res.qdd, &tau = o.res.tau, &tc = o.res.tau_contacts;
    ctx.check(qdd.size() == N && tau.size() == N && tc.size() == N, "result-size", "the result of a successful solve is incomplete");
    ctx.check(qdd.allFinite() && tau.allFinite() && tc.allFinite(), "not-finite", "the result of a successful solve is not finite");
    ctx.mixv(qdd);
    ctx.mixv(tau);
    MatrixXd M = w.M();
    VectorXd b = w.bias();
    // contact wrenches and their effect
    VectorXd JTf = VectorXd::Zero(N);
    double cs = 0;
    for (size_t i = 0; i < w.contacts.size(); i++)
      if (w.contacts[i]->active)
      {
        MatrixXd J = w.contacts[i]->J(w.ref);
        ctx.check(o.wrench[i].size() == J.rows(), "wrench-size", "a contact's wrench has the wrong size");
        JTf += J.transpose() * o.wrench[i];
        // (rows that are zero up to the rounding leave huge forces undetermined)
        cs += (J.cwiseAbs().transpose() * o.wrench[i].cwiseAbs()).norm() + 1e-8 * o.wrench[i].norm();
        if (mode == CONTACTS)
        {
          std::string a = w.contacts[i]->admissible(o.wrench[i]);
          ctx.check(a.empty(), "contact-" + w.contacts[i]->type, a);
          ctx.hit("wrench-" + w.contacts[i]->type);
          // the center of pressure it reports
          const std::string& ty = w.contacts[i]->type;
          const VectorXd& f = o.wrench[i];
          Vector3d p = Vector3d::Zero(), q = Vector3d::Zero();
          if (auto* c6 = dynamic_cast<placo::dynamics::Contact6D*>(w.contacts[i]->h))
          {
            if (f[2] > 1e-3)
              p = c6->zmp(), q = Vector3d(-f[4] / f[2], f[3] / f[2], 0);
          }
          else if (auto* cl = dynamic_cast<placo::dynamics::LineContact*>(w.contacts[i]->h))
          {
            // (the moment of a line contact is its only one, around y)
            if (f[2] > 1e-3)
              p = cl->zmp(), q = Vector3d(-f[3] / f[2], 0, 0);
          }
          ctx.checkf((p - q).norm() < 1e-6 * (1 + q.norm()), "zmp", [&] { return fmt("a %s contact reports its center of pressure at %.4f %.4f, its wrench is at %.4f %.4f", ty.c_str(), p.x(), p.y(), q.x(), q.y()); });
        }
      }
    double scale = 1 + (M.cwiseAbs() * qdd.cwiseAbs()).norm() + b.norm() + cs;
    VectorXd e = M * qdd + b - tau - tc;
    if (mode == EOM || mode == CONTACTS)
    {
      ctx.log("eom %.3g contacts %.3g scale %.3g qdd %.3g tau %.3g", e.norm(), (tc - JTf).norm(), scale, qdd.norm(), tau.norm());
      ctx.checkf(e.norm() < 1e-6 * scale, "eom", [&] { return fmt("M qdd + b differs from tau + tau_contacts by %.3g", e.norm()); });
      ctx.checkf((tc - JTf).norm() < 1e-6 * scale, "eom-contacts", [&] {
        return fmt("the contact torques differ by %.3g from the effect of the wrenches of the active contacts", (tc - JTf).norm());
      });
      if (w.fbase_masked)
        ctx.check(qdd.head(6).norm() < 1e-5 * (1 + 1e-3 * qdd.norm()), "masked", "a masked floating base accelerates");
      else
        ctx.checkf(tau.head(6).norm() < 1e-5 + 1e-8 * scale, "fbase-torque", [&] { return fmt("the floating base has a torque of %.3g", tau.head(6).norm()); });
    }
    if (mode == EOM)
      for (int j = 6; j < N; j++)
      {
        if (w.tl)
          ctx.checkf(std::fabs(tau[j]) < w.effort(j, true) + 2e-3 + 1e-9 * scale, "torque-limit", [&] { return fmt("torque %.6g of a joint limited to %.6g", tau[j], w.effort(j, true)); });
        double v1 = before.qd[j] + w.dt * qdd[j], vmax = w.robot.model.velocityLimit[j];
        if (w.vl && !w.vtl)
          ctx.checkf(std::fabs(v1) < vmax + 2e-3, "velocity-limit", [&] { return fmt("next velocity %.6g of a joint limited to %.6g", v1, vmax); });
        if (w.vtl)
        {
          double ratio = vmax / w.robot.model.effortLimit[j];
          ctx.checkf(std::fabs(v1 + ratio * tau[j]) < vmax + 2e-3 + 1e-9 * ratio * scale, "velocity-torque-limit", [&] { return fmt("next velocity %.6g and torque %.6g out of the velocity/torque limits", v1, tau[j]); });
        }
        if (w.jl)
        {
          double up = w.robot.model.upperPositionLimit[j + 1] - before.q[j + 1], lo = before.q[j + 1] - w.robot.model.lowerPositionLimit[j + 1], a = w.qdd_safe(j);
          bool ok = up < 0 ? qdd[j] < -a + 2e-3 : v1 < std::sqrt(2 * up * a) + 2e-3;
          ok = ok && (lo < 0 ? qdd[j] > a - 2e-3 : v1 > -std::sqrt(2 * lo * a) - 2e-3);
          ctx.checkf(ok, "joint-limit", [&] { return fmt("a joint at %.4g, %.4g from its limits can't brake before them (next velocity %.5g, acceleration %.5g, safe %.4g)", before.q[j + 1], std::min(up, lo), v1, qdd[j], a); });
        }
      }
    // state
    if (!integrate)
      ctx.check(same(before, after), "peek-state", "solve(false) changed the state of the robot");
    else
    {
      VectorXd a = qdd;
      if (w.fbase_masked)
        a.head(6).setZero();
      VectorXd v = before.qd + w.dt * a;
      VectorXd q = pinocchio::integrate(w.ref.m, before.q, VectorXd(v * w.dt));
      ctx.check((after.qdd - a).norm() < 1e-9 * (1 + a.norm()) && (after.qd - v).norm() < 1e-9 * (1 + v.norm()) && (after.q - q).norm() < 1e-9 * (1 + q.norm()), "integration",
                "the state after solve(true) is not the previous one integrated with the returned acceleration");
    }
    // optimality
    if (mode == OPT || mode == CONTACTS)
    {
      bool complete;
      auto m = w.model(complete);
      VectorXd x = stack(w, o);
      if (complete)
      {
        auto v = refqp::judge(m, x);
        ctx.log("infeas %.3g eq %.3g in %.3g kkt %.3g scale %.3g |x| %.3g", v.infeas, v.eq_abs, v.in_abs, v.kkt, v.scale, x.norm());
        // nearly dependent hard tasks (a leg in a singular posture): the multipliers are lost in the rounding
        bool wild = qdd.norm() > 1e5 || x.norm() > 1e8 || (v.residual > 1e-5 * (v.scale + 0.1) && conditioning(m) < 1e-6);
        ctx.log("conditioning %.3g", conditioning(m));
        double be = v.residual < 1e-4 * (v.scale + 0.1) ? 0 : qp::backend_error();
        if (be > 0)
          ctx.log("back end's own error %.3g", be);
        if (wild)
          ctx.hit("wild");
        else if (be > 1e-7)
          ctx.hit("backend-inaccurate");
        else
        {
          if (mode == OPT)
          {
            ctx.checkf(v.eq_abs < 1e-5 * (1 + 1e-3 * x.norm()), "hard-task", [&] { return fmt("the solution violates a hard task by %.3g", v.eq_abs); });
            ctx.checkf(v.in_abs < 3e-3 * (1 + 1e-4 * x.norm()), "hard-constraint", [&] { return fmt("the solution violates a limit or a contact constraint by %.3g", v.in_abs); });
          }
          ctx.checkf(v.residual < 1e-4 * (v.scale + 0.1), "not-optimal", [&] { return fmt("the solution is not the weighted optimum of the current tasks, contact forces and torques (relative KKT residual %.3g)", v.kkt); });
          ctx.hit("judged");
        }
      }
      if (r.chance(mode == OPT ? 0.5 : 0.1))
      {
        Snapshot s = snap(w.robot);
        restore(w.robot, before);
        std::vector<Task*> th2;
        std::vector<Contact*> ch2;
        auto tw = w.twin(th2, ch2);
        Out t = call(w, *tw, ch2, false);
        restore(w.robot, s);
        ctx.hit("twin");
        compare(w, o, t, ctx, "history", "");
      }
    }
  }
};
// P10: bounded liveness of the closed loop
struct DynConv : Scenario
{
  std::map<std::string, RobotWrapper*> robots_;
  void setup() override
  {
    for (std::string n : { "sigmaban", "quadruped", "arm" })
      robots_[n] = make(n);
  }
  Plan generate(uint64_t seed, bool) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    int n = r.between(0, 10);
    std::vector<std::string> kinds = { "failtick", "push", "churn", "retarget", "gains", "tick", "ctoggle", "clearall" };
    std::vector<std::string> qf = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw" };
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted({ 2, 1.5, 1, 1, 0.7, 3, 0.7, 0.2 })];
      e.sub = r.next();
      if (e.kind == "failtick")
        e.fault = r.pick(qf);
      p.ev.push_back(e);
    }
    return p;
  }
  // least-squares posture: feet where they are, center of mass moved
  bool posture(Ref& g, const std::vector<int>& feet, const VectorXd& q0, const Vector3d& com, const std::vector<Affine3d>& T)
  {
    VectorXd q = q0;
    for (int it = 0; it < 30; it++)
    {
      g.set(q);
      int rows = 6 * feet.size() + 3;
      MatrixXd A(rows, g.nv());
      VectorXd b(rows);
      for (size_t i = 0; i < feet.size(); i++)
      {
        A.middleRows(6 * i, 3) = g.jlin(feet[i]);
        b.segment(6 * i, 3) = T[i].translation() - g.pos(feet[i]);
        A.middleRows(6 * i + 3, 3) = g.jang(feet[i]);
        b.segment(6 * i + 3, 3) = pinocchio::log3(Matrix3d(T[i].rotation() * g.rot(feet[i]).transpose()));
      }
      A.bottomRows(3) = g.jcom();
      b.tail(3) = com - g.com();
      if (b.norm() < 1e-9)
        return true;
      MatrixXd H = A.transpose() * A + 1e-8 * MatrixXd::Identity(g.nv(), g.nv());
      q = pinocchio::integrate(g.m, q, VectorXd(H.ldlt().solve(A.transpose() * b)));
    }
    return false;
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng cfg(plan.config);
    static const std::vector<std::string> names = { "sigmaban", "quadruped", "arm" };
    std::string name = cfg.pick(names);
    RobotWrapper& robot = *robots_[name];
    mem::begin(mem::random_env(cfg));
    rnd::seed(cfg.next());
    robot.reset();
    robot.state.q = random_q(robot.model, cfg, 0.5, 0.2);
    robot.state.qd = VectorXd::Zero(robot.model.nv);
    robot.state.qdd = VectorXd::Zero(robot.model.nv);
    robot.update_kinematics();
    World w(robot, name);
    w.dt = cfg.uni(0.002, 0.01);
    bool standing = name == "sigmaban" && cfg.chance(0.5);  // free base, on its feet
    w.fbase_masked = !standing;
    w.torque_cost = cfg.chance(0.5) ? 1e-3 : 1e-5;
    bool hard = cfg.chance(0.4), lim = !hard && cfg.chance(0.4);
    if (lim)
    {
      for (int k = 6; k < robot.model.nv; k++)
        robot.model.velocityLimit[k] = cfg.uni(3, 10);
      w.vl = true;
      w.jl = cfg.chance(0.5);
      for (auto& j : w.joints)
        w.qsafe[j] = 50;
    }
    w.options(*w.solver);
    Ref goal(robot.model);
    std::vector<int> feet;
    std::vector<Affine3d> Tf;
    auto draw_goal = [&](Rng& r) {
      w.refresh();
      if (standing)
      {
        feet = { (int)w.ref.m.getFrameId("left_foot"), (int)w.ref.m.getFrameId("right_foot") };
        Tf.clear();
        for (int f : feet)
        {
          Affine3d T = Affine3d::Identity();
          T.linear() = w.ref.rot(f);
          T.translation() = w.ref.pos(f);
          Tf.push_back(T);
        }
        return posture(goal, feet, robot.state.q, w.ref.com() + random_vec(r, r.uni(0, 0.02)), Tf);
      }
      VectorXd q = robot.state.q;
      for (int k = 7; k < q.size(); k++)
      {
        double lo = std::max(-1.5, robot.model.lowerPositionLimit[k] + 0.05), hi = std::min(1.5, robot.model.upperPositionLimit[k] - 0.05);
        q[k] = std::min(hi, std::max(lo, q[k] + r.uni(-0.3, 0.3)));
      }
      goal.set(q);
      return true;
    };
    if (!draw_goal(cfg))
    {
      ctx.hit("no-goal");
      return;
    }
    auto random = [&](Rng& r) {
      static const std::vector<std::string> types = { "position", "orientation", "rel_position", "com", "joints", "rel_orientation", "gear" };
      auto t = w.random_task(r, types, 0.1);
      t->kp = r.uni(60, 400);
      t->kd = r.chance(0.7) ? -1 : 2 * std::sqrt(t->kp) * r.uni(0.8, 1.5);
      t->weight = std::pow(10., r.uni(-0.5, 1));
      t->hard = false;
      return t;
    };
    auto aim = [&](TSpec& t) {
      w.aim_at(t, goal);
      if (t.type == "gear")
        for (auto& g : t.gears)
        {
          // one source, and the ratio the goal has
          auto at = [&](const std::string& j) { return goal.q[goal.m.joints[goal.m.getJointId(j)].idx_q()]; };
          std::string src = g.second.begin()->first;
          double qs = at(src);
          g.second.clear();
          g.second[src] = std::fabs(qs) > 0.1 ? at(g.first) / qs : 0.;
        }
    };
    auto gear_ok = [&](TSpec& t) {
      if (t.type != "gear")
        return true;
      return t.err(goal) < 1e-9;
    };
    auto install = [&](Rng& r) {
      std::unique_ptr<TSpec> p(new TSpec);
      p->type = "joints";
      for (auto& j : w.joints)
        p->joints[j] = Vector3d::Zero();
      p->kp = r.uni(60, 400);
      p->weight = r.uni(0.1, 1);
      aim(*p);
      w.add(std::move(p));
      if (standing)
        for (int f : feet)
        {
          auto mk = [&](const std::string& type) {
            std::unique_ptr<TSpec> t(new TSpec);
            t->type = type;
            t->fa = f;
            t->kp = r.uni(60, 400);
            t->hard = true;
            aim(*t);
            return w.add(std::move(t));
          };
          std::unique_ptr<CSpec> c(new CSpec);
          c->type = "fixed";
          c->t1 = mk("position");
          c->t2 = mk("orientation");
          w.add_contact(std::move(c));
        }
      int n = r.between(1, 3);
      for (int i = 0; i < n; i++)
      {
        auto t = random(r);
        aim(*t);
        if (!gear_ok(*t))
          continue;
        if (hard && i == 0 && !standing && t->type != "rel_orientation")
          t->hard = true;
        w.add(std::move(t));
      }
    };
    install(cfg);
    auto tick = [&](bool integrate) {
      bool ok = false;
      try
      {
        ok = w.solver->solve(integrate).success;
      }
      catch (std::exception&)
      {
      }
      robot.update_kinematics();
      if (ok)
        ctx.sim_time += w.dt;
      return ok;
    };
    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      ctx.steps++;
      ctx.mixs(ev.kind);
      if (ev.kind == "failtick")
      {
        qp::arm(qp::fault_from(ev.fault), 1);
        bool ok = tick(true);
        if (qp::disarm())
        {
          ctx.fault(ev.fault);
          ctx.check(!ok, "false-success", "a failed QP is reported as a success");
        }
      }
      else if (ev.kind == "push")
      {
        for (int k = w.fbase_masked ? 6 : 0; k < robot.model.nv; k++)
          robot.state.qd[k] += (standing ? 0.02 : 0.3) * r.uni(-1, 1);
        robot.update_kinematics();
        ctx.fault("push");
      }
      else if (ev.kind == "churn")
      {
        auto t = random(r);
        w.refresh();
        w.aim(*t, r, 0.1);
        auto* h = w.add(std::move(t));
        (void)h;
        tick(!standing);
        w.remove(w.tasks.size() - 1);
      }
      else if (ev.kind == "retarget")
      {
        for (auto& t : w.tasks)
        {
          if (t->users || t->type == "gear")
            continue;
          w.refresh();
          w.aim(*t, r, 0.05);
          t->push(t->h, *w.solver);
        }
        tick(!standing);
      }
      else if (ev.kind == "gains")
      {
        for (auto& t : w.tasks)
        {
          t->kp = r.uni(60, 400);
          t->kd = -1;
          t->push(t->h, *w.solver);
        }
      }
      else if (ev.kind == "ctoggle")
      {
        for (auto& c : w.contacts)
        {
          c->h->active = false;
          tick(false);
          c->h->active = true;
        }
      }
      else if (ev.kind == "clearall")
      {
        w.solver->clear();
        w.contacts.clear();
        w.tasks.clear();
        install(r);
      }
      else
        for (int i = 0; i < 5; i++)
          tick(true);
    }
    ctx.log("%s standing %d hard %d lim %d jl %d dt %.3g", name.c_str(), standing, hard, lim, w.jl, w.dt);
    // the faults stop: everything aims at the goal
    for (auto& t : w.tasks)
    {
      aim(*t);
      t->push(t->h, *w.solver);
    }
    for (auto& t : w.tasks)
      if (!gear_ok(*t))
      {
        ctx.hit("gear-unreachable");
        return;
      }
    w.refresh();
    double e0 = 0;
    for (auto& t : w.tasks)
      e0 = std::max(e0, t->err(w.ref));
    double kmin = 1e9;
    for (auto& t : w.tasks)
      kmin = std::min(kmin, t->kp);
    int n = std::ceil(14. / std::sqrt(kmin) / w.dt);
    int failed = 0;
    double fastest = 0;
    for (int i = 0; i < n && failed < 3; i++)
    {
      if (!tick(true))
        failed++;
      fastest = std::max(fastest, robot.state.qd.norm());
    }
    if (hard && !(fastest < 15))
    {
      // a hard task across a singular posture
      ctx.hit("singular");
      return;
    }
    ctx.steps += n;
    ctx.state(name + fmt("%d%d%d", standing, hard, lim));
    for (auto& t : w.tasks)
      ctx.state(name + t->type + (t->hard ? "!" : ""));
    if (failed)
    {
      // dependent hard tasks are refused: nothing to say about the convergence, but then they are always refused
      bool hardtask = hard || standing;
      ctx.check(hardtask, "stuck", "a dynamics problem made of soft tasks and reachable limits stays infeasible after the faults");
      ctx.hit("hard-infeasible");
      return;
    }
    w.refresh();
    ctx.mixv(robot.state.q);
    for (auto& t : w.tasks)
      ctx.log("%s%s %s kp %.3g w %.3g err %.3g", t->type.c_str(), t->hard ? "!" : "", t->axes.c_str(), t->kp, t->weight, t->err(w.ref));
    for (auto& t : w.tasks)
    {
      // with a hard task, the soft ones may end in another minimum on the manifold it leaves
      if ((hard || (standing && e0 > 1)) && !t->hard)
        continue;
      double e = t->err(w.ref);
      ctx.log("%s%s kp %.3g w %.3g err %.3g (initial max %.3g) T %.3g", t->type.c_str(), t->hard ? "!" : "", t->kp, t->weight, e, e0, n * w.dt);
      ctx.checkf(e < 0.02 + 0.05 * e0, "no-convergence", [&] {
        return fmt("the error of a %s task is still %.4g after %.2f s of closed loop without faults (all the targets are reachable, %.3g at the start)", t->type.c_str(), e, n * w.dt, e0);
      });
    }
    ctx.check(robot.state.qd.norm() < (hard ? 5. : 0.5), "no-rest", "the robot still moves after converging");
    ctx.hit("converged");
    const char* err = mem::error();
    ctx.check(!err, "heap", err ? err : "");
    w.solver.reset();
    mem::end();
  }
};
SIM_SCENARIO("dyn_conv", DynConv);

// P28: self-collision avoidance of the dynamics solver
struct DynCollide : Scenario
{
  RobotWrapper* arm = nullptr;
  void setup() override
  {
    arm = make("arm");
  }
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    int n = r.between(3, thorough ? 24 : 12);
    std::vector<std::string> kinds = { "drive", "failtick", "push", "install", "margins", "jump", "prio", "churn" };
    std::vector<std::string> qf = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw" };
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = i == 0 ? "drive" : kinds[r.weighted({ 5, 1.5, 1, 0.7, 1, 0.7, 0.7, 0.5 })];
      e.sub = r.next();
      if (e.kind == "failtick")
        e.fault = r.pick(qf);
      p.ev.push_back(e);
    }
    return p;
  }
  struct Pair
  {
    double d;          // distance
    Vector3d n;        // from A to B
    VectorXd J;        // derivative of d
    double xd;         // current speed
    double acc0[3];    // acceleration at null qdd: spatial one at the closest points (what placo takes), classical one, second derivative of d
  };
  std::vector<Pair> pairs(World& w)
  {
    std::vector<Pair> out;
    Ref& ref = w.ref;
    auto& geom = w.robot.collision_model;
    for (auto& cp : geom.collisionPairs)
    {
      Vector3d c[2], v[2], a[2], om[2];
      MatrixXd J[2];
      double rad[2];
      for (int k = 0; k < 2; k++)
      {
        auto& g = geom.geometryObjects[k ? cp.second : cp.first];
        int j = g.parentJoint;
        rad[k] = std::dynamic_pointer_cast<coal::Sphere>(g.geometry)->radius;
        Vector3d l = g.placement.translation();
        Matrix3d R = ref.d.oMi[j].rotation();
        c[k] = ref.d.oMi[j].act(l);
        Vector3d wl = ref.d.v[j].angular(), vl = ref.d.v[j].linear();
        om[k] = R * wl;
        v[k] = R * (vl + wl.cross(l));
        Vector3d al = ref.d.a[j].linear() + wl.cross(vl), dw = ref.d.a[j].angular();
        a[k] = R * (al + dw.cross(l) + wl.cross(wl.cross(l)));
        MatrixXd J6 = MatrixXd::Zero(6, ref.nv());
        pinocchio::getJointJacobian(ref.m, ref.d, j, pinocchio::LOCAL, J6);
        J[k] = R * (J6.topRows(3) - pinocchio::skew(l) * J6.bottomRows(3));
      }
      Pair p;
      p.d = (c[1] - c[0]).norm() - rad[0] - rad[1];
      p.n = (c[1] - c[0]).normalized();
      p.J = (J[1] - J[0]).transpose() * p.n;
      p.xd = p.n.dot(v[1] - v[0]);
      double spatial = 0;
      for (int k = 0; k < 2; k++)
      {
        Vector3d rp = (k ? -rad[1] : rad[0]) * p.n;  // from the centre to the closest point
        Vector3d vp = v[k] + om[k].cross(rp);
        Vector3d ap = a[k] + om[k].cross(om[k].cross(rp));  // (the angular acceleration plays no role along n)
        spatial += (k ? 1 : -1) * p.n.dot(ap - om[k].cross(vp));
      }
      Vector3d rel = v[1] - v[0];
      p.acc0[0] = spatial;
      p.acc0[1] = p.n.dot(a[1] - a[0]);
      p.acc0[2] = p.acc0[1] + (rel - p.n * p.n.dot(rel)).squaredNorm() / std::max(1e-6, (c[1] - c[0]).norm());
      out.push_back(p);
    }
    return out;
  }
  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng cfg(plan.config);
    RobotWrapper& robot = *arm;
    mem::begin(mem::random_env(cfg));
    rnd::seed(cfg.next());
    robot.reset();
    robot.state.q = random_q(robot.model, cfg, 0.5, 0.2);
    robot.state.qd = VectorXd::Zero(robot.model.nv);
    robot.state.qdd = VectorXd::Zero(robot.model.nv);
    robot.update_kinematics();
    World w(robot, "arm");
    w.dt = cfg.uni(0.001, 0.006);
    w.fbase_masked = cfg.chance(0.7);
    w.torque_cost = cfg.chance(0.5) ? 1e-3 : 1e-5;
    for (auto& j : w.joints)
      w.qsafe[j] = std::pow(10., cfg.uni(-0.3, 1.5));
    w.options(*w.solver);
    double margin = cfg.uni(0, 0.03), trigger = margin + cfg.uni(0.01, 0.1), weight = std::pow(10., cfg.uni(-1, 3));
    bool hard = cfg.chance(0.8);
    AvoidSelfCollisionsConstraint* h = nullptr;
    auto put = [&] {
      h = &w.solver->add_avoid_self_collisions_constraint();
      h->self_collisions_margin = margin;
      h->self_collisions_trigger = trigger;
      h->configure("selfcol", hard ? "hard" : "soft", weight);
    };
    put();
    std::unique_ptr<TSpec> p(new TSpec);
    p->type = "joints";
    for (auto& j : w.joints)
      p->joints[j] = Vector3d::Zero();
    p->kp = cfg.uni(30, 300);
    TSpec* post = w.add(std::move(p));
    auto target = [&](Rng& r) {
      // a posture, preferably one where bodies would collide
      int tries = r.between(1, 30);
      double best = 1e9;
      w.refresh();
      VectorXd q0 = robot.state.q, q = q0;
      double reach = r.chance(0.5) ? 1 : 0.3;
      for (int i = 0; i < tries; i++)
      {
        VectorXd qi = q0;
        for (auto& e : post->joints)
        {
          int k = robot.get_joint_offset(e.first);
          double lo = std::max(-2.5, robot.model.lowerPositionLimit[k]), hi = std::min(2.5, robot.model.upperPositionLimit[k]);
          qi[k] = (1 - reach) * q0[k] + reach * r.uni(lo, hi);
        }
        w.ref.set(qi);
        double d = 1e9;
        for (auto& pr : pairs(w))
          d = std::min(d, pr.d);
        if (d < best)
        {
          best = d;
          q = qi;
        }
      }
      for (auto& e : post->joints)
        e.second[0] = q[robot.get_joint_offset(e.first)];
      post->push(post->h, *w.solver);
    };
    double dmin = 1e9, fast = 0;
    bool clean = false;  // started apart, and nothing but the solver moved the robot since
    auto restart = [&] {
      w.refresh();
      clean = true;
      fast = 0;
      for (auto& pr : pairs(w))
        if (pr.d < margin || pr.xd < -1e-9)
          clean = false;
    };
    restart();
    auto tick = [&](bool integrate) {
      w.refresh();
      auto ps = pairs(w);
      auto before = snap(robot);
      std::vector<Task*> th;
      std::vector<Contact*> ch;
      auto tw = w.twin(th, ch);
      auto rt = tw->solve(false);
      tw.reset();
      DynamicsSolver::Result res;
      res.success = false;
      std::string what;
      // (the faults were armed for this very solve)
      if (armed != "-")
        qp::arm(qp::fault_from(armed), 1);
      try
      {
        res = w.solver->solve(integrate);
      }
      catch (std::exception& e)
      {
        what = e.what();
      }
      ctx.steps++;
      if (armed != "-")
      {
        armed = "-";
        if (qp::disarm())
        {
          ctx.fault("qp");
          ctx.check(!res.success, "false-success", "a failed QP is reported as a success");
          ctx.check(same(before, snap(robot)), "failure-moved", "a failed solve with self-collision avoidance moved the robot");
          return;
        }
      }
      int near = 0;
      for (auto& pr : ps)
        near += h && pr.d < trigger;
      if (!res.success)
      {
        ctx.hit("infeasible");
        ctx.check(near > 0 && hard, "refused", "solving fails although no pair of bodies is close: " + what);
        clean = false;
        return;
      }
      ctx.mixv(res.qdd);
      if (integrate)
      {
        robot.update_kinematics();
        ctx.sim_time += w.dt;
      }
      bool edge = false;
      for (auto& pr : ps)
        edge = edge || (h && (std::fabs(pr.d - trigger) < 1e-7 || std::fabs(pr.d - margin) < 1e-7));
      if (edge)
        return;
      double scale = 1 + rt.qdd.norm();
      if (!near)
      {
        ctx.checkf(rt.success && (res.qdd - rt.qdd).norm() < 1e-5 * scale, "interference", [&] {
          return fmt("self-collision avoidance changes the acceleration by %.3g although no pair is closer than its trigger", (res.qdd - rt.qdd).norm());
        });
        ctx.hit("far");
        return;
      }
      ctx.hit(hard ? "near" : "near-soft");
      bool complete;
      auto m = w.model(complete);
      for (auto& pr : ps)
      {
        if (!(pr.d < trigger))
          continue;
        double safe = 0;
        for (int k = 6; k < robot.model.nv; k++)
          safe += 0.5 * std::fabs(pr.J[k]) * w.qdd_safe(k);
        refqp::Row row;
        row.A = MatrixXd::Zero(1, m.n);
        row.b = VectorXd::Zero(1);
        row.equality = false;
        row.hard = hard;
        double tol = 2e-3, val = -1e9, act = 1e9, free_ = 1e9;
        for (int k = 0; k < 3; k++)
        {
          if (pr.d >= margin)
          {
            // the speed after this step lets the joints brake before the margin
            row.A.row(0).head(robot.model.nv) = w.dt * pr.J.transpose();
            row.b[0] = pr.xd + w.dt * pr.acc0[k] + std::sqrt(2 * (pr.d - margin) * safe);
          }
          else
          {
            // too close: the bodies are pushed apart
            row.A.row(0).head(robot.model.nv) = pr.J.transpose();
            // (curvature left out, as documented, or taken into account)
            row.b[0] = (k == 0 ? 0. : pr.acc0[k]) - safe;
          }
          double vk = row.A.row(0).head(robot.model.nv).dot(res.qdd) + row.b[0];
          val = std::max(val, vk);
          act = std::min(act, std::fabs(vk));
          free_ = std::min(free_, row.A.row(0).head(robot.model.nv).dot(rt.qdd) + row.b[0]);
        }
        if (pr.d < margin)
          ctx.hit("inside");
        ctx.log("d %.4f xd %.4f val %.3g free %.3g tol %.3g", pr.d, pr.xd, val, free_, tol);
        if (hard)
        {
          ctx.checkf(val > -tol, pr.d >= margin ? "too-fast" : "not-pushed", [&] {
            return fmt("two bodies at %.4g m (margin %.3g), approaching at %.4g m/s, end %.4g beyond what the avoidance allows", pr.d, margin, -pr.xd, -val);
          });
          // for the optimality, an active row is taken as exactly active
          if (act <= tol)
          {
            row.b[0] = -row.A.row(0).head(robot.model.nv).dot(res.qdd);
            m.rows.push_back(row);
            ctx.hit("active");
          }
        }
        else
        {
          soft_cost += std::pow(std::min(0., val + tol), 2);
          free_cost += std::pow(std::min(0., free_ - tol), 2);
        }
      }
      if (hard && complete)
      {
        VectorXd x = res.qdd;
        if (m.n == x.size())
        {
          auto v = refqp::judge(m, x);
          worst = std::max(worst, v.kkt);
          ctx.checkf(v.kkt < 1e-4, "not-optimal", [&] {
            return fmt("with self-collision avoidance the acceleration isn't the optimum of the tasks under it (KKT residual %.3g)", v.kkt);
          });
        }
      }
      if (!hard)
        ctx.checkf(soft_cost <= free_cost + 1e-4, "soft-worse", [&] { return fmt("soft self-collision avoidance brings the bodies closer than without it (%.4g vs %.4g)", soft_cost, free_cost); });
      soft_cost = free_cost = 0;
      if (hard && integrate && clean)
      {
        w.refresh();
        for (auto& pr : pairs(w))
        {
          dmin = std::min(dmin, pr.d - margin);
          fast = std::max(fast, -pr.xd);
          ctx.checkf(pr.d > margin - 0.002 - 2 * w.dt * fast, "collision", [&] { return fmt("a motion that started apart brings two bodies %.4g m closer than the margin (%.3g)", margin - pr.d, margin); });
          // (once inside, the bodies are pushed apart, but the curvature of their motion isn't accounted for)
          if (pr.d < margin)
            clean = false;
        }
      }
    };
    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      ctx.mixs(ev.kind);
      armed = "-";
      if (ev.kind == "drive")
      {
        target(r);
        int n = r.between(10, 60);
        for (int i = 0; i < n; i++)
          tick(true);
      }
      else if (ev.kind == "failtick")
      {
        armed = ev.fault;
        tick(true);
        for (int i = 0; i < 5; i++)
          tick(true);
      }
      else if (ev.kind == "push")
      {
        for (int k = w.fbase_masked ? 6 : 0; k < robot.model.nv; k++)
          robot.state.qd[k] += r.uni(-1, 1);
        robot.update_kinematics();
        ctx.fault("push");
        clean = false;
        for (int i = 0; i < 3; i++)
          tick(true);
      }
      else if (ev.kind == "install")
      {
        if (h)
        {
          w.solver->remove_constraint(*h);
          h = nullptr;
          clean = false;
        }
        else
        {
          put();
          restart();
        }
        tick(false);
      }
      else if (ev.kind == "margins")
      {
        margin = r.uni(0, 0.03);
        trigger = margin + r.uni(0.01, 0.1);
        if (h)
        {
          h->self_collisions_margin = margin;
          h->self_collisions_trigger = trigger;
        }
        restart();
        tick(false);
      }
      else if (ev.kind == "prio")
      {
        hard = r.chance(0.6);
        weight = std::pow(10., r.uni(-1, 3));
        if (h)
          h->configure("selfcol", hard ? "hard" : "soft", weight);
        restart();
        tick(false);
      }
      else if (ev.kind == "jump")
      {
        robot.state.q = random_q(robot.model, r, r.uni(0.3, 1), 0.2);
        robot.state.qd.setZero();
        robot.update_kinematics();
        ctx.fault("jump");
        restart();
        tick(true);
      }
      else
      {
        auto t = w.random_task(r, { "position", "com", "orientation" }, 0.1);
        t->kp = r.uni(30, 300);
        t->kd = -1;
        t->hard = false;
        t->weight = std::pow(10., r.uni(-1, 1));
        w.add(std::move(t));
        for (int i = 0; i < 5; i++)
          tick(true);
        if (r.chance(0.5))
          w.remove(w.tasks.size() - 1);
      }
      ctx.state(fmt("%s%d%d%d", ev.kind.c_str(), hard, h != nullptr, clean));
    }
    ctx.log("worst kkt %.3g dmin %.4g", worst, dmin);
    const char* err = mem::error();
    ctx.check(!err, "heap", err ? err : "");
    w.solver.reset();
    mem::end();
  }
  std::string armed = "-";
  double soft_cost = 0, free_cost = 0, worst = 0;
};
SIM_SCENARIO("dyn_collide", DynCollide);

struct DynEom : DynScenario { DynEom() : DynScenario(EOM) {} };
struct DynContacts : DynScenario { DynContacts() : DynScenario(CONTACTS) {} };
struct DynFail : DynScenario { DynFail() : DynScenario(FAIL) {} };
struct DynOpt : DynScenario { DynOpt() : DynScenario(OPT) {} };
SIM_SCENARIO("dyn_eom", DynEom);
SIM_SCENARIO("dyn_contacts", DynContacts);
SIM_SCENARIO("dyn_fail", DynFail);
SIM_SCENARIO("dyn_opt", DynOpt);
}  // namespace
