// P22: objects that do not share anything do not influence each other.
// Several threads each build and use their own robots, solvers, problems, walks and splines. The seeded scheduler interleaves them
// at allocations, QPs and locks; each must get what it gets when it runs alone.
// Faults: a stalled thread, infeasible problems, work abandoned half way (everything destroyed while the others go on).
#include "core.h"
#include "robots.h"
#include "seam_thread.h"
#include "placo/kinematics/kinematics_solver.h"
#include "placo/dynamics/dynamics_solver.h"
#include "placo/problem/problem.h"
#include "placo/problem/integrator.h"
#include "placo/humanoid/footsteps_planner_repetitive.h"
#include "placo/humanoid/footsteps_planner_naive.h"
#include "placo/humanoid/walk_pattern_generator.h"
#include "placo/tools/cubic_spline.h"
#include "placo/tools/directions.h"
#include "placo/tools/polynom.h"
#include "placo/tools/utils.h"
#include <memory>

using namespace sim;
using placo::model::RobotWrapper;
using robots::Affine3d;
using robots::Matrix3d;
using robots::MatrixXd;
using robots::Vector3d;
using robots::VectorXd;
namespace kin = placo::kinematics;
namespace dyn = placo::dynamics;
namespace pb = placo::problem;
namespace hum = placo::humanoid;

namespace
{
struct Abandon
{
};
// one job: its parameters, and what it observed
struct Job
{
  std::string kind;
  uint64_t sub;
  int stop = 1 << 30;  // abandoned at this step
  std::vector<double> seen;
  std::string error;
  int step = 0;
  void see(double d)
  {
    seen.push_back(d);
  }
  template <class V>
  void seev(const V& v)
  {
    for (int j = 0; j < v.cols(); j++)
      for (int i = 0; i < v.rows(); i++)
        seen.push_back(v(i, j));
  }
  void tick()
  {
    if (++step > stop)
      throw Abandon();
  }
};

struct Threads : Scenario
{
  std::string urdf_arm, urdf_sig;
  void setup() override
  {
    urdf_arm = robots::urdf("arm");
    urdf_sig = robots::urdf("sigmaban");
  }
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    int n = r.between(2, thorough ? 5 : 3);
    std::vector<std::string> kinds = { "problem", "kin", "dyn", "walk", "model", "tools" };
    bool alike = r.chance(0.5);
    std::string k0 = r.pick(kinds);
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = alike ? k0 : r.pick(kinds);
      e.sub = r.next();
      if (r.chance(0.25))
        e.fault = r.pick(std::vector<std::string>{ "stalled", "abandoned" });
      p.ev.push_back(e);
    }
    return p;
  }

  void do_problem(Job& j, Rng& r)
  {
    pb::Problem p;
    int nv = r.between(1, 3);
    std::vector<pb::Variable*> vs;
    for (int i = 0; i < nv; i++)
      vs.push_back(&p.add_variable(r.between(2, 6)));
    for (auto v : vs)
    {
      VectorXd t(v->size());
      for (int i = 0; i < t.size(); i++)
        t[i] = r.uni(-2, 2);
      p.add_constraint(v->expr() == t).configure(pb::ProblemConstraint::Soft, r.uni(0.5, 2));
      p.add_limit(v->expr(), VectorXd::Constant(v->size(), r.uni(0.3, 1.5)));
    }
    for (int k = 0; k < 3; k++)
    {
      j.tick();
      MatrixXd A(1, vs[0]->size());
      for (int i = 0; i < A.cols(); i++)
        A(0, i) = r.uni(0.2, 1);
      p.add_constraint(A * vs[0]->expr() == VectorXd::Constant(1, r.uni(-0.2, 0.2) * (k == 0))).configure(pb::ProblemConstraint::Soft, 1.);
      bool bad = r.chance(0.2);
      if (bad)
      {
        p.add_constraint(vs[0]->expr(0, 1) == VectorXd::Constant(1, 9.)).configure(pb::ProblemConstraint::Hard);
        p.add_constraint(vs[0]->expr(0, 1) == VectorXd::Constant(1, 7.)).configure(pb::ProblemConstraint::Hard);
      }
      try
      {
        p.solve();
        for (auto v : vs)
          j.seev(v->value);
      }
      catch (pb::QPError&)
      {
        j.see(-12345);
        return;
      }
    }
    // a jerk-controlled system over its own variables
    pb::Problem p2;
    auto& u = p2.add_variable(8);
    pb::Integrator in(u, pb::Expression::from_vector(Vector3d(r.uni(-1, 1), 0, 0)), 3, 0.1);
    p2.add_constraint(in.expr(8, 0) == VectorXd::Constant(1, r.uni(-1, 1)));
    p2.add_constraint(in.expr(8, 1) == VectorXd::Constant(1, 0.));
    p2.add_constraint(u.expr() == VectorXd::Zero(8)).configure(pb::ProblemConstraint::Soft, 1e-3);
    p2.solve();
    auto tr = in.get_trajectory();
    for (int i = 0; i < 5; i++)
      j.see(tr.value(0.15 * i, 0));
  }
  void do_kin(Job& j, Rng& r)
  {
    RobotWrapper robot("", RobotWrapper::COLLISION_AS_VISUAL | RobotWrapper::IGNORE_COLLISIONS, urdf_arm);
    robot.state.q = robots::random_q(robot.model, r, 0.6);
    robot.update_kinematics();
    kin::KinematicsSolver s(robot);
    s.dt = 0.02;
    s.enable_velocity_limits(true);
    s.add_regularization_task(1e-2);
    auto f = robot.get_frame_index("tool");
    Affine3d T = robot.get_T_world_frame(f);
    T.translation() += robots::random_vec(r, 0.1);
    T.linear() = T.linear() * robots::random_rot(r, 0.3);
    auto task = s.add_frame_task(f, T);
    task.configure("tool", "soft", 1., 0.5);
    auto& base = s.add_position_task("base", robot.get_T_world_frame("base").translation());
    base.configure("base", r.chance(0.5) ? "hard" : "soft", 1.);
    if (r.chance(0.5))
      s.add_com_task(robot.com_world() + robots::random_vec(r, 0.02)).configure("com", "soft", 0.3);
    if (r.chance(0.3))
      s.mask_dof("pan");
    for (int k = 0; k < 4; k++)
    {
      j.tick();
      j.seev(s.solve(true));
      robot.update_kinematics();
      j.seev(robot.state.q);
    }
  }
  void do_dyn(Job& j, Rng& r)
  {
    RobotWrapper robot("", RobotWrapper::COLLISION_AS_VISUAL | RobotWrapper::IGNORE_COLLISIONS, urdf_arm);
    robot.state.q = robots::random_q(robot.model, r, 0.6);
    robot.update_kinematics();
    dyn::DynamicsSolver s(robot);
    s.dt = 0.005;
    auto f = robot.get_frame_index("base");
    auto base = s.add_frame_task(f, robot.get_T_world_frame(f));
    base.configure("base", "soft", 1., 1.);
    auto& c = r.chance(0.5) ? s.add_fixed_contact(base) : s.add_planar_contact(base);
    c.length = c.width = 1.;
    auto& tool = s.add_position_task("tool", robot.get_T_world_frame("tool").translation() + robots::random_vec(r, 0.05));
    tool.configure("tool", "soft", 1.);
    auto& js = s.add_joints_task();
    for (auto& n : robot.joint_names())
      js.set_joint(n, robot.get_joint(n));
    js.configure("joints", "soft", 1e-1);
    for (int k = 0; k < 3; k++)
    {
      j.tick();
      auto res = s.solve(true);
      j.see(res.success);
      if (!res.success)
        return;
      j.seev(res.tau);
      j.seev(res.qdd);
      robot.update_kinematics();
    }
  }
  void do_walk(Job& j, Rng& r)
  {
    hum::HumanoidRobot robot("", RobotWrapper::COLLISION_AS_VISUAL | RobotWrapper::IGNORE_COLLISIONS, urdf_sig);
    hum::HumanoidParameters p;
    p.single_support_duration = r.uni(0.3, 0.5);
    p.single_support_timesteps = 8;
    p.double_support_ratio = r.chance(0.5) ? 0. : 0.3;
    p.walk_com_height = r.uni(0.28, 0.4);
    p.feet_spacing = r.uni(0.14, 0.17);
    hum::WalkPatternGenerator wpg(robot, p);
    hum::FootstepsPlannerRepetitive pl(p);
    pl.configure(r.uni(-0.03, 0.06), r.uni(-0.02, 0.02), r.uni(-0.2, 0.2), r.between(2, 4));
    Affine3d L = Affine3d::Identity(), R = Affine3d::Identity();
    L.translation().y() = p.feet_spacing / 2;
    R.translation().y() = -p.feet_spacing / 2;
    auto steps = pl.plan(hum::HumanoidRobot::Left, L, R);
    for (auto& s : steps)
      j.seev(s.frame.matrix());
    auto sup = hum::FootstepsPlanner::make_supports(steps, 0., true, p.has_double_support(), true);
    j.tick();
    auto tr = wpg.plan(sup, Vector3d(0, 0, p.walk_com_height), 0.);
    for (int i = 0; i < 8; i++)
    {
      j.tick();
      double t = tr.t_start + (tr.t_end - tr.t_start) * i / 8.;
      j.seev(tr.get_p_world_CoM(t));
      j.seev(tr.get_v_world_CoM(t));
      j.seev(tr.get_T_world_left(t).matrix());
      j.seev(tr.get_T_world_right(t).matrix());
    }
    double t = tr.t_start + (tr.t_end - tr.t_start) * r.uni(0.2, 0.5);
    if (wpg.can_replan_supports(tr, t))
    {
      auto s2 = wpg.replan_supports(pl, tr, t, tr.t_start);
      auto t2 = wpg.replan(s2, tr, t);
      j.seev(t2.get_p_world_CoM(t + 0.2));
      j.seev(t2.get_T_world_left(t + 0.2).matrix());
    }
  }
  void do_model(Job& j, Rng& r)
  {
    RobotWrapper robot("", RobotWrapper::COLLISION_AS_VISUAL | (r.chance(0.5) ? 0 : RobotWrapper::IGNORE_COLLISIONS), urdf_arm);
    for (int k = 0; k < 4; k++)
    {
      j.tick();
      robot.state.q = robots::random_q(robot.model, r, 0.8);
      for (int i = 0; i < robot.model.nv; i++)
        robot.state.qd[i] = r.uni(-1, 1);
      robot.set_gravity(robots::random_vec(r, 9.));
      robot.set_joint_limits("pan", -r.uni(0.5, 1), r.uni(0.5, 1));
      robot.update_kinematics();
      j.seev(robot.get_T_world_frame("tool").matrix());
      j.seev(robot.frame_jacobian("tip", "local"));
      j.seev(robot.frame_jacobian_time_variation("tip", "world"));
      j.seev(robot.com_world());
      j.seev(robot.com_jacobian());
      j.seev(robot.mass_matrix());
      j.seev(robot.non_linear_effects());
      j.seev(robot.static_gravity_compensation_torques("base"));
      for (auto& d : robot.distances())
        j.see(d.min_distance);
      j.see((double)robot.self_collisions().size());
      j.see(robot.get_joint_limits("pan").first);
      robot.integrate(0.01);
      j.seev(robot.state.q);
    }
  }
  void do_tools(Job& j, Rng& r)
  {
    for (int k = 0; k < 6; k++)
    {
      j.tick();
      placo::tools::CubicSpline s(r.chance(0.3));
      double t = r.uni(-1, 1);
      int n = r.between(1, 5);
      for (int i = 0; i < n; i++)
      {
        s.add_point(t, r.uni(-2, 2), r.uni(-1, 1));
        t += r.uni(0.1, 1);
      }
      for (int i = 0; i < 6; i++)
      {
        double x = r.uni(-1, t + 1);
        j.see(s.pos(x));
        j.see(s.vel(x));
      }
      j.seev(placo::tools::directions_2d(r.between(3, 9)));
      j.seev(placo::tools::directions_3d(r.between(3, 9)));
      VectorXd c(4);
      for (int i = 0; i < 4; i++)
        c[i] = r.uni(-1, 1);
      placo::tools::Polynom p(c);
      j.see(p.value(r.uni(-1, 1), r.range(3)));
    }
  }
  void work(Job& j)
  {
    Rng r(j.sub);
    j.seen.clear();
    j.error.clear();
    j.step = 0;
    try
    {
      if (j.kind == "problem")
        do_problem(j, r);
      else if (j.kind == "kin")
        do_kin(j, r);
      else if (j.kind == "dyn")
        do_dyn(j, r);
      else if (j.kind == "walk")
        do_walk(j, r);
      else if (j.kind == "model")
        do_model(j, r);
      else
        do_tools(j, r);
    }
    catch (Abandon&)
    {
    }
    catch (std::exception& e)
    {
      j.error = e.what();
    }
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng c(plan.config);
    mem::begin(mem::random_env(c));
    thr::Policy pol;
    pol.seed = c.next();
    pol.p_switch = c.pick(std::vector<double>{ 0.3, 0.1, 0.03, 0.01, 0.003 });
    std::vector<Job> alone, together;
    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      Job j;
      j.kind = ev.kind;
      j.sub = r.next();
      if (ev.fault == "abandoned")
      {
        j.stop = r.range(4);
        ctx.fault("abandoned");
      }
      if (ev.fault == "stalled")
      {
        pol.stalled = (int)alone.size();
        pol.stall_from = r.range(300);
        pol.stall_len = r.between(10, 5000);
      }
      alone.push_back(j);
    }
    together = alone;
    for (auto& j : alone)
    {
      work(j);
      ctx.steps++;
      if (!j.error.empty())
        ctx.hit("error-" + j.kind);
    }
    std::vector<std::function<void()>> jobs;
    for (auto& j : together)
      jobs.push_back([this, &j] { work(j); });
    thr::Result res = thr::run(jobs, pol);
    if (res.stalled)
      ctx.fault("stalled");
    ctx.hit("switch-points", res.points);
    ctx.hit("switches", res.switches);
    ctx.mix(res.trace);
    ctx.states.insert(res.trace);
    for (size_t k = 0; k < alone.size(); k++)
    {
      Job &a = alone[k], &b = together[k];
      ctx.hit("job-" + a.kind);
      ctx.checkf(a.error.empty() == b.error.empty(), "outcome", [&] {
        return fmt("a %s job %s among others and %s alone", a.kind.c_str(), b.error.empty() ? "succeeds" : ("fails (" + b.error + ")").c_str(),
                   a.error.empty() ? "succeeds" : ("fails (" + a.error + ")").c_str());
      });
      ctx.checkf(a.seen.size() == b.seen.size(), "outcome", [&] { return fmt("a %s job gives %zu results among others and %zu alone", a.kind.c_str(), b.seen.size(), a.seen.size()); });
      for (size_t i = 0; i < a.seen.size(); i++)
      {
        double x = a.seen[i], y = b.seen[i];
        bool ok = std::fabs(x - y) <= 1e-5 * (1 + std::fabs(x)) || (std::isnan(x) && std::isnan(y));
        ctx.checkf(ok, "interference", [&] { return fmt("result %zu of a %s job is %.9g among others and %.9g alone", i, a.kind.c_str(), y, x); });
      }
      ctx.mix(b.seen.size());
    }
    if (const char* e = mem::error())
      ctx.check(false, "heap", e);
    mem::end();
  }
};
SIM_SCENARIO("threads", Threads);
}  // namespace
