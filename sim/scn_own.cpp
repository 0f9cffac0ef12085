// P11: who frees what. Histories of solvers, tasks, constraints and contacts (made by the solver or by the user), problems, variables;
// removals, clears, destructions, failing solves, in any order; the heap seam knows every live block.
// The whole history is run twice: the second time, everything allocated must have been released again.
#include "core.h"
#include "robots.h"
#include "placo/kinematics/kinematics_solver.h"
#include "placo/dynamics/dynamics_solver.h"
#include "placo/problem/problem.h"
#include "placo/problem/integrator.h"
#include "placo/humanoid/walk_tasks.h"
#include <memory>

using namespace sim;
using placo::model::RobotWrapper;
using robots::Affine3d;
using robots::Matrix3d;
using robots::MatrixXd;
using robots::Vector3d;
using robots::VectorXd;
namespace kin = placo::kinematics;
namespace dyn = placo::dynamics;
namespace pb = placo::problem;

namespace
{
// something installed in a solver: its address, who owns it, how to take it out, how to destroy it
struct Obj
{
  std::string type;
  std::vector<void*> at;  // the blocks (a frame task has two)
  bool user = false;
  std::function<void()> remove;   // from its solver
  std::function<void()> destroy;  // by the user
  std::function<std::string()> print;  // what the user reads in it
  std::string printed;
  std::vector<size_t> uses;  // objects this one refers to (a contact's task)
};

template <class T>
static std::string print_task(T* t)
{
  return t->name + "/" + (t->priority == placo::tools::Prioritized::Hard ? "hard" : "soft") + "/" + fmt("%.17g", t->weight);
}

struct KS : kin::KinematicsSolver
{
  using kin::KinematicsSolver::KinematicsSolver;
  using kin::KinematicsSolver::constraints;
  using kin::KinematicsSolver::tasks;
  std::set<void*> held() const
  {
    std::set<void*> s;
    for (auto t : tasks)
      s.insert((void*)t);
    return s;
  }
};
struct DS : dyn::DynamicsSolver
{
  using dyn::DynamicsSolver::constraints;
  using dyn::DynamicsSolver::contacts;
  using dyn::DynamicsSolver::DynamicsSolver;
  using dyn::DynamicsSolver::tasks;
};

struct Own : Scenario
{
  RobotWrapper* robot_;
  placo::humanoid::HumanoidRobot* human_;
  void setup() override
  {
    robot_ = robots::make("arm", RobotWrapper::COLLISION_AS_VISUAL);
    human_ = new placo::humanoid::HumanoidRobot("", RobotWrapper::COLLISION_AS_VISUAL | RobotWrapper::IGNORE_COLLISIONS, robots::urdf("sigmaban"));
  }
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> kinds = { "add", "user", "solve", "remove", "clear", "destroy", "problem", "walk" };
    std::vector<double> w = { 5, 3, 3, 3, 0.6, 0.5, 0.7, 0.25 };
    for (auto& x : w)
      if (r.chance(0.3))
        x *= 0.2;
    int n = r.between(4, thorough ? 50 : 25);
    double pf = r.chance(0.5) ? 0.4 : 0;
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted(w)];
      e.sub = r.next();
      if ((e.kind == "solve" || e.kind == "problem") && r.chance(pf))
        e.fault = r.pick(std::vector<std::string>{ "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw" });
      p.ev.push_back(e);
    }
    return p;
  }

  struct W
  {
    bool dynamics;
    std::unique_ptr<KS> ks;
    std::unique_ptr<DS> ds;
    std::vector<std::unique_ptr<Obj>> objs;    // installed
    std::vector<std::unique_ptr<Obj>> loose;   // the user's, not installed any more
  };

  void make_solver(W& w, Rng& r)
  {
    w.dynamics = r.chance(0.5);
    if (w.dynamics)
    {
      w.ds = std::make_unique<DS>(*robot_);
      w.ds->dt = 0.01;
    }
    else
    {
      w.ks = std::make_unique<KS>(*robot_);
      w.ks->dt = 0.01;
    }
  }

  template <class S, class T>
  std::unique_ptr<Obj> task_obj(S* s, T* t, const std::string& type, bool user)
  {
    auto o = std::make_unique<Obj>();
    o->type = type;
    o->at = { (void*)t };
    o->user = user;
    o->remove = [s, t] { s->remove_task(*t); };
    o->destroy = [t] { delete t; };
    o->print = [t] { return print_task(t); };
    return o;
  }
  template <class S, class T>
  std::unique_ptr<Obj> con_obj(S* s, T* t, const std::string& type, bool user)
  {
    auto o = task_obj_like(t, type, user);
    o->remove = [s, t] { s->remove_constraint(*t); };
    o->print = [t] { return print_task(t); };
    return o;
  }
  template <class T>
  std::unique_ptr<Obj> task_obj_like(T* t, const std::string& type, bool user)
  {
    auto o = std::make_unique<Obj>();
    o->type = type;
    o->at = { (void*)t };
    o->user = user;
    o->destroy = [t] { delete t; };
    return o;
  }
  template <class S, class F>
  std::unique_ptr<Obj> frame_obj(S* s, F f)
  {
    auto o = std::make_unique<Obj>();
    o->type = "frame";
    o->at = { (void*)f.position, (void*)f.orientation };
    auto keep = std::make_shared<F>(f);
    o->remove = [s, keep] { s->remove_task(*keep); };
    o->print = [keep] { return print_task(keep->position) + "," + print_task(keep->orientation); };
    return o;
  }

  template <class F>
  static auto* ptr(F* p)
  {
    return p;
  }
  template <class F>
  static auto* ptr(F& p)
  {
    return &p;
  }
  // relative frame tasks are taken out by halves
  template <class S, class F>
  std::unique_ptr<Obj> rel_obj(S* s, F f)
  {
    auto o = std::make_unique<Obj>();
    o->type = "relframe";
    auto *a = ptr(f.position), *b = ptr(f.orientation);
    o->at = { (void*)a, (void*)b };
    o->remove = [s, a, b] {
      s->remove_task(*a);
      s->remove_task(*b);
    };
    o->print = [a, b] { return print_task(a) + "," + print_task(b); };
    return o;
  }

  void add(W& w, Ctx& ctx, Rng& r, bool user)
  {
    std::unique_ptr<Obj> o;
    Vector3d p = robots::random_vec(r, 0.4);
    Matrix3d R = robots::random_rot(r, 1.);
    Affine3d T = Affine3d::Identity();
    T.translation() = p;
    T.linear() = R;
    auto f1 = robot_->get_frame_index("tool"), f2 = robot_->get_frame_index("base"), f3 = robot_->get_frame_index("tip");
    double weight = r.uni(0.1, 2);
    std::string name = fmt("t%d", r.range(1000));
    if (!w.dynamics)
    {
      kin::KinematicsSolver* s = w.ks.get();
      auto T_ = [&](auto* t, const char* ty) {
        if (user)
          s->add_task((kin::Task&)*t);
        t->configure(name, "soft", weight);
        o = task_obj(s, t, ty, user);
      };
      auto C_ = [&](auto* t, const char* ty) {
        if (user)
          s->add_constraint((kin::Constraint&)*t);
        t->configure(name, "soft", weight);
        o = con_obj(s, t, ty, user);
      };
      std::vector<Eigen::Vector2d> poly = { { -1, -1 }, { 1, -1 }, { 1, 1 }, { -1, 1 } };
      int nv = robot_->model.nv;
      Eigen::MatrixXd HA = Eigen::MatrixXd::Zero(1, nv);
      HA(0, nv - 1) = 1;
      Eigen::VectorXd hb = Eigen::VectorXd::Constant(1, 10.);
      switch (r.range(user ? 19 : 22))
      {
        case 0:
          T_(user ? new kin::PositionTask(f1, p) : &s->add_position_task(f1, p), "position");
          break;
        case 1:
          T_(user ? new kin::OrientationTask(f1, R) : &s->add_orientation_task(f1, R), "orientation");
          break;
        case 2:
          T_(user ? new kin::CoMTask(p) : &s->add_com_task(p), "com");
          break;
        case 3:
          T_(user ? new kin::JointsTask() : &s->add_joints_task(), "joints");
          break;
        case 4:
          T_(user ? new kin::DistanceTask(f1, f2, 0.3) : &s->add_distance_task(f1, f2, 0.3), "distance");
          break;
        case 5:
          T_(user ? new kin::RelativePositionTask(f2, f3, p) : &s->add_relative_position_task(f2, f3, p), "relpos");
          break;
        case 6:
          T_(user ? new kin::RegularizationTask() : &s->add_regularization_task(weight), "regularization");
          break;
        case 7:
          T_(user ? new kin::GearTask() : &s->add_gear_task(), "gear");
          break;
        case 8:
          C_(user ? new kin::CoMPolygonConstraint(poly, 0.) : &s->add_com_polygon_constraint(poly, 0.), "polygon");
          break;
        case 9:
          C_(user ? new kin::DistanceConstraint(f1, f2, 2.) : &s->add_distance_constraint(f1, f2, 2.), "distance-constraint");
          break;
        case 10:
          T_(user ? new kin::AxisAlignTask(f1, Vector3d::UnitX(), Vector3d::UnitZ()) : &s->add_axisalign_task(f1, Vector3d::UnitX(), Vector3d::UnitZ()), "axis");
          break;
        case 11:
          T_(user ? new kin::RelativeOrientationTask(f2, f3, R) : &s->add_relative_orientation_task(f2, f3, R), "relrot");
          break;
        case 12:
          T_(user ? new kin::CentroidalMomentumTask(p) : &s->add_centroidal_momentum_task(p), "momentum");
          break;
        case 13:
          T_(user ? new kin::ManipulabilityTask(f1, kin::ManipulabilityTask::POSITION, 1.) : &s->add_manipulability_task(f1, kin::ManipulabilityTask::POSITION, 1.), "manipulability");
          break;
        case 14:
          T_(user ? new kin::KineticEnergyRegularizationTask() : &s->add_kinetic_energy_regularization_task(weight), "kinetic");
          break;
        case 15:
          C_(user ? new kin::ConeConstraint(f1, f2, 3.) : &s->add_cone_constraint(f1, f2, 3.), "cone");
          break;
        case 16:
          C_(user ? new kin::YawConstraint(f1, f2, 3.) : &s->add_yaw_constraint(f1, f2, 3.), "yaw");
          break;
        case 17:
          C_(user ? new kin::JointSpaceHalfSpacesConstraint(HA, hb) : &s->add_joint_space_half_spaces_constraint(HA, hb), "halfspaces");
          break;
        case 18:
          C_(user ? new kin::AvoidSelfCollisionsConstraint() : &s->add_avoid_self_collisions_constraint(), "collisions");
          break;
        case 19:
          o = rel_obj(s, s->add_relative_frame_task(f2, f3, T));
          break;
        default:
          o = frame_obj(s, s->add_frame_task(f1, T));
      }
    }
    else
    {
      dyn::DynamicsSolver* s = w.ds.get();
      auto T_ = [&](auto* t, const char* ty) {
        if (user)
          s->add_task((dyn::Task&)*t);
        t->configure(name, "soft", weight);
        o = task_obj(s, t, ty, user);
      };
      auto K_ = [&](auto* t, const char* ty, std::vector<size_t> uses) {
        if (user)
          s->add_contact((dyn::Contact&)*t);
        o = task_obj_like(t, ty, user);
        o->remove = [s, t] { s->remove_contact(*t); };
        o->print = [] { return std::string("contact"); };
        o->uses = uses;
      };
      auto C_ = [&](auto* t, const char* ty) {
        if (user)
          s->add_constraint((dyn::Constraint&)*t);
        t->configure(name, "soft", weight);
        o = con_obj(s, t, ty, user);
      };
      int which = r.range(user ? 15 : 18);
      // a frame task a contact can lean on
      std::unique_ptr<dyn::FrameTask> ft;
      size_t fti = 0;
      for (size_t i = 0; i < w.objs.size(); i++)
        if (w.objs[i]->type == "frame")
        {
          ft = std::make_unique<dyn::FrameTask>((dyn::PositionTask*)w.objs[i]->at[0], (dyn::OrientationTask*)w.objs[i]->at[1]);
          fti = i;
        }
      // a position task a contact can lean on
      dyn::PositionTask* pt = nullptr;
      size_t pti = 0;
      for (size_t i = 0; i < w.objs.size(); i++)
        if (w.objs[i]->type == "position")
        {
          pt = (dyn::PositionTask*)w.objs[i]->at[0];
          pti = i;
        }
      switch (which)
      {
        case 0:
          T_(user ? new dyn::PositionTask(f1, p) : &s->add_position_task(f1, p), "position");
          break;
        case 1:
          T_(user ? new dyn::OrientationTask(f1, R) : &s->add_orientation_task(f1, R), "orientation");
          break;
        case 2:
          T_(user ? new dyn::CoMTask(p) : &s->add_com_task(p), "com");
          break;
        case 3:
          T_(user ? new dyn::JointsTask() : &s->add_joints_task(), "joints");
          break;
        case 4:
          T_(user ? new dyn::RelativePositionTask(f2, f3, p) : &s->add_relative_position_task(f2, f3, p), "relpos");
          break;
        case 5:
          K_(user ? new dyn::ExternalWrenchContact(f1) : &s->add_external_wrench_contact(f1), "wrench", {});
          break;
        case 6:
          K_(user ? new dyn::PuppetContact() : &s->add_puppet_contact(), "puppet", {});
          break;
        case 7:
          if (!pt)
            return;
          K_(user ? new dyn::PointContact(*pt, true) : &s->add_unilateral_point_contact(*pt), "point", { pti });
          break;
        case 8:
          T_(user ? new dyn::GearTask() : &s->add_gear_task(), "gear");
          break;
        case 9:
          T_(user ? new dyn::RelativeOrientationTask(f2, f3, R) : &s->add_relative_orientation_task(f2, f3, R), "relrot");
          break;
        case 10:
          T_(user ? new dyn::TorqueTask() : &s->add_torque_task(), "torque");
          break;
        case 11:
          C_(user ? new dyn::AvoidSelfCollisionsConstraint() : &s->add_avoid_self_collisions_constraint(), "collisions");
          break;
        case 12:
        {
          if (!ft)
            return;
          bool uni = r.chance(0.5);
          auto* c = user ? new dyn::Contact6D(*ft, uni) : &(uni ? s->add_planar_contact(*ft) : s->add_fixed_contact(*ft));
          c->length = c->width = 0.1;
          K_(c, "contact6d", { fti });
          break;
        }
        case 13:
        {
          if (!ft)
            return;
          bool uni = r.chance(0.5);
          auto* c = user ? new dyn::LineContact(*ft, uni) : &(uni ? s->add_unilateral_line_contact(*ft) : s->add_line_contact(*ft));
          c->length = 0.1;
          K_(c, "line", { fti });
          break;
        }
        case 14:
          if (!pt)
            return;
          K_(user ? new dyn::TaskContact(*pt) : &s->add_task_contact(*pt), "task-contact", { pti });
          break;
        case 15:
          o = rel_obj(s, s->add_relative_frame_task(f2, f3, T));
          break;
        default:
          o = frame_obj(s, s->add_frame_task(f1, T));
      }
    }
    o->printed = o->print();
    ctx.hit(user ? "user-owned" : "solver-owned");
    ctx.state((w.dynamics ? "dyn " : "kin ") + o->type + (user ? " user" : " solver") + fmt(" with %d", (int)std::min<size_t>(w.objs.size(), 6)));
    w.objs.push_back(std::move(o));
  }

  void dead(Ctx& ctx, const Obj& o, const std::string& when)
  {
    for (void* p : o.at)
      ctx.check(!mem::is_live(p), "leak", "the " + o.type + " object made by the solver is still allocated after " + when);
  }
  void alive(Ctx& ctx, const Obj& o, const std::string& when)
  {
    for (void* p : o.at)
      ctx.check(mem::is_live(p), "freed-too-early", std::string("the ") + o.type + " object " + (o.user ? "of the user" : "made by the solver") + " was freed by " + when);
    ctx.check(o.print() == o.printed, "altered", std::string("the ") + o.type + " object " + (o.user ? "of the user" : "made by the solver") + " was altered by " + when);
  }
  // the solver holds exactly the installed objects
  void holds(W& w, Ctx& ctx, const std::string& when)
  {
    std::set<void*> want, got;
    size_t n = 0;
    for (auto& o : w.objs)
      for (void* p : o->at)
        want.insert(p);
    if (w.ks)
    {
      for (auto t : w.ks->tasks)
        got.insert((void*)t), n++;
      for (auto t : w.ks->constraints)
        got.insert((void*)t), n++;
    }
    if (w.ds)
    {
      for (auto t : w.ds->tasks)
        got.insert((void*)t), n++;
      for (auto t : w.ds->contacts)
        got.insert((void*)t), n++;
      for (auto t : w.ds->constraints)
        got.insert((void*)t), n++;
    }
    ctx.checkf(want == got && n == want.size(), "set", [&] { return fmt("after %s the solver holds %zu objects instead of %zu", when.c_str(), n, want.size()); });
    if (const char* e = mem::error())
      ctx.check(false, "heap", "after " + when + ": " + e);
  }
  void check_all(W& w, Ctx& ctx, const std::string& when)
  {
    for (auto& o : w.objs)
      alive(ctx, *o, when);
    for (auto& o : w.loose)
      alive(ctx, *o, when);
    if (w.ks || w.ds)
      holds(w, ctx, when);
  }

  void take_out(W& w, Ctx& ctx, size_t i)
  {
    // contacts first, then what they lean on
    for (size_t k = 0; k < w.objs.size(); k++)
      for (size_t u : w.objs[k]->uses)
        if (u == i)
        {
          take_out(w, ctx, k);
          return take_out(w, ctx, i > k ? i - 1 : i);
        }
    auto o = std::move(w.objs[i]);
    w.objs.erase(w.objs.begin() + i);
    for (auto& x : w.objs)
      for (auto& u : x->uses)
        if (u > i)
          u--;
    o->uses.clear();
    o->remove();
    if (o->user)
      w.loose.push_back(std::move(o));
    else
      dead(ctx, *o, "its removal");
  }
  void all_out(W& w, Ctx& ctx, const std::string& when)
  {
    for (auto& o : w.objs)
    {
      o->uses.clear();
      if (o->user)
        w.loose.push_back(std::move(o));
      else
        dead(ctx, *o, when);
    }
    w.objs.clear();
  }

  void problem(Ctx& ctx, Rng& r, const Event& ev)
  {
    auto p = std::make_unique<pb::Problem>();
    int rounds = r.between(1, 3);
    for (int k = 0; k < rounds; k++)
    {
      std::vector<pb::Variable*> vs;
      std::vector<void*> cs;
      int nv = r.between(1, 3);
      for (int i = 0; i < nv; i++)
        vs.push_back(&p->add_variable(r.between(1, 4)));
      for (auto v : vs)
      {
        auto& c = p->add_constraint(v->expr() == r.uni(-1, 1));
        c.configure(pb::ProblemConstraint::Soft, 1.);
        cs.push_back(&c);
        cs.push_back(&p->add_constraint(v->expr() <= r.uni(1, 2)));
        if (r.chance(0.3))
          cs.push_back(&p->add_limit(v->expr(), VectorXd::Constant(v->size(), 3.)));
      }
      if (ev.fault != "-")
        qp::arm(qp::fault_from(ev.fault), 1);
      try
      {
        p->solve();
      }
      catch (std::exception&)
      {
      }
      if (qp::disarm())
        ctx.fault(ev.fault);
      for (void* c : cs)
        ctx.check(mem::is_live(c), "freed-too-early", "a constraint of a problem was freed by its solve");
      if (r.chance(0.6))
      {
        p->clear_constraints();
        for (void* c : cs)
          ctx.check(!mem::is_live(c), "leak", "a constraint is still allocated after clear_constraints()");
        for (auto v : vs)
          ctx.check(mem::is_live(v), "freed-too-early", "a variable was freed by clear_constraints()");
        p->clear_variables();
        for (auto v : vs)
          ctx.check(!mem::is_live(v), "leak", "a variable is still allocated after clear_variables()");
      }
      else
      {
        p.reset();
        for (void* c : cs)
          ctx.check(!mem::is_live(c), "leak", "a constraint is still allocated after its problem is destroyed");
        for (auto v : vs)
          ctx.check(!mem::is_live(v), "leak", "a variable is still allocated after its problem is destroyed");
        p = std::make_unique<pb::Problem>();
      }
    }
    ctx.hit("problems");
  }

  // walk tasks live in a solver and leave it as they found it
  void walk(Ctx& ctx, Rng& r)
  {
    auto s = std::make_unique<KS>(*human_);
    auto& mine = s->add_joints_task();
    auto before = s->held();
    bool solver_first = r.chance(0.5);
    {
      placo::humanoid::WalkTasks wt;
      wt.initialize_tasks(s.get(), human_);
      if (r.chance(0.5))
      {
        wt.trunk_mode = true;
        wt.update_tasks(Affine3d::Identity(), Affine3d::Identity(), Vector3d(0, 0, 0.3), Matrix3d::Identity());
      }
      ctx.check(s->held().size() > before.size(), "set", "initialize_tasks() adds no task");
      if (r.chance(0.7))
      {
        std::vector<void*> added;
        for (void* t : s->held())
          if (!before.count(t))
            added.push_back(t);
        wt.remove_tasks();
        ctx.check(s->held() == before, "set", "remove_tasks() does not leave the solver as it was before the walk tasks");
        for (void* t : added)
          ctx.check(!mem::is_live(t), "leak", "a walk task is still allocated after remove_tasks()");
      }
      if (solver_first)
        s.reset();
    }
    if (s)
      ctx.check(mem::is_live(&mine), "freed-too-early", "a task of the solver was freed with the walk tasks");
    ctx.hit("walk-tasks");
  }

  void pass(const Plan& plan, Ctx& ctx, bool count)
  {
    Rng c(plan.config);
    c.next();
    robot_->reset();
    robot_->update_kinematics();
    human_->reset();
    human_->update_kinematics();
    W w;
    make_solver(w, c);
    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      if (count)
        ctx.steps++;
      const std::string& k = ev.kind;
      std::string when = k;
      if (k == "add")
        add(w, ctx, r, false);
      else if (k == "user")
      {
        if (!w.loose.empty() && r.chance(0.4))
        {
          size_t i = r.range((int)w.loose.size());
          w.loose[i]->destroy();  // only the user frees it
          for (void* p : w.loose[i]->at)
            ctx.check(!mem::is_live(p), "harness", "a user object survives its deletion");
          w.loose.erase(w.loose.begin() + i);
          when = "deleting an object of the user";
        }
        else
          add(w, ctx, r, true);
      }
      else if (k == "solve")
      {
        if (ev.fault != "-")
          qp::arm(qp::fault_from(ev.fault), 1);
        try
        {
          if (w.ks)
            w.ks->solve(r.chance(0.5));
          else
            w.ds->solve(r.chance(0.3));
          ctx.hit("solved");
        }
        catch (std::exception&)
        {
          ctx.hit("solve-failed");
        }
        if (qp::disarm())
          ctx.fault(ev.fault);
        robot_->reset();
        robot_->update_kinematics();
      }
      else if (k == "remove" && !w.objs.empty())
        take_out(w, ctx, r.range((int)w.objs.size()));
      else if (k == "clear")
      {
        if (w.ks)
          w.ks->clear();
        else
          w.ds->clear();
        all_out(w, ctx, "clear()");
      }
      else if (k == "destroy")
      {
        w.ks.reset();
        w.ds.reset();
        all_out(w, ctx, "the destruction of the solver");
        for (auto& o : w.loose)
          alive(ctx, *o, "the destruction of the solver");
        make_solver(w, r);
        ctx.hit("solver-destroyed");
      }
      else if (k == "problem")
        problem(ctx, r, ev);
      else if (k == "walk")
        walk(ctx, r);
      check_all(w, ctx, when);
    }
    w.ks.reset();
    w.ds.reset();
    all_out(w, ctx, "the destruction of the solver");
    for (auto& o : w.loose)
    {
      alive(ctx, *o, "the destruction of the solver");
      o->destroy();
    }
    w.loose.clear();
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng c(plan.config);
    mem::begin(mem::random_env(c));
    pass(plan, ctx, true);
    pass(plan, ctx, false);  // (whatever is cached once is cached now)
    long blocks = mem::live();
    {
      Ctx scratch;
      pass(plan, scratch, false);
    }
    long left = mem::live() - blocks;
    ctx.checkf(left == 0, "leak", [&] { return fmt("%ld blocks more are allocated after the same history was run again and everything was destroyed", left); });
    if (const char* e = mem::error())
      ctx.check(false, "heap", e);
    ctx.mix((uint64_t)left);
    mem::end();
  }
};
SIM_SCENARIO("own", Own);
}  // namespace
