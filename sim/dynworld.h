// A dynamics solver under simulation, with the harness' own description of every task, contact and option.
#pragma once
#include "robots.h"
#include "refqp.h"
#include "placo/dynamics/dynamics_solver.h"
#include "placo/problem/qp_error.h"
#include <memory>

namespace dyn
{
using namespace robots;
using namespace placo::dynamics;
using placo::model::RobotWrapper;
using sim::Rng;

struct TSpec
{
  std::string type;  // position orientation rel_position rel_orientation com joints torque gear
  int fa = 0, fb = 0;
  Vector3d v = Vector3d::Zero(), dv = Vector3d::Zero(), ddv = Vector3d::Zero();
  Matrix3d R = Matrix3d::Identity();
  std::string axes = "xyz";
  std::map<std::string, Vector3d> joints;  // target, velocity, acceleration -- or torque, 0, kd
  std::map<std::string, std::map<std::string, double>> gears;
  mutable std::map<const void*, std::map<std::string, std::map<std::string, double>>> pushed_gears;  // what each handle was last given
  double kp = 1000, kd = -1;
  bool hard = false;
  double weight = 1;
  Task* h = nullptr;
  int users = 0;  // contacts that use this task

  Task* install(DynamicsSolver& s) const;
  void push(Task* h, DynamicsSolver& s, bool targets = true) const;  // (targets: or those given when it was added)
  bool tau() const
  {
    return type == "torque";
  }
  // reference: A qdd (or A tau) = b. false: no exact reference for this task
  bool lin(Ref& ref, MatrixXd& A, VectorXd& b) const;
  double err(Ref& ref) const;  // norm of the position error
};

struct CSpec
{
  std::string type;  // point upoint fixed planar ext puppet task line uline
  TSpec *t1 = nullptr, *t2 = nullptr;
  bool active = true;
  double mu = 1, wf = 0, wt = 0, wm = 0, length = 0.1, width = 0.1;
  Matrix3d R = Matrix3d::Identity();
  int frame = 0;
  bool local = false;
  VectorXd w_ext = VectorXd::Zero(6);
  Contact* h = nullptr;
  std::unique_ptr<FrameTask> ft;

  Contact* install(DynamicsSolver& s, Task* h1, Task* h2) const;
  void push(Contact* c) const;
  MatrixXd J(Ref& ref) const;
  // rows on this contact's own variables (offset k in n variables)
  void rows(refqp::Model& m, int k, int size, int n) const;
  std::string admissible(const VectorXd& w) const;  // "" or what is wrong with this wrench
};

struct World
{
  RobotWrapper& robot;
  std::string name;
  std::unique_ptr<DynamicsSolver> solver;
  Ref ref;
  std::vector<std::unique_ptr<TSpec>> tasks;
  std::vector<std::unique_ptr<CSpec>> contacts;
  bool fbase_masked = false, jl = false, vl = false, tl = false, vtl = false, gravity_only = false;
  double dt = 0, damping = 0, torque_cost = 1e-3;
  VectorXd extra;
  std::map<std::string, double> tlim, qsafe;
  std::vector<std::string> joints, frames;

  World(RobotWrapper& r, const std::string& name);
  TSpec* add(std::unique_ptr<TSpec> t);
  void remove(size_t i);
  void add_contact(std::unique_ptr<CSpec> c);
  void remove_contact(size_t i);
  void options(DynamicsSolver& s) const;  // write the options in a solver
  void refresh()
  {
    ref.set(robot.state.q, robot.state.qd);
  }
  MatrixXd M();
  VectorXd bias();  // everything in tau = M qdd + bias - J^T f
  double effort(int k, bool overridden) const;
  double qdd_safe(int k) const;
  // reference QP in x = [qdd, f_1, f_2, ...] (active contacts in order)
  refqp::Model model(bool& complete);
  std::unique_ptr<DynamicsSolver> twin(std::vector<Task*>& th, std::vector<Contact*>& ch);
  std::unique_ptr<TSpec> random_task(Rng& r, const std::vector<std::string>& types, double reach);
  void aim(TSpec& t, Rng& r, double reach);
  void aim_at(TSpec& t, Ref& goal);
};
}  // namespace dyn
