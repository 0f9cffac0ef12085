// A kinematics solver under simulation, along with the harness' own description of every task and constraint
// (targets, masks, weights, and their linearisation recomputed from pinocchio), used as the reference model.
#pragma once
#include "robots.h"
#include "refqp.h"
#include "placo/kinematics/kinematics_solver.h"
#include <functional>
#include <memory>

namespace kin
{
using namespace robots;
using placo::kinematics::KinematicsSolver;
using placo::kinematics::Task;
using placo::kinematics::Constraint;
using placo::model::RobotWrapper;
using placo::tools::AxisesMask;
using placo::tools::Prioritized;
using sim::Rng;

struct Mask
{
  std::string axes = "xyz";
  std::string frame = "task";
  Matrix3d R = Matrix3d::Identity();
  void apply(AxisesMask& m) const
  {
    m.set_axises(axes, frame);
    m.R_custom_world = R;
  }
  MatrixXd sel(const Matrix3d& R_local) const
  {
    MatrixXd S(axes.size(), 3);
    Matrix3d B = frame == "custom" ? R : (frame == "local" ? R_local : Matrix3d(Matrix3d::Identity()));
    for (size_t i = 0; i < axes.size(); i++)
      S.row(i) = B.row(axes[i] - 'x');
    return S;
  }
};

struct Block
{
  MatrixXd A;
  VectorXd b;
};

enum Prio
{
  HARD = 0,
  SOFT = 1,
  SCALED = 2
};

// Everything the user chose for one task; the same description can be installed in several solvers
struct TSpec
{
  std::string type;
  int fa = 0, fb = 0;
  Vector3d v = Vector3d::Zero(), v2 = Vector3d::Zero();
  Matrix3d R = Matrix3d::Identity();
  double d = 0;
  Mask mask, mask2;
  std::map<std::string, double> joints;
  std::vector<std::tuple<std::string, std::string, double>> gears;
  mutable std::map<const void*, std::map<std::string, std::map<std::string, double>>> pushed_gears;  // what each handle was last given
  std::string joint;
  bool omni = false;
  Affine3d surface = Affine3d::Identity();
  int mtype = 0;
  bool minimize = false;
  Prio prio = SOFT;
  double weight = 1, weight2 = 1;
  std::vector<Task*> h;  // handles in the solver under test (one, or two for frame tasks)
  std::map<std::string, double> jw;

  std::vector<Task*> install(KinematicsSolver& s) const;
  void push(std::vector<Task*>& h, RobotWrapper& robot, bool targets = true) const;  // (targets: or those given when it was added)  // write the current parameters in the handles
  void configure(std::vector<Task*>& h) const;
  // reference linearisation, one block for each handle
  std::vector<Block> lin(Ref& ref, double dt) const;
  // geometric error (norm), 0 when reached; < 0 when the task has no such notion
  double err(Ref& ref) const;
  bool regular(Ref& ref) const;  // the linearisation is well defined here
};

struct CSpec
{
  std::string type;
  int fa = 0, fb = 0;
  double d = 0, margin = 0;
  std::vector<Eigen::Vector2d> poly;
  bool dcm = false;
  double omega = 0;
  MatrixXd A;
  VectorXd b;
  Prio prio = HARD;
  double weight = 1;
  Constraint* h = nullptr;
  Constraint* install(KinematicsSolver& s) const;
  void configure(Constraint* c) const;
  bool lin(Ref& ref, double dt, Block& blk) const;  // A dq + b >= 0; false: no reference linearisation
  // >= 0: satisfied. Nonlinear evaluation, one value for each elementary constraint; prev is the previous state (DCM)
  std::vector<double> margins(Ref& ref, Ref* prev, double dt, const pinocchio::GeometryModel* geom = nullptr) const;
  double angle(Ref& ref) const;  // cone and yaw: the constrained angle
};

struct World
{
  RobotWrapper& robot;
  std::string name;
  std::unique_ptr<KinematicsSolver> solver;
  Ref ref;
  std::vector<std::unique_ptr<TSpec>> tasks;
  std::vector<std::unique_ptr<CSpec>> cons;
  std::set<std::string> masked;
  bool fbase_masked = false, jl = true, vl = false;
  std::vector<std::string> joints;
  std::vector<std::string> frames;

  World(RobotWrapper& r, const std::string& name);
  int frame(const std::string& f)
  {
    return ref.m.getFrameId(f);
  }
  void add(std::unique_ptr<TSpec> t);
  void add(std::unique_ptr<CSpec> c);
  void remove(size_t i);
  void remove_con(size_t i);
  void refresh()
  {
    ref.set(robot.state.q, robot.state.qd);
  }
  // the reference model of what solve() has to optimise, in the variables (dq, scale)
  refqp::Model model(bool& complete, bool& scaled);
  // same specification in a fresh solver
  std::unique_ptr<KinematicsSolver> twin();
  std::unique_ptr<TSpec> random_task(Rng& r, const std::vector<std::string>& types, double reach);
  void edit(TSpec& t, Rng& r);               // other parameters of an installed task: masks, gears, joints, weights
  void aim(TSpec& t, Rng& r, double reach);  // targets within a distance `reach` of the current pose
  void aim_at(TSpec& t, Ref& goal);          // targets reached at another configuration
  void limits(bool joint, bool velocity);
};
extern const std::vector<std::string> ALL_TASKS;
}  // namespace kin
