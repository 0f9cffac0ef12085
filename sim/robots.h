// The simulated robots (models/*.urdf) and a reference view of a robot computed by the harness from pinocchio only.
#pragma once
#include "core.h"
#include "placo/model/robot_wrapper.h"
#include "pinocchio/algorithm/center-of-mass.hpp"
#include "pinocchio/algorithm/centroidal.hpp"
#include "pinocchio/algorithm/crba.hpp"
#include "pinocchio/algorithm/rnea.hpp"
#include "pinocchio/algorithm/jacobian.hpp"
#include "pinocchio/algorithm/frames.hpp"
#include "pinocchio/algorithm/joint-configuration.hpp"
#include "pinocchio/spatial/explog.hpp"
#include <Eigen/Dense>

namespace robots
{
using Eigen::Affine3d;
using Eigen::Matrix3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;

std::string urdf(const std::string& name);  // text of models/<name>.urdf
placo::model::RobotWrapper* make(const std::string& name, int flags = 0);
// end effectors: frames at the end of distinct chains
const std::vector<std::string>& effectors(const std::string& name);

// Independent view: same model, own data
struct Ref
{
  pinocchio::Model m;
  pinocchio::Data d;
  VectorXd q, v;
  explicit Ref(const pinocchio::Model& model) : m(model), d(m)
  {
  }
  int nv() const
  {
    return m.nv;
  }
  void set(const VectorXd& q_, const VectorXd& v_);
  void set(const VectorXd& q_)
  {
    set(q_, VectorXd::Zero(m.nv));
  }
  Vector3d pos(int f) const
  {
    return d.oMf[f].translation();
  }
  Matrix3d rot(int f) const
  {
    return d.oMf[f].rotation();
  }
  MatrixXd jac(int f);  // 6 x nv, at the frame's origin, in world axes
  MatrixXd jlin(int f)
  {
    return jac(f).topRows(3);
  }
  MatrixXd jang(int f)
  {
    return jac(f).bottomRows(3);
  }
  Vector3d com()
  {
    return pinocchio::centerOfMass(m, d, q);
  }
  MatrixXd jcom()
  {
    return pinocchio::jacobianCenterOfMass(m, d, q);
  }
};

// A configuration inside the joint limits (scaled around their middle), with the base at a random pose
VectorXd random_q(const pinocchio::Model& m, sim::Rng& r, double spread = 0.8, double base_rot = 0.5);
Matrix3d random_rot(sim::Rng& r, double angle);
Vector3d random_vec(sim::Rng& r, double norm);
}  // namespace robots
