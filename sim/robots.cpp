#include "robots.h"
#include <fstream>
#include <sstream>

#ifndef VERIF_DIR
#define VERIF_DIR "/verif"
#endif

namespace robots
{
std::string urdf(const std::string& name)
{
  std::ifstream f(std::string(VERIF_DIR) + "/sim/models/" + name + ".urdf");
  std::stringstream ss;
  ss << f.rdbuf();
  if (ss.str().empty())
    throw std::runtime_error("simulator error: no model " + name);
  return ss.str();
}

placo::model::RobotWrapper* make(const std::string& name, int flags)
{
  return new placo::model::RobotWrapper("", flags, urdf(name));
}

const std::vector<std::string>& effectors(const std::string& name)
{
  static const std::vector<std::string> s = { "left_foot", "right_foot", "trunk" }, q = { "leg", "leg_2", "leg_3", "leg_4", "trunk" },
                                        a = { "tool", "tip", "base" };
  return name == "sigmaban" ? s : (name == "arm" ? a : q);
}

void Ref::set(const VectorXd& q_, const VectorXd& v_)
{
  q = q_;
  v = v_;
  pinocchio::forwardKinematics(m, d, q, v, VectorXd::Zero(m.nv));
  pinocchio::computeJointJacobians(m, d, q);
  pinocchio::updateFramePlacements(m, d);
}

MatrixXd Ref::jac(int f)
{
  pinocchio::Data::Matrix6x J(6, m.nv);
  J.setZero();
  pinocchio::getFrameJacobian(m, d, f, pinocchio::LOCAL_WORLD_ALIGNED, J);
  return J;
}

Matrix3d random_rot(sim::Rng& r, double angle)
{
  Vector3d ax = random_vec(r, 1.);
  return Eigen::AngleAxisd(r.uni(-angle, angle), ax.normalized()).toRotationMatrix();
}

Vector3d random_vec(sim::Rng& r, double norm)
{
  Vector3d v(r.gauss(), r.gauss(), r.gauss());
  if (v.norm() < 1e-6)
    v = Vector3d(1, 0, 0);
  return v.normalized() * norm;
}

VectorXd random_q(const pinocchio::Model& m, sim::Rng& r, double spread, double base_rot)
{
  VectorXd q = pinocchio::neutral(m);
  q[0] = r.uni(-1, 1);
  q[1] = r.uni(-1, 1);
  q[2] = r.uni(0, 1);
  Eigen::Quaterniond quat(random_rot(r, base_rot));
  q[3] = quat.x();
  q[4] = quat.y();
  q[5] = quat.z();
  q[6] = quat.w();
  for (int k = 7; k < m.nq; k++)
  {
    double lo = std::max(m.lowerPositionLimit[k], -1.2), hi = std::min(m.upperPositionLimit[k], 1.2);
    double mid = (lo + hi) / 2, half = (hi - lo) / 2;
    q[k] = mid + half * spread * r.uni(-1, 1);
  }
  return q;
}
}  // namespace robots
