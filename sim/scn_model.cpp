// P19, P26: the robot model under arbitrary histories of edits and queries.
//  model_query: every query answers for the current state, whatever was asked or edited before, and asking changes nothing.
//  model_edit : setters, placements, integration and noise change exactly what they say; unknown names are refused.
// Faults: garbage measurements (NaN, huge values) entering the state until it is rewritten, queries asked while the kinematics
// is out of date (answers ignored, no lasting effect), unknown names, seeded memory contents and rand().
#include "core.h"
#include "robots.h"
#include "pinocchio/algorithm/kinematics.hpp"
#include "pinocchio/algorithm/geometry.hpp"
#include "pinocchio/collision/collision.hpp"
#include "pinocchio/collision/distance.hpp"
#include <memory>

using namespace sim;
using placo::model::RobotWrapper;
using robots::Affine3d;
using robots::Matrix3d;
using robots::MatrixXd;
using robots::Vector3d;
using robots::VectorXd;
using pinocchio::SE3;

namespace
{
static Affine3d aff(const SE3& M)
{
  Affine3d T = Affine3d::Identity();
  T.linear() = M.rotation();
  T.translation() = M.translation();
  return T;
}
static SE3 se3(const Affine3d& T)
{
  return SE3(T.linear(), T.translation());
}
static double amax(const MatrixXd& m)
{
  if (m.size() == 0)
    return 0;
  double d = m.cwiseAbs().maxCoeff();
  return m.allFinite() ? d : 1e300;
}
static double diff(const MatrixXd& a, const MatrixXd& b)
{
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return 1e300;
  return amax(a - b);
}
static bool same(const VectorXd& a, const VectorXd& b)
{
  if (a.size() != b.size())
    return false;
  for (int i = 0; i < a.size(); i++)
    if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))))
      return false;
  return true;
}

struct Model : Scenario
{
  const bool editing;
  explicit Model(bool editing) : editing(editing)
  {
  }
  std::vector<std::string> names = { "arm", "sigmaban", "quadruped" };
  std::vector<RobotWrapper*> robots_;
  void setup() override
  {
    for (auto& n : names)
    {
      std::string u = robots::urdf(n);
      if (n == "arm")
      {  // one wheel without limits: what the library treats as an unlimited joint
        std::string a = "lower=\"-1000\" upper=\"1000\"";
        size_t k = u.find(a);
        if (k == std::string::npos)
          throw std::runtime_error("simulator error: arm model changed");
        u.replace(k, a.size(), "lower=\"0\" upper=\"0\"");
      }
      robots_.push_back(new RobotWrapper("", RobotWrapper::COLLISION_AS_VISUAL | RobotWrapper::IGNORE_COLLISIONS, u));
    }
  }
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> kinds = { "joint", "state", "fbase", "setframe", "integrate", "reset", "noise", "limits", "inertia", "gravity",
                                       "update", "frames", "jac", "djac", "hess", "com", "dyn", "static", "fixed", "coll", "names", "bad" };
    std::vector<double> w;
    if (editing)
      w = { 4, 2, 2, 3, 2, 0.6, 1.2, 3, 1, 0.5, 3, 1, 0.4, 0.2, 0.1, 0.3, 0.3, 0.1, 0.1, 0.2, 1, 1.5 };
    else
      w = { 2, 1.5, 1, 1, 1, 0.4, 0.3, 0.3, 1, 1, 4, 3, 4, 3, 1.5, 2, 3, 1, 1.5, 1.5, 0.2, 0.3 };
    for (auto& x : w)
      if (r.chance(0.3))
        x *= 0.2;
    int n = r.between(5, thorough ? 60 : 28);
    double pf = r.chance(0.5) ? 0.3 : 0, prompt = r.pick(std::vector<double>{ 0, 0.5, 0.9 });
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted(w)];
      e.sub = r.next();
      if (r.chance(pf) && (e.kind == "joint" || e.kind == "state"))
        e.fault = r.pick(std::vector<std::string>{ "nan-reading", "huge-reading" });
      bool edit = e.kind == "joint" || e.kind == "state" || e.kind == "fbase" || e.kind == "setframe" || e.kind == "integrate" || e.kind == "reset" || e.kind == "noise";
      p.ev.push_back(e);
      if (edit && r.chance(prompt))
      {
        Event u;
        u.kind = "update";
        p.ev.push_back(u);
      }
    }
    return p;
  }

  struct W
  {
    RobotWrapper* robot;
    pinocchio::Model m;  // expected model (limits, inertias, gravity as edited)
    VectorXd q, qd, qdd;
    bool fresh = true, garbage = false;
    std::vector<int> frames;
    std::unique_ptr<robots::Ref> ref;
    robots::Ref& at()
    {
      ref->m.gravity = m.gravity;
      ref->set(q, qd);
      return *ref;
    }
  };

  // what the harness expects against what the robot holds
  void compare(W& w, Ctx& ctx, const std::string& when, double tol = 0)
  {
    RobotWrapper& b = *w.robot;
    bool ok = tol == 0 ? same(b.state.q, w.q) : b.state.q.size() == w.q.size();
    if (tol > 0 && ok)
    {
      Eigen::Vector4d a = b.state.q.segment(3, 4), c = w.q.segment(3, 4);
      double e = std::min((a - c).norm(), (a + c).norm());
      e = std::max(e, amax(b.state.q.head(3) - w.q.head(3)));
      e = std::max(e, amax(b.state.q.tail(w.q.size() - 7) - w.q.tail(w.q.size() - 7)));
      ok = e < tol;
    }
    ctx.check(ok, "configuration", "after " + when + " the configuration is not the expected one");
    ctx.check(same(b.state.qd, w.qd), "velocity", "after " + when + " the velocity is not the expected one");
    ctx.check(same(b.state.qdd, w.qdd), "acceleration", "after " + when + " the acceleration is not the expected one");
    ctx.check(same(b.model.lowerPositionLimit, w.m.lowerPositionLimit) && same(b.model.upperPositionLimit, w.m.upperPositionLimit), "limits",
              "after " + when + " the position limits are not the expected ones");
    ctx.check(same(b.model.velocityLimit, w.m.velocityLimit), "limits", "after " + when + " the velocity limits are not the expected ones");
    ctx.check(same(b.model.effortLimit, w.m.effortLimit), "limits", "after " + when + " the torque limits are not the expected ones");
    ctx.check(same(b.model.rotorInertia, w.m.rotorInertia) && same(b.model.rotorGearRatio, w.m.rotorGearRatio), "inertia",
              "after " + when + " the rotor inertias or gear ratios are not the expected ones");
    ctx.check(same(b.model.gravity.linear(), w.m.gravity.linear()) && amax(b.model.gravity.angular()) == 0, "gravity",
              "after " + when + " the gravity is not the expected one");
    w.q = b.state.q;
    ctx.mixv(b.state.q);
    ctx.mixv(b.state.qd);
  }

  struct Joint
  {
    std::string name;
    int q, v;
  };
  Joint joint(W& w, Rng& r)
  {
    int j = r.between(2, w.m.njoints - 1);
    return { w.m.names[j], w.m.joints[j].idx_q(), w.m.joints[j].idx_v() };
  }
  int frame(W& w, Rng& r)
  {
    return r.pick(w.frames);
  }
  static Affine3d rand_T(Rng& r)
  {
    Affine3d T = Affine3d::Identity();
    T.linear() = robots::random_rot(r, 3.1);
    T.translation() = robots::random_vec(r, r.uni(0, 2));
    return T;
  }
  static pinocchio::ReferenceFrame ref_of(Rng& r, std::string& name)
  {
    int k = r.range(3);
    name = k == 0 ? "local" : (k == 1 ? "world" : "local_world_aligned");
    return k == 0 ? pinocchio::LOCAL : (k == 1 ? pinocchio::WORLD : pinocchio::LOCAL_WORLD_ALIGNED);
  }
  // the Jacobian of a placement, column by column: the twist produced by each unit velocity
  static MatrixXd twists(robots::Ref& f, std::function<SE3(pinocchio::Data&)> place, int parent, pinocchio::ReferenceFrame rf)
  {
    MatrixXd J(6, f.m.nv);
    pinocchio::Data d(f.m);
    for (int k = 0; k < f.m.nv; k++)
    {
      VectorXd e = VectorXd::Zero(f.m.nv);
      e[k] = 1;
      pinocchio::forwardKinematics(f.m, d, f.q, e);
      pinocchio::Motion world = d.oMi[parent].act(d.v[parent]);  // velocity of the body, at the origin of the world
      SE3 P = place(d);
      if (rf == pinocchio::WORLD)
        J.col(k) = world.toVector();
      else if (rf == pinocchio::LOCAL)
        J.col(k) = P.actInv(world).toVector();
      else
        J.col(k) = SE3(Matrix3d::Identity(), P.translation()).actInv(world).toVector();
    }
    return J;
  }
  static MatrixXd frame_jac(robots::Ref& f, int fr, pinocchio::ReferenceFrame rf)
  {
    int parent = (int)f.m.frames[fr].parentJoint;
    return twists(f, [&](pinocchio::Data& d) { return d.oMi[parent] * f.m.frames[fr].placement; }, parent, rf);
  }
  static MatrixXd joint_jac(robots::Ref& f, int j, pinocchio::ReferenceFrame rf)
  {
    return twists(f, [&](pinocchio::Data& d) { return d.oMi[j]; }, j, rf);
  }
  // derivative of a function of the configuration along a velocity
  static MatrixXd along(W& w, const VectorXd& dir, std::function<MatrixXd(robots::Ref&)> fn, double h = 1e-5)
  {
    robots::Ref& f = *w.ref;
    f.set(pinocchio::integrate(f.m, w.q, VectorXd(dir * h)), w.qd);
    MatrixXd a = fn(f);
    f.set(pinocchio::integrate(f.m, w.q, VectorXd(-dir * h)), w.qd);
    MatrixXd b = fn(f);
    f.set(w.q, w.qd);
    return (a - b) / (2 * h);
  }
  static Vector3d com_of(robots::Ref& f)
  {
    Vector3d s = Vector3d::Zero();
    double mass = 0;
    for (int j = 1; j < f.m.njoints; j++)
    {
      s += f.m.inertias[j].mass() * f.d.oMi[j].act(f.m.inertias[j].lever());
      mass += f.m.inertias[j].mass();
    }
    return s / mass;
  }
  static MatrixXd mass_of(W& w, robots::Ref& f)
  {
    pinocchio::Data d(f.m);
    VectorXd z = VectorXd::Zero(f.m.nv);
    VectorXd g0 = pinocchio::rnea(f.m, d, f.q, z, z);
    MatrixXd M(f.m.nv, f.m.nv);
    VectorXd rot = w.m.rotorInertia.cwiseProduct(w.m.rotorGearRatio).cwiseProduct(w.m.rotorGearRatio);
    for (int k = 0; k < f.m.nv; k++)
    {
      VectorXd e = z;
      e[k] = 1;
      M.col(k) = pinocchio::rnea(f.m, d, f.q, z, e) - g0;
    }
    // (this version of pinocchio may count armature, not rotor inertias, in rnea)
    M.diagonal() += rot;
    return M;
  }
  void near(Ctx& ctx, const char* cls, const std::string& what, const MatrixXd& got, const MatrixXd& want, double tol)
  {
    double e = diff(got, want), s = 1 + (want.size() ? amax(want) : 0);
    ctx.checkf(e <= tol * s, cls, [&] {
      return what + fmt(" is %.3g away from what the current state gives (%dx%d against %dx%d)", e, (int)got.rows(), (int)got.cols(), (int)want.rows(),
                        (int)want.cols());
    });
    ctx.mix((uint64_t)std::llround(std::min(1e12, amax(got)) * 1e3));
  }

  void q_frames(W& w, Ctx& ctx, Rng& r, bool judge)
  {
    RobotWrapper& b = *w.robot;
    int n = r.between(1, 4);
    for (int i = 0; i < n; i++)
    {
      int fa = frame(w, r), fb = frame(w, r);
      bool byname = r.chance(0.5);
      std::string na = w.m.frames[fa].name, nb = w.m.frames[fb].name;
      Affine3d Ta = byname ? b.get_T_world_frame(na) : b.get_T_world_frame((RobotWrapper::FrameIndex)fa);
      Affine3d Tab = byname ? b.get_T_a_b(na, nb) : b.get_T_a_b((RobotWrapper::FrameIndex)fa, (RobotWrapper::FrameIndex)fb);
      Affine3d Tf = b.get_T_world_fbase();
      if (!judge)
        continue;
      robots::Ref& f = w.at();
      Affine3d Ra = aff(f.d.oMi[w.m.frames[fa].parentJoint] * w.m.frames[fa].placement);
      Affine3d Rb = aff(f.d.oMi[w.m.frames[fb].parentJoint] * w.m.frames[fb].placement);
      near(ctx, "frame", "the placement of " + na, Ta.matrix(), Ra.matrix(), 1e-9);
      near(ctx, "frame", "the placement of " + nb + " in " + na, Tab.matrix(), (Ra.inverse() * Rb).matrix(), 1e-9);
      near(ctx, "frame", "the placement of the floating base", Tf.matrix(), aff(f.d.oMi[1]).matrix(), 1e-9);
    }
  }
  void q_jac(W& w, Ctx& ctx, Rng& r, bool judge, bool variation)
  {
    RobotWrapper& b = *w.robot;
    int fr = frame(w, r), fb = frame(w, r), j = r.between(1, w.m.njoints - 1);
    std::string rn, fname = w.m.frames[fr].name, jname = w.m.names[j];
    auto rf = ref_of(r, rn);
    int which = r.range(variation ? 2 : 3);
    bool byname = r.chance(0.5), dflt = byname && rf == pinocchio::LOCAL_WORLD_ALIGNED && r.chance(0.5);
    MatrixXd got, want;
    std::string what;
    if (which == 0)
    {
      if (!variation)
        got = dflt ? b.frame_jacobian(fname) : byname ? b.frame_jacobian(fname, rn) : b.frame_jacobian((RobotWrapper::FrameIndex)fr, rf);
      else
        got = dflt ? b.frame_jacobian_time_variation(fname) : byname ? b.frame_jacobian_time_variation(fname, rn)
                                                                     : b.frame_jacobian_time_variation((RobotWrapper::FrameIndex)fr, rf);
      what = "the " + rn + " Jacobian of frame " + fname;
    }
    else if (which == 1)
    {
      if (!variation)
        got = dflt ? b.joint_jacobian(jname) : byname ? b.joint_jacobian(jname, rn) : b.joint_jacobian((pinocchio::JointIndex)j, rf);
      else
        got = dflt ? b.joint_jacobian_time_variation(jname) : byname ? b.joint_jacobian_time_variation(jname, rn)
                                                                     : b.joint_jacobian_time_variation((pinocchio::JointIndex)j, rf);
      what = "the " + rn + " Jacobian of joint " + jname;
    }
    else
    {
      std::string nb = w.m.frames[fb].name;
      got = byname ? b.relative_position_jacobian(fname, nb) : b.relative_position_jacobian((RobotWrapper::FrameIndex)fr, (RobotWrapper::FrameIndex)fb);
      what = "the Jacobian of the position of " + nb + " in " + fname;
    }
    if (!judge)
      return;
    robots::Ref& f = w.at();
    if (which == 2)
    {
      want = MatrixXd(3, w.m.nv);
      for (int k = 0; k < w.m.nv; k++)
      {
        VectorXd e = VectorXd::Zero(w.m.nv);
        e[k] = 1;
        want.col(k) = along(w, e, [&](robots::Ref& g) -> MatrixXd {
          SE3 A = g.d.oMi[g.m.frames[fr].parentJoint] * g.m.frames[fr].placement, B = g.d.oMi[g.m.frames[fb].parentJoint] * g.m.frames[fb].placement;
          return A.actInv(B.translation());
        });
      }
      near(ctx, "relative-jacobian", what, got, want, 1e-7);
    }
    else
    {
      auto jac = [&](robots::Ref& g) { return which == 0 ? frame_jac(g, fr, rf) : joint_jac(g, j, rf); };
      if (!variation)
        near(ctx, "jacobian", what, got, jac(f), 1e-8);
      else
      {
        near(ctx, "jacobian-variation", "the time variation of " + what, got, along(w, w.qd, jac), 1e-6);
        if (w.qd.norm() > 0.1)
          ctx.hit("moving");
      }
    }
  }
  void q_hess(W& w, Ctx& ctx, Rng& r, bool judge)
  {
    RobotWrapper& b = *w.robot;
    b.compute_hessians();
    int n = r.between(1, 3);
    for (int i = 0; i < n; i++)
    {
      int fr = frame(w, r), k = r.range(w.m.nv);
      MatrixXd got = b.get_frame_hessian((RobotWrapper::FrameIndex)fr, k);
      if (!judge)
        continue;
      VectorXd e = VectorXd::Zero(w.m.nv);
      e[k] = 1;
      MatrixXd want = along(w, e, [&](robots::Ref& g) { return frame_jac(g, fr, pinocchio::LOCAL); });
      near(ctx, "hessian", fmt("the derivative of the Jacobian of %s along degree of freedom %d", w.m.frames[fr].name.c_str(), k), got, want, 1e-6);
    }
  }
  void q_com(W& w, Ctx& ctx, Rng& r, bool judge)
  {
    RobotWrapper& b = *w.robot;
    int which = r.range(5);
    MatrixXd got;
    if (which == 0)
      got = b.com_world();
    else if (which == 1)
      got = b.com_jacobian();
    else if (which == 2)
      got = b.com_jacobian_time_variation();
    else if (which == 3)
      got = b.centroidal_map();
    else
      got = MatrixXd::Constant(1, 1, b.total_mass());
    if (!judge)
      return;
    robots::Ref& f = w.at();
    double mass = 0;
    for (int j = 1; j < f.m.njoints; j++)
      mass += f.m.inertias[j].mass();
    auto jcom = [&](robots::Ref& g) {
      MatrixXd J = MatrixXd::Zero(3, g.m.nv);
      for (int j = 1; j < g.m.njoints; j++)
      {
        Vector3d c = g.m.inertias[j].lever();
        J += g.m.inertias[j].mass() / mass *
             twists(g, [&](pinocchio::Data& d) { return d.oMi[j] * SE3(Matrix3d::Identity(), c); }, j, pinocchio::LOCAL_WORLD_ALIGNED).topRows(3);
      }
      return J;
    };
    if (which == 0)
      near(ctx, "com", "the center of mass", got, com_of(f), 1e-9);
    else if (which == 1)
      near(ctx, "com-jacobian", "the Jacobian of the center of mass", got, jcom(f), 1e-8);
    else if (which == 2)
      near(ctx, "com-jacobian-variation", "the time variation of the Jacobian of the center of mass", got,
           along(w, w.qd, [&](robots::Ref& g) -> MatrixXd { return g.jcom(); }), 1e-6);
    else if (which == 3)
    {  // momentum of the bodies about the center of mass, by their own velocities
      Vector3d c = com_of(f);
      MatrixXd A(6, f.m.nv);
      pinocchio::Data d(f.m);
      for (int k = 0; k < f.m.nv; k++)
      {
        VectorXd e = VectorXd::Zero(f.m.nv);
        e[k] = 1;
        pinocchio::forwardKinematics(f.m, d, f.q, e);
        pinocchio::Force h = pinocchio::Force::Zero();
        for (int j = 1; j < f.m.njoints; j++)
          h += d.oMi[j].act(f.m.inertias[j] * d.v[j]);
        A.col(k) = SE3(Matrix3d::Identity(), c).actInv(h).toVector();
      }
      near(ctx, "centroidal", "the centroidal map", got, A, 1e-8);
    }
    else
      near(ctx, "mass", "the total mass", got, MatrixXd::Constant(1, 1, mass), 1e-12);
  }
  void q_dyn(W& w, Ctx& ctx, Rng& r, bool judge)
  {
    RobotWrapper& b = *w.robot;
    int which = r.range(3);
    MatrixXd got = which == 0 ? b.mass_matrix() : which == 1 ? MatrixXd(b.generalized_gravity()) : MatrixXd(b.non_linear_effects());
    if (!judge)
      return;
    robots::Ref& f = w.at();
    pinocchio::Data d(f.m);
    VectorXd z = VectorXd::Zero(f.m.nv);
    if (which == 0)
      near(ctx, "mass-matrix", "the mass matrix", got, mass_of(w, f), 1e-8);
    else if (which == 1)
      near(ctx, "gravity-effect", "the generalized gravity", got, pinocchio::rnea(f.m, d, f.q, z, z), 1e-8);
    else
      near(ctx, "non-linear", "the non linear effects", got, pinocchio::rnea(f.m, d, f.q, w.qd, z), 1e-8);
  }
  void q_static(W& w, Ctx& ctx, Rng& r, bool judge)
  {
    RobotWrapper& b = *w.robot;
    int fr = frame(w, r);
    VectorXd tau = r.chance(0.5) ? b.static_gravity_compensation_torques((RobotWrapper::FrameIndex)fr) :
                                   b.static_gravity_compensation_torques(w.m.frames[fr].name);
    if (!judge)
      return;
    robots::Ref& f = w.at();
    pinocchio::Data d(f.m);
    VectorXd z = VectorXd::Zero(f.m.nv), g = pinocchio::rnea(f.m, d, f.q, z, z);
    MatrixXd J = frame_jac(f, fr, pinocchio::LOCAL_WORLD_ALIGNED);
    VectorXd wrench = J.leftCols(6).transpose().fullPivLu().solve(g.head(6));
    near(ctx, "static", "the torque holding the robot on " + w.m.frames[fr].name, tau, g - J.transpose() * wrench, 1e-7);
  }
  void q_fixed(W& w, Ctx& ctx, Rng& r, bool judge)
  {
    RobotWrapper& b = *w.robot;
    int fr = frame(w, r);
    VectorXd qa(w.m.nv - 6);
    for (int k = 0; k < qa.size(); k++)
      qa[k] = r.uni(-3, 3);
    VectorXd tau = r.chance(0.5) ? b.torques_from_acceleration_with_fixed_frame(qa, (RobotWrapper::FrameIndex)fr) :
                                   b.torques_from_acceleration_with_fixed_frame(qa, w.m.frames[fr].name);
    if (!judge)
      return;
    robots::Ref& f = w.at();
    pinocchio::Data d(f.m);
    VectorXd z = VectorXd::Zero(f.m.nv), h = pinocchio::rnea(f.m, d, f.q, w.qd, z);
    MatrixXd J = frame_jac(f, fr, pinocchio::LOCAL_WORLD_ALIGNED);
    MatrixXd dJ = along(w, w.qd, [&](robots::Ref& g) { return frame_jac(g, fr, pinocchio::LOCAL_WORLD_ALIGNED); });
    MatrixXd M = mass_of(w, f);
    VectorXd qdd(w.m.nv);
    qdd.tail(w.m.nv - 6) = qa;
    qdd.head(6) = -J.leftCols(6).fullPivLu().solve(dJ * w.qd + J.rightCols(w.m.nv - 6) * qa);
    VectorXd t = M * qdd + h;
    VectorXd wrench = J.leftCols(6).transpose().fullPivLu().solve(t.head(6));
    near(ctx, "fixed-frame", "the torque accelerating the joints while " + w.m.frames[fr].name + " is fixed", tau,
         (t - J.transpose() * wrench).tail(w.m.nv - 6), 1e-5);
  }
  void q_coll(W& w, Ctx& ctx, Rng& r, bool judge)
  {
    RobotWrapper& b = *w.robot;
    bool dist = r.chance(0.5), first = r.chance(0.3);
    std::vector<RobotWrapper::Collision> cs;
    std::vector<RobotWrapper::Distance> ds;
    if (dist)
      ds = b.distances();
    else
      cs = b.self_collisions(first);
    if (!judge)
      return;
    robots::Ref& f = w.at();
    auto& G = b.collision_model;
    pinocchio::GeometryData gd(G);
    pinocchio::updateGeometryPlacements(f.m, f.d, G, gd);
    size_t n = G.collisionPairs.size(), at = 0;
    if (dist)
      ctx.checkf(ds.size() == n, "distances", [&] { return fmt("%zu distances for %zu pairs", ds.size(), n); });
    for (size_t k = 0; k < n; k++)
    {
      auto& cp = G.collisionPairs[k];
      double md = pinocchio::computeDistance(G, gd, k).min_distance;
      if (dist)
      {
        ctx.check(ds[k].objA == (int)cp.first && ds[k].objB == (int)cp.second && ds[k].parentA == G.geometryObjects[cp.first].parentJoint &&
                      ds[k].parentB == G.geometryObjects[cp.second].parentJoint,
                  "distances", "a distance is attributed to other bodies than its own");
        // the distance itself, and points that realise it on the two bodies
        ctx.checkf(std::fabs(ds[k].min_distance - md) < 1e-5, "distances",
                   [&] { return fmt("the distance of pair %zu is %.6g, it should be %.6g", k, ds[k].min_distance, md); });
        double pd = (ds[k].pointA - ds[k].pointB).norm();
        ctx.checkf(std::fabs(pd - std::fabs(md)) < 1e-4, "distances", [&] { return fmt("the witness points of pair %zu are %.6g apart, the distance is %.6g", k, pd, md); });
        if (md > 1e-4)
        {
          Vector3d u = (ds[k].pointB - ds[k].pointA).normalized();
          Vector3d ca = gd.oMg[cp.first].translation(), cb = gd.oMg[cp.second].translation();
          (void)u;
          auto on = [&](size_t g, const Vector3d& p) {
            auto& go = G.geometryObjects[g];
            go.geometry->computeLocalAABB();
            Vector3d l = gd.oMg[g].actInv(p);
            double R = go.geometry->aabb_radius + 1e-3;
            return (l - go.geometry->aabb_center).norm() <= R;
          };
          ctx.check(on(cp.first, ds[k].pointA) && on(cp.second, ds[k].pointB), "distances", "a witness point is not on its body");
        }
        ctx.hit("distance");
      }
      else
      {
        bool c = pinocchio::computeCollision(G, gd, k);
        if (std::fabs(md) < 1e-6)
        {  // grazing: either answer
          if (at < cs.size() && cs[at].objA == (int)cp.first && cs[at].objB == (int)cp.second)
            at++;
          continue;
        }
        if (!c)
          continue;
        if (first && at == 1)
          continue;
        ctx.check(at < cs.size(), "collisions", fmt("pair %zu collides and is not reported", k));
        ctx.check(cs[at].objA == (int)cp.first && cs[at].objB == (int)cp.second && cs[at].bodyA == G.geometryObjects[cp.first].name &&
                      cs[at].bodyB == G.geometryObjects[cp.second].name && cs[at].parentA == G.geometryObjects[cp.first].parentJoint &&
                      cs[at].parentB == G.geometryObjects[cp.second].parentJoint && !cs[at].contacts.empty(),
                  "collisions", "a collision is attributed to other bodies than its own");
        ctx.hit("collision");
        at++;
      }
    }
    if (!dist)
      ctx.checkf(at == cs.size(), "collisions", [&] { return fmt("%zu collisions reported, %zu expected", cs.size(), at); });
  }
  void q_names(W& w, Ctx& ctx)
  {
    RobotWrapper& b = *w.robot;
    std::vector<std::string> want(w.m.names.begin() + 2, w.m.names.end()), all(w.m.names.begin(), w.m.names.end());
    ctx.check(b.joint_names() == want, "names", "joint_names() does not list the joints of the robot in their order");
    ctx.check(b.joint_names(true) == all, "names", "joint_names(true) does not list the joints and the base");
    std::vector<std::string> fn;
    for (auto& f : w.m.frames)
      fn.push_back(f.name);
    ctx.check(b.frame_names() == fn, "names", "frame_names() does not list the frames");
    for (size_t j = 2; j < w.m.names.size(); j++)
    {
      auto& jm = w.m.joints[j];
      ctx.check(b.get_joint_offset(w.m.names[j]) == jm.idx_q() && b.get_joint_v_offset(w.m.names[j]) == jm.idx_v() &&
                    b.get_joint_size(w.m.names[j]) == jm.nq() && b.get_joint_v_size(w.m.names[j]) == jm.nv(),
                "names", "the offsets or sizes of joint " + w.m.names[j] + " are wrong");
    }
    auto s = b.neutral_state();
    VectorXd z = VectorXd::Zero(w.m.nv);
    ctx.check(same(s.q, pinocchio::neutral(w.m)) && same(s.qd, z) && same(s.qdd, z), "names", "neutral_state() is not the neutral state");
  }
  void bad(W& w, Ctx& ctx, Rng& r)
  {
    RobotWrapper& b = *w.robot;
    std::vector<std::string> names = { "", "nope", "left", "universe ", w.m.names.back() + "x" };
    std::string n = r.pick(names);
    while (w.m.existJointName(n) || w.m.existFrame(n))
      n += "_";
    std::string j = w.m.names.back(), f = w.m.frames[w.frames[0]].name;
    VectorXd qa = VectorXd::Zero(w.m.nv - 6);
    std::vector<std::pair<std::string, std::function<void()>>> calls = {
      { "set_joint", [&] { b.set_joint(n, 0.3); } },
      { "get_joint", [&] { b.get_joint(n); } },
      { "set_joint_velocity", [&] { b.set_joint_velocity(n, 0.3); } },
      { "get_joint_velocity", [&] { b.get_joint_velocity(n); } },
      { "set_joint_acceleration", [&] { b.set_joint_acceleration(n, 0.3); } },
      { "get_joint_acceleration", [&] { b.get_joint_acceleration(n); } },
      { "get_joint_offset", [&] { b.get_joint_offset(n); } },
      { "get_joint_size", [&] { b.get_joint_size(n); } },
      { "get_joint_v_offset", [&] { b.get_joint_v_offset(n); } },
      { "get_joint_v_size", [&] { b.get_joint_v_size(n); } },
      { "set_joint_limits", [&] { b.set_joint_limits(n, -1, 1); } },
      { "get_joint_limits", [&] { b.get_joint_limits(n); } },
      { "set_velocity_limit", [&] { b.set_velocity_limit(n, 1); } },
      { "set_torque_limit", [&] { b.set_torque_limit(n, 1); } },
      { "set_rotor_inertia", [&] { b.set_rotor_inertia(n, 1); } },
      { "set_gear_ratio", [&] { b.set_gear_ratio(n, 1); } },
      { "get_frame_index", [&] { b.get_frame_index(n); } },
      { "get_T_world_frame", [&] { b.get_T_world_frame(n); } },
      { "get_T_a_b", [&] { b.get_T_a_b(f, n); } },
      { "set_T_world_frame", [&] { b.set_T_world_frame(n, Affine3d::Identity()); } },
      { "frame_jacobian", [&] { b.frame_jacobian(n); } },
      { "frame_jacobian_time_variation", [&] { b.frame_jacobian_time_variation(n); } },
      { "frame_jacobian (reference)", [&] { b.frame_jacobian(f, "aligned"); } },
      { "joint_jacobian", [&] { b.joint_jacobian(n); } },
      { "joint_jacobian (reference)", [&] { b.joint_jacobian(j, "aligned"); } },
      { "joint_jacobian_time_variation", [&] { b.joint_jacobian_time_variation(n); } },
      { "relative_position_jacobian", [&] { b.relative_position_jacobian(n, f); } },
      { "static_gravity_compensation_torques", [&] { b.static_gravity_compensation_torques(n); } },
      { "torques_from_acceleration_with_fixed_frame", [&] { b.torques_from_acceleration_with_fixed_frame(qa, n); } },
    };
    int k = r.range((int)calls.size());
    bool threw = false;
    try
    {
      calls[k].second();
    }
    catch (std::exception&)
    {
      threw = true;
    }
    ctx.fault("unknown-name");
    ctx.check(threw, "unknown-name", calls[k].first + "(\"" + n + "\") does not refuse a name that does not exist");
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng c(plan.config);
    mem::begin(mem::random_env(c));
    rnd::seed(c.next());
    W w;
    int which = c.weighted({ 3, 1, 1 });
    w.robot = robots_[which];
    RobotWrapper& b = *w.robot;
    auto& G = b.collision_model;
    // the collision pairs of this run: a few of all the possible ones
    int ng = (int)G.geometryObjects.size(), np = c.between(1, 6);
    G.removeAllCollisionPairs();
    for (int i = 0; i < 100 && (int)G.collisionPairs.size() < np; i++)
    {
      int x = c.range(ng), y = c.range(ng);
      auto jx = G.geometryObjects[x].parentJoint, jy = G.geometryObjects[y].parentJoint;
      if (i < 60 && i % 2 && b.model.parents[jx] != jy && b.model.parents[jy] != jx)
        continue;  // neighbours, which often touch
      if (jx != jy)
        G.addCollisionPair(pinocchio::CollisionPair(x, y));
    }
    if (c.chance(0.3))
    {  // as MJCF models have it: the free-flyer sits at a fixed placement
      Rng s(c.next());
      b.model.jointPlacements[1] = se3(rand_T(s));
      b.update_kinematics();
      ctx.hit("placed-root");
    }
    if (c.chance(0.5))
    {
      b.state.q = robots::random_q(b.model, c, 0.9, 3.);
      for (int i = 0; i < b.model.nv; i++)
        b.state.qd[i] = c.uni(-2, 2);
      b.update_kinematics();
    }
    w.m = b.model;
    w.q = b.state.q;
    w.qd = b.state.qd;
    w.qdd = b.state.qdd;
    w.ref = std::make_unique<robots::Ref>(w.m);
    // rnea must not count rotors: the reference adds them itself
    w.ref->m.rotorInertia.setZero();
    for (int k = 1; k < (int)w.m.frames.size(); k++)
    {
      auto& f = w.m.frames[k];
      bool unique = true;
      for (int l = 1; l < (int)w.m.frames.size(); l++)
        unique = unique && (l == k || w.m.frames[l].name != f.name);
      if (unique && f.parentJoint > 0 && f.type == pinocchio::BODY)
        w.frames.push_back(k);
    }
    std::string last = "-";
    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      ctx.steps++;
      const std::string& k = ev.kind;
      ctx.log("%s %s fresh=%d garbage=%d", k.c_str(), ev.fault.c_str(), (int)w.fresh, (int)w.garbage);
      double tol = 0;
      double bad_value = ev.fault == "nan-reading" ? NAN : 1e200;
      bool judge = w.fresh && !w.garbage;
      if (w.garbage && k != "state" && k != "reset" && k != "update" && k != "names" && k != "bad" && k != "limits")
        continue;
      if (k == "joint")
      {
        Joint j = joint(w, r);
        double v = ev.fault != "-" ? bad_value : r.uni(-1.5, 1.5);
        int what = r.range(3);
        if (what == 0)
        {
          b.set_joint(j.name, v);
          w.q[j.q] = v;
          ctx.check(b.get_joint(j.name) == v || ev.fault != "-", "get-joint", "get_joint(" + j.name + ") is not what was set");
          w.fresh = false;
        }
        else if (what == 1 && w.qd.size())
        {
          b.set_joint_velocity(j.name, v);
          w.qd[j.v] = v;
          ctx.check(b.get_joint_velocity(j.name) == v || ev.fault != "-", "get-joint", "get_joint_velocity(" + j.name + ") is not what was set");
          w.fresh = false;
        }
        else if (w.qdd.size())
        {
          b.set_joint_acceleration(j.name, v);
          w.qdd[j.v] = v;
          ctx.check(b.get_joint_acceleration(j.name) == v || ev.fault != "-", "get-joint", "get_joint_acceleration(" + j.name + ") is not what was set");
        }
        if (ev.fault != "-")
        {
          w.garbage = true;
          ctx.fault(ev.fault);
        }
      }
      else if (k == "state")
      {
        int what = w.garbage ? 3 : r.range(4);
        if (what == 0 || what == 3)
          b.state.q = w.q = robots::random_q(w.m, r, 1., 3.1);
        if (what == 1 || what == 3)
        {
          w.qd = VectorXd(w.m.nv);
          for (int i = 0; i < w.m.nv; i++)
            w.qd[i] = r.uni(-2, 2);
          b.state.qd = w.qd;
        }
        if (what == 2 || what == 3)
        {
          w.qdd = VectorXd(w.m.nv);
          for (int i = 0; i < w.m.nv; i++)
            w.qdd[i] = r.uni(-5, 5);
          b.state.qdd = w.qdd;
        }
        w.garbage = false;
        w.fresh = false;
        if (ev.fault != "-")
        {
          w.q[r.range((int)w.q.size())] = bad_value;
          b.state.q = w.q;
          w.garbage = true;
          ctx.fault(ev.fault);
        }
      }
      else if (k == "reset")
      {
        b.reset();
        w.q = pinocchio::neutral(w.m);
        w.qd = w.qdd = VectorXd::Zero(w.m.nv);
        w.garbage = false;
        w.fresh = false;
      }
      else if (k == "fbase")
      {
        Affine3d T = rand_T(r);
        b.set_T_world_fbase(T);
        SE3 B = w.m.jointPlacements[1].actInv(se3(T));
        w.q.head(3) = B.translation();
        w.q.segment(3, 4) = Eigen::Quaterniond(B.rotation()).coeffs();
        tol = 1e-9;
        ctx.check(diff(b.get_T_world_fbase().matrix(), T.matrix()) < 1e-9, "fbase", "the floating base is not where it was just placed");
        w.fresh = false;
      }
      else if (k == "setframe" && judge)
      {
        int fr = frame(w, r);
        Affine3d T = rand_T(r);
        if (r.chance(0.5))
          b.set_T_world_frame((RobotWrapper::FrameIndex)fr, T);
        else
          b.set_T_world_frame(w.m.frames[fr].name, T);
        // the base moves so that the frame is at T, nothing else does
        robots::Ref& f = w.at();
        SE3 F = f.d.oMi[w.m.frames[fr].parentJoint] * w.m.frames[fr].placement;
        SE3 B = w.m.jointPlacements[1].actInv(se3(T) * F.actInv(f.d.oMi[1]));
        w.q.head(3) = B.translation();
        w.q.segment(3, 4) = Eigen::Quaterniond(B.rotation()).coeffs();
        tol = 1e-7;
        w.fresh = false;
        ctx.hit("frame-placed");
        if (r.chance(0.7))
        {
          b.update_kinematics();
          w.fresh = true;
          double e = diff(b.get_T_world_frame((RobotWrapper::FrameIndex)fr).matrix(), T.matrix());
          ctx.checkf(e < 1e-7, "set-frame", [&] { return fmt("frame %s is %.3g away from where it was just placed", w.m.frames[fr].name.c_str(), e); });
        }
      }
      else if (k == "integrate")
      {
        if (r.chance(0.1))
          b.state.qdd = w.qdd = VectorXd();
        else if (r.chance(0.1))
          b.state.qd = w.qd = VectorXd();
        double dt = r.pick(std::vector<double>{ 0.001, 0.005, 0.02, 0.1 });
        b.integrate(dt);
        if (w.qd.size() == 0)
          w.qd = VectorXd::Zero(w.m.nv);
        if (w.qdd.size())
          w.qd = w.qd + dt * w.qdd;
        // the base along its body twist, the joints along their velocity
        Eigen::Quaterniond Q(Eigen::Vector4d(w.q.segment(3, 4)));
        SE3 B(Q.toRotationMatrix(), Vector3d(w.q.head(3)));
        B = B * pinocchio::exp6(pinocchio::Motion(Eigen::Matrix<double, 6, 1>(w.qd.head(6) * dt)));
        w.q.head(3) = B.translation();
        w.q.segment(3, 4) = Eigen::Quaterniond(B.rotation()).coeffs();
        w.q.tail(w.q.size() - 7) += dt * w.qd.tail(w.qd.size() - 6);
        tol = 1e-7;
        ctx.sim_time += dt;
        ctx.check(diff(b.state.qd, w.qd) < 1e-12 * (1 + amax(w.qd)), "integrate", "integrate() does not add the acceleration to the velocity");
        w.qd = b.state.qd;
        ctx.checkf(std::fabs(b.state.q.segment(3, 4).norm() - 1) < 1e-6, "integrate", [&] { return std::string("the base orientation is no longer a unit quaternion"); });
        if (w.qdd.size() == 0)
          b.state.qdd = w.qdd = VectorXd::Zero(w.m.nv);
        w.fresh = false;
      }
      else if (k == "noise")
      {
        double n = r.pick(std::vector<double>{ 0, 0.001, 0.1, 0.5, 1 });
        VectorXd q0 = w.q;
        long c0 = rnd::count();
        b.add_q_noise(n);
        ctx.mix(rnd::count() - c0);
        for (int i = 0; i < w.m.nq; i++)
        {
          double lo = w.m.lowerPositionLimit[i], hi = w.m.upperPositionLimit[i], q1 = b.state.q[i];
          if (i < 7 || lo == std::numeric_limits<double>::lowest() || hi == std::numeric_limits<double>::max() || n == 0)
            ctx.checkf(q1 == q0[i], "noise", [&] { return fmt("add_q_noise(%g) moved coordinate %d, which has no limits", n, i); });
          else
          {
            double a = q0[i] + (lo - q0[i]) * n, z = q0[i] + (hi - q0[i]) * n;
            ctx.checkf(q1 >= a - 1e-9 && q1 <= z + 1e-9, "noise", [&] { return fmt("add_q_noise(%g) put coordinate %d at %g, outside [%g, %g]", n, i, q1, a, z); });
            if (q1 != q0[i])
              ctx.hit("noisy-joint");
          }
        }
        w.q = b.state.q;
        w.fresh = false;
      }
      else if (k == "limits")
      {
        Joint j = joint(w, r);
        double a = r.uni(-2, 0), z = r.uni(0, 2);
        switch (r.range(4))
        {
          case 0:
          {
            b.set_joint_limits(j.name, a, z);
            w.m.lowerPositionLimit[j.q] = a;
            w.m.upperPositionLimit[j.q] = z;
            break;
          }
          case 1:
            b.set_velocity_limit(j.name, z);
            w.m.velocityLimit[j.v] = z;
            break;
          case 2:
            b.set_velocity_limits(z);
            for (int i = 6; i < w.m.nv; i++)
              w.m.velocityLimit[i] = z;
            break;
          default:
            b.set_torque_limit(j.name, z);
            w.m.effortLimit[j.v] = z;
        }
        Joint j2 = joint(w, r);
        auto lim = b.get_joint_limits(j2.name);
        ctx.check(lim.first == w.m.lowerPositionLimit[j2.q] && lim.second == w.m.upperPositionLimit[j2.q], "limits", "get_joint_limits(" + j2.name + ") are not the limits of the joint");
      }
      else if (k == "inertia")
      {
        Joint j = joint(w, r);
        double a = r.uni(0, 0.1), z = r.uni(1, 10);
        if (r.chance(0.5))
        {
          b.set_rotor_inertia(j.name, a);
          w.m.rotorInertia[j.v] = a;
        }
        else
        {
          b.set_gear_ratio(j.name, z);
          w.m.rotorGearRatio[j.v] = z;
        }
      }
      else if (k == "gravity")
      {
        Vector3d g = r.chance(0.3) ? Vector3d(0, 0, -9.81) : robots::random_vec(r, r.uni(0, 12));
        b.set_gravity(g);
        w.m.gravity.linear() = g;
      }
      else if (k == "update")
      {
        b.update_kinematics();
        w.fresh = !w.garbage;
        ctx.hit("updates");
      }
      else if (w.qd.size() == w.m.nv && w.qdd.size() == w.m.nv)
      {
        if (!judge && k != "names" && k != "bad")
          ctx.fault("stale-query");
        if (k == "frames")
          q_frames(w, ctx, r, judge);
        else if (k == "jac")
          q_jac(w, ctx, r, judge, false);
        else if (k == "djac")
          q_jac(w, ctx, r, judge, true);
        else if (k == "hess")
          q_hess(w, ctx, r, judge);
        else if (k == "com")
          q_com(w, ctx, r, judge);
        else if (k == "dyn")
          q_dyn(w, ctx, r, judge);
        else if (k == "static")
          q_static(w, ctx, r, judge);
        else if (k == "fixed")
          q_fixed(w, ctx, r, judge);
        else if (k == "coll")
          q_coll(w, ctx, r, judge);
        else if (k == "names")
          q_names(w, ctx);
        else if (k == "bad")
          bad(w, ctx, r);
        if (judge)
          ctx.hit("judged-" + k);
      }
      compare(w, ctx, k, tol);
      ctx.state(names[which] + "|" + last + "|" + k + "|" + (w.fresh ? "f" : "s") + (w.garbage ? "g" : "-") + (ev.fault != "-" ? "x" : "-"));
      last = k;
    }
    if (const char* e = mem::error())
      ctx.check(false, "heap", e);
    mem::end();
  }
};
struct ModelQuery : Model
{
  ModelQuery() : Model(false)
  {
  }
};
struct ModelEdit : Model
{
  ModelEdit() : Model(true)
  {
  }
};
SIM_SCENARIO("model_query", ModelQuery);
SIM_SCENARIO("model_edit", ModelEdit);
}  // namespace
