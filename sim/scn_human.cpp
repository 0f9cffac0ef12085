// P16, P17, P24: a humanoid in simulated time.
//  human_odom : support switching, odometry and orientation updates from (faulty) sensors.
//  human_tasks: the walk tasks steer the whole-body inverse kinematics along walk trajectories, while modes and gains change,
//               solves fail, replans happen and measurements are noisy or late.
//  human_dummy: the dummy walk, stepped, rewound, moved in the world, with commands changing at any time.
#include "core.h"
#include "robots.h"
#include "placo/humanoid/dummy_walk.h"
#include "placo/humanoid/walk_tasks.h"
#include "placo/humanoid/footsteps_planner_repetitive.h"
#include <memory>

using namespace sim;
using namespace placo::humanoid;
using robots::Affine3d;
using robots::Matrix3d;
using robots::MatrixXd;
using robots::Vector3d;
using robots::VectorXd;
using Eigen::Vector2d;
using Side = HumanoidRobot::Side;
using Traj = WalkPatternGenerator::Trajectory;

namespace
{
static double diff(const Affine3d& a, const Affine3d& b)
{
  return (a.matrix() - b.matrix()).cwiseAbs().maxCoeff();
}
static Affine3d planar(double x, double y, double yaw)
{
  Affine3d T = Affine3d::Identity();
  T.translation() = Vector3d(x, y, 0);
  T.linear() = Eigen::AngleAxisd(yaw, Vector3d::UnitZ()).toRotationMatrix();
  return T;
}
static Affine3d flat(const Affine3d& T)
{
  return planar(T.translation().x(), T.translation().y(), std::atan2(T.linear()(1, 0), T.linear()(0, 0)));
}
static Affine3d pose(robots::Ref& ref, int f)
{
  Affine3d T = Affine3d::Identity();
  T.translation() = ref.pos(f);
  T.linear() = ref.rot(f);
  return T;
}
static int frame_id(const pinocchio::Model& m, const std::string& n)
{
  return (int)m.getFrameId(n);
}
static bool close(const VectorXd& a, const VectorXd& b, double tol)
{
  return a.size() == b.size() && (a - b).cwiseAbs().maxCoeff() <= tol;
}
// two configurations, the base quaternion up to its sign
static double qdiff(const VectorXd& a, const VectorXd& b)
{
  if (a.size() != b.size())
    return 1e9;
  double d = (a.head(3) - b.head(3)).cwiseAbs().maxCoeff();
  Eigen::Vector4d u = a.segment(3, 4), v = b.segment(3, 4);
  d = std::max(d, std::min((u - v).norm(), (u + v).norm()));
  for (int k = 7; k < a.size(); k++)
    d = std::max(d, std::fabs(a[k] - b[k]));
  return std::isfinite(d) ? d : 1e9;
}

// the humanoid, with the pressure sensor frames get_torques() needs, and possibly fewer joints
static std::string humanoid(bool reduced, bool low_camera = false)
{
  std::string u = robots::urdf("sigmaban"), extra;
  for (std::string side : { "left", "right" })
    for (int i = 0; i < 4; i++)
    {
      std::string n = side + "_ps_" + std::to_string(i);
      extra += fmt("<link name=\"%s\"/><joint name=\"%s_frame\" type=\"fixed\"><parent link=\"%s_foot\"/><child link=\"%s\"/>"
                   "<origin xyz=\"%g %g 0\" rpy=\"0 0 0\"/></joint>",
                   n.c_str(), n.c_str(), side.c_str(), n.c_str(), (i & 1) ? 0.06 : -0.06, (i & 2) ? 0.04 : -0.04);
    }
  if (reduced)
    for (std::string j : { "left_elbow", "right_elbow" })
    {
      std::string a = "joint name=\"" + j + "\" type=\"revolute\"";
      size_t k = u.find(a);
      if (k == std::string::npos)
        throw std::runtime_error("simulator error: no joint " + j);
      u.replace(k, a.size(), "joint name=\"" + j + "\" type=\"fixed\"");
    }
  if (low_camera)
  {
    std::string a = "-0.024933000004023209151 0.033500000000054735994";
    size_t k = u.find(a);
    if (k == std::string::npos)
      throw std::runtime_error("simulator error: no camera");
    u.replace(k, a.size(), "-0.024933000004023209151 -0.04");
  }
  size_t k = u.rfind("</robot>");
  u.insert(k, extra);
  return u;
}
static const int FLAGS = HumanoidRobot::IGNORE_COLLISIONS | HumanoidRobot::COLLISION_AS_VISUAL;

// ================================================================= P16
struct Odom : Scenario
{
  HumanoidRobot* robots_[3];
  void setup() override
  {
    for (int i = 0; i < 3; i++)
      robots_[i] = new HumanoidRobot("", FLAGS, humanoid(i == 1, i == 2));
  }
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> kinds = { "joints", "switch", "floor", "imu", "oriented", "comvel", "look", "torques", "init", "walk", "ask" };
    std::vector<double> w = { 4, 4, 3, 3, 1, 1, 1, 0.7, 0.3, 1, 1 };
    for (auto& x : w)
      if (r.chance(0.3))
        x *= 0.2;
    int n = r.between(4, thorough ? 60 : 30);
    double pf = r.chance(0.5) ? 0.4 : 0;
    std::vector<std::string> f = { "imu-spike", "imu-stale", "imu-dup", "support-flap" };
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted(w)];
      e.sub = r.next();
      if (r.chance(pf))
        e.fault = e.kind == "imu" || e.kind == "oriented" ? f[r.range(3)] : (e.kind == "switch" ? f[3] : "-");
      p.ev.push_back(e);
    }
    return p;
  }

  struct W
  {
    HumanoidRobot* robot;
    robots::Ref ref;
    VectorXd q;     // expected configuration
    bool stale = false;  // joints were set and the kinematics not updated
    VectorXd qd;
    Affine3d Tws;   // expected support pose
    Side side;
    int frame;
    Matrix3d last_imu = Matrix3d::Identity();
    W(HumanoidRobot* r) : robot(r), ref(r->model)
    {
    }
  };

  // moves the reference base so that `frame` is at T
  void place(W& w, int frame, const Affine3d& T)
  {
    w.ref.set(w.q);
    Affine3d base = pose(w.ref, frame_id(w.ref.m, "root_joint"));
    Affine3d B = T * pose(w.ref, frame).inverse() * base;
    w.q.head(3) = B.translation();
    Eigen::Quaterniond qu(B.linear());
    qu.normalize();
    w.q.segment(3, 4) = qu.coeffs();
    w.ref.set(w.q);
  }
  void compare(W& w, Ctx& ctx, const char* cls, const std::string& when)
  {
    HumanoidRobot& r = *w.robot;
    double e = qdiff(r.state.q, w.q);
    ctx.checkf(e < 1e-6, cls, [&] { return fmt("after %s the configuration is %.3g away from the expected one", when.c_str(), e); });
    ctx.check(close(r.state.qd, w.qd, 0), cls, "after " + when + " the velocity changed");
    ctx.checkf(diff(r.T_world_support, w.Tws) < 1e-6, cls, [&] { return fmt("after %s T_world_support is %.3g away from the expected one", when.c_str(), diff(r.T_world_support, w.Tws)); });
    ctx.check((int)r.support_frame == w.frame && r.support_side == w.side, cls, "after " + when + " the support is not the expected one");
    // avoids drifting apart by rounding
    w.q = r.state.q;
    w.Tws = r.T_world_support;
  }
  void frames(W& w, Ctx& ctx, const std::string& when)
  {
    w.ref.set(w.robot->state.q);
    HumanoidRobot& r = *w.robot;
    ctx.check(diff(r.get_T_world_left(), pose(w.ref, frame_id(w.ref.m, "left_foot"))) < 1e-9 &&
                  diff(r.get_T_world_right(), pose(w.ref, frame_id(w.ref.m, "right_foot"))) < 1e-9 &&
                  diff(r.get_T_world_trunk(), pose(w.ref, frame_id(w.ref.m, "trunk"))) < 1e-9,
              "stale-frames", "after " + when + " the feet or the trunk are not where the configuration puts them");
  }

  void joints(W& w, Rng& r, double amp)
  {
    for (auto& n : w.robot->joint_names())
      if (r.chance(0.5))
      {
        int k = w.robot->get_joint_offset(n);
        double v = w.q[k] + r.uni(-amp, amp);
        v = std::min(std::max(v, std::max(-1.2, w.ref.m.lowerPositionLimit[k])), std::min(1.2, w.ref.m.upperPositionLimit[k]));
        w.robot->set_joint(n, v);
        w.q[k] = v;
      }
    // the updates that place the robot bring the kinematics up to date themselves
    w.stale = w.stale || r.chance(0.5);
    if (!w.stale)
      w.robot->update_kinematics();
  }
  void refresh(W& w)
  {
    if (w.stale)
      w.robot->update_kinematics();
    w.stale = false;
  }

  void do_switch(W& w, Ctx& ctx, Rng& r)
  {
    HumanoidRobot& b = *w.robot;
    refresh(w);
    Side s = r.chance(0.5) ? HumanoidRobot::Left : HumanoidRobot::Right;
    std::string name = s == HumanoidRobot::Left ? "left" : "right", fr = name + "_foot";
    int api = r.range(4);
    if (api >= 2 && r.chance(0.3))
      fr = name + "_ps_" + std::to_string(r.range(4));
    int f = frame_id(w.ref.m, fr);
    w.ref.set(w.q);
    if (f != w.frame)
    {
      w.Tws = flat(pose(w.ref, f));
      w.side = s;
      w.frame = f;
      ctx.hit("support-changed");
    }
    if (api == 0)
      b.update_support_side(s);
    else if (api == 1)
      b.update_support_side(name);
    else if (api == 2)
      b.update_support_side(s, b.get_frame_index(fr));
    else
      b.update_support_side(name, fr);
    compare(w, ctx, "support-switch", "update_support_side()");
  }
  void do_floor(W& w, Ctx& ctx)
  {
    place(w, w.frame, w.Tws);
    w.robot->ensure_on_floor();
    w.stale = false;
    compare(w, ctx, "on-floor", "ensure_on_floor()");
    frames(w, ctx, "ensure_on_floor()");
  }
  void do_imu(W& w, Ctx& ctx, Rng& r, const Event& ev)
  {
    Matrix3d R;
    if (ev.fault == "imu-stale")
    {
      R = w.last_imu;
      ctx.fault("imu-stale");
    }
    else if (ev.fault == "imu-spike")
    {
      R = robots::random_rot(r, 3.1);
      ctx.fault("imu-spike");
    }
    else
      R = w.ref.rot(frame_id(w.ref.m, "trunk")) * robots::random_rot(r, 0.2);
    w.last_imu = R;
    int times = 1;
    if (ev.fault == "imu-dup")
    {
      times = 2;
      ctx.fault("imu-dup");
    }
    for (int i = 0; i < times; i++)
    {
      w.ref.set(w.q);
      Matrix3d Rts = w.ref.rot(frame_id(w.ref.m, "trunk")).transpose() * w.ref.rot(w.frame);
      w.Tws.linear() = R * Rts;
      place(w, w.frame, w.Tws);
      if (ev.kind == "imu")
        w.robot->update_from_imu(R);
      else
        w.robot->ensure_on_floor_oriented(R);
      w.stale = false;
      compare(w, ctx, "imu", ev.kind == "imu" ? "update_from_imu()" : "ensure_on_floor_oriented()");
      frames(w, ctx, "an orientation update");
      ctx.check((w.robot->get_T_world_trunk().linear() - R).norm() < 1e-6, "imu", "the trunk does not have the measured orientation");
      ctx.check((w.ref.pos(w.frame) - w.Tws.translation()).norm() < 1e-6, "imu", "an orientation update moved the support");
    }
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng c(plan.config);
    mem::begin(mem::random_env(c));
    {
      W w(robots_[c.range(3)]);
      HumanoidRobot& b = *w.robot;
      w.q = b.state.q;
      w.qd = b.state.qd;
      w.Tws.setIdentity();
      w.side = HumanoidRobot::Left;
      w.frame = frame_id(w.ref.m, "left_foot");
      w.ref.set(w.q);
      ctx.check(diff(pose(w.ref, w.frame), w.Tws) < 1e-9, "on-floor", "a new humanoid does not stand on its left foot at the origin");
      compare(w, ctx, "init", "the construction");
      for (auto& ev : plan.ev)
      {
        Rng r(ev.sub);
        ctx.steps++;
        ctx.sim_time += 0.01;
        if (ev.kind == "joints")
          joints(w, r, 0.3);
        else if (ev.kind == "switch")
        {
          int n = 1;
          if (ev.fault == "support-flap")
          {
            n = r.between(2, 5);
            ctx.fault("support-flap");
          }
          for (int i = 0; i < n; i++)
            do_switch(w, ctx, r);
        }
        else if (ev.kind == "floor")
          do_floor(w, ctx);
        else if (ev.kind == "imu" || ev.kind == "oriented")
          do_imu(w, ctx, r, ev);
        else if (ev.kind == "walk")
        {
          for (int i = r.between(2, 8); i > 0; i--)
          {
            joints(w, r, 0.1);
            do_floor(w, ctx);
            if (r.chance(0.5))
              do_switch(w, ctx, r);
          }
        }
        else if (ev.kind == "init")
        {
          w.Tws.setIdentity();
          w.side = HumanoidRobot::Left;
          w.frame = frame_id(w.ref.m, "left_foot");
          place(w, w.frame, w.Tws);
          if (r.chance(0.5))
            b.initialize();
          else
            b.init_config();
          w.stale = false;
          compare(w, ctx, "init", "init_config()");
          frames(w, ctx, "init_config()");
        }
        else if (ev.kind == "ask")
        {
          b.update_kinematics();
          w.stale = false;
          frames(w, ctx, "update_kinematics()");
          double om = r.uni(2, 8);
          Vector2d v(r.uni(-1, 1), r.uni(-1, 1));
          Vector2d com = w.ref.com().head(2);
          ctx.check((b.dcm(om, v) - (com + v / om)).norm() < 1e-9, "dcm-zmp", "dcm() is not that of the CoM");
          ctx.check((b.zmp(om, v) - (com - v / (om * om))).norm() < 1e-9, "dcm-zmp", "zmp() is not that of the CoM");
          ctx.check(HumanoidRobot::other_side(HumanoidRobot::Left) == HumanoidRobot::Right && HumanoidRobot::other_side(HumanoidRobot::Right) == HumanoidRobot::Left &&
                        HumanoidRobot::string_to_side("left") == HumanoidRobot::Left && HumanoidRobot::string_to_side("right") == HumanoidRobot::Right,
                    "sides", "the sides are confused");
          compare(w, ctx, "ask", "queries");
        }
        else if (ev.kind == "comvel")
        {
          for (int k = 6; k < w.ref.nv(); k++)
            b.state.qd[k] = r.chance(0.1) ? r.uni(-30, 30) : r.uni(-3, 3);
          w.qd = b.state.qd;
          w.stale = false;
          b.update_kinematics();
          w.ref.set(w.q);
          Vector3d om(r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2));
          Side s = r.chance(0.5) ? HumanoidRobot::Left : HumanoidRobot::Right;
          int f = s == w.side ? w.frame : frame_id(w.ref.m, s == HumanoidRobot::Left ? "left_foot" : "right_foot");
          MatrixXd J(6, w.ref.nv());
          J << w.ref.jlin(f), w.ref.jang(frame_id(w.ref.m, "trunk"));
          VectorXd rhs(6);
          rhs << Vector3d::Zero(), w.ref.rot(frame_id(w.ref.m, "trunk")) * om;
          VectorXd qd = w.qd;
          qd.head(6).setZero();
          qd.head(6) = J.leftCols(6).fullPivLu().solve(rhs - J * qd);
          Vector3d want = w.ref.jcom() * qd, got = b.get_com_velocity(s, om);
          ctx.checkf((want - got).norm() < 1e-6 * (1 + want.norm()), "com-velocity", [&] {
            return fmt("get_com_velocity() is (%.4f, %.4f, %.4f) instead of (%.4f, %.4f, %.4f)", got.x(), got.y(), got.z(), want.x(), want.y(), want.z());
          });
          ctx.hit(s == w.side ? "comvel-support" : "comvel-other");
          compare(w, ctx, "ask", "queries");
        }
        else if (ev.kind == "look")
        {
          refresh(w);
          w.ref.set(w.q);
          int hb = frame_id(w.ref.m, "head_base"), cam = frame_id(w.ref.m, "camera");
          Vector3d P = pose(w.ref, hb) * (robots::random_vec(r, 1) * (r.chance(0.2) ? r.uni(0.01, 0.2) : r.uni(0.2, 4)));
          double pan = 0, tilt = 0;
          bool ok = b.camera_look_at(pan, tilt, P);
          VectorXd q2 = w.q;
          Vector3d H = pose(w.ref, hb).inverse() * P;
          double z0, ahead = 0;
          {
            VectorXd q3 = w.q;
            q3[b.get_joint_offset("head_yaw")] = q3[b.get_joint_offset("head_pitch")] = 0;
            w.ref.set(q3);
            z0 = (pose(w.ref, hb).inverse() * pose(w.ref, cam)).translation().z() - (pose(w.ref, hb).inverse() * pose(w.ref, frame_id(w.ref.m, "head_pitch"))).translation().z();
            double d = Vector2d(H.head(2).norm(), H.z() - (pose(w.ref, hb).inverse() * pose(w.ref, frame_id(w.ref.m, "head_pitch"))).translation().z()).norm();
            double reach = (pose(w.ref, hb).inverse() * (pose(w.ref, cam).translation() - pose(w.ref, frame_id(w.ref.m, "head_pitch")).translation() + pose(w.ref, hb).translation())).norm();
            ahead = std::sqrt(std::max(0., d * d - z0 * z0)) - reach;
            if (std::fabs(d - std::fabs(z0)) > 1e-6)
              ctx.check(ok == (d > std::fabs(z0)), "look", "camera_look_at() finds a solution exactly when there is one");
          }
          if (ok)
          {
            q2[b.get_joint_offset("head_yaw")] = pan;
            q2[b.get_joint_offset("head_pitch")] = tilt;
            w.ref.set(q2);
            Vector3d v = w.ref.rot(cam).transpose() * (P - w.ref.pos(cam));
            Vector2d off = v.head(2);
            ctx.checkf(off.norm() < 1e-6 * (1 + v.norm()), "look", [&] { return fmt("camera_look_at(): the target is seen at (%.4f, %.4f, %.4f) from the camera", v.x(), v.y(), v.z()); });
            if (ahead > 1e-3)
              ctx.check(v.z() > 0, "look", "camera_look_at() turns the back of the camera to the target");
            ctx.hit("looked");
          }
          else
            ctx.hit("look-refused");
          w.ref.set(w.q);
          compare(w, ctx, "ask", "queries");
        }
        else if (ev.kind == "torques")
        {
          b.update_kinematics();
          w.stale = false;
          w.ref.set(w.q, w.qd);
          int nv = w.ref.nv();
          VectorXd acc(nv - 6), f(8);
          for (int k = 0; k < nv - 6; k++)
            acc[k] = r.uni(-5, 5);
          for (int k = 0; k < 8; k++)
            f[k] = r.uni(0, 30);
          bool nle = r.chance(0.5);
          VectorXd gf = VectorXd::Zero(nv);
          for (int k = 0; k < 8; k++)
          {
            int fr = frame_id(w.ref.m, (k < 4 ? "left_ps_" : "right_ps_") + std::to_string(k % 4));
            gf += w.ref.jlin(fr).transpose() * (w.ref.rot(fr).col(2) * f[k]);
          }
          VectorXd v = nle ? w.qd : VectorXd(VectorXd::Zero(nv));
          // base acceleration such that nothing pushes the base
          VectorXd a = VectorXd::Zero(nv), h = pinocchio::rnea(w.ref.m, w.ref.d, w.q, v, a);
          MatrixXd M(nv, 6);
          for (int k = 0; k < 6; k++)
          {
            VectorXd e = VectorXd::Zero(nv);
            e[k] = 1;
            M.col(k) = pinocchio::rnea(w.ref.m, w.ref.d, w.q, v, e) - h;
          }
          a.tail(nv - 6) = acc;
          VectorXd t0 = pinocchio::rnea(w.ref.m, w.ref.d, w.q, v, a) - gf;
          a.head(6) = -M.topRows(6).fullPivLu().solve(t0.head(6));
          VectorXd want = pinocchio::rnea(w.ref.m, w.ref.d, w.q, v, a) - gf, got = b.get_torques(acc, f, nle);
          double e = got.size() == want.size() ? (got - want).norm() : 1e9;
          ctx.checkf(e < 1e-6 * (1 + want.norm() + a.norm()), "torques", [&] { return fmt("get_torques() is %.3g away from the inverse dynamics", e); });
          w.ref.set(w.q);
          compare(w, ctx, "ask", "queries");
        }
        ctx.mixv(b.state.q);
        ctx.state(ev.kind + "/" + std::to_string(w.frame) + "/" + ev.fault + "/" + std::to_string((int)w.side));
        const char* err = mem::error();
        ctx.check(!err, "heap", err ? err : "");
      }
    }
    mem::end();
  }
};
SIM_SCENARIO("human_odom", Odom);

// ================================================================= P17
// What the walk tasks must ask of the inverse kinematics, and how well it must follow
struct Tasks : Scenario
{
  HumanoidRobot* robot;
  void setup() override
  {
    robot = new HumanoidRobot("", FLAGS, humanoid(false));
  }
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> kinds = { "walk", "walkpid", "plan", "replan", "mode", "offsets", "gains", "direct", "errors", "reinit", "pose", "teleport" };
    std::vector<double> w = { 5, 3, 2, 2, 1, 1, 1, 0.7, 1, 0.7, 0.3, 0.7 };
    for (auto& x : w)
      if (r.chance(0.3))
        x *= 0.2;
    int n = r.between(3, thorough ? 30 : 14);
    double pf = r.chance(0.4) ? 0.3 : 0;
    std::vector<std::string> f = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw" }, g = { "tick-late", "dcm-dropout", "dcm-spike" };
    p.ev.push_back({ "plan", r.next(), "-" });
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted(w)];
      e.sub = r.next();
      if ((e.kind == "walk" || e.kind == "replan") && r.chance(pf))
        e.fault = r.pick(f);
      if (e.kind == "walkpid" && r.chance(pf))
        e.fault = r.pick(g);
      p.ev.push_back(e);
    }
    return p;
  }

  struct W
  {
    robots::Ref ref;
    HumanoidParameters params;
    std::unique_ptr<placo::kinematics::KinematicsSolver> solver;
    std::unique_ptr<WalkTasks> tasks;
    std::unique_ptr<WalkPatternGenerator> wpg;
    std::unique_ptr<FootstepsPlannerRepetitive> planner;
    std::unique_ptr<Traj> traj;
    double t = 0, omega = 5;
    bool trunk_mode = false;
    double com_delay = 0, com_x = 0, com_y = 0, kp = 0, ki = 0, kd = 0, lambda = 0.01;
    Vector2d integral = Vector2d::Zero(), last = Vector2d::Zero();
    int extra = 0;  // other tasks in the solver
    // the targets the tasks must have
    Affine3d L, R;
    Vector3d com;
    Matrix3d trunk;
    bool have = false;
    int settled = 0;  // undisturbed ticks
    bool t0 = true, solved = false;  // solved: the tasks have been through a solve
    W(const pinocchio::Model& m) : ref(m)
    {
    }
  };

  int task_count(W& w)
  {
    return w.solver->tasks_count();
  }
  void initialize(W& w, Ctx& ctx, Rng& r)
  {
    robot->update_kinematics();
    w.ref.set(robot->state.q);
    w.tasks->trunk_mode = w.trunk_mode;
    w.tasks->initialize_tasks(w.solver.get(), robot);
    w.L = pose(w.ref, frame_id(w.ref.m, "left_foot"));
    w.R = pose(w.ref, frame_id(w.ref.m, "right_foot"));
    w.trunk = w.ref.rot(frame_id(w.ref.m, "trunk"));
    w.com = w.trunk_mode ? w.ref.pos(frame_id(w.ref.m, "trunk")) : w.ref.com();
    w.integral.setZero();
    w.last.setZero();
    w.have = true;
    w.solved = false;
    check_targets(w, ctx, "initialize_tasks()");
  }
  void check_targets(W& w, Ctx& ctx, const std::string& when)
  {
    WalkTasks& k = *w.tasks;
    ctx.checkf(task_count(w) == w.extra + 6, "task-set", [&] { return fmt("after %s the solver holds %d tasks for the walk instead of 6", when.c_str(), task_count(w) - w.extra); });
    ctx.check((k.com_task != nullptr) == !w.trunk_mode && (k.trunk_task != nullptr) == w.trunk_mode, "task-set", "after " + when + " the position task is not that of the mode");
    std::set<placo::kinematics::Task*> mine = { k.left_foot_task.position, k.left_foot_task.orientation, k.right_foot_task.position, k.right_foot_task.orientation, k.trunk_orientation_task };
    if (w.trunk_mode)
      mine.insert(k.trunk_task);
    else
      mine.insert(k.com_task);
    auto all = w.solver->get_tasks();
    for (auto* t : mine)
      ctx.check(t && all.count(t) == 1, "task-set", "after " + when + " a walk task is not in the solver");
    Vector3d p = w.trunk_mode ? k.trunk_task->target_world : k.com_task->target_world;
    ctx.checkf((p - w.com).norm() < 1e-9, "targets", [&] { return fmt("after %s the %s target is %.3g away from what it must be", when.c_str(), w.trunk_mode ? "trunk" : "CoM", (p - w.com).norm()); });
    ctx.check(diff(k.left_foot_task.get_T_world_frame(), w.L) < 1e-9 && diff(k.right_foot_task.get_T_world_frame(), w.R) < 1e-9, "targets", "after " + when + " a foot target is not that of the trajectory");
    ctx.check((k.trunk_orientation_task->R_world_frame - w.trunk).norm() < 1e-9, "targets", "after " + when + " the trunk orientation target is not that of the trajectory");
  }
  Vector3d offset(W& w)
  {
    // robot->get_T_world_frame: where the last update_kinematics() put the trunk
    return w.ref.rot(frame_id(w.ref.m, "trunk")) * Vector3d(w.com_x, w.com_y, 0);
  }
  // errors of the walk tasks on the real configuration
  void errors(W& w, double& feet, double& feet_r, double& com, double& trunk)
  {
    w.ref.set(robot->state.q);
    int l = frame_id(w.ref.m, "left_foot"), r = frame_id(w.ref.m, "right_foot"), t = frame_id(w.ref.m, "trunk");
    feet = std::max((w.ref.pos(l) - w.L.translation()).norm(), (w.ref.pos(r) - w.R.translation()).norm());
    auto ang = [&](const Matrix3d& a, const Matrix3d& b) { return Eigen::AngleAxisd(a.transpose() * b).angle(); };
    feet_r = std::max(ang(w.ref.rot(l), w.L.linear()), ang(w.ref.rot(r), w.R.linear()));
    com = ((w.trunk_mode ? w.ref.pos(t) : w.ref.com()) - w.com).norm();
    trunk = ang(w.ref.rot(t), w.trunk);
  }
  bool solve(W& w, Ctx& ctx, const Event& ev, bool inject)
  {
    qp::Fault f = inject ? qp::fault_from(ev.fault) : qp::None;
    VectorXd q0 = robot->state.q;
    if (f)
      qp::arm(f, 1);
    bool ok = true;
    try
    {
      w.solver->solve(true);
    }
    catch (std::runtime_error& e)
    {
      ok = false;
    }
    catch (std::bad_alloc&)
    {
      ok = false;
    }
    bool fired = qp::disarm();
    if (fired)
    {
      ctx.fault(ev.fault);
      ctx.check(!ok, "failure-swallowed", "a solve returned although its QP was not solved");
    }
    if (!ok)
      ctx.check(qdiff(q0, robot->state.q) == 0, "failed-moves", "a failed solve moved the robot");
    robot->update_kinematics();
    w.ref.set(robot->state.q);
    if (ok)
      w.solved = true;
    return ok;
  }
  Traj plan(W& w, Rng& r)
  {
    Affine3d L, R;
    Vector3d com;
    if (w.traj)
    {
      L = w.traj->get_T_world_left(w.traj->t_end);
      R = w.traj->get_T_world_right(w.traj->t_end);
    }
    else
    {
      L = flat(pose(w.ref, frame_id(w.ref.m, "left_foot")));
      R = L * planar(0, -w.params.feet_spacing, 0);
    }
    Side fly = r.chance(0.5) ? HumanoidRobot::Left : HumanoidRobot::Right;
    w.planner->configure(r.uni(-0.04, 0.06), r.uni(-0.03, 0.03), r.uni(-0.25, 0.25), r.between(1, 5));
    auto fs = w.planner->plan(fly, L, R);
    auto su = FootstepsPlanner::make_supports(fs, w.t, true, w.params.has_double_support(), true);
    Vector3d c = (L.translation() + R.translation()) / 2;
    c.z() = w.params.walk_com_height;
    return w.wpg->plan(su, c, w.t);
  }

  void run(const Plan& plan_, Ctx& ctx) override
  {
    Rng c(plan_.config);
    mem::begin(mem::random_env(c));
    rnd::seed(c.next());
    {
      W w(robot->model);
      HumanoidParameters& p = w.params;
      p.single_support_duration = c.uni(0.3, 0.6);
      p.single_support_timesteps = 10;
      p.double_support_ratio = c.chance(0.5) ? 0 : c.uni(0.1, 0.5);
      p.startend_double_support_ratio = c.uni(1, 2);
      p.planned_timesteps = 64;
      p.walk_foot_height = c.uni(0.02, 0.05);
      p.walk_foot_rise_ratio = c.uni(0.1, 0.4);
      p.walk_com_height = c.uni(0.26, 0.31);
      p.walk_trunk_pitch = c.uni(-0.05, 0.2);
      p.foot_length = 0.18;
      p.foot_width = 0.08;
      p.feet_spacing = c.uni(0.12, 0.15);
      p.zmp_margin = 0.02;
      p.foot_zmp_target_x = 0;
      p.foot_zmp_target_y = 0;
      p.walk_max_dx_forward = 0.08;
      p.walk_max_dx_backward = 0.05;
      p.walk_max_dy = 0.04;
      p.walk_max_dtheta = 0.35;
      w.omega = LIPM::compute_omega(p.walk_com_height);
      w.solver.reset(new placo::kinematics::KinematicsSolver(*robot));
      w.solver->enable_velocity_limits(false);
      w.tasks.reset(new WalkTasks());
      w.tasks->scaled = false;
      w.planner.reset(new FootstepsPlannerRepetitive(p));
      w.wpg.reset(new WalkPatternGenerator(*robot, p));
      w.wpg->soft = true;
      // a posture to start from, and the user's own tasks
      for (std::string s : { "left", "right" })
      {
        robot->set_joint(s + "_knee", c.uni(0.6, 1.0));
        robot->set_joint(s + "_hip_pitch", -0.4);
        robot->set_joint(s + "_ankle_pitch", -0.4);
      }
      robot->update_kinematics();
      robot->ensure_on_floor();
      w.ref.set(robot->state.q);
      w.solver->add_regularization_task(1e-6);
      w.extra = 1;
      if (c.chance(0.5))
      {
        auto& j = w.solver->add_joints_task();
        j.set_joint("head_yaw", c.uni(-0.5, 0.5));
        j.configure("head", "soft", 1);
        w.extra++;
      }
      initialize(w, ctx, c);
      auto reach = [&](Rng& r) {
        // reach_initial_pose() brings the robot there
        Affine3d L = w.traj ? w.traj->get_T_world_left(w.traj->t_start) : Affine3d::Identity();
        double h = p.walk_com_height;
        bool mode = w.trunk_mode;
        w.trunk_mode = w.tasks->trunk_mode = false;  // the initial pose is defined by the CoM
        double cx = w.com_x, cy = w.com_y;
        w.com_x = w.com_y = w.tasks->com_x = w.tasks->com_y = 0;
        w.tasks->reach_initial_pose(L, p.feet_spacing, h, p.walk_trunk_pitch);
        w.L = L;
        w.R = L * planar(0, -p.feet_spacing, 0);
        w.com = (w.L.translation() + w.R.translation()) / 2;
        w.com.z() = h;
        w.trunk = L.linear() * Eigen::AngleAxisd(p.walk_trunk_pitch, Vector3d::UnitY()).toRotationMatrix();
        robot->update_kinematics();
        check_targets(w, ctx, "reach_initial_pose()");
        double a, b, d, e;
        errors(w, a, b, d, e);
        ctx.checkf(a < 1e-4 && b < 1e-3 && d < 1e-4 && e < 1e-3, "initial-pose", [&] { return fmt("reach_initial_pose() leaves errors: feet %.3g m %.3g rad, CoM %.3g, trunk %.3g", a, b, d, e); });
        w.com_x = w.tasks->com_x = cx;
        w.com_y = w.tasks->com_y = cy;
        if (mode)
          w.trunk_mode = w.tasks->trunk_mode = false;
        w.settled = 0;
        ctx.hit("initial-pose");
      };
      reach(c);
      for (auto& ev : plan_.ev)
      {
        Rng r(ev.sub);
        ctx.steps++;
        if (ev.kind == "plan")
        {
          w.t += r.uni(0, 0.1);
          if (w.traj)
            w.t = std::max(w.t, w.traj->t_end);
          w.traj.reset(new Traj(plan(w, r)));
          if (w.t0 || r.chance(0.5))
            reach(r);
          w.t0 = false;
          w.settled = 0;
        }
        else if (ev.kind == "pose")
          reach(r);
        else if (ev.kind == "teleport")
        {
          // somebody moves the joints a little
          for (auto& n : robot->joint_names())
            robot->set_joint(n, robot->get_joint(n) + r.uni(-0.05, 0.05));
          robot->update_kinematics();
          w.ref.set(robot->state.q);
          w.settled = 0;
          ctx.fault("push");
        }
        else if (ev.kind == "mode")
        {
          w.trunk_mode = w.tasks->trunk_mode = !w.trunk_mode;
          w.settled = 0;
          if (w.trunk_mode && r.chance(0.5) && w.solved)
          {
            // asked before the next update
            auto e = w.tasks->get_tasks_error();
            ctx.check(e.size() >= 5, "errors", "get_tasks_error() misses tasks");
          }
        }
        else if (ev.kind == "offsets")
        {
          w.com_x = w.tasks->com_x = r.uni(-0.01, 0.01);
          w.com_y = w.tasks->com_y = r.uni(-0.01, 0.01);
          w.com_delay = w.tasks->com_delay = r.chance(0.3) ? 0 : r.uni(0, 0.05);
          w.settled = 0;
        }
        else if (ev.kind == "gains")
        {
          w.kp = w.tasks->K_p = r.chance(0.3) ? 0 : r.uni(-0.2, 0.2);
          w.ki = w.tasks->K_i = r.chance(0.3) ? 0 : r.uni(-0.2, 0.2);
          w.kd = w.tasks->K_d = r.chance(0.3) ? 0 : r.uni(-0.002, 0.002);
          if (r.chance(0.3))
            w.lambda = w.tasks->lambda = r.uni(0, 0.1);
        }
        else if (ev.kind == "reinit")
        {
          w.tasks->remove_tasks();
          ctx.check(task_count(w) == w.extra, "task-set", "remove_tasks() leaves walk tasks in the solver");
          w.tasks->remove_tasks();
          ctx.check(task_count(w) == w.extra, "task-set", "removing the walk tasks twice removes the user's tasks");
          if (r.chance(0.3))
          {
            w.tasks.reset(new WalkTasks());
            w.tasks->com_x = w.com_x;
            w.tasks->com_y = w.com_y;
            w.tasks->com_delay = w.com_delay;
            w.tasks->K_p = w.kp;
            w.tasks->K_i = w.ki;
            w.tasks->K_d = w.kd;
            w.tasks->lambda = w.lambda;
          }
          initialize(w, ctx, r);
          ctx.hit("reinit");
        }
        else if (ev.kind == "direct")
        {
          // targets given by hand
          w.L = w.L * planar(r.uni(-0.005, 0.005), 0, r.uni(-0.02, 0.02));
          w.R = w.R * planar(0, r.uni(-0.005, 0), 0);
          Vector3d cw = w.com + Vector3d(r.uni(-0.005, 0.005), r.uni(-0.005, 0.005), r.uni(-0.01, 0));
          w.trunk = w.trunk * robots::random_rot(r, 0.02);
          w.tasks->update_tasks(w.L, w.R, cw, w.trunk);
          w.com = cw + offset(w);
          check_targets(w, ctx, "update_tasks()");
          w.settled = 0;
          for (int i = 0; i < 6; i++)
            solve(w, ctx, ev, false);
        }
        else if (ev.kind == "replan" && w.traj)
        {
          if (w.wpg->can_replan_supports(*w.traj, w.t) && w.t > w.traj->t_start)
          {
            w.planner->configure(r.uni(-0.04, 0.06), r.uni(-0.03, 0.03), r.uni(-0.25, 0.25), r.between(1, 5));
            auto su = w.wpg->replan_supports(*w.planner, *w.traj, w.t, w.t);
            qp::Fault f = qp::fault_from(ev.fault);
            if (f && f != qp::Throw)
              qp::arm(f, 1);
            w.traj.reset(new Traj(w.wpg->replan(su, *w.traj, w.t)));
            if (qp::disarm())
              ctx.fault(ev.fault);
            if (w.com_delay > 0)
              w.settled = 0;  // the CoM of the near future may differ
            ctx.hit("replanned");
          }
        }
        else if ((ev.kind == "walk" || ev.kind == "walkpid") && w.traj)
        {
          int n = r.between(5, 40);
          double dt = r.uni(0.004, 0.02);
          int bad = r.range(n);
          for (int i = 0; i < n && w.t < w.traj->t_end; i++)
          {
            double el = dt;
            if (ev.kind == "walkpid")
            {
              if (ev.fault == "tick-late" && i == bad)
              {
                el = dt * r.between(2, 5);
                ctx.fault("tick-late");
                w.settled = 0;
              }
              w.t += el;
              Vector2d want = w.traj->get_p_world_DCM(w.t + w.com_delay, w.omega);
              Vector2d dcm = want + Vector2d(r.gauss(), r.gauss()) * 0.003;
              if (ev.fault == "dcm-spike" && i == bad)
              {
                dcm += Vector2d(r.uni(-0.1, 0.1), r.uni(-0.1, 0.1));
                ctx.fault("dcm-spike");
              }
              if (ev.fault == "dcm-dropout" && i >= bad)
              {
                dcm = want;
                if (i == bad)
                  ctx.fault("dcm-dropout");
              }
              w.tasks->update_tasks_and_pid(*w.traj, w.t, dcm, w.omega, el);
              Vector2d e = dcm - want;
              w.integral = (1 - w.lambda) * w.integral + e * el;
              Vector2d o = w.kp * e + w.ki * w.integral + w.kd * (e - w.last) / el;
              w.last = e;
              w.com = w.traj->get_p_world_CoM(w.t + w.com_delay) + Vector3d(o.x(), o.y(), 0) + offset(w);
            }
            else
            {
              w.t += el;
              w.tasks->update_tasks(*w.traj, w.t);
              w.com = w.traj->get_p_world_CoM(w.t + w.com_delay) + offset(w);
            }
            ctx.sim_time += el;
            w.L = w.traj->get_T_world_left(w.t);
            w.R = w.traj->get_T_world_right(w.t);
            w.trunk = w.traj->get_R_world_trunk(w.t);
            check_targets(w, ctx, "update_tasks()");
            bool ok = solve(w, ctx, ev, i == bad);
            w.settled = ok && ev.kind == "walk" ? w.settled + 1 : 0;
            if (!ok)
              ctx.hit("tick-failed");
            double a, b, d, e;
            errors(w, a, b, d, e);
            for (auto& nme : robot->joint_names())
            {
              int k = robot->get_joint_offset(nme);
              if (robot->state.q[k] < w.ref.m.lowerPositionLimit[k] + 1e-3 || robot->state.q[k] > w.ref.m.upperPositionLimit[k] - 1e-3)
                w.settled = 0;  // a joint limit stands in the way
            }
            if (w.settled > 6 && ev.kind == "walk" && !w.trunk_mode)
            {
              // one Gauss-Newton step per tick: what is left is of the second order of the motion of a tick
              ctx.checkf(a < 4e-3 && b < 2e-2 && d < 2e-3 && e < 2e-2, "tracking",
                         [&] { return fmt("t=%.3f: the robot does not follow the walk: feet %.3g m %.3g rad, CoM %.3g m, trunk %.3g rad", w.t, a, b, d, e); });
              ctx.hit("tracked");
            }
          }
        }
        if (ev.kind == "errors" && w.have)
        {
          robot->update_kinematics();
          w.tasks->update_com_task();
          w.trunk_mode = w.tasks->trunk_mode;
          if (w.trunk_mode)
            w.com = w.tasks->trunk_task->target_world;
          else
            w.com = w.tasks->com_task->target_world;
          w.ref.set(robot->state.q);
          // the tasks compute their error when they are updated by a solve
          solve(w, ctx, ev, false);
          int l = frame_id(w.ref.m, "left_foot"), rf = frame_id(w.ref.m, "right_foot"), tk = frame_id(w.ref.m, "trunk");
          std::map<std::string, Vector3d> want;
          auto rot = [&](const Matrix3d& a, const Matrix3d& b) { return Vector3d(pinocchio::log3(Matrix3d(a * b.transpose()))); };
          want["left_foot_position"] = w.L.translation() - w.ref.pos(l);
          want["right_foot_position"] = w.R.translation() - w.ref.pos(rf);
          want["left_foot_orientation"] = rot(w.L.linear(), w.ref.rot(l));
          want["right_foot_orientation"] = rot(w.R.linear(), w.ref.rot(rf));
          want["trunk_orientation"] = rot(w.trunk, w.ref.rot(tk));
          want[w.trunk_mode ? "trunk_position" : "com_position"] = w.com - (w.trunk_mode ? w.ref.pos(tk) : w.ref.com());
          if (!solve(w, ctx, ev, false))
            continue;
          auto e = w.tasks->get_tasks_error();
          ctx.check(e.size() == want.size(), "errors", "get_tasks_error() does not report each task once");
          for (auto& kv : want)
          {
            ctx.check(e.count(kv.first) == 1, "errors", "get_tasks_error() does not report " + kv.first);
            double d = std::fabs(e[kv.first].norm() - kv.second.norm());
            ctx.checkf(d < 1e-6, "errors", [&] { return fmt("get_tasks_error(): the error of %s is %.3g instead of %.3g", kv.first.c_str(), e[kv.first].norm(), kv.second.norm()); });
          }
          ctx.hit("errors");
        }
        ctx.mixv(robot->state.q);
        ctx.state(ev.kind + "/" + ev.fault + (w.trunk_mode ? "/trunk" : "/com") + (w.com_delay ? "/delay" : "") + (w.settled > 6 ? "/settled" : ""));
        const char* err = mem::error();
        ctx.check(!err, "heap", err ? err : "");
      }
      w.tasks->remove_tasks();
      ctx.check(task_count(w) == w.extra, "task-set", "remove_tasks() leaves walk tasks in the solver");
    }
    const char* err = mem::error();
    ctx.check(!err, "heap", err ? err : "");
    mem::end();
  }
};
SIM_SCENARIO("human_tasks", Tasks);

// ================================================================= P24
struct Dummy : Scenario
{
  HumanoidRobot* robot;
  void setup() override
  {
    robot = new HumanoidRobot("", FLAGS, humanoid(false));
  }
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> kinds = { "step", "update", "sweep", "place", "reset", "params", "push" };
    std::vector<double> w = { 4, 4, 2, 1.5, 0.3, 0.3, 0.5 };
    for (auto& x : w)
      if (r.chance(0.3))
        x *= 0.2;
    int n = r.between(3, thorough ? 30 : 14);
    double pf = r.chance(0.4) ? 0.2 : 0;
    std::vector<std::string> f = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw" };
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted(w)];
      e.sub = r.next();
      if (e.kind == "update" && r.chance(pf))
        e.fault = r.pick(f);
      p.ev.push_back(e);
    }
    return p;
  }
  struct W
  {
    robots::Ref ref;
    HumanoidParameters params;
    std::unique_ptr<DummyWalk> walk;
    Affine3d L, R, N;
    bool left = false;
    double dx = 0, dy = 0, dth = 0;
    double phase = 0;
    double height = 0, rise = 0;  // lift parameters at the last reset
    W(const pinocchio::Model& m) : ref(m)
    {
    }
  };
  void next(W& w)
  {
    FootstepsPlannerRepetitive pl(w.params);
    pl.configure(w.dx, w.dy, w.dth, 2);
    w.N = pl.plan(w.left ? HumanoidRobot::Right : HumanoidRobot::Left, w.L, w.R)[2].frame;
  }
  void compare(W& w, Ctx& ctx, const std::string& when)
  {
    DummyWalk& d = *w.walk;
    ctx.check(d.support_left == w.left, "support", "after " + when + " the support is not the expected foot");
    double e = std::max(std::max(diff(d.T_world_left, w.L), diff(d.T_world_right, w.R)), diff(d.T_world_next, w.N));
    ctx.checkf(e < 1e-9, "feet", [&] { return fmt("after %s a foot of the dummy walk is %.3g away from where it must be", when.c_str(), e); });
    ctx.check(d.dx == w.dx && d.dy == w.dy && d.dtheta == w.dth, "command", "after " + when + " the last command is not the one given");
    for (auto& T : { d.T_world_left, d.T_world_right, d.T_world_next })
      ctx.check(std::fabs(T.translation().z()) < 1e-9 && std::fabs(T.linear()(2, 2) - 1) < 1e-9, "feet", "a footstep of the dummy walk is not on the floor");
  }
  double lift(W& w, double t)
  {
    double a = 0.5 - w.rise / 2, b = 0.5 + w.rise / 2;
    if (t >= a && t <= b)
      return w.height;
    double u = t < a ? t / a : (1 - t) / (1 - b);
    return w.height * (3 * u * u - 2 * u * u * u);
  }
  void targets(W& w, Ctx& ctx, double t, Affine3d& L, Affine3d& R, Affine3d& T)
  {
    L = w.L;
    R = w.R;
    Affine3d& F = w.left ? R : L;
    Affine3d S = F;
    F.translation() = S.translation() + t * (w.N.translation() - S.translation());
    double y0 = std::atan2(S.linear()(1, 0), S.linear()(0, 0)), y1 = std::atan2(w.N.linear()(1, 0), w.N.linear()(0, 0));
    F.linear() = planar(0, 0, y0 + t * std::atan2(std::sin(y1 - y0), std::cos(y1 - y0))).linear();
    Vector3d mid = (L.translation() + F.translation()) / 2;
    mid = (L.translation() + R.translation()) / 2;
    double yl = std::atan2(L.linear()(1, 0), L.linear()(0, 0)), yr = std::atan2(R.linear()(1, 0), R.linear()(0, 0));
    T = planar(mid.x(), mid.y(), yl + std::atan2(std::sin(yr - yl), std::cos(yr - yl)) / 2);
    T = T * Eigen::Translation3d(w.walk->trunk_x_offset, 0, w.params.walk_com_height) * Eigen::AngleAxisd(w.params.walk_trunk_pitch, Vector3d::UnitY());
    F.translation().z() = lift(w, t);
  }
  bool update(W& w, Ctx& ctx, double t, const Event& ev, int nth)
  {
    qp::Fault f = nth ? qp::fault_from(ev.fault) : qp::None;
    if (f)
      qp::arm(f, nth);
    bool ok = true;
    try
    {
      w.walk->update(t);
    }
    catch (std::runtime_error&)
    {
      ok = false;
    }
    catch (std::bad_alloc&)
    {
      ok = false;
    }
    bool fired = qp::disarm();
    if (fired)
    {
      ctx.fault(ev.fault);
      ctx.check(!ok, "failure-swallowed", "update() returned although its QP was not solved");
    }
    else
      ctx.check(ok, "update-refused", "update() of the dummy walk failed");
    Affine3d L, R, T;
    targets(w, ctx, t, L, R, T);
    DummyWalk& d = *w.walk;
    double e = std::max(std::max(diff(d.left_foot_task.get_T_world_frame(), L), diff(d.right_foot_task.get_T_world_frame(), R)), diff(d.trunk_task.get_T_world_frame(), T));
    ctx.checkf(e < 1e-6, "targets", [&] { return fmt("phase %.3f: the targets of the dummy walk are %.3g away from the step", t, e); });
    compare(w, ctx, "update()");
    return ok;
  }
  void tracking(W& w, Ctx& ctx, double t, const Event& ev)
  {
    // the inverse kinematics gets there within a few updates
    Affine3d L, R, T;
    targets(w, ctx, t, L, R, T);
    double e = 1e9, a = 1e9;
    int n = 0;
    for (; n < 10; n++)
    {
      w.ref.set(robot->state.q);
      int l = frame_id(w.ref.m, "left_foot"), rr = frame_id(w.ref.m, "right_foot"), k = frame_id(w.ref.m, "trunk");
      e = std::max(std::max((w.ref.pos(l) - L.translation()).norm(), (w.ref.pos(rr) - R.translation()).norm()), (w.ref.pos(k) - T.translation()).norm());
      auto ang = [&](const Matrix3d& x, const Matrix3d& y) { return Eigen::AngleAxisd(x.transpose() * y).angle(); };
      a = std::max(std::max(ang(w.ref.rot(l), L.linear()), ang(w.ref.rot(rr), R.linear())), ang(w.ref.rot(k), T.linear()));
      if (e < 1e-3 && a < 5e-3)
        break;
      update(w, ctx, t, ev, 0);
    }
    ctx.hit(fmt("converged-%02d", n));
    ctx.checkf(e < 1e-3 && a < 5e-3, "tracking", [&] { return fmt("phase %.3f: the robot does not reach the step: %.3g m, %.3g rad", t, e, a); });
    for (auto& nme : robot->joint_names())
    {
      int k = robot->get_joint_offset(nme);
      ctx.check(robot->state.q[k] > w.ref.m.lowerPositionLimit[k] - 2e-2 && robot->state.q[k] < w.ref.m.upperPositionLimit[k] + 2e-2, "limits", "the dummy walk moves a joint out of its limits");
    }
  }
  void draw(W& w, Rng& c)
  {
    HumanoidParameters& p = w.params;
    p.walk_foot_height = c.uni(0.02, 0.05);
    p.walk_foot_rise_ratio = c.uni(0.1, 0.5);
    p.walk_com_height = c.uni(0.25, 0.31);
    p.walk_trunk_pitch = c.uni(-0.05, 0.2);
    p.feet_spacing = c.uni(0.12, 0.15);
    p.foot_length = 0.18;
    p.foot_width = 0.08;
    p.walk_max_dx_forward = 0.08;
    p.walk_max_dx_backward = 0.05;
    p.walk_max_dy = 0.04;
    p.walk_max_dtheta = 0.35;
  }
  void was_reset(W& w, bool left)
  {
    w.left = left;
    w.L = planar(0, w.params.feet_spacing / 2, 0);
    w.R = planar(0, -w.params.feet_spacing / 2, 0);
    w.dx = w.dy = w.dth = 0;
    w.height = w.params.walk_foot_height;
    w.rise = w.params.walk_foot_rise_ratio;
    w.phase = 0;
    next(w);
  }
  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng c(plan.config);
    mem::begin(mem::random_env(c));
    rnd::seed(c.next());
    {
      W w(robot->model);
      draw(w, c);
      w.walk.reset(new DummyWalk(*robot, w.params));
      was_reset(w, false);
      compare(w, ctx, "the construction");
      for (auto& ev : plan.ev)
      {
        Rng r(ev.sub);
        ctx.steps++;
        if (ev.kind == "step")
        {
          w.dx = r.uni(-0.06, 0.1);
          w.dy = r.uni(-0.05, 0.05);
          w.dth = r.uni(-0.4, 0.4);
          if (r.chance(0.2))
            w.dx = w.dy = w.dth = 0;
          (w.left ? w.R : w.L) = w.N;
          w.left = !w.left;
          next(w);
          w.walk->next_step(w.dx, w.dy, w.dth);
          compare(w, ctx, "next_step()");
          w.phase = 0;
        }
        else if (ev.kind == "update")
        {
          w.phase = r.chance(0.2) ? 0 : (r.chance(0.2) ? 1 : r.uni());
          bool ok = update(w, ctx, w.phase, ev, r.between(1, 4));
          if (ok && r.chance(0.5))
            tracking(w, ctx, w.phase, ev);
        }
        else if (ev.kind == "sweep")
        {
          int n = r.between(3, 8);
          for (int i = 0; i <= n; i++)
            update(w, ctx, (double)i / n, ev, 0);
          w.phase = 1;
          ctx.sim_time += 0.5;
          tracking(w, ctx, 1, ev);
        }
        else if (ev.kind == "place")
        {
          Affine3d T = planar(r.uni(-2, 2), r.uni(-2, 2), r.uni(-3.14, 3.14));
          if (r.chance(0.5))
          {
            T.translation().z() = r.uni(-0.1, 0.1);
            T.linear() = T.linear() * robots::random_rot(r, 0.2);
          }
          VectorXd q0 = robot->state.q;
          Affine3d M = flat(T) * (w.left ? w.L : w.R).inverse();
          w.L = M * w.L;
          w.R = M * w.R;
          w.N = M * w.N;
          w.walk->update_T_world_support(T);
          compare(w, ctx, "update_T_world_support()");
          ctx.check(close(q0.tail(q0.size() - 7), robot->state.q.tail(q0.size() - 7), 1e-12), "place", "update_T_world_support() moved the joints");
          w.ref.set(robot->state.q);
          int f = frame_id(w.ref.m, w.left ? "left_foot" : "right_foot");
          ctx.check(diff(pose(w.ref, f), flat(T)) < 1e-6, "place", "update_T_world_support() does not put the support foot there");
          ctx.check(diff(robot->get_T_world_frame(w.left ? "left_foot" : "right_foot"), flat(T)) < 1e-6, "place", "after update_T_world_support() the kinematics are stale");
          // keeps rounding from accumulating
          w.L = w.walk->T_world_left;
          w.R = w.walk->T_world_right;
          w.N = w.walk->T_world_next;
          ctx.hit("placed");
        }
        else if (ev.kind == "reset" || ev.kind == "params")
        {
          if (ev.kind == "params")
            draw(w, r);
          bool left = r.chance(0.5);
          w.walk->reset(left);
          was_reset(w, left);
          compare(w, ctx, "reset()");
          w.ref.set(robot->state.q);
        }
        else if (ev.kind == "push")
        {
          for (auto& n : robot->joint_names())
            robot->set_joint(n, robot->get_joint(n) + r.uni(-0.1, 0.1));
          robot->update_kinematics();
          ctx.fault("push");
        }
        ctx.mixv(robot->state.q);
        ctx.state(ev.kind + "/" + ev.fault + (w.left ? "/left" : "/right") + "/" + std::to_string((int)(w.phase * 4)));
        const char* err = mem::error();
        ctx.check(!err, "heap", err ? err : "");
      }
    }
    const char* err = mem::error();
    ctx.check(!err, "heap", err ? err : "");
    mem::end();
  }
};
SIM_SCENARIO("human_dummy", Dummy);
}  // namespace
