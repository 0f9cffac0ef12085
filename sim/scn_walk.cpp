// P12-P15, P25: a walk controller in simulated time. Footsteps are planned, turned into supports and a walk
// trajectory, and replanned mid-step while commands change, odometry drifts, pushes arrive and the QP solver fails.
#include "core.h"
#include "robots.h"
#include "refqp.h"
#include "placo/humanoid/walk_pattern_generator.h"
#include "placo/humanoid/footsteps_planner_naive.h"
#include "placo/humanoid/footsteps_planner_repetitive.h"
#include <memory>

using namespace sim;
using namespace placo::humanoid;
using robots::Affine3d;
using robots::Matrix3d;
using robots::MatrixXd;
using robots::Vector3d;
using robots::VectorXd;
using Eigen::Vector2d;
using Side = HumanoidRobot::Side;
using Support = FootstepsPlanner::Support;
using Footstep = FootstepsPlanner::Footstep;
using Traj = WalkPatternGenerator::Trajectory;

namespace
{
enum Mode
{
  PLAN,
  REPLAN,
  QUERY,
  STEPS,
  ADAPT
};

static Affine3d planar(double x, double y, double yaw)
{
  Affine3d T = Affine3d::Identity();
  T.translation() = Vector3d(x, y, 0);
  T.linear() = Eigen::AngleAxisd(yaw, Vector3d::UnitZ()).toRotationMatrix();
  return T;
}
static double yaw_of(const Matrix3d& R)
{
  return std::atan2(R(1, 0), R(0, 0));
}
static double wrap(double a)
{
  return std::atan2(std::sin(a), std::cos(a));
}
static Side other(Side s)
{
  return s == HumanoidRobot::Left ? HumanoidRobot::Right : HumanoidRobot::Left;
}
static double diff(const Affine3d& a, const Affine3d& b)
{
  return (a.matrix() - b.matrix()).cwiseAbs().maxCoeff();
}

// ---- geometry, computed by the harness from the footstep frames only
static double cross(const Vector2d& o, const Vector2d& a, const Vector2d& b)
{
  return (a.x() - o.x()) * (b.y() - o.y()) - (a.y() - o.y()) * (b.x() - o.x());
}
static std::vector<Vector2d> hull(std::vector<Vector2d> p)  // counter-clockwise
{
  std::sort(p.begin(), p.end(), [](const Vector2d& a, const Vector2d& b) { return a.x() < b.x() || (a.x() == b.x() && a.y() < b.y()); });
  std::vector<Vector2d> h(2 * p.size());
  int k = 0;
  for (size_t i = 0; i < p.size(); i++)
  {
    while (k >= 2 && cross(h[k - 2], h[k - 1], p[i]) <= 1e-12)
      k--;
    h[k++] = p[i];
  }
  for (int i = (int)p.size() - 2, t = k + 1; i >= 0; i--)
  {
    while (k >= t && cross(h[k - 2], h[k - 1], p[i]) <= 1e-12)
      k--;
    h[k++] = p[i];
  }
  h.resize(k - 1);
  return h;
}
static std::vector<Vector2d> corners(const Footstep& f, double margin = 0)
{
  std::vector<Vector2d> p;
  for (int sx : { -1, 1 })
    for (int sy : { -1, 1 })
      p.push_back((f.frame * Vector3d(sx * (f.foot_length / 2 + margin), sy * (f.foot_width / 2 + margin), 0)).head(2));
  return p;
}
static std::vector<Vector2d> support_hull(const Support& s)
{
  std::vector<Vector2d> p;
  for (auto& f : s.footsteps)
    for (auto& c : corners(f))
      p.push_back(c);
  return hull(p);
}
// half planes n.p + d >= 0, n unit pointing inside
struct Half
{
  Vector2d n;
  double d;
};
static std::vector<Half> halves(const std::vector<Vector2d>& ccw)
{
  std::vector<Half> h;
  for (size_t i = 0; i < ccw.size(); i++)
  {
    Vector2d a = ccw[i], b = ccw[(i + 1) % ccw.size()];
    Vector2d e = b - a;
    if (e.norm() < 1e-9)
      continue;
    Vector2d n(-e.y(), e.x());
    n.normalize();
    h.push_back({ n, -n.dot(a) });
  }
  return h;
}
static double inside(const std::vector<Half>& h, const Vector2d& p)  // distance to the border, negative outside
{
  double d = 1e9;
  for (auto& x : h)
    d = std::min(d, x.n.dot(p) + x.d);
  return d;
}
static Vector2d project(const std::vector<Half>& h, double margin, const Vector2d& p)
{
  if (inside(h, p) >= margin)
    return p;
  Vector2d best(0, 0);
  double bd = 1e18;
  auto consider = [&](const Vector2d& c) {
    if (inside(h, c) >= margin - 1e-9 && (c - p).norm() < bd)
    {
      bd = (c - p).norm();
      best = c;
    }
  };
  for (auto& x : h)
    consider(p - x.n * (x.n.dot(p) + x.d - margin));
  for (size_t i = 0; i < h.size(); i++)
    for (size_t j = i + 1; j < h.size(); j++)
    {
      Eigen::Matrix2d M;
      M << h[i].n.transpose(), h[j].n.transpose();
      if (std::fabs(M.determinant()) > 1e-6)
        consider(M.inverse() * Vector2d(margin - h[i].d, margin - h[j].d));
    }
  return best;
}
static Affine3d support_frame(const Support& s)
{
  Affine3d T = s.footsteps[0].frame;
  if (s.footsteps.size() == 2)
  {
    double y0 = yaw_of(s.footsteps[0].frame.linear()), y1 = yaw_of(s.footsteps[1].frame.linear());
    Vector3d p = (s.footsteps[0].frame.translation() + s.footsteps[1].frame.translation()) / 2;
    T = planar(p.x(), p.y(), y0 + wrap(y1 - y0) / 2);
    T.translation().z() = p.z();
  }
  return T;
}
static bool has_side(const Support& s, Side side)
{
  for (auto& f : s.footsteps)
    if (f.side == side)
      return true;
  return false;
}
static Affine3d foot_of(const Support& s, Side side)
{
  for (auto& f : s.footsteps)
    if (f.side == side)
      return f.frame;
  throw Violation("supports", "a support does not contain the foot the next step lands on");
}

// Everything a trajectory answers, at one time
struct Sample
{
  Affine3d left, right;
  Vector3d com, vcom, acom, jcom, vleft, vright;
  Vector2d dcm, zmp;
  Matrix3d trunk;
  double yl, yr, yt;
  bool both, fl, fr;
  int remaining;
  double p0, p1;
};
static Sample sample(Traj& t, double time, double omega)
{
  Sample s;
  s.left = t.get_T_world_left(time);
  s.right = t.get_T_world_right(time);
  s.com = t.get_p_world_CoM(time);
  s.vcom = t.get_v_world_CoM(time);
  s.acom = t.get_a_world_CoM(time);
  s.jcom = t.get_j_world_CoM(time);
  s.vleft = t.get_v_world_left(time);
  s.vright = t.get_v_world_right(time);
  s.dcm = t.get_p_world_DCM(time, omega);
  s.zmp = t.get_p_world_ZMP(time, omega);
  s.trunk = t.get_R_world_trunk(time);
  s.yl = t.get_yaw_world_left(time);
  s.yr = t.get_yaw_world_right(time);
  s.yt = t.get_yaw_world_trunk(time);
  s.both = t.support_is_both(time);
  s.fl = t.is_flying(HumanoidRobot::Left, time);
  s.fr = t.is_flying(HumanoidRobot::Right, time);
  s.remaining = t.remaining_supports(time);
  s.p0 = t.get_part_t_start(time);
  s.p1 = t.get_part_t_end(time);
  return s;
}
static const char* first_difference(const Sample& a, const Sample& b, double tol, bool parts = true)
{
  if (diff(a.left, b.left) > tol)
    return "the left foot's pose";
  if (diff(a.right, b.right) > tol)
    return "the right foot's pose";
  if ((a.com - b.com).norm() > tol)
    return "the CoM position";
  if ((a.vcom - b.vcom).norm() > tol * 10)
    return "the CoM velocity";
  if ((a.acom - b.acom).norm() > tol * 100)
    return "the CoM acceleration";
  if ((a.jcom - b.jcom).norm() > tol * 1000)
    return "the CoM jerk";
  if ((a.vleft - b.vleft).norm() > tol * 10)
    return "the left foot's velocity";
  if ((a.vright - b.vright).norm() > tol * 10)
    return "the right foot's velocity";
  if ((a.dcm - b.dcm).norm() > tol * 10)
    return "the DCM";
  if ((a.zmp - b.zmp).norm() > tol * 10)
    return "the ZMP";
  if ((a.trunk - b.trunk).norm() > tol)
    return "the trunk's orientation";
  if (std::fabs(wrap(a.yl - b.yl)) > tol || std::fabs(wrap(a.yr - b.yr)) > tol || std::fabs(wrap(a.yt - b.yt)) > tol)
    return "a yaw";
  if (a.both != b.both || a.fl != b.fl || a.fr != b.fr)
    return "the support";
  if (a.remaining != b.remaining)
    return "the number of remaining supports";
  if (parts && (std::fabs(a.p0 - b.p0) > 1e-9 || std::fabs(a.p1 - b.p1) > 1e-9))
    return "the part's times";
  return nullptr;
}

struct World
{
  HumanoidRobot& robot;
  HumanoidParameters params;
  std::unique_ptr<WalkPatternGenerator> wpg;
  std::unique_ptr<FootstepsPlannerRepetitive> rep;
  std::unique_ptr<FootstepsPlannerNaive> naive;
  bool use_naive = false;
  std::unique_ptr<Traj> traj;
  double t = 0, t_last = 0, omega = 1;
  double dx = 0, dy = 0, dth = 0;
  int steps = 3;
  bool nominal = false;
  Affine3d target_left, target_right;
  explicit World(HumanoidRobot& r) : robot(r)
  {
  }
  FootstepsPlanner& planner()
  {
    if (use_naive)
      return *naive;
    return *rep;
  }
};

struct WalkScenario : Scenario
{
  Mode mode;
  HumanoidRobot* robot = nullptr;
  WalkScenario(Mode m) : mode(m)
  {
  }
  void setup() override
  {
    robot = new HumanoidRobot("", HumanoidRobot::IGNORE_COLLISIONS | HumanoidRobot::COLLISION_AS_VISUAL, robots::urdf("sigmaban"));
  }

  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    std::vector<std::string> kinds = { "cmd", "start", "wait", "replan", "adapt", "drift", "query", "copy", "params" };
    std::vector<double> w = { 1.5, 0.7, 3, 4, 0.3, 0.6, 0.8, 0.2, 0.2 };
    if (mode == PLAN)
      w = { 2, 4, 1, 1, 0.3, 0.3, 0.5, 0.1, 0.5 };
    if (mode == QUERY)
      w = { 1, 0.7, 2, 1.5, 0.2, 2, 5, 0.5, 0.1 };
    if (mode == STEPS)
      w = { 4, 4, 1, 2.5, 0.3, 0.3, 0, 0, 0.7 };
    if (mode == ADAPT)
      w = { 1, 0.7, 3, 0.7, 5, 0.3, 0, 0, 0.1 };
    for (auto& x : w)
      if (r.chance(0.25))
        x *= 0.3;
    int n = r.between(4, thorough ? 24 : 10);
    double pf = mode == REPLAN ? 0.25 : (r.chance(0.3) ? 0.1 : 0);
    std::vector<std::string> faults = { "qp-infeasible", "qp-infeasible-garbage", "qp-nan", "qp-throw" };
    p.ev.push_back({ "start", r.next(), "-" });
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = kinds[r.weighted(w)];
      e.sub = r.next();
      if ((e.kind == "replan" || e.kind == "start" || e.kind == "adapt") && r.chance(pf))
        e.fault = r.pick(faults);
      p.ev.push_back(e);
    }
    return p;
  }

  void draw_params(World& w, Rng& r)
  {
    auto& p = w.params;
    w.nominal = r.chance(0.3);
    if (w.nominal)
      p = HumanoidParameters();
    p.single_support_duration = w.nominal ? r.uni(0.3, 0.5) : r.uni(0.2, 0.9);
    p.single_support_timesteps = r.between(5, 10);
    bool dbl = mode == ADAPT ? r.chance(0.1) : r.chance(0.5);
    p.double_support_ratio = dbl ? r.uni(0.2, 1.) : 0.;
    p.startend_double_support_ratio = w.nominal ? r.uni(1.5, 2.5) : r.uni(0.7, 3.);
    p.foot_width = r.uni(0.06, 0.12);
    p.foot_length = r.uni(0.1, 0.2);
    p.zmp_margin = r.chance(0.2) ? 0. : r.uni(0.005, 0.4 * p.foot_width);
    p.feet_spacing = p.foot_width + r.uni(0.03, 0.1);
    p.walk_com_height = r.uni(0.25, 0.7);
    p.walk_foot_height = r.uni(0.02, 0.1);
    p.walk_foot_rise_ratio = r.chance(0.2) ? 0. : r.uni(0.05, 0.8);
    p.walk_trunk_pitch = r.chance(0.3) ? 0. : r.uni(-0.3, 0.3);
    p.walk_max_dx_forward = r.uni(0.04, 0.15);
    p.walk_max_dx_backward = r.uni(0.02, 0.1);
    p.walk_max_dy = r.uni(0.02, 0.08);
    p.walk_max_dtheta = r.uni(0.1, 0.6);
    p.walk_dtheta_spacing = r.chance(0.3) ? 0. : r.uni(0., 0.08);
    bool off = r.chance(0.5);
    p.foot_zmp_target_x = off ? r.uni(-0.2, 0.2) * (p.foot_length - 2 * p.zmp_margin) : 0.;
    p.foot_zmp_target_y = off ? r.uni(-0.2, 0.2) * (p.foot_width - 2 * p.zmp_margin) : 0.;
    p.zmp_reference_weight = std::pow(10., r.uni(-2, 1));
    // where the flying foot can land, seen from a right support foot; and where the DCM can end, seen from the next
    // support (left support): clockwise
    double x0 = r.uni(0.1, 0.3), ya = p.feet_spacing - r.uni(0.0, 0.03), yb = p.feet_spacing + r.uni(0.05, 0.2);
    p.op_space_polygon = { { -x0, ya }, { -x0, yb }, { x0, yb }, { x0, ya } };
    double x1 = r.uni(0.03, 0.2), yc = r.uni(-0.02, 0.03), yd = r.uni(0.05, 0.15);
    p.dcm_offset_polygon = { { -x1, yc }, { -x1, yd }, { x1, yd }, { x1, yc } };
    w.omega = std::sqrt(9.80665 / p.walk_com_height);
    w.wpg.reset(new WalkPatternGenerator(w.robot, p));
    w.wpg->soft = !w.nominal && r.chance(0.2);
    if (w.wpg->soft && r.chance(0.5))
    {
      double low = r.chance(0.5) ? 1 : -2;
      w.wpg->zmp_in_support_weight = std::pow(10., r.uni(low, 4));
      w.wpg->stop_end_support_weight = std::pow(10., r.uni(low, 4));
    }
    w.rep.reset(new FootstepsPlannerRepetitive(p));
    w.naive.reset(new FootstepsPlannerNaive(p));
    w.rep->footstep_clipping = (HumanoidParameters::FootstepClipping)r.range(3);
  }
  void draw_command(World& w, Rng& r)
  {
    auto& p = w.params;
    double k = r.chance(0.3) ? 3. : 1.;  // also beyond what the robot can do
    w.dx = r.chance(0.2) ? 0 : k * r.uni(-p.walk_max_dx_backward, p.walk_max_dx_forward);
    w.dy = r.chance(0.3) ? 0 : k * r.uni(-p.walk_max_dy, p.walk_max_dy);
    w.dth = r.chance(0.3) ? 0 : k * r.uni(-p.walk_max_dtheta, p.walk_max_dtheta);
    w.steps = r.between(1, mode == STEPS ? 12 : 6);
    w.use_naive = mode == STEPS ? r.chance(0.4) : r.chance(0.15);
    configure(w, r);
  }
  void configure(World& w, Rng& r)
  {
    w.rep->configure(w.dx, w.dy, w.dth, w.steps);
    Affine3d c = planar(r.uni(-0.4, 0.4), r.uni(-0.3, 0.3), r.uni(-M_PI, M_PI));
    if (mode == STEPS && r.chance(0.25))
    {
      double far = r.chance(0.2) ? 12 : 3;
      c = planar(r.uni(-far, far), r.uni(-far, far), r.uni(-M_PI, M_PI));
    }
    if (w.traj)
    {
      Affine3d l = w.traj->get_T_world_left(w.t);
      c = planar(l.translation().x(), l.translation().y(), yaw_of(l.linear())) * planar(r.uni(-0.3, 0.4), r.uni(-0.3, 0.2), r.uni(-0.6, 0.6));
    }
    w.target_left = c * planar(0, w.params.feet_spacing / 2, 0);
    w.target_right = c * planar(0, -w.params.feet_spacing / 2, 0);
    w.naive->configure(w.target_left, w.target_right);
  }

  // ------------------------------------------------------------ footsteps (P15)
  double clip_norm(World& w, const Vector3d& s, int clip)
  {
    auto& p = w.params;
    double x = s.x() / (s.x() >= 0 ? p.walk_max_dx_forward : p.walk_max_dx_backward), y = s.y() / p.walk_max_dy, z = s.z() / p.walk_max_dtheta;
    if (clip == HumanoidParameters::Ellipsoid)
      return std::sqrt(x * x + y * y + z * z);
    if (clip == HumanoidParameters::Box)
      return std::fabs(x) + std::fabs(y) + std::fabs(z);
    return std::sqrt(x * x + y * y) + std::fabs(z);
  }
  // displacement of b with respect to the neutral position beside a, in a's frame
  Vector3d step_of(World& w, const Footstep& a, const Footstep& b)
  {
    Affine3d T = a.frame.inverse() * b.frame;
    double off = a.side == HumanoidRobot::Left ? -w.params.feet_spacing : w.params.feet_spacing;
    return Vector3d(T.translation().x(), T.translation().y() - off, yaw_of(T.linear()));
  }
  double overlap(const Footstep& a, const Footstep& b, double margin)  // >0: a corner of one is that deep inside the other
  {
    double d = -1e9;
    auto ha = halves(hull(corners(a, margin))), hb = halves(hull(corners(b, margin)));
    for (auto& c : corners(a, margin))
      d = std::max(d, inside(hb, c));
    for (auto& c : corners(b, margin))
      d = std::max(d, inside(ha, c));
    return d;
  }
  // the step a planner would make, asked from the parameters; neutral and opposite frames
  void check_clips(World& w, Ctx& ctx, Rng& r)
  {
    auto& p = w.params;
    Side side = r.chance(0.5) ? HumanoidRobot::Left : HumanoidRobot::Right;
    int clip = r.range(3);
    double k = r.chance(0.3) ? 3. : 1.;
    Vector3d cmd(k * r.uni(-p.walk_max_dx_backward, p.walk_max_dx_forward), k * r.uni(-p.walk_max_dy, p.walk_max_dy), k * r.uni(-p.walk_max_dtheta, p.walk_max_dtheta));
    Vector3d got = clip == HumanoidParameters::Ellipsoid ? p.ellipsoid_overlap_clip(side, cmd) : (clip == HumanoidParameters::Box ? p.box_overlap_clip(side, cmd) : p.conic_overlap_clip(side, cmd));
    FootstepsPlannerRepetitive pl(p);
    pl.footstep_clipping = (HumanoidParameters::FootstepClipping)clip;
    pl.configure(cmd.x(), cmd.y(), cmd.z(), 3);
    Affine3d L = planar(0.3, 0.2, 0.4), R = L * planar(0, -p.feet_spacing, 0);
    auto fs = pl.plan(other(side), L, R);
    Vector3d want = step_of(w, fs[1], fs[2]);
    ctx.check(fs[1].side == side && (got - want).norm() < 1e-9, "overlap-clip", "the overlap clip of the parameters is not the step the planner makes");
    ctx.check(clip_norm(w, got, clip) < 1 + 1e-6, "overlap-clip", "the overlap clip exceeds the walk limits");
    double sg = side == HumanoidRobot::Left ? -1 : 1;
    Affine3d T = planar(r.uni(-1, 1), r.uni(-1, 1), r.uni(-M_PI, M_PI));
    double x = r.uni(-1, 1), y = r.uni(-1, 1), th = r.uni(-2, 2);
    ctx.check(diff(p.opposite_frame(side, T, x, y, th), T * planar(x, sg * p.feet_spacing + y, th)) < 1e-9, "opposite-frame", "opposite_frame() is not the place of the other foot");
    ctx.check(diff(p.neutral_frame(side, T, x, y, th), T * planar(x, sg * p.feet_spacing / 2 + y, th)) < 1e-9, "neutral-frame", "neutral_frame() is not the middle of the feet");
    // clips by themselves: never out of the limits, nothing changed within them, and the direction kept
    Vector3d c = clip == HumanoidParameters::Ellipsoid ? p.ellipsoid_clip(cmd) : (clip == HumanoidParameters::Box ? p.box_clip(cmd) : p.conic_clip(cmd));
    double n = clip_norm(w, cmd, clip);
    ctx.check((c - (n > 1 ? Vector3d(cmd / n) : cmd)).norm() < 1e-9, "clip", "a clipped step is not the command scaled into the walk limits");
  }
  void check_footsteps(World& w, Ctx& ctx, const std::vector<Footstep>& fs, Side flying, const Affine3d& L, const Affine3d& R)
  {
    auto& p = w.params;
    ctx.check(fs.size() >= 2, "footsteps", "the plan misses the initial footsteps");
    for (size_t i = 0; i < fs.size(); i++)
    {
      ctx.check(fs[i].side == (i % 2 == 0 ? flying : other(flying)), "alternate", "the planned footsteps do not alternate sides from the first flying foot");
      ctx.check(fs[i].foot_width == p.foot_width && fs[i].foot_length == p.foot_length, "foot-size", "a planned footstep does not have the robot's foot size");
    }
    ctx.check(diff(fs[0].frame, flying == HumanoidRobot::Left ? L : R) < 1e-9 && diff(fs[1].frame, flying == HumanoidRobot::Left ? R : L) < 1e-9,
              "initial-footsteps", "the plan does not start with the current feet");
    for (size_t i = 2; i < fs.size(); i++)
    {
      Vector3d s = step_of(w, fs[i - 1], fs[i]);
      ctx.check(std::fabs(fs[i].frame.translation().z()) < 1e-9 && std::fabs(fs[i].frame.linear()(2, 2) - 1) < 1e-9, "flat",
                "a planned footstep leaves the floor");
      int clip = w.use_naive ? HumanoidParameters::Ellipsoid : w.rep->footstep_clipping;
      double n = clip_norm(w, s, clip);
      ctx.checkf(n < 1 + 1e-6, "step-too-large", [&] { return fmt("planned step (%.4f, %.4f, %.4f) exceeds the walk limits (norm %.4f)", s.x(), s.y(), s.z(), n); });
      if (w.use_naive)
        continue;
      bool last = i + 1 == fs.size();
      Vector3d cmd = last ? Vector3d(0, 0, 0) : Vector3d(w.dx, w.dy, w.dth);
      cmd.y() += (fs[i - 1].side == HumanoidRobot::Left ? -1 : 1) * p.walk_dtheta_spacing * std::fabs(cmd.z());
      double cn = clip_norm(w, cmd, clip);
      Vector3d want = cn > 1 ? Vector3d(cmd / cn) : cmd;
      // scaled down by powers of 0.9 until the feet don't overlap
      Footstep f = fs[i];
      double scale = 1;
      auto place = [&](double k) {
        f.frame = fs[i - 1].frame * planar(k * want.x(), (fs[i - 1].side == HumanoidRobot::Left ? -1 : 1) * p.feet_spacing + k * want.y(), k * want.z());
        return overlap(fs[i - 1], f, 1e-2);
      };
      double o = place(1);
      bool unsure = false;
      for (int k = 0; k < 32 && o > -1e-7; k++)
      {
        unsure = unsure || std::fabs(o) < 1e-7;
        scale *= 0.9;
        o = place(scale);
      }
      if (unsure)
        continue;
      ctx.checkf((s - scale * want).norm() < 1e-6, "wrong-step", [&] {
        return fmt("step %d is (%.4f, %.4f, %.4f); commanded, clipped and kept from overlapping it is (%.4f, %.4f, %.4f)", (int)i, s.x(), s.y(), s.z(), scale * want.x(),
                   scale * want.y(), scale * want.z());
      });
      if (scale > 0.05)
        ctx.check(overlap(fs[i - 1], fs[i], 1e-2) < 1e-7, "overlap", "two consecutive footsteps overlap");
      if (scale < 1)
        ctx.hit("overlap-avoided");
    }
    if (!w.use_naive)
      ctx.checkf((int)fs.size() == 2 + std::max(0, w.steps), "step-count", [&] { return fmt("%d steps were asked, %d planned", w.steps, (int)fs.size() - 2); });
    else
    {
      ctx.check(fs.size() <= 102, "step-count", "the naive planner exceeds its maximum number of steps");
      ctx.hit("naive");
      if (fs.size() < 102)
      {
        // it stopped by itself: both feet are where they were asked to be
        double e = 0;
        for (size_t i = fs.size() - 2; i < fs.size(); i++)
        {
          const Affine3d& T = fs[i].side == HumanoidRobot::Left ? w.target_left : w.target_right;
          e = std::max(e, diff(fs[i].frame, T));
        }
        ctx.checkf(e < 1e-6, "not-arrived", [&] { return fmt("the naive planner stopped after %d steps, %.4f away from the target", (int)fs.size() - 2, e); });
        ctx.hit("naive-arrived");
      }
      else
      {
        ctx.hit("naive-out-of-steps");
        double d = (w.target_left.translation() - L.translation()).norm();
        double need = d / std::min(p.walk_max_dx_forward, std::min(p.walk_max_dx_backward, p.walk_max_dy)) + M_PI / p.walk_max_dtheta;
        ctx.checkf(need > 80, "never-arrives", [&] { return fmt("the naive planner does not reach a target %.2f m away in its 100 steps, %.0f would do", d, need); });
      }
    }
  }
  void check_supports(World& w, Ctx& ctx, const std::vector<Footstep>& fs, const std::vector<Support>& su, double t0, bool start)
  {
    bool middle = w.params.has_double_support();
    size_t n = fs.size(), k = 0;
    auto expect = [&](std::vector<int> idx, bool s, bool e) {
      ctx.check(k < su.size(), "supports", "make_supports() returned too few supports");
      const Support& u = su[k++];
      ctx.check(u.footsteps.size() == idx.size(), "supports", "make_supports(): wrong sequence of single and double supports");
      for (size_t j = 0; j < idx.size(); j++)
        ctx.check(u.footsteps[j].side == fs[idx[j]].side && diff(u.footsteps[j].frame, fs[idx[j]].frame) < 1e-12, "supports",
                  "make_supports(): a support does not hold the planned footsteps");
      ctx.check(u.start == s && u.end == e, "supports", "make_supports(): wrong start/end flag");
      ctx.check(u.elapsed_ratio == 0 || k == 1, "supports", "a future support has already elapsed");
    };
    if (n > 2)
    {
      if (start)
        expect({ 0, 1 }, true, false);
      else
      {
        expect({ 0 }, false, false);
        if (middle)
          expect({ 0, 1 }, false, false);
      }
      ctx.check(su[0].t_start == t0, "supports", "the first support does not start at the given time");
      for (size_t s = 1; s + 1 < n; s++)
      {
        expect({ (int)s }, false, false);
        if (s + 2 < n && middle)
          expect({ (int)s, (int)s + 1 }, false, false);
      }
    }
    expect({ (int)n - 2, (int)n - 1 }, false, true);
    ctx.check(k == su.size(), "supports", "make_supports() returned too many supports");
  }

  // ------------------------------------------------------------ plan (P12)
  struct Init
  {
    Vector2d p, v, a;
  };
  double default_duration(World& w, const Support& s)
  {
    auto& p = w.params;
    double dt = p.single_support_duration / p.single_support_timesteps;
    return default_steps(w, s) * dt;
  }
  int default_steps(World& w, const Support& s)
  {
    auto& p = w.params;
    if (s.footsteps.size() == 1)
      return p.single_support_timesteps;
    return (int)std::round((s.start || s.end ? p.startend_double_support_ratio : p.double_support_ratio) * p.single_support_timesteps);
  }

  void check_plan(World& w, Ctx& ctx, Rng& r, Traj& tr, const std::vector<Support>& su, double t0, const Init& init, Traj* old, const Traj* oldcopy)
  {
    auto& p = w.params;
    ctx.check(tr.parts.size() == su.size(), "parts", "the trajectory does not have one part per support");
    ctx.check(std::fabs(tr.t_start - t0) < 1e-12, "t-start", "the trajectory does not start at the asked time");
    double t = t0;
    struct Step
    {
      int part;
      double t, dt;
    };
    std::vector<Step> steps;
    std::vector<double> node;
    for (size_t i = 0; i < su.size(); i++)
    {
      double d = (1 - su[i].elapsed_ratio) * default_duration(w, su[i]) * su[i].time_ratio;
      ctx.checkf(std::fabs(tr.parts[i].t_start - t) < 1e-9 && std::fabs(tr.parts[i].t_end - (t + d)) < 1e-9, "timing",
                 [&] { return fmt("part %d spans [%.6f, %.6f], its support asks for [%.6f, %.6f]", (int)i, tr.parts[i].t_start, tr.parts[i].t_end, t, t + d); });
      int n = std::max(1, int((1 - su[i].elapsed_ratio) * default_steps(w, su[i])));
      node.push_back(t);
      for (int k = 0; k < n; k++)
        steps.push_back({ (int)i, t + k * d / n, d / n });
      t += d;
    }
    node.push_back(t);
    ctx.check(std::fabs(tr.t_end - t) < 1e-9, "timing", "the trajectory's end is not the end of its last support");
    // --- CoM: integrate the jerks from the initial state
    int N = steps.size();
    std::vector<Vector2d> P(N + 1), V(N + 1), A(N + 1), J(N);
    P[0] = init.p;
    V[0] = init.v;
    A[0] = init.a;
    for (int k = 0; k < N; k++)
    {
      if (steps[k].dt < 1e-7)
        return;  // a support with no time left
      J[k] = tr.get_j_world_CoM(steps[k].t + 0.5 * steps[k].dt).head(2);
      double h = steps[k].dt;
      P[k + 1] = P[k] + h * V[k] + h * h / 2 * A[k] + h * h * h / 6 * J[k];
      V[k + 1] = V[k] + h * A[k] + h * h / 2 * J[k];
      A[k + 1] = A[k] + h * J[k];
    }
    for (int q = 0; q < 12; q++)
    {
      int k = q == 0 ? 0 : (q == 1 ? N - 1 : r.range(N));
      double f = q == 0 ? 0 : (q == 1 ? 1 : r.uni());
      double h = f * steps[k].dt, tt = steps[k].t + h;
      Vector2d pe = P[k] + h * V[k] + h * h / 2 * A[k] + h * h * h / 6 * J[k], ve = V[k] + h * A[k] + h * h / 2 * J[k], ae = A[k] + h * J[k];
      Vector3d pc = tr.get_p_world_CoM(tt), vc = tr.get_v_world_CoM(tt), ac = tr.get_a_world_CoM(tt);
      ctx.checkf((pc.head(2) - pe).norm() < 1e-6 && (vc.head(2) - ve).norm() < 1e-5 && (ac.head(2) - ae).norm() < 1e-4, "com-continuity", [&] {
        return fmt("at t=%.4f the CoM trajectory is off its own integration from the initial state (position %.2g, velocity %.2g, acceleration %.2g)", tt,
                   (pc.head(2) - pe).norm(), (vc.head(2) - ve).norm(), (ac.head(2) - ae).norm());
      });
      ctx.check(std::fabs(pc.z() - p.walk_com_height) < 1e-9 && std::fabs(vc.z()) < 1e-9 && std::fabs(ac.z()) < 1e-9, "com-height", "the CoM leaves the walk height");
      Vector2d dcm = tr.get_p_world_DCM(tt, w.omega), zmp = tr.get_p_world_ZMP(tt, w.omega);
      ctx.check((dcm - (pe + ve / w.omega)).norm() < 1e-5 && (zmp - (pe - ae / (w.omega * w.omega))).norm() < 1e-5, "dcm-zmp", "the DCM or ZMP is not that of the CoM trajectory");
    }
    // --- ZMP
    double o2 = w.omega * w.omega;
    if (!w.wpg->soft)
      for (int k = 0; k < N; k++)
      {
        Vector2d z = P[k + 1] - A[k + 1] / o2;
        double in = inside(halves(support_hull(su[steps[k].part])), z);
        ctx.checkf(in > p.zmp_margin - 5e-4, "zmp-outside",
                   [&] { return fmt("at t=%.4f (part %d) the ZMP is %.5f inside the support polygon, the margin is %.5f", steps[k].t + steps[k].dt, steps[k].part, in, p.zmp_margin); });
      }
    if (su.back().end && !w.wpg->soft)
    {
      Affine3d F = support_frame(su.back());
      ctx.checkf((P[N] - F.translation().head(2)).norm() < 1e-5 && V[N].norm() < 1e-5 && A[N].norm() < 1e-4, "stop",
                 [&] { return fmt("the walk does not end at rest over the last support (position %.2g, velocity %.2g, acceleration %.2g)", (P[N] - F.translation().head(2)).norm(), V[N].norm(), A[N].norm()); });
    }
    // --- optimality
    if (mode == PLAN && N <= 45)
      judge_com(w, ctx, su, N, [&](int k) { return steps[k].part; }, [&](int k) { return steps[k].dt; }, J, init);
    // --- DCM targets
    for (size_t i = 0; i < su.size(); i++)
    {
      int k = 0;
      while (k < N && steps[k].part <= (int)i)
        k++;
      Vector2d dcm = P[k] + V[k] / w.omega;
      Support s = tr.get_support((node[i] + node[i + 1]) / 2);
      ctx.checkf((s.target_world_dcm - dcm).norm() < 1e-5, "target-dcm", [&] { return fmt("support %d: target_world_dcm is %.3g away from the DCM at the end of the support", (int)i, (s.target_world_dcm - dcm).norm()); });
    }
    // --- feet
    for (size_t i = 0; i < su.size(); i++)
    {
      double a = node[i], b = node[i + 1];
      if (b - a < 1e-6)
        continue;
      bool single = su[i].footsteps.size() == 1;
      for (int q = 0; q < 3; q++)
      {
        double tt = a + (b - a) * r.uni(0.001, 0.999);
        ctx.check(tr.support_is_both(tt) == !single, "support-at", "support_is_both() is not that of the planned support");
        for (Side sd : { HumanoidRobot::Left, HumanoidRobot::Right })
        {
          Affine3d T = tr.get_T_world_foot(sd, tt);
          Vector3d v = tr.get_v_world_foot(sd, tt);
          if (has_side(su[i], sd))
          {
            ctx.check(!tr.is_flying(sd, tt), "support-at", "a support foot is reported flying");
            ctx.checkf(diff(T, foot_of(su[i], sd)) < 1e-6, "support-foot-moves", [&] { return fmt("at t=%.4f a support foot is %.3g away from its footstep", tt, diff(T, foot_of(su[i], sd))); });
            ctx.check(v.norm() < 1e-9, "support-foot-moves", "a support foot has a velocity");
          }
          else
          {
            ctx.check(tr.is_flying(sd, tt), "support-at", "the swing foot is not reported flying");
            double h = 1e-5;
            Vector3d fd = (tr.get_T_world_foot(sd, tt + h).translation() - tr.get_T_world_foot(sd, tt - h).translation()) / (2 * h);
            bool in = tt - h > a && tt + h < b;
            ctx.checkf(!in || (fd - v).norm() < 1e-2 * (1 + fd.norm()), "swing-velocity", [&] { return fmt("the swing foot's velocity is not the derivative of its position (off by %.3g)", (fd - v).norm()); });
          }
        }
      }
      if (!single)
        continue;
      ctx.check(tr.support_side((a + b) / 2) == su[i].footsteps[0].side, "support-at", "support_side() is not the planned one");
      Side fly = other(su[i].footsteps[0].side);
      ctx.check(i + 1 < su.size(), "supports", "a plan ends in single support");
      double e = 1e-7 * (b - a);
      Affine3d S = tr.get_T_world_foot(fly, a + e), E = tr.get_T_world_foot(fly, b - e), G = foot_of(su[i + 1], fly);
      ctx.checkf(diff(E, G) < 1e-5, "landing", [&] { return fmt("part %d: the swing foot lands %.3g away from the next footstep", (int)i, diff(E, G)); });
      ctx.check(tr.get_v_world_foot(fly, b - e).norm() < 1e-3, "landing", "the swing foot lands with a velocity");
      if (i > 0)
      {
        Affine3d F = foot_of(su[i - 1], fly);
        ctx.checkf(diff(S, F) < 1e-5, "takeoff", [&] { return fmt("part %d: the swing foot takes off %.3g away from its footstep", (int)i, diff(S, F)); });
        ctx.check(tr.get_v_world_foot(fly, a + e).norm() < 1e-3, "takeoff", "the swing foot takes off with a velocity");
        if (su[i].elapsed_ratio == 0)
        {
          double zm = tr.get_T_world_foot(fly, (a + b) / 2).translation().z();
          ctx.checkf(std::fabs(zm - p.walk_foot_height) < 1e-6, "foot-height", [&] { return fmt("the swing foot passes at %.4f instead of %.4f", zm, p.walk_foot_height); });
          if (p.walk_foot_rise_ratio > 0)
          {
            double half = (b - a) / 2, u = r.uni(-1, 1) * p.walk_foot_rise_ratio;
            double z = tr.get_T_world_foot(fly, (a + b) / 2 + u * half).translation().z();
            ctx.check(std::fabs(z - p.walk_foot_height) < 1e-6, "foot-height", "the swing foot does not stay at the walk height for the rise ratio");
          }
        }
        for (int q = 0; q < 3; q++)
        {
          Vector3d x = tr.get_T_world_foot(fly, a + (b - a) * r.uni()).translation();
          ctx.check(x.z() > -1e-6 && x.z() < p.walk_foot_height + 1e-6, "foot-height", "the swing foot leaves the space between the floor and the walk height");
          Vector2d s = F.translation().head(2), g = G.translation().head(2);
          double al = (g - s).norm() > 1e-6 ? (x.head(2) - s).dot(g - s) / (g - s).squaredNorm() : 0;
          ctx.check(al > -1e-6 && al < 1 + 1e-6 && (x.head(2) - (s + al * (g - s))).norm() < 1e-6, "foot-path", "the swing foot leaves the line between its footsteps");
        }
      }
    }
    // --- continuity over the junctions, trunk
    for (size_t i = 1; i < su.size(); i++)
    {
      double e = 1e-7;
      if (node[i] - node[i - 1] < 1e-5 || node[i + 1] - node[i] < 1e-5)
        continue;
      for (Side sd : { HumanoidRobot::Left, HumanoidRobot::Right })
      {
        double v = tr.get_v_world_foot(sd, node[i] - e).norm() + tr.get_v_world_foot(sd, node[i] + e).norm();
        double jump = diff(tr.get_T_world_foot(sd, node[i] - e), tr.get_T_world_foot(sd, node[i] + e));
        ctx.checkf(jump < 1e-5 + 4 * e * (v + 1 / std::min(node[i] - node[i - 1], node[i + 1] - node[i])), "foot-jump", [&] {
          return fmt("a foot jumps by %.3g between parts %d and %d, lasting %.4f s and %.4f s", jump, (int)i - 1, (int)i, node[i] - node[i - 1], node[i + 1] - node[i]);
        });
      }
      ctx.check((tr.get_R_world_trunk(node[i] - e) - tr.get_R_world_trunk(node[i] + e)).norm() < 1e-4, "trunk-jump", "the trunk jumps between two supports");
    }
    {
      double tt = r.uni(t0, tr.t_end);
      double y = tr.get_yaw_world_trunk(tt);
      Matrix3d R = (Eigen::AngleAxisd(y, Vector3d::UnitZ()) * Eigen::AngleAxisd(p.walk_trunk_pitch, Vector3d::UnitY())).toRotationMatrix();
      ctx.check((tr.get_R_world_trunk(tt) - R).norm() < 1e-6, "trunk", "the trunk's orientation is not its yaw and pitch");
      if (!old)
        ctx.check(std::fabs(wrap(tr.get_yaw_world_trunk(t0) - yaw_of(support_frame(su[0]).linear()))) < 1e-6, "trunk", "the trunk is not aligned with the first support");
      if (su.back().end)
        ctx.check(std::fabs(wrap(tr.get_yaw_world_trunk(tr.t_end) - yaw_of(support_frame(su.back()).linear()))) < 1e-6, "trunk", "the trunk does not end aligned with the last support");
      for (size_t i = 0; i < su.size(); i++)
      {
        double want;
        if (su[i].footsteps.size() == 2)
          want = yaw_of(support_frame(su[i]).linear());
        else if (!p.has_double_support())
          want = yaw_of(foot_of(su[i + 1], other(su[i].footsteps[0].side)).linear());
        else
          continue;
        ctx.check(std::fabs(wrap(tr.get_yaw_world_trunk(node[i + 1]) - want)) < 1e-6, "trunk", "the trunk does not follow the orientation of the supports");
      }
    }
    ctx.hit("planned");
    ctx.hit(fmt("supports-%d", std::min(12, (int)su.size())));
  }

  template <class FP, class FD>
  void judge_com(World& w, Ctx& ctx, const std::vector<Support>& su, int N, FP part, FD dt, const std::vector<Vector2d>& J, const Init& init)
  {
    auto& p = w.params;
    refqp::Model m;
    m.n = 2 * N;
    VectorXd x(2 * N);
    // state rows, linear in the jerks, for one axis: S (3 x N), s (3) per axis
    MatrixXd S = MatrixXd::Zero(3, N);
    MatrixXd s0(3, 2);
    s0 << init.p.transpose(), init.v.transpose(), init.a.transpose();
    double o2 = w.omega * w.omega;
    for (int k = 0; k < N; k++)
    {
      x[k] = J[k].x();
      x[N + k] = J[k].y();
      double h = dt(k);
      Matrix3d A;
      A << 1, h, h * h / 2, 0, 1, h, 0, 0, 1;
      S = (A * S).eval();
      S(0, k) += h * h * h / 6;
      S(1, k) += h * h / 2;
      S(2, k) += h;
      s0 = (A * s0).eval();
      const Support& u = su[part(k)];
      Eigen::RowVectorXd z = S.row(0) - S.row(2) / o2;
      Vector2d z0 = (s0.row(0) - s0.row(2) / o2).transpose();
      refqp::Row in;
      auto h2 = halves(support_hull(u));
      in.A = MatrixXd::Zero(h2.size(), 2 * N);
      in.b = VectorXd(h2.size());
      for (size_t j = 0; j < h2.size(); j++)
      {
        in.A.row(j).head(N) = h2[j].n.x() * z;
        in.A.row(j).tail(N) = h2[j].n.y() * z;
        in.b[j] = h2[j].n.dot(z0) + h2[j].d - p.zmp_margin;
      }
      in.equality = false;
      in.hard = !w.wpg->soft;
      in.weight = w.wpg->zmp_in_support_weight;
      m.rows.push_back(in);
      Vector3d off(0, 0, 0);
      if (u.footsteps.size() == 1)
        off = Vector3d(p.foot_zmp_target_x, (u.footsteps[0].side == HumanoidRobot::Left ? 1 : -1) * p.foot_zmp_target_y, 0);
      Vector2d target = (support_frame(u) * off).head(2);
      refqp::Row ref;
      ref.A = MatrixXd::Zero(2, 2 * N);
      ref.A.row(0).head(N) = z;
      ref.A.row(1).tail(N) = z;
      ref.b = z0 - target;
      ref.hard = false;
      ref.weight = p.zmp_reference_weight;
      m.rows.push_back(ref);
      if (u.end && k == N - 1)
      {
        Vector2d c = support_frame(u).translation().head(2);
        for (int d = 0; d < 3; d++)
        {
          refqp::Row e;
          e.A = MatrixXd::Zero(2, 2 * N);
          e.A.row(0).head(N) = S.row(d);
          e.A.row(1).tail(N) = S.row(d);
          e.b = s0.row(d).transpose() - (d == 0 ? c : Vector2d(0, 0));
          e.hard = !w.wpg->soft;
          e.weight = w.wpg->stop_end_support_weight;
          m.rows.push_back(e);
        }
      }
    }
    auto v = refqp::judge(m, x);
    ctx.hit("judged");
    ctx.checkf(v.kkt < 1e-3, "com-not-optimal", [&] { return fmt("the CoM trajectory is not the one that tracks the ZMP reference best (relative KKT residual %.3g, n=%d)", v.kkt, m.n); });
  }

  // ------------------------------------------------------------ queries (P14)
  void check_queries(World& w, Ctx& ctx, Rng& r)
  {
    Traj& tr = *w.traj;
    std::vector<double> times;
    std::vector<int> part;
    for (int q = 0; q < 6; q++)
    {
      int i = r.range(tr.parts.size());
      if (tr.parts[i].t_end - tr.parts[i].t_start < 1e-6)
        continue;
      double a = tr.parts[i].t_start, b = tr.parts[i].t_end;
      times.push_back(a + (b - a) * r.uni(0.01, 0.99));
      part.push_back(i);
    }
    times.push_back(tr.parts.front().t_start - r.uni(0.01, 1));
    part.push_back(0);
    times.push_back(tr.parts.back().t_end + r.uni(0.01, 1));
    part.push_back(tr.parts.size() - 1);
    Traj twin = tr;  // only asked the reference samples
    std::vector<Sample> ref;
    for (double t : times)
      ref.push_back(sample(twin, t, w.omega));
    std::vector<Support> sup = twin.get_supports();
    int n = sup.size();
    ctx.check(n == (int)tr.parts.size(), "queries", "get_supports() does not return one support per part");
    auto same_support = [&](const Support& a, const Support& b) {
      if (a.footsteps.size() != b.footsteps.size() || a.start != b.start || a.end != b.end || a.t_start != b.t_start || a.time_ratio != b.time_ratio ||
          a.elapsed_ratio != b.elapsed_ratio || (a.target_world_dcm - b.target_world_dcm).norm() > 1e-9)
        return false;
      for (size_t k = 0; k < a.footsteps.size(); k++)
        if (a.footsteps[k].side != b.footsteps[k].side || diff(a.footsteps[k].frame, b.footsteps[k].frame) > 1e-9)
          return false;
      return true;
    };
    // every query, in any order, answers the same
    int count = r.between(10, 40);
    for (int q = 0; q < count; q++)
    {
      int k = r.range(times.size()), i = part[k], m = r.between(0, 4);
      double t = times[k];
      switch (r.range(12))
      {
        case 0:
          ctx.check(same_support(tr.get_support(t), sup[i]), "queries", "get_support() is not the support of that time");
          break;
        case 1:
          ctx.check(same_support(tr.get_next_support(t, m), sup[std::min(n - 1, i + m)]), "queries", "get_next_support() is not the nth next support");
          break;
        case 2:
        case 3:
          ctx.check(same_support(tr.get_prev_support(t, m), sup[std::max(0, i - m)]), "queries", "get_prev_support() is not the nth previous support");
          break;
        case 4:
          ctx.check(tr.remaining_supports(t) == n - 1 - i, "queries", "remaining_supports() is wrong");
          break;
        case 5:
          ctx.check(tr.get_part_t_start(t) == tr.parts[i].t_start && tr.get_part_t_end(t) == tr.parts[i].t_end, "queries", "the part's times are wrong");
          break;
        case 6:
          ctx.check((tr.get_part_end_dcm(t, w.omega) - tr.get_p_world_DCM(tr.parts[i].t_end, w.omega)).norm() < 1e-9, "queries", "get_part_end_dcm() is wrong");
          break;
        case 7:
          if (sup[i].footsteps.size() == 1)
          {
            Affine3d F = ref[k].left;
            if (sup[i].footsteps[0].side == HumanoidRobot::Right)
              F = ref[k].right;
            ctx.check((tr.get_p_support_CoM(t) - F.inverse() * ref[k].com).norm() < 1e-9, "queries", "get_p_support_CoM() is not the CoM seen from the support foot");
            ctx.check((tr.get_v_support_CoM(t) - F.linear().transpose() * ref[k].vcom).norm() < 1e-9, "queries", "get_v_support_CoM() is not the CoM velocity seen from the support foot");
            Vector2d d = (F.inverse() * ref[k].com).head(2) + (F.linear().transpose() * ref[k].vcom).head(2) / w.omega;
            ctx.check((tr.get_p_support_DCM(t, w.omega) - d).norm() < 1e-9, "queries", "get_p_support_DCM() is not the DCM seen from the support foot");
            ctx.check(tr.support_side(t) == sup[i].footsteps[0].side, "queries", "support_side() is wrong");
          }
          break;
        case 8:
        {
          auto s2 = tr.get_supports();
          bool ok = (int)s2.size() == n;
          for (int j = 0; ok && j < n; j++)
            ok = same_support(s2[j], sup[j]);
          ctx.check(ok, "queries", "get_supports() changed");
          break;
        }
        case 9:
          ctx.check((Vector2d(tr.get_support(t).target_world_dcm) - tr.get_part_end_dcm(t, w.omega)).norm() < 1e-5, "target-dcm",
                    "target_world_dcm is not the DCM at the end of the support");
          break;
        default:
        {
          const char* d = first_difference(sample(tr, t, w.omega), ref[k], 0);
          ctx.check(!d, "queries", d ? std::string("asking a trajectory changed ") + d : "");
        }
      }
    }
    for (size_t k = 0; k < times.size(); k++)
    {
      const char* d = first_difference(sample(tr, times[k], w.omega), ref[k], 0);
      ctx.check(!d, "queries", d ? std::string("asking a trajectory changed ") + d : "");
      // internal coherence
      ctx.check(std::fabs(wrap(yaw_of(ref[k].left.linear()) - ref[k].yl)) < 1e-6 && std::fabs(wrap(yaw_of(ref[k].right.linear()) - ref[k].yr)) < 1e-6, "queries",
                "a foot's yaw is not that of its pose");
      ctx.check(ref[k].both == (sup[part[k]].footsteps.size() == 2), "queries", "support_is_both() is wrong");
      ctx.check(ref[k].fl == !has_side(sup[part[k]], HumanoidRobot::Left) && ref[k].fr == !has_side(sup[part[k]], HumanoidRobot::Right), "queries", "is_flying() is wrong");
      for (Side sd : { HumanoidRobot::Left, HumanoidRobot::Right })
      {
        if (has_side(sup[part[k]], sd) && times[k] >= tr.parts[0].t_start)
          ctx.check(diff(sd == HumanoidRobot::Left ? ref[k].left : ref[k].right, foot_of(sup[part[k]], sd)) < 1e-6, "queries", "a support foot is not on the support's footstep");
      }
    }
    ctx.hit("queried");
  }

  void drift(World& w, Ctx& ctx, Rng& r)
  {
    Traj before = *w.traj;
    Affine3d T = planar(r.uni(-0.5, 0.5), r.uni(-0.5, 0.5), r.chance(0.3) ? 0. : r.uni(-M_PI, M_PI));
    w.traj->apply_transform(T);
    double dy = yaw_of(T.linear());
    for (int q = 0; q < 4; q++)
    {
      double t = r.uni(before.parts[0].t_start - 0.1, before.t_end + 0.1);
      Sample a = sample(before, t, w.omega), b = sample(*w.traj, t, w.omega), e = a;
      e.left = T * a.left;
      e.right = T * a.right;
      e.com = T * a.com;
      e.vcom = T.linear() * a.vcom;
      e.acom = T.linear() * a.acom;
      e.jcom = T.linear() * a.jcom;
      e.vleft = T.linear() * a.vleft;
      e.vright = T.linear() * a.vright;
      e.dcm = (T * Vector3d(a.dcm.x(), a.dcm.y(), 0)).head(2);
      e.zmp = (T * Vector3d(a.zmp.x(), a.zmp.y(), 0)).head(2);
      e.trunk = T.linear() * a.trunk;
      e.yl += dy;
      e.yr += dy;
      e.yt += dy;
      const char* d = first_difference(b, e, 1e-8);
      ctx.check(!d, "transform", d ? std::string("apply_transform() does not move rigidly ") + d : "");
    }
    auto s0 = before.get_supports(), s1 = w.traj->get_supports();
    ctx.check(s0.size() == s1.size(), "transform", "apply_transform() changed the supports");
    for (size_t i = 0; i < s0.size(); i++)
    {
      for (size_t k = 0; k < s0[i].footsteps.size(); k++)
        ctx.check(diff(T * s0[i].footsteps[k].frame, s1[i].footsteps[k].frame) < 1e-8, "transform", "apply_transform() does not move the footsteps rigidly");
      ctx.check((s1[i].target_world_dcm - (T * Vector3d(s0[i].target_world_dcm.x(), s0[i].target_world_dcm.y(), 0)).head(2)).norm() < 1e-8, "transform",
                "apply_transform() does not move the supports' target DCM");
      auto h = hull(s1[i].support_polygon()), g = support_hull(s1[i]);
      ctx.check(h.size() == g.size(), "transform", "a support polygon is not that of the moved footsteps");
      for (auto& c : h)
        ctx.check(std::fabs(inside(halves(g), c)) < 1e-6, "transform", "a support polygon is not that of the moved footsteps");
    }
    ctx.fault("odometry-drift");
  }

  // ------------------------------------------------------------ events
  void start(World& w, const Event& ev, Ctx& ctx, Rng& r)
  {
    Affine3d L, R;
    if (w.traj)
    {
      // from the end of the previous walk (or, after an emergency stop, beside the support foot)
      L = w.traj->get_T_world_left(w.traj->t_end);
      R = w.traj->get_T_world_right(w.traj->t_end);
      w.t = w.traj->t_end + r.uni(0, 1);
    }
    else
    {
      L = planar(r.uni(-1, 1), r.uni(-1, 1), r.chance(0.3) ? M_PI - 0.05 + r.uni(0, 0.1) : r.uni(-M_PI, M_PI));
      R = L * planar(0, -w.params.feet_spacing, 0);
      if (r.chance(0.5))
        R = R * planar(r.uni(-0.03, 0.03), r.uni(-0.03, 0.), r.uni(-0.1, 0.1));
      w.t = r.chance(0.3) ? 0 : r.uni(0, 100);
    }
    Side fly = r.chance(0.5) ? HumanoidRobot::Left : HumanoidRobot::Right;
    auto fs = w.planner().plan(fly, L, R);
    if (w.use_naive && fs.size() > 14)
      ctx.hit("long-plan");
    if (mode == STEPS)
    {
      check_footsteps(w, ctx, fs, fly, L, R);
      check_clips(w, ctx, r);
    }
    size_t most = mode == STEPS && r.chance(0.8) ? 7 : 14;
    if (fs.size() > most)
      fs.erase(fs.begin() + most, fs.end());
    auto su = FootstepsPlanner::make_supports(fs, w.t, true, w.params.has_double_support(), true);
    if (mode == STEPS)
    {
      check_supports(w, ctx, fs, su, w.t, true);
      auto f2 = w.planner().plan(fly, L, R);
      if (f2.size() <= most)
      {
        bool ok = f2.size() == fs.size();
        for (size_t i = 0; ok && i < fs.size(); i++)
          ok = f2[i] == fs[i];
        ctx.check(ok, "not-repeatable", "planning again from the same feet gives other footsteps");
      }
    }
    auto before = su;
    Vector3d com = ((L.translation() + R.translation()) / 2);
    com.z() = w.params.walk_com_height;
    if (r.chance(0.5))
      com += Vector3d(r.uni(-0.01, 0.01), r.uni(-0.01, 0.01), 0);
    qp::Fault f = qp::fault_from(ev.fault);
    if (f)
      qp::arm(f, 1);
    std::unique_ptr<Traj> nt;
    std::string err;
    try
    {
      nt.reset(new Traj(w.wpg->plan(su, com, w.t)));
    }
    catch (std::runtime_error& e)
    {
      err = e.what();
    }
    bool fired = qp::disarm();
    if (fired)
    {
      ctx.fault(ev.fault);
      ctx.check(!nt, "failure-swallowed", "plan() returned a trajectory although its QP was not solved");
      return;
    }
    if (!nt)
    {
      ctx.hit(w.nominal ? "plan-refused-nominal" : "plan-refused");
      ctx.state("refused" + describe(w));
      // without any constraint on the ZMP a plan always exists
      ctx.check(!w.wpg->soft, "plan-refused", "plan() failed although every constraint is soft: " + err);
      return;
    }
    Init init{ com.head(2), Vector2d::Zero(), Vector2d::Zero() };
    w.traj = std::move(nt);
    w.t_last = w.t;
    if (mode == PLAN || mode == REPLAN)
      check_plan(w, ctx, r, *w.traj, before, w.t, init, nullptr, nullptr);
    ctx.state("plan" + describe(w) + fmt("%d", (int)su.size()));
    mix(w, ctx);
  }

  std::string describe(World& w)
  {
    return fmt("%d%d%d%d", w.use_naive, w.wpg->soft, w.params.has_double_support(), w.rep->footstep_clipping);
  }
  void mix(World& w, Ctx& ctx)
  {
    for (double f : { 0.2, 0.55, 0.9 })
    {
      double t = w.traj->t_start + f * (w.traj->t_end - w.traj->t_start);
      ctx.mixv(w.traj->get_p_world_CoM(t));
      ctx.mixv(w.traj->get_T_world_left(t).matrix());
    }
  }

  bool can(World& w)
  {
    return w.traj && w.t > w.traj->t_start && w.t < w.traj->t_end - 1e-3 && w.wpg->can_replan_supports(*w.traj, w.t);
  }

  void replan(World& w, const Event& ev, Ctx& ctx, Rng& r, bool adapt)
  {
    if (!w.traj)
      return;
    if (!can(w))
    {
      ctx.hit("cant-replan");
      if (w.t > w.traj->t_start && w.t < w.traj->t_end)
      {
        Support c = w.traj->get_support(w.t), n = w.traj->get_next_support(w.t);
        ctx.check(c.is_both() || n.end, "can-replan", "can_replan_supports() refuses a single support followed by a step");
        bool threw = false;
        try
        {
          w.wpg->replan_supports(w.planner(), *w.traj, w.t, w.t_last);
        }
        catch (std::runtime_error&)
        {
          threw = true;
        }
        ctx.check(threw || w.wpg->can_replan_supports(*w.traj, w.t), "can-replan", "replan_supports() accepted a trajectory that can't be replanned");
      }
      return;
    }
    int idx = w.traj->parts.size() - 1 - w.traj->remaining_supports(w.t);
    double p1 = w.traj->get_part_t_end(w.t);
    if (p1 - w.t < 2e-3 || w.t - w.traj->get_part_t_start(w.t) < 1e-4)
      return;  // (in the last milliseconds the remaining step is too short to be judged with these tolerances)
    Support cur = w.traj->get_support(w.t), nxt = w.traj->get_next_support(w.t);
    ctx.check(!cur.is_both() && !nxt.end, "can-replan", "can_replan_supports() accepts a double support, or the step before the end");
    Traj old = *w.traj;
    auto su = w.wpg->replan_supports(w.planner(), *w.traj, w.t, w.t_last);
    Side side = cur.footsteps[0].side;
    // the current step goes on: same support foot, same landing place, same landing time
    ctx.check(su.size() >= 2 && su[0].footsteps.size() == 1 && su[0].footsteps[0].side == side && diff(su[0].footsteps[0].frame, cur.footsteps[0].frame) < 1e-9, "replan-support",
              "replanning the supports moves the current support foot");
    ctx.check(diff(foot_of(su[1], other(side)), foot_of(nxt, other(side))) < 1e-9, "replan-landing", "replanning the supports moves the landing place of the current step");
    ctx.check(su[0].t_start == cur.t_start, "replan-timing", "replanning changes when the current support started");
    double rem = (1 - su[0].elapsed_ratio) * default_duration(w, su[0]) * su[0].time_ratio;
    ctx.checkf(std::fabs(rem - (p1 - w.t)) < 1e-6, "replan-timing", [&] { return fmt("%.4f s remained in the current support, %.4f after replanning its supports", p1 - w.t, rem); });
    ctx.check((su[0].target_world_dcm - cur.target_world_dcm).norm() < 1e-9, "replan-dcm", "replanning the supports loses the target DCM of the current support");
    if (mode == STEPS)
    {
      Affine3d L = side == HumanoidRobot::Left ? cur.footsteps[0].frame : foot_of(nxt, HumanoidRobot::Left);
      Affine3d R = side == HumanoidRobot::Right ? cur.footsteps[0].frame : foot_of(nxt, HumanoidRobot::Right);
      auto fs = w.planner().plan(side, L, R);
      check_footsteps(w, ctx, fs, side, L, R);
      check_supports(w, ctx, fs, su, cur.t_start, false);
    }
    if (su.size() > 14)
      return;
    if (adapt)
    {
      if (!step_adaptation(w, ev, ctx, r, su, cur))
        return;
    }
    Init init{ old.get_p_world_CoM(w.t).head(2), old.get_v_world_CoM(w.t).head(2), old.get_a_world_CoM(w.t).head(2) };
    auto before = su;
    qp::Fault f = adapt ? qp::None : qp::fault_from(ev.fault);
    if (f)
      qp::arm(f, 1);
    std::unique_ptr<Traj> nt;
    try
    {
      nt.reset(new Traj(w.wpg->replan(su, *w.traj, w.t)));
    }
    catch (std::bad_alloc&)
    {
      throw Violation("replan-raised", "replan() let the failure of its solver escape instead of keeping the old trajectory");
    }
    bool fired = qp::disarm();
    if (fired)
      ctx.fault(ev.fault);
    // the old trajectory is left alone
    for (int q = 0; q < 2; q++)
    {
      double t = r.uni(old.parts[0].t_start, old.t_end);
      const char* d = first_difference(sample(*w.traj, t, w.omega), sample(old, t, w.omega), 0);
      ctx.check(!d, "old-changed", d ? std::string("replan() changed the old trajectory: ") + d : "");
    }
    if (fired)
      ctx.check(!nt->replan_success, "failure-swallowed", "replan() reports success although its QP was not solved");
    if (!nt->replan_success)
    {
      ctx.hit("replan-failed");
      ctx.check(!w.wpg->soft || fired, "plan-refused", "replan() failed although every constraint is soft");
      // what remains of the old one
      ctx.check(std::fabs(nt->t_start - w.t) < 1e-12 && std::fabs(nt->t_end - old.t_end) < 1e-12, "fallback", "the fallback of a failed replan does not span the rest of the old trajectory");
      ctx.check(nt->parts.size() == old.parts.size() - idx, "fallback", "the fallback of a failed replan does not hold the remaining parts");
      ctx.check(std::fabs(nt->parts[0].t_start - w.t) < 1e-12, "fallback", "the fallback of a failed replan does not start at the replan time");
      for (int q = 0; q < 6; q++)
      {
        double t = q == 0 ? w.t + 1e-9 : r.uni(w.t, old.t_end + 0.05);
        const char* d = first_difference(sample(*nt, t, w.omega), sample(old, t, w.omega), 0, t > p1);
        ctx.check(!d, "fallback", d ? std::string("after a failed replan the trajectory is not the old one: ") + d : "");
        if (t > p1)
        {
          auto a = nt->get_support(t), b = old.get_support(t);
          ctx.check(a == b && a.elapsed_ratio == b.elapsed_ratio, "fallback", "after a failed replan a future support is not the old one");
        }
      }
      Support c2 = nt->get_support(w.t + 1e-9);
      double rem2 = (1 - c2.elapsed_ratio) * default_duration(w, c2) * c2.time_ratio;
      ctx.checkf(std::fabs(rem2 - (p1 - w.t)) < 1e-6, "fallback", [&] { return fmt("after a failed replan the current support has %.4f s left instead of %.4f", rem2, p1 - w.t); });
    }
    else
    {
      ctx.hit("replanned");
      double land = adapt ? w.t + rem_time(w, su[0]) : p1;
      ctx.checkf(std::fabs(nt->parts[0].t_end - land) < 1e-6, "replan-timing", [&] { return fmt("replan() moves the landing of the current step from %.4f to %.4f", land, nt->parts[0].t_end); });
      Sample a = sample(old, w.t, w.omega), b = sample(*nt, w.t, w.omega);
      ctx.checkf((a.com - b.com).norm() < 1e-6 && (a.vcom - b.vcom).norm() < 1e-5 && (a.acom - b.acom).norm() < 1e-4, "replan-com", [&] {
        return fmt("replan() makes the CoM jump (position %.3g, velocity %.3g, acceleration %.3g)", (a.com - b.com).norm(), (a.vcom - b.vcom).norm(), (a.acom - b.acom).norm());
      });
      ctx.checkf(diff(a.left, b.left) < 1e-6 && diff(a.right, b.right) < 1e-6, "replan-feet", [&] { return fmt("replan() makes a foot jump (left %.3g, right %.3g)", diff(a.left, b.left), diff(a.right, b.right)); });
      ctx.checkf((a.vleft - b.vleft).norm() < 1e-4 && (a.vright - b.vright).norm() < 1e-4, "replan-feet-velocity",
                 [&] { return fmt("replan() makes the velocity of a foot jump (left %.3g, right %.3g)", (a.vleft - b.vleft).norm(), (a.vright - b.vright).norm()); });
      ctx.check((a.trunk - b.trunk).norm() < 1e-6, "replan-trunk", "replan() makes the trunk jump");
      // angular velocities
      double h = 1e-5;
      auto rate = [&](Traj& x, double (Traj::*q)(double)) { return wrap((x.*q)(w.t + h) - (x.*q)(w.t)) / h; };
      auto rate_old = [&](double (Traj::*q)(double)) { return wrap((old.*q)(w.t) - (old.*q)(w.t - h)) / h; };
      double lt = std::min(nt->parts[0].t_end - w.t, 0.1);
      double yaw_tol = 1e-3 + 2e-3 * 20 * h / 1e-4 / lt / lt;
      for (auto q : { &Traj::get_yaw_world_left, &Traj::get_yaw_world_right, &Traj::get_yaw_world_trunk })
        ctx.check(std::fabs(rate(*nt, q) - rate_old(q)) < yaw_tol * (1 + std::fabs(rate_old(q))), "replan-yaw-velocity", "replan() makes an angular velocity jump");
      if (mode != STEPS && mode != ADAPT)
        check_plan(w, ctx, r, *nt, before, w.t, init, &old, nullptr);
    }
    ctx.state("replan" + describe(w) + fmt("%d %d %d", nt->replan_success, (int)su.size(), idx) + ev.fault);
    w.traj = std::move(nt);
    w.t_last = w.t;
    mix(w, ctx);
  }
  double rem_time(World& w, const Support& s)
  {
    return (1 - s.elapsed_ratio) * default_duration(w, s) * s.time_ratio;
  }

  // ------------------------------------------------------------ step adaptation (P25)
  static std::vector<Vector2d> turned(std::vector<Vector2d> p)
  {
    for (auto& x : p)
      x = -x;
    return p;
  }
  static std::vector<Vector2d> ccw(std::vector<Vector2d> p)
  {
    std::reverse(p.begin(), p.end());
    return p;
  }
  bool step_adaptation(World& w, const Event& ev, Ctx& ctx, Rng& r, std::vector<Support>& su, const Support& cur)
  {
    if (w.params.has_double_support())
      return false;
    auto& p = w.params;
    Vector2d dcm = w.traj->get_p_world_DCM(w.t, w.omega);
    double push = r.chance(0.3) ? 0.1 : 0.02;
    dcm += Vector2d(r.uni(-push, push), r.uni(-push, push));
    ctx.fault("push");
    // the polygons may have been looked at before
    if (r.chance(0.5))
      for (auto& s : su)
        s.support_polygon();
    auto in = su;
    qp::Fault f = qp::fault_from(ev.fault);
    if (f)
      qp::arm(f, r.between(1, 2));
    std::vector<Support> out;
    bool ok = true;
    try
    {
      out = w.wpg->update_supports(w.t, su, dcm);
    }
    catch (std::exception& e)
    {
      ok = false;
    }
    bool fired = qp::disarm();
    if (fired)
    {
      ctx.fault(ev.fault);
      ctx.check(!ok, "failure-swallowed", "update_supports() returned although its QP was not solved");
    }
    if (!ok)
    {
      ctx.hit("adapt-refused");
      // (the offset of the DCM is only softly bounded: there is always a step to take)
      ctx.check(fired, "adapt-refused", "update_supports() refused to adapt a step although landing places are within reach");
      return false;
    }
    ctx.hit("adapted");
    // only the landing place and the remaining duration change
    ctx.check(out.size() == in.size(), "adapt-touches", "update_supports() changed the number of supports");
    for (size_t i = 0; i < in.size(); i++)
    {
      for (size_t k = 0; k < in[i].footsteps.size(); k++)
      {
        Affine3d a = in[i].footsteps[k].frame, b = out[i].footsteps[k].frame;
        bool landing = (i == 1 && k == 0) || (i == 2 && in[1].footsteps.size() == 1 && in[2].footsteps.size() == 2 && k == 0);
        if (landing)
          a.translation().head(2) = out[1].footsteps[0].frame.translation().head(2);
        ctx.check(diff(a, b) < 1e-12 && in[i].footsteps[k].side == out[i].footsteps[k].side, "adapt-touches", "update_supports() changed something else than the landing place of the current step");
      }
      ctx.check(in[i].elapsed_ratio == out[i].elapsed_ratio && in[i].t_start == out[i].t_start && (i == 0 || in[i].time_ratio == out[i].time_ratio), "adapt-touches",
                "update_supports() changed the timing of another support");
      // polygons follow
      auto h = hull(out[i].support_polygon()), g = support_hull(out[i]);
      bool same = h.size() == g.size();
      for (auto& c : h)
        same = same && std::fabs(inside(halves(g), c)) < 1e-6;
      ctx.check(same, "adapt-polygon", "after update_supports() a support polygon is not that of its footsteps");
    }
    Side side = cur.footsteps[0].side;
    Affine3d F = cur.footsteps[0].frame;
    Vector2d z = (F.inverse() * out[1].footsteps[0].frame.translation()).head(2);
    auto op = halves(ccw(side == HumanoidRobot::Right ? p.op_space_polygon : turned(p.op_space_polygon)));
    ctx.checkf(inside(op, z) > -1e-6, "adapt-unreachable", [&] { return fmt("the adapted landing place is %.4f outside of the foot's operational space", -inside(op, z)); });
    double elapsed = w.t - cur.t_start, T = p.single_support_duration;
    double remain = rem_time(w, out[0]), total = elapsed + remain;
    ctx.checkf(remain > 0 && total > std::max(0.15, elapsed) - 1e-6 && total < std::max(3., elapsed) + 2e-3, "adapt-duration", [&] { return fmt("the adapted step lasts %.4f s (%.4f elapsed)", total, elapsed); });
    // optimality
    auto residual = [&](double total) {
      Vector2d ideal = (in[0].target_world_dcm - dcm * std::exp(w.omega * std::max(1e-5, T - elapsed))) / (1 - std::exp(w.omega * std::max(1e-5, T - elapsed)));
      Vector2d vz = project(halves(support_hull(cur)), p.zmp_margin, ideal);
      double tau = std::exp(w.omega * total);
      Eigen::Matrix2d R = F.linear().topLeftCorner(2, 2);
      Vector2d ps = F.translation().head(2), kd = (dcm - vz) * std::exp(-w.omega * elapsed);
      Vector2d off = R.transpose() * (kd * tau + vz - (ps + R * z));
      refqp::Model m;
      m.n = 5;
      VectorXd x(5);
      x << z, tau, off;
      auto row = [&](MatrixXd A, VectorXd b, bool eq, bool hard, double wt) {
        refqp::Row q;
        q.A = A;
        q.b = b;
        q.equality = eq;
        q.hard = hard;
        q.weight = wt;
        m.rows.push_back(q);
      };
      MatrixXd A = MatrixXd::Zero(1, 5);
      A(0, 2) = 1;
      VectorXd b(1);
      b[0] = -std::exp(w.omega * T);
      row(A, b, true, false, 5);
      MatrixXd Z = MatrixXd::Zero(2, 5), O = MatrixXd::Zero(2, 5), E = MatrixXd::Zero(2, 5);
      Z.leftCols(2) = R;
      O.rightCols(2) = R;
      Vector2d zt = in[1].footsteps[0].frame.translation().head(2);
      row(Z, ps - zt, true, false, 100);
      row(O, -(in[0].target_world_dcm - zt), true, false, 1000);
      b[0] = -std::exp(w.omega * std::max(0.15, elapsed));
      row(A, b, false, true, 1);
      b[0] = std::exp(w.omega * std::max(3., elapsed));
      row(-A, b, false, true, 1);
      auto poly = [&](const std::vector<Half>& h, int c, bool hard) {
        MatrixXd H = MatrixXd::Zero(h.size(), 5);
        VectorXd d(h.size());
        for (size_t i = 0; i < h.size(); i++)
        {
          H.block(i, c, 1, 2) = h[i].n.transpose();
          d[i] = h[i].d;
        }
        row(H, d, false, hard, 1e6);
      };
      poly(op, 0, true);
      poly(halves(ccw(side == HumanoidRobot::Left ? p.dcm_offset_polygon : turned(p.dcm_offset_polygon))), 3, false);
      E = Z + O;
      E.col(2) = -kd;
      row(E, ps - vz, true, true, 1);
      return refqp::judge(m, x).kkt;
    };
    double kkt = residual(total);
    if (remain < 1.1e-3)
    {
      // (at least 1 ms is left to the step: its optimal end may have been in that last millisecond)
      for (int i = 0; i <= 20; i++)
        kkt = std::min(kkt, residual(elapsed + 1e-3 * std::pow(i / 20., 2)));
      ctx.hit("adapt-now");
    }
    ctx.checkf(kkt < (remain < 1.1e-3 ? 1e-2 : 1e-3), "adapt-not-optimal", [&] { return fmt("the adapted step is not the best one that brings the DCM where it must go (relative KKT residual %.3g)", kkt); });
    ctx.hit("adapt-judged");
    su = out;
    return true;
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng cfg(plan.config);
    mem::begin(mem::random_env(cfg));
    {
      World w(*robot);
      draw_params(w, cfg);
      draw_command(w, cfg);
      for (auto& ev : plan.ev)
      {
        ctx.steps++;
        Rng r(ev.sub);
        if (ev.kind == "start")
          start(w, ev, ctx, r);
        else if (ev.kind == "cmd")
          draw_command(w, r);
        else if (ev.kind == "params")
        {
          // a new robot / controller
          w.traj.reset();
          draw_params(w, r);
          draw_command(w, r);
          start(w, Event{ "start", r.next(), "-" }, ctx, r);
        }
        else if (w.traj && ev.kind == "wait")
        {
          double d = r.chance(0.2) ? r.uni(0, 3) : r.uni(0.01, 1.2) * w.params.single_support_duration;
          w.t = std::min(w.t + d, w.traj->t_end);
          ctx.sim_time += d;
        }
        else if (w.traj && ev.kind == "drift")
          drift(w, ctx, r);
        else if (w.traj && ev.kind == "query")
          check_queries(w, ctx, r);
        else if (w.traj && ev.kind == "copy")
        {
          std::unique_ptr<Traj> c(new Traj(*w.traj));
          w.traj = std::move(c);
        }
        else if (w.traj && (ev.kind == "replan" || ev.kind == "adapt"))
        {
          // a replan happens some time later, when the controller gets there
          double d = r.uni(0.01, 0.8) * w.params.single_support_duration;
          if (w.t == w.traj->t_start && r.chance(0.8))
            d += w.traj->parts[0].t_end - w.traj->parts[0].t_start;
          w.t = std::min(w.t + d, w.traj->t_end);
          ctx.sim_time += d;
          replan(w, ev, ctx, r, ev.kind == "adapt");
        }
        const char* err = mem::error();
        ctx.check(!err, "heap", err ? err : "");
      }
    }
    mem::end();
  }
};
struct WPlan : WalkScenario
{
  WPlan() : WalkScenario(PLAN)
  {
  }
};
struct WReplan : WalkScenario
{
  WReplan() : WalkScenario(REPLAN)
  {
  }
};
struct WQuery : WalkScenario
{
  WQuery() : WalkScenario(QUERY)
  {
  }
};
struct WSteps : WalkScenario
{
  WSteps() : WalkScenario(STEPS)
  {
  }
};
struct WAdapt : WalkScenario
{
  WAdapt() : WalkScenario(ADAPT)
  {
  }
};
SIM_SCENARIO("walk_plan", WPlan);
SIM_SCENARIO("walk_replan", WReplan);
SIM_SCENARIO("walk_query", WQuery);
SIM_SCENARIO("walk_steps", WSteps);
SIM_SCENARIO("walk_adapt", WAdapt);
}  // namespace
