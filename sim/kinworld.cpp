#include "kinworld.h"
#include <unsupported/Eigen/MatrixFunctions>

namespace kin
{
using namespace placo::kinematics;
const std::vector<std::string> ALL_TASKS = { "position", "orientation", "frame", "relpos", "relori", "relframe", "com", "distance",
                                             "axis", "joints", "gear", "wheel", "reg", "kinetic", "manip", "momentum" };

static std::string pname(Prio p)
{
  return p == HARD ? "hard" : (p == SOFT ? "soft" : "scaled");
}

std::vector<Task*> TSpec::install(KinematicsSolver& s) const
{
  std::vector<Task*> o;
  using FI = RobotWrapper::FrameIndex;
  bool byname = (fa + fb) % 2 == 0;
  std::string na = s.robot.model.frames[fa].name, nb = s.robot.model.frames[fb].name;
  if (type == "position")
    o.push_back(byname ? &s.add_position_task(na, v) : &s.add_position_task((FI)fa, v));
  else if (type == "orientation")
    o.push_back(byname ? &s.add_orientation_task(na, R) : &s.add_orientation_task((FI)fa, R));
  else if (type == "frame")
  {
    Affine3d T = Affine3d::Identity();
    T.translation() = v;
    T.linear() = R;
    FrameTask f = byname ? s.add_frame_task(na, T) : s.add_frame_task((FI)fa, T);
    o.push_back(f.position);
    o.push_back(f.orientation);
  }
  else if (type == "relpos")
    o.push_back(byname ? &s.add_relative_position_task(na, nb, v) : &s.add_relative_position_task((FI)fa, (FI)fb, v));
  else if (type == "relori")
    o.push_back(byname ? &s.add_relative_orientation_task(na, nb, R) : &s.add_relative_orientation_task((FI)fa, (FI)fb, R));
  else if (type == "relframe")
  {
    Affine3d T = Affine3d::Identity();
    T.translation() = v;
    T.linear() = R;
    RelativeFrameTask f = byname ? s.add_relative_frame_task(na, nb, T) : s.add_relative_frame_task((FI)fa, (FI)fb, T);
    o.push_back(&f.position);
    o.push_back(&f.orientation);
  }
  else if (type == "com")
    o.push_back(&s.add_com_task(v));
  else if (type == "distance")
    o.push_back(byname ? &s.add_distance_task(na, nb, d) : &s.add_distance_task((FI)fa, (FI)fb, d));
  else if (type == "axis")
    o.push_back(byname ? &s.add_axisalign_task(na, v, v2) : &s.add_axisalign_task((FI)fa, v, v2));
  else if (type == "joints")
  {
    std::map<std::string, double> given = joints;
    o.push_back(joints.size() % 2 ? &s.add_joints_task(given) : &s.add_joints_task());
  }
  else if (type == "gear")
  {
    o.push_back(&s.add_gear_task());
    pushed_gears.erase(o.back());
  }
  else if (type == "wheel")
    o.push_back(&s.add_wheel_task(joint, d, omni));
  else if (type == "reg")
    o.push_back(&s.add_regularization_task(d));
  else if (type == "kinetic")
    o.push_back(&s.add_kinetic_energy_regularization_task(weight));
  else if (type == "manip")
  {
    ManipulabilityTask& t = s.add_manipulability_task(na, mtype == 0 ? "position" : (mtype == 1 ? "orientation" : "both"), d);
    t.minimize = minimize;
    o.push_back(&t);
  }
  else if (type == "momentum")
    o.push_back(&s.add_centroidal_momentum_task(v));
  // the targets are those given above, or are given again
  push(o, s.robot, (fa + fb + (int)type.size()) % 3 == 0);
  configure(o);
  return o;
}

void TSpec::push(std::vector<Task*>& h, RobotWrapper& robot, bool targets) const
{
  bool whole = targets && (fa + fb) % 2;  // frame tasks: as a transform, or part by part
  if (whole && (type == "frame" || type == "relframe"))
  {
    Affine3d T = Affine3d::Identity(), G;
    T.translation() = v;
    T.linear() = R;
    if (type == "frame")
    {
      FrameTask f((PositionTask*)h[0], (OrientationTask*)h[1]);
      f.set_T_world_frame(T);
      G = f.get_T_world_frame();
    }
    else
    {
      RelativeFrameTask f(*(RelativePositionTask*)h[0], *(RelativeOrientationTask*)h[1]);
      f.set_T_a_b(T);
      G = f.get_T_a_b();
    }
    if ((G.matrix() - T.matrix()).norm() > 1e-9)
      throw sim::Violation("frame-target", "a frame task does not have the target it was just given");
    targets = false;
  }
  if (type == "position" || type == "frame")
  {
    auto t = (PositionTask*)h[0];
    if (targets)
      t->target_world = v;
    mask.apply(t->mask);
  }
  if (type == "orientation" || type == "frame")
  {
    auto t = (OrientationTask*)h.back();
    if (targets)
      t->R_world_frame = R;
    (type == "frame" ? mask2 : mask).apply(t->mask);
  }
  if (type == "relpos" || type == "relframe")
  {
    auto t = (RelativePositionTask*)h[0];
    if (targets)
      t->target = v;
    mask.apply(t->mask);
  }
  if (type == "relori" || type == "relframe")
  {
    auto t = (RelativeOrientationTask*)h.back();
    if (targets)
      t->R_a_b = R;
    (type == "relframe" ? mask2 : mask).apply(t->mask);
  }
  if (type == "com")
  {
    auto t = (CoMTask*)h[0];
    if (targets)
      t->target_world = v;
    mask.apply(t->mask);
  }
  if (type == "momentum")
  {
    auto t = (CentroidalMomentumTask*)h[0];
    if (targets)
      t->L_world = v;
    mask.apply(t->mask);
  }
  if (type == "distance" && targets)
    ((DistanceTask*)h[0])->distance = d;
  if (type == "axis" && targets)
  {
    ((AxisAlignTask*)h[0])->axis_frame = v;
    ((AxisAlignTask*)h[0])->targetAxis_world = v2;
  }
  if (type == "joints")
    for (auto& kv : joints)
    {
      if (targets || joints.size() % 2 == 0)
        ((JointsTask*)h[0])->set_joint(kv.first, kv.second);
      if (((JointsTask*)h[0])->get_joint(kv.first) != kv.second)
        throw sim::Violation("joint-target", "a joints task does not have the target it was just given");
    }
  if (type == "gear")
  {
    // A new ratio for a source the target already has is given by add_gear, another set of sources starts with set_gear
    std::map<std::string, std::map<std::string, double>> now;
    for (auto& g : gears)
      now[std::get<0>(g)][std::get<1>(g)] = std::get<2>(g);
    auto& last = pushed_gears[h[0]];
    for (auto& g : now)
    {
      auto& had = last[g.first];
      bool same = had.size() == g.second.size();
      for (auto& e : g.second)
        same = same && had.count(e.first);
      bool first = !same;
      for (auto& e : g.second)
      {
        if (first)
          ((GearTask*)h[0])->set_gear(g.first, e.first, e.second);
        else if (!same || had[e.first] != e.second)
          ((GearTask*)h[0])->add_gear(g.first, e.first, e.second);
        first = false;
      }
      had = g.second;
    }
  }
  if (type == "wheel")
    ((WheelTask*)h[0])->T_world_surface = surface;
  if (type == "reg")
  {
    ((RegularizationTask*)h[0])->set_weight(d);
    for (auto& kv : jw)
      ((RegularizationTask*)h[0])->set_joint_weight(kv.first, kv.second);
  }
}

void TSpec::configure(std::vector<Task*>& h) const
{
  h[0]->configure(type, pname(prio), weight);
  if (h.size() > 1)
    h[1]->configure(type + "2", pname(prio), weight2);
}

static double manipulability(Ref& ref, int f, int type)
{
  MatrixXd J = ref.jac(f).rightCols(ref.nv() - 6);
  // expressed in the frame itself
  Matrix3d Rt = ref.rot(f).transpose();
  MatrixXd L(6, J.cols());
  L.topRows(3) = Rt * J.topRows(3);
  L.bottomRows(3) = Rt * J.bottomRows(3);
  MatrixXd M = type == 0 ? MatrixXd(L.topRows(3)) : (type == 1 ? MatrixXd(L.bottomRows(3)) : L);
  return std::sqrt(std::max(0., (M * M.transpose()).determinant()));
}

std::vector<Block> TSpec::lin(Ref& ref, double dt) const
{
  std::vector<Block> o;
  int N = ref.nv();
  auto pos = [&] {
    MatrixXd S = mask.sel(ref.rot(fa).transpose());
    o.push_back({ S * ref.jlin(fa), S * (v - ref.pos(fa)) });
  };
  auto ori = [&](const Mask& m) {
    MatrixXd S = m.sel(R.transpose());
    o.push_back({ S * ref.jang(fa), S * pinocchio::log3(Matrix3d(R * ref.rot(fa).transpose())) });
  };
  auto relpos = [&] {
    MatrixXd S = mask.sel(Matrix3d::Identity());
    Matrix3d Ra = ref.rot(fa);
    Vector3d ab = ref.pos(fb) - ref.pos(fa);
    Matrix3d sk = pinocchio::skew(ab);
    MatrixXd J = Ra.transpose() * (ref.jlin(fb) - ref.jlin(fa) + sk * ref.jang(fa));
    o.push_back({ S * J, S * (v - Ra.transpose() * ab) });
  };
  auto relori = [&](const Mask& m) {
    MatrixXd S = m.sel(Matrix3d::Identity());
    Matrix3d Ra = ref.rot(fa);
    Matrix3d Rab = Ra.transpose() * ref.rot(fb);
    MatrixXd J = Ra.transpose() * (ref.jang(fb) - ref.jang(fa));
    o.push_back({ S * J, S * pinocchio::log3(Matrix3d(R * Rab.transpose())) });
  };
  if (type == "position")
    pos();
  else if (type == "orientation")
    ori(mask);
  else if (type == "frame")
  {
    pos();
    ori(mask2);
  }
  else if (type == "relpos")
    relpos();
  else if (type == "relori")
    relori(mask);
  else if (type == "relframe")
  {
    relpos();
    relori(mask2);
  }
  else if (type == "com")
  {
    MatrixXd S = mask.sel(Matrix3d::Identity());
    o.push_back({ S * ref.jcom(), S * (v - ref.com()) });
  }
  else if (type == "distance")
  {
    Vector3d ab = ref.pos(fb) - ref.pos(fa);
    MatrixXd J = ab.normalized().transpose() * (ref.jlin(fb) - ref.jlin(fa));
    o.push_back({ J, VectorXd::Constant(1, d - ab.norm()) });
  }
  else if (type == "axis")
  {
    Vector3d a = (ref.rot(fa) * v).normalized(), t = v2.normalized();
    Vector3d n = a.cross(t);
    double ang = std::atan2(n.norm(), a.dot(t));
    // any orthonormal basis of the plane orthogonal to the axis
    Vector3d u = a.unitOrthogonal(), w = a.cross(u);
    MatrixXd P(2, 3);
    P.row(0) = u;
    P.row(1) = w;
    Vector3d rotv = n.norm() > 1e-14 ? Vector3d(n.normalized() * ang) : Vector3d(Vector3d::Zero());
    o.push_back({ P * ref.jang(fa), P * rotv });
  }
  else if (type == "joints")
  {
    Block b{ MatrixXd::Zero(joints.size(), N), VectorXd::Zero(joints.size()) };
    int k = 0;
    for (auto& kv : joints)
    {
      int j = ref.m.getJointId(kv.first);
      b.A(k, ref.m.idx_vs[j]) = 1;
      b.b[k] = kv.second - ref.q[ref.m.idx_qs[j]];
      k++;
    }
    o.push_back(b);
  }
  else if (type == "gear")
  {
    std::map<std::string, std::map<std::string, double>> g;
    for (auto& x : gears)
      g[std::get<0>(x)][std::get<1>(x)] = std::get<2>(x);
    Block b{ MatrixXd::Zero(g.size(), N), VectorXd::Zero(g.size()) };
    int k = 0;
    for (auto& kv : g)
    {
      int j = ref.m.getJointId(kv.first);
      b.A(k, ref.m.idx_vs[j]) = 1;
      b.b[k] = -ref.q[ref.m.idx_qs[j]];
      for (auto& sr : kv.second)
      {
        int i = ref.m.getJointId(sr.first);
        b.A(k, ref.m.idx_vs[i]) -= sr.second;
        b.b[k] += sr.second * ref.q[ref.m.idx_qs[i]];
      }
      k++;
    }
    o.push_back(b);
  }
  else if (type == "wheel")
  {
    // The wheel's lowest point must not slide and must lie on the surface
    int f = ref.m.getFrameId(joint);
    Matrix3d Rs = surface.linear();
    Vector3d Z = Rs.col(2), wz = ref.rot(f).col(2);
    Vector3d down = -(Z - Z.dot(wz) * wz).normalized();
    Vector3d c = ref.pos(f) + d * down;
    Vector3d x = wz.cross(Z).normalized(), y = Z.cross(x);
    MatrixXd Jc = ref.jlin(f) - pinocchio::skew(Vector3d(c - ref.pos(f))) * ref.jang(f);
    MatrixXd P(3, 3);
    P.row(0) = x;
    P.row(1) = y;
    P.row(2) = Z;
    VectorXd e = VectorXd::Zero(3);
    e[2] = -Z.dot(c - surface.translation());
    MatrixXd A = P * Jc;
    if (omni)
    {
      MatrixXd A2(2, N);
      A2.row(0) = A.row(0);
      A2.row(1) = A.row(2);
      o.push_back({ A2, Eigen::Vector2d(0, e[2]) });
    }
    else
      o.push_back({ A, e });
  }
  else if (type == "reg")
  {
    Block b{ MatrixXd::Zero(N - 6, N), VectorXd::Zero(N - 6) };
    for (int k = 0; k < N - 6; k++)
      b.A(k, k + 6) = std::sqrt(d);
    for (auto& kv : jw)
    {
      int i = ref.m.idx_vs[ref.m.getJointId(kv.first)];
      b.A(i - 6, i) = std::sqrt(kv.second);
    }
    o.push_back(b);
  }
  else if (type == "kinetic")
  {
    MatrixXd M = pinocchio::crba(ref.m, ref.d, ref.q);
    M.triangularView<Eigen::StrictlyLower>() = M.transpose().triangularView<Eigen::StrictlyLower>();
    // any square root gives the same objective
    Eigen::LLT<MatrixXd> llt(M);
    MatrixXd L = llt.matrixL();
    o.push_back({ L.transpose() / (std::sqrt(2.) * dt), VectorXd::Zero(N) });
    ref.set(VectorXd(ref.q), VectorXd(ref.v));
  }
  else if (type == "manip")
  {
    Block b{ MatrixXd::Zero(N - 6, N), VectorXd::Zero(N - 6) };
    VectorXd q0 = ref.q, v0 = ref.v;
    for (int k = 0; k < N - 6; k++)
    {
      b.A(k, k + 6) = d;
      double h = 1e-5;
      VectorXd dq = VectorXd::Zero(N);
      dq[k + 6] = h;
      ref.set(pinocchio::integrate(ref.m, q0, dq));
      double mp = manipulability(ref, fa, mtype);
      dq[k + 6] = -h;
      ref.set(pinocchio::integrate(ref.m, q0, dq));
      double mm = manipulability(ref, fa, mtype);
      b.b[k] = (mp - mm) / (2 * h) / (2 * d) * (minimize ? -1 : 1);
    }
    ref.set(q0, v0);
    o.push_back(b);
  }
  else if (type == "momentum")
  {
    // angular momentum about the CoM after moving by dq in dt
    MatrixXd Ag = pinocchio::computeCentroidalMap(ref.m, ref.d, ref.q);
    MatrixXd S = mask.sel(Matrix3d::Identity());
    o.push_back({ S * Ag.bottomRows(3) / dt, S * v });
    ref.set(VectorXd(ref.q), VectorXd(ref.v));
  }
  return o;
}

bool TSpec::regular(Ref& ref) const
{
  if (type == "manip")
    return manipulability(ref, fa, mtype) > 1e-3;
  if (type == "distance" && (ref.pos(fb) - ref.pos(fa)).norm() < 1e-2)
    return false;
  // a nearly singular task asks for a huge step: only rounding decides
  for (auto& b : lin(ref, 1.))
  {
    VectorXd s = Eigen::JacobiSVD<MatrixXd>(b.A).singularValues();
    for (int k = 0; k < s.size(); k++)
      if (s[k] > 1e-13 && s[k] < 1e-3)
        return false;
  }
  return true;
}

double TSpec::err(Ref& ref) const
{
  if (type == "reg" || type == "kinetic" || type == "manip" || type == "momentum" || type == "wheel")
    return -1;
  double e = 0;
  for (auto& b : lin(ref, 1.))
    e = std::max(e, b.b.norm());
  return e;
}

// ------------------------------------------------------------------ constraints
Constraint* CSpec::install(KinematicsSolver& s) const
{
  using FI = RobotWrapper::FrameIndex;
  Constraint* c = nullptr;
  if (type == "compoly")
  {
    auto& k = s.add_com_polygon_constraint(poly, margin);
    k.dcm = dcm;
    k.omega = omega;
    c = &k;
  }
  else if (type == "cone")
    c = (fa + fb) % 2 ? &s.add_cone_constraint(s.robot.model.frames[fa].name, s.robot.model.frames[fb].name, d) : &s.add_cone_constraint((FI)fa, (FI)fb, d);
  else if (type == "yaw")
    c = (fa + fb) % 2 ? &s.add_yaw_constraint(s.robot.model.frames[fa].name, s.robot.model.frames[fb].name, d) : &s.add_yaw_constraint((FI)fa, (FI)fb, d);
  else if (type == "dist")
    c = (fa + fb) % 2 ? &s.add_distance_constraint(s.robot.model.frames[fa].name, s.robot.model.frames[fb].name, d) : &s.add_distance_constraint((FI)fa, (FI)fb, d);
  else if (type == "half")
    c = &s.add_joint_space_half_spaces_constraint(A, b);
  else if (type == "selfcol")
  {
    auto& k = s.add_avoid_self_collisions_constraint();
    k.self_collisions_margin = margin;
    k.self_collisions_trigger = d;
    c = &k;
  }
  configure(c);
  return c;
}
void CSpec::configure(Constraint* c) const
{
  c->configure(type, pname(prio), weight);
}

static Eigen::Vector2d edge_normal(const std::vector<Eigen::Vector2d>& poly, size_t i)
{
  Eigen::Vector2d c(0, 0);
  for (auto& p : poly)
    c += p / poly.size();
  Eigen::Vector2d a = poly[i], b = poly[(i + 1) % poly.size()];
  Eigen::Vector2d n((b - a).y(), -(b - a).x());
  n.normalize();
  if (n.dot(c - a) < 0)
    n = -n;
  return n;
}

bool CSpec::lin(Ref& ref, double dt, Block& blk) const
{
  int N = ref.nv();
  if (type == "compoly")
  {
    blk.A = MatrixXd(poly.size(), N);
    blk.b = VectorXd(poly.size());
    MatrixXd J = ref.jcom().topRows(2);
    Eigen::Vector2d com = ref.com().head(2);
    if (dcm)
      J *= 1 + 1 / (dt * omega);
    for (size_t i = 0; i < poly.size(); i++)
    {
      Eigen::Vector2d n = edge_normal(poly, i);
      blk.A.row(i) = n.transpose() * J;
      blk.b[i] = n.dot(com - poly[i]) - margin;
    }
    return true;
  }
  if (type == "dist")
  {
    Vector3d ab = ref.pos(fb) - ref.pos(fa);
    blk.A = -ab.normalized().transpose() * (ref.jlin(fb) - ref.jlin(fa));
    blk.b = VectorXd::Constant(1, d - ab.norm());
    return true;
  }
  if (type == "half")
  {
    blk.A = MatrixXd::Zero(A.rows(), N);
    blk.A.rightCols(N - 6) = -A.rightCols(N - 6);
    blk.b = b - A.rightCols(N - 6) * ref.q.tail(N - 6);
    return true;
  }
  return false;
}

double CSpec::angle(Ref& ref) const
{
  if (type == "cone")
  {
    Vector3d z = ref.rot(fa).transpose() * ref.rot(fb).col(2);
    return std::atan2(z.head(2).norm(), z[2]);
  }
  Vector3d x = ref.rot(fa).transpose() * ref.rot(fb).col(0);
  return std::atan2(x[1], x[0]);
}

std::vector<double> CSpec::margins(Ref& ref, Ref* prev, double dt, const pinocchio::GeometryModel* geom) const
{
  std::vector<double> o;
  if (type == "compoly")
  {
    Eigen::Vector2d p = ref.com().head(2);
    if (dcm && prev)
      p += (ref.com() - prev->com()).head(2) / (dt * omega);
    for (size_t i = 0; i < poly.size(); i++)
      o.push_back(edge_normal(poly, i).dot(p - poly[i]) - margin);
  }
  if (type == "dist")
    o.push_back(d - (ref.pos(fb) - ref.pos(fa)).norm());
  if (type == "half")
  {
    VectorXd m = b - A.rightCols(ref.nv() - 6) * ref.q.tail(ref.nv() - 6);
    o.assign(m.data(), m.data() + m.size());
  }
  if (type == "cone")
    o.push_back(d - angle(ref));
  if (type == "yaw")
  {
    o.push_back(d - angle(ref));
    o.push_back(d + angle(ref));
  }
  if (type == "selfcol" && geom)
    for (auto& cp : geom->collisionPairs)
    {
      // spheres: distance between the centres, minus the radii
      double dist = 0, rad = 0;
      Vector3d c[2];
      for (int k = 0; k < 2; k++)
      {
        auto& g = geom->geometryObjects[k ? cp.second : cp.first];
        c[k] = ref.d.oMi[g.parentJoint].act(g.placement).translation();
        rad += std::dynamic_pointer_cast<coal::Sphere>(g.geometry)->radius;
      }
      dist = (c[1] - c[0]).norm() - rad;
      o.push_back(dist - margin);
    }
  return o;
}

// ------------------------------------------------------------------ world
World::World(RobotWrapper& r, const std::string& n) : robot(r), name(n), solver(new KinematicsSolver(r)), ref(r.model)
{
  for (auto& j : r.joint_names())
    joints.push_back(j);
  for (auto& f : r.frame_names())
  {
    // (links and joints may share their name, then a frame can't be designated by it)
    int n = 0;
    for (auto& g : r.model.frames)
      n += g.name == f;
    if (f != "universe" && f != "root_joint" && n == 1)
      frames.push_back(f);
  }
  refresh();
}

void World::add(std::unique_ptr<TSpec> t)
{
  t->h = t->install(*solver);
  tasks.push_back(std::move(t));
}
void World::add(std::unique_ptr<CSpec> c)
{
  c->h = c->install(*solver);
  cons.push_back(std::move(c));
}
void World::remove(size_t i)
{
  if (tasks[i]->type == "frame")
  {
    placo::kinematics::FrameTask f((PositionTask*)tasks[i]->h[0], (OrientationTask*)tasks[i]->h[1]);
    solver->remove_task(f);
  }
  else
    for (auto t : tasks[i]->h)
      solver->remove_task(*t);
  tasks.erase(tasks.begin() + i);
}
void World::remove_con(size_t i)
{
  solver->remove_constraint(*cons[i]->h);
  cons.erase(cons.begin() + i);
}

void World::limits(bool joint, bool velocity)
{
  jl = joint;
  vl = velocity;
  solver->enable_joint_limits(joint);
  solver->enable_velocity_limits(velocity);
}

std::unique_ptr<KinematicsSolver> World::twin()
{
  std::unique_ptr<KinematicsSolver> s(new KinematicsSolver(robot));
  s->dt = solver->dt;
  s->problem.regularization = solver->problem.regularization;
  for (auto& t : tasks)
    t->install(*s);
  for (auto& c : cons)
    c->install(*s);
  for (auto& m : masked)
    s->mask_dof(m);
  s->mask_fbase(fbase_masked);
  s->enable_joint_limits(jl);
  s->enable_velocity_limits(vl);
  return s;
}

refqp::Model World::model(bool& complete, bool& scaled)
{
  refqp::Model m;
  int N = ref.nv();
  complete = true;
  scaled = false;
  for (auto& t : tasks)
    scaled |= t->prio == SCALED;
  m.n = N + (scaled ? 1 : 0);
  m.reg = solver->problem.regularization;
  double dt = solver->dt;
  auto row = [&](const MatrixXd& A, const VectorXd& b, bool eq, bool hard, double w) {
    refqp::Row r;
    r.A = A;
    r.b = b;
    r.equality = eq;
    r.hard = hard;
    r.weight = w;
    m.rows.push_back(r);
  };
  for (auto& t : tasks)
  {
    auto bl = t->lin(ref, dt);
    for (size_t k = 0; k < bl.size(); k++)
    {
      double w = k == 0 ? t->weight : t->weight2;
      if (t->prio == SCALED)
      {
        MatrixXd A(bl[k].A.rows(), N + 1);
        A.leftCols(N) = bl[k].A;
        A.col(N) = -bl[k].b;
        row(A, VectorXd::Zero(A.rows()), true, true, 1);
      }
      else
        row(bl[k].A, -bl[k].b, true, t->prio == HARD, w);
    }
  }
  if (scaled)
  {
    MatrixXd A = MatrixXd::Zero(1, N + 1);
    A(0, N) = 1;
    row(A, VectorXd::Zero(1), false, true, 1);
    row(-A, VectorXd::Ones(1), false, true, 1);
    row(A, -VectorXd::Ones(1), true, false, 1);
  }
  for (auto& j : masked)
  {
    int nv = ref.m.nvs[ref.m.getJointId(j)];
    MatrixXd A = MatrixXd::Zero(nv, N);
    A.block(0, ref.m.idx_vs[ref.m.getJointId(j)], nv, nv).setIdentity();
    row(A, VectorXd::Zero(nv), true, true, 1);
  }
  if (fbase_masked)
  {
    MatrixXd A = MatrixXd::Zero(6, N);
    A.leftCols(6).setIdentity();
    row(A, VectorXd::Zero(6), true, true, 1);
  }
  for (int k = 6; k < N; k++)
  {
    MatrixXd A = MatrixXd::Zero(1, N);
    A(0, k) = 1;
    double up = robot.model.upperPositionLimit[k + 1], lo = robot.model.lowerPositionLimit[k + 1];
    if (jl)
    {
      if (up < 1e6)
        row(-A, VectorXd::Constant(1, up - ref.q[k + 1]), false, true, 1);
      if (lo > -1e6)
        row(A, VectorXd::Constant(1, ref.q[k + 1] - lo), false, true, 1);
    }
    if (vl)
    {
      double v = robot.model.velocityLimit[k] * dt;
      row(-A, VectorXd::Constant(1, v), false, true, 1);
      row(A, VectorXd::Constant(1, v), false, true, 1);
    }
  }
  for (auto& c : cons)
  {
    Block b;
    if (!c->lin(ref, dt, b))
      complete = false;
    else
      row(b.A, b.b, false, c->prio == HARD, c->weight);
  }
  return m;
}

void World::aim(TSpec& t, Rng& r, double reach)
{
  auto& ref = this->ref;
  double rot = std::min(2.5, reach * 3);
  if (t.type == "position" || t.type == "frame")
    t.v = ref.pos(t.fa) + random_vec(r, r.uni(0, reach));
  if (t.type == "orientation" || t.type == "frame")
    t.R = random_rot(r, rot) * ref.rot(t.fa);
  if (t.type == "relpos" || t.type == "relframe")
    t.v = ref.rot(t.fa).transpose() * (ref.pos(t.fb) - ref.pos(t.fa)) + random_vec(r, r.uni(0, reach));
  if (t.type == "relori" || t.type == "relframe")
    t.R = random_rot(r, rot) * ref.rot(t.fa).transpose() * ref.rot(t.fb);
  if (t.type == "com")
    t.v = ref.com() + random_vec(r, r.uni(0, reach));
  if (t.type == "distance")
    t.d = std::max(0.05, (ref.pos(t.fb) - ref.pos(t.fa)).norm() + r.uni(-reach, reach));
  if (t.type == "axis")
  {
    t.v = random_vec(r, r.uni(0.5, 2));
    t.v2 = random_rot(r, rot) * ref.rot(t.fa) * t.v * r.uni(0.5, 2);
    if (r.chance(0.15))
    {
      // already aligned, exactly when the frame is in a canonical pose
      t.v = Vector3d::UnitZ();
      t.v2 = ref.rot(t.fa) * t.v;
    }
  }
  if (t.type == "joints")
    for (auto& kv : t.joints)
      kv.second = robot.get_joint(kv.first) + r.uni(-reach, reach) * 2;
  if (t.type == "momentum")
    t.v = random_vec(r, r.uni(0, 0.2));
}

void World::aim_at(TSpec& t, Ref& g)
{
  if (t.type == "position" || t.type == "frame")
    t.v = g.pos(t.fa);
  if (t.type == "orientation" || t.type == "frame")
    t.R = g.rot(t.fa);
  if (t.type == "relpos" || t.type == "relframe")
    t.v = g.rot(t.fa).transpose() * (g.pos(t.fb) - g.pos(t.fa));
  if (t.type == "relori" || t.type == "relframe")
    t.R = g.rot(t.fa).transpose() * g.rot(t.fb);
  if (t.type == "com")
    t.v = g.com();
  if (t.type == "distance")
    t.d = (g.pos(t.fb) - g.pos(t.fa)).norm();
  if (t.type == "axis")
    t.v2 = g.rot(t.fa) * t.v;
  if (t.type == "joints")
    for (auto& kv : t.joints)
      kv.second = g.q[g.m.idx_qs[g.m.getJointId(kv.first)]];
}

static void remask(TSpec& t, Rng& r)
{
  auto rmask = [&](Mask& m, bool local) {
    static const std::vector<std::string> ax = { "xyz", "xyz", "xy", "z", "x", "yz", "zx", "y" };
    m.axes = r.pick(ax);
    int f = r.range(local ? 3 : 2);
    m.frame = f == 0 ? "task" : (f == 1 ? "custom" : "local");
    m.R = random_rot(r, 3);
  };
  bool rel = t.type == "relpos" || t.type == "relori" || t.type == "relframe" || t.type == "com" || t.type == "momentum";
  rmask(t.mask, !rel);
  rmask(t.mask2, !rel);
}

void World::edit(TSpec& t, Rng& r)
{
  if (t.type == "joints")
    t.joints[r.pick(joints)] = 0;  // (aimed next)
  else if (t.type == "gear")
  {
    // another source for the target, or another ratio
    std::string a = std::get<0>(t.gears[0]), b = r.pick(joints);
    double ratio = r.uni(-1.5, 1.5);
    if (r.chance(0.5) && b != a)
      t.gears = { { a, b, ratio } };
    else
      std::get<2>(t.gears.back()) = ratio;
  }
  else if (t.type == "reg")
  {
    if (r.chance(0.5))
      t.d = std::pow(10., r.uni(-5, -1));
    else
      t.jw[r.pick(joints)] = std::pow(10., r.uni(-4, 1));
  }
  else if (t.type != "wheel" && t.type != "manip" && t.type != "kinetic" && t.type != "distance" && t.type != "axis")
    remask(t, r);
}

std::unique_ptr<TSpec> World::random_task(Rng& r, const std::vector<std::string>& types, double reach)
{
  std::unique_ptr<TSpec> t(new TSpec);
  t->type = r.pick(types);
  auto eff = effectors(name);
  if (t->type == "wheel" && name != "arm")
    t->type = "position";
  if (r.chance(0.6))
    t->fa = frame(r.pick(eff));
  else
    t->fa = frame(r.pick(frames));
  do
  {
    t->fb = r.chance(0.6) ? frame(r.pick(eff)) : frame(r.pick(frames));
  } while (ref.m.frames[t->fb].parentJoint == ref.m.frames[t->fa].parentJoint);
  if (t->type == "manip")
    t->fa = frame(eff[r.range(2)]);
  if (r.chance(0.5))
    remask(*t, r);
  if (t->type == "joints")
  {
    int n = r.between(1, 4);
    for (int i = 0; i < n; i++)
      t->joints[r.pick(joints)] = 0;
  }
  if (t->type == "gear")
  {
    std::string a = r.pick(joints);
    int n = r.between(1, 2);
    for (int i = 0; i < n; i++)
    {
      std::string b = r.pick(joints);
      if (b == a)
        continue;
      bool dup = false;
      for (auto& g : t->gears)
        dup |= std::get<1>(g) == b;
      if (!dup)
        t->gears.push_back({ a, b, r.uni(-1.5, 1.5) });
    }
    if (t->gears.empty())
      t->gears.push_back({ joints[0], joints[1], 0.5 });
  }
  if (t->type == "wheel")
  {
    t->joint = r.chance(0.5) ? "wheel_left" : "wheel_right";
    t->d = r.uni(0.05, 0.12);
    t->omni = r.chance(0.4);
    t->surface.linear() = random_rot(r, 0.3);
    t->surface.translation() = random_vec(r, 0.1);
  }
  if (t->type == "reg")
  {
    t->d = std::pow(10., r.uni(-5, -1));
    if (r.chance(0.4))
      t->jw[r.pick(joints)] = std::pow(10., r.uni(-4, 1));
  }
  if (t->type == "manip")
  {
    t->d = r.uni(0.3, 2);
    t->mtype = r.range(3);
    if (t->mtype == 2 && manipulability(ref, t->fa, 2) < 2e-3)
      t->mtype = r.range(2);  // (a limb with less than six joints)
    t->minimize = r.chance(0.3);
  }
  t->weight = std::pow(10., r.uni(-1.5, 1.5));
  t->weight2 = std::pow(10., r.uni(-1.5, 1.5));
  if (t->type == "reg")
    t->weight = 1;
  if (t->type == "kinetic")
    t->weight = std::pow(10., r.uni(-6, -3));
  aim(*t, r, reach);
  return t;
}
}  // namespace kin
