#include "dynworld.h"

namespace dyn
{
using placo::problem::ProblemConstraint;
static Matrix3d skew(const Vector3d& v)
{
  return pinocchio::skew(v);
}

Task* TSpec::install(DynamicsSolver& s) const
{
  Task* t = nullptr;
  // by index, by name, or as a half of a frame task whose other half is removed
  using FI = RobotWrapper::FrameIndex;
  int how = (fa + fb) % 3;
  std::string na = s.robot.model.frames[fa].name, nb = s.robot.model.frames[fb].name;
  Affine3d T = Affine3d::Identity(), other = Affine3d::Identity(), G = T;
  T.translation() = v;
  T.linear() = R;
  other.translation() = Vector3d(1, 2, 3);
  bool whole = false;
  if (how == 2 && (type == "position" || type == "orientation"))
  {
    bool late = fa % 2;
    FrameTask f = fa % 4 < 2 ? s.add_frame_task(na, late ? other : T) : s.add_frame_task((FI)fa, late ? other : T);
    if (late)
      f.set_T_world_frame(T);
    G = f.get_T_world_frame();
    whole = true;
    f.configure("frame", hard ? "hard" : "soft", weight, weight);
    if (type == "position")
      t = f.position, s.remove_task(*f.orientation);
    else
      t = f.orientation, s.remove_task(*f.position);
  }
  else if (how == 2 && (type == "rel_position" || type == "rel_orientation"))
  {
    bool late = fa % 2;
    RelativeFrameTask f = fa % 4 < 2 ? s.add_relative_frame_task(na, nb, late ? other : T) : s.add_relative_frame_task((FI)fa, (FI)fb, late ? other : T);
    if (late)
      f.set_T_a_b(T);
    G = f.get_T_a_b();
    whole = true;
    f.configure("frame", hard ? "hard" : "soft", weight, weight);
    if (type == "rel_position")
      t = f.position, s.remove_task(*f.orientation);
    else
      t = f.orientation, s.remove_task(*f.position);
  }
  else if (type == "position")
    t = how ? &s.add_position_task(na, v) : &s.add_position_task((FI)fa, v);
  else if (type == "orientation")
    t = how ? &s.add_orientation_task(na, R) : &s.add_orientation_task((FI)fa, R);
  else if (type == "rel_position")
    t = how ? &s.add_relative_position_task(na, nb, v) : &s.add_relative_position_task((FI)fa, (FI)fb, v);
  else if (type == "rel_orientation")
    t = how ? &s.add_relative_orientation_task(na, nb, R) : &s.add_relative_orientation_task((FI)fa, (FI)fb, R);
  else if (type == "com")
    t = &s.add_com_task(v);
  else if (type == "joints")
    t = &s.add_joints_task();
  else if (type == "torque")
    t = &s.add_torque_task();
  else
    t = &s.add_gear_task();
  if (whole && (G.matrix() - T.matrix()).norm() > 1e-9)
    throw sim::Violation("frame-target", "a frame task does not have the target it was just given");
  pushed_gears.erase(t);
  push(t, s, (fa + fb + (int)type.size()) % 2);  // (the targets are those given above, or are given again)
  return t;
}

void TSpec::push(Task* h, DynamicsSolver& s, bool targets) const
{
  h->kp = kp;
  h->kd = kd;
  h->configure(type, hard ? "hard" : "soft", weight);
  if (auto* p = dynamic_cast<PositionTask*>(h))
  {
    if (targets)
      p->target_world = v;
    p->dtarget_world = dv;
    p->ddtarget_world = ddv;
    p->mask.set_axises(axes);
  }
  else if (auto* p = dynamic_cast<CoMTask*>(h))
  {
    if (targets)
      p->target_world = v;
    p->dtarget_world = dv;
    p->ddtarget_world = ddv;
    p->mask.set_axises(axes);
  }
  else if (auto* p = dynamic_cast<RelativePositionTask*>(h))
  {
    if (targets)
      p->target = v;
    p->dtarget = dv;
    p->ddtarget = ddv;
    p->mask.set_axises(axes);
  }
  else if (auto* p = dynamic_cast<OrientationTask*>(h))
  {
    if (targets)
      p->R_world_frame = R;
    p->omega_world = dv;
    p->domega_world = ddv;
    p->mask.set_axises(axes);
  }
  else if (auto* p = dynamic_cast<RelativeOrientationTask*>(h))
  {
    if (targets)
      p->R_a_b = R;
    p->omega_a_b = dv;
    p->domega_a_b = ddv;
    p->mask.set_axises(axes);
  }
  else if (auto* p = dynamic_cast<JointsTask*>(h))
  {
    for (auto& e : joints)
      p->set_joint(e.first, e.second[0], e.second[1], e.second[2]);
  }
  else if (auto* p = dynamic_cast<TorqueTask*>(h))
  {
    std::vector<std::string> gone;
    for (auto& e : p->torques)
      if (!joints.count(e.first))
        gone.push_back(e.first);
    for (auto& g : gone)
      p->reset_torque(g);
    for (auto& e : joints)
      p->set_torque(e.first, e.second[0], 0., e.second[2]);
  }
  else if (auto* p = dynamic_cast<GearTask*>(h))
  {
    // A new ratio for a source the target already has is given by add_gear, another set of sources starts with set_gear
    auto& last = pushed_gears[h];
    for (auto& g : gears)
    {
      auto& had = last[g.first];
      bool same = had.size() == g.second.size();
      for (auto& e : g.second)
        same = same && had.count(e.first);
      bool first = !same;
      for (auto& e : g.second)
      {
        if (first)
          p->set_gear(g.first, e.first, e.second);
        else if (!same || had[e.first] != e.second)
          p->add_gear(g.first, e.first, e.second);
        first = false;
      }
      had = g.second;
    }
  }
}

static MatrixXd sel(const std::string& axes)
{
  MatrixXd S = MatrixXd::Zero(axes.size(), 3);
  for (size_t i = 0; i < axes.size(); i++)
    S(i, axes[i] - 'x') = 1;
  return S;
}

bool TSpec::lin(Ref& ref, MatrixXd& A, VectorXd& b) const
{
  double D = kd < 0 ? 2 * std::sqrt(kp) : kd;
  int n = ref.nv();
  auto acc0 = [&](int f) { return Vector3d(pinocchio::getFrameClassicalAcceleration(ref.m, ref.d, f, pinocchio::LOCAL_WORLD_ALIGNED).linear()); };
  auto wacc0 = [&](int f) { return Vector3d(pinocchio::getFrameAcceleration(ref.m, ref.d, f, pinocchio::LOCAL_WORLD_ALIGNED).angular()); };
  if (type == "position")
  {
    MatrixXd J = ref.jlin(fa);
    Vector3d des = kp * (v - ref.pos(fa)) + D * (dv - J * ref.v) + ddv;
    A = sel(axes) * J;
    b = sel(axes) * (des - acc0(fa));
    return true;
  }
  if (type == "orientation")
  {
    MatrixXd J = ref.jang(fa);
    Vector3d e = pinocchio::log3(Matrix3d(R * ref.rot(fa).transpose()));
    A = sel(axes) * J;
    if (e.norm() > 3.0)
      return false;
    Vector3d des = kp * e + D * (dv - J * ref.v) + ddv;
    A = sel(axes) * J;
    b = sel(axes) * (des - wacc0(fa));
    return true;
  }
  if (type == "com")
  {
    // center of mass acceleration at null qdd, by hand: mean of the bodies' accelerations
    Vector3d a0 = Vector3d::Zero();
    double mass = 0;
    for (int i = 1; i < ref.m.njoints; i++)
    {
      double mi = ref.m.inertias[i].mass();
      Vector3d c = ref.m.inertias[i].lever();
      Vector3d w = ref.d.v[i].angular(), dw = ref.d.a[i].angular();
      Vector3d vl = ref.d.v[i].linear();
      Vector3d a = ref.d.a[i].linear() + w.cross(vl);  // classical acceleration of the joint's origin
      Vector3d ac = a + dw.cross(c) + w.cross(w.cross(c));
      a0 += mi * (ref.d.oMi[i].rotation() * ac);
      mass += mi;
    }
    a0 /= mass;
    MatrixXd J = ref.jcom();
    Vector3d des = kp * (v - ref.com()) + D * (dv - J * ref.v) + ddv;
    A = sel(axes) * J;
    b = sel(axes) * (des - a0);
    return true;
  }
  if (type == "rel_position")
  {
    Matrix3d Rt = ref.rot(fa).transpose();
    Vector3d AB = Rt * (ref.pos(fb) - ref.pos(fa));
    MatrixXd Jl = ref.jlin(fb) - ref.jlin(fa), Ja = ref.jang(fa);
    Vector3d S = -Rt * (Ja * ref.v);  // dR^T/dt = [S]x R^T
    Vector3d wd = Rt * (Jl * ref.v);
    Vector3d dAB = S.cross(AB) + wd;
    Vector3d bias = -(Rt * wacc0(fa)).cross(AB) + S.cross(S.cross(AB)) + 2 * S.cross(wd) + Rt * (acc0(fb) - acc0(fa));
    MatrixXd J = skew(AB) * Rt * Ja + Rt * Jl;
    Vector3d des = kp * (v - AB) + D * (dv - dAB) + ddv;
    A = sel(axes) * J;
    b = sel(axes) * (des - bias);
    return true;
  }
  if (type == "joints" || type == "torque")
  {
    A = MatrixXd::Zero(joints.size(), n);
    b = VectorXd::Zero(joints.size());
    int k = 0;
    for (auto& e : joints)
    {
      auto& jm = ref.m.joints[ref.m.getJointId(e.first)];
      A(k, jm.idx_v()) = 1;
      double q = ref.q[jm.idx_q()], qd = ref.v[jm.idx_v()];
      b[k] = type == "joints" ? kp * (e.second[0] - q) + D * (e.second[1] - qd) + e.second[2] : e.second[0] - e.second[2] * qd;
      k++;
    }
    return true;
  }
  if (type == "gear")
  {
    A = MatrixXd::Zero(gears.size(), n);
    b = VectorXd::Zero(gears.size());
    int k = 0;
    for (auto& g : gears)
    {
      // d = target - sum of ratio * source has to obey dd = -kp d - kd dd/dt
      auto& jt = ref.m.joints[ref.m.getJointId(g.first)];
      double d = ref.q[jt.idx_q()], dd = ref.v[jt.idx_v()];
      A(k, jt.idx_v()) = 1;
      for (auto& e : g.second)
      {
        auto& js = ref.m.joints[ref.m.getJointId(e.first)];
        d -= e.second * ref.q[js.idx_q()];
        dd -= e.second * ref.v[js.idx_v()];
        A(k, js.idx_v()) = -e.second;
      }
      b[k] = -kp * d - D * dd;
      k++;
    }
    return true;
  }
  return false;
}

double TSpec::err(Ref& ref) const
{
  MatrixXd S = sel(axes);
  if (type == "position")
    return (S * (v - ref.pos(fa))).norm();
  if (type == "orientation")
    return (S * pinocchio::log3(Matrix3d(R * ref.rot(fa).transpose()))).norm();
  if (type == "com")
    return (S * (v - ref.com())).norm();
  if (type == "rel_position")
    return (S * (v - ref.rot(fa).transpose() * (ref.pos(fb) - ref.pos(fa)))).norm();
  if (type == "rel_orientation")
    return pinocchio::log3(Matrix3d(R.transpose() * ref.rot(fa).transpose() * ref.rot(fb))).norm();
  double e = 0;
  if (type == "joints")
    for (auto& j : joints)
      e += std::pow(j.second[0] - ref.q[ref.m.joints[ref.m.getJointId(j.first)].idx_q()], 2);
  if (type == "gear")
    for (auto& g : gears)
    {
      double d = ref.q[ref.m.joints[ref.m.getJointId(g.first)].idx_q()];
      for (auto& s : g.second)
        d -= s.second * ref.q[ref.m.joints[ref.m.getJointId(s.first)].idx_q()];
      e += d * d;
    }
  return std::sqrt(e);
}

// ---------------------------------------------------------------- contacts
Contact* CSpec::install(DynamicsSolver& s, Task* h1, Task* h2) const
{
  Contact* c = nullptr;
  auto* p = dynamic_cast<PositionTask*>(h1);
  auto* o = dynamic_cast<OrientationTask*>(h2);
  if (type == "point")
    c = &s.add_point_contact(*p);
  else if (type == "upoint")
    c = &s.add_unilateral_point_contact(*p);
  else if (type == "fixed" || type == "planar" || type == "line" || type == "uline")
  {
    FrameTask ft(p, o);
    c = type == "fixed" ? (Contact*)&s.add_fixed_contact(ft) :
                          (type == "planar" ? (Contact*)&s.add_planar_contact(ft) :
                                              (type == "line" ? (Contact*)&s.add_line_contact(ft) : (Contact*)&s.add_unilateral_line_contact(ft)));
  }
  else if (type == "ext")
    c = frame % 2 ? &s.add_external_wrench_contact(s.robot.model.frames[frame].name, local ? "local" : "world") : &s.add_external_wrench_contact(frame, local ? pinocchio::LOCAL : pinocchio::LOCAL_WORLD_ALIGNED);
  else if (type == "puppet")
    c = &s.add_puppet_contact();
  else
    c = &s.add_task_contact(*h1);
  push(c);
  return c;
}

void CSpec::push(Contact* c) const
{
  c->active = active;
  c->mu = mu;
  c->weight_forces = wf;
  c->weight_tangentials = wt;
  c->weight_moments = wm;
  if (auto* p = dynamic_cast<PointContact*>(c))
    p->R_world_surface = R;
  if (auto* p = dynamic_cast<Contact6D*>(c))
  {
    p->length = length;
    p->width = width;
  }
  if (auto* p = dynamic_cast<LineContact*>(c))
  {
    p->length = length;
    p->R_world_surface = R;
  }
  if (auto* p = dynamic_cast<ExternalWrenchContact*>(c))
    p->w_ext = w_ext;
}

MatrixXd CSpec::J(Ref& ref) const
{
  if (type == "point" || type == "upoint")
    return ref.jlin(t1->fa);
  if (type == "fixed" || type == "planar")
  {
    MatrixXd J(6, ref.nv());
    Matrix3d Rt = ref.rot(t1->fa).transpose();
    J.topRows(3) = Rt * ref.jlin(t1->fa);
    J.bottomRows(3) = Rt * ref.jang(t1->fa);
    return J;
  }
  if (type == "line" || type == "uline")
  {
    MatrixXd J(5, ref.nv());
    J.topRows(3) = ref.jlin(t1->fa);
    J.bottomRows(2) = ref.jang(t1->fa).bottomRows(2);
    return J;
  }
  if (type == "ext")
  {
    MatrixXd J = ref.jac(frame);
    if (local)
    {
      Matrix3d Rt = ref.rot(frame).transpose();
      J.topRows(3) = Rt * J.topRows(3).eval();
      J.bottomRows(3) = Rt * J.bottomRows(3).eval();
    }
    return J;
  }
  if (type == "puppet")
    return MatrixXd::Identity(ref.nv(), ref.nv());
  MatrixXd A;
  VectorXd b;
  t1->lin(ref, A, b);
  return A;
}

static void unit(refqp::Model& m, int n, const std::vector<std::pair<int, double>>& c, bool eq, bool hard, double w, double b = 0)
{
  refqp::Row r;
  r.A = MatrixXd::Zero(1, n);
  for (auto& e : c)
    r.A(0, e.first) = e.second;
  r.b = VectorXd::Constant(1, b);
  r.equality = eq;
  r.hard = hard;
  r.weight = w;
  m.rows.push_back(r);
}
static void lincomb(refqp::Model& m, int n, int k, const VectorXd& c, bool eq, bool hard, double w)
{
  refqp::Row r;
  r.A = MatrixXd::Zero(1, n);
  for (int i = 0; i < c.size(); i++)
    r.A(0, k + i) = c[i];
  r.b = VectorXd::Zero(1);
  r.equality = eq;
  r.hard = hard;
  r.weight = w;
  m.rows.push_back(r);
}

void CSpec::rows(refqp::Model& m, int k, int size, int n) const
{
  bool pt = type == "point" || type == "upoint", ln = type == "line" || type == "uline", six = type == "fixed" || type == "planar";
  // axes of the surface
  Vector3d X = R.col(0), Y = R.col(1), Z = R.col(2);
  if (six)
  {
    X = Vector3d::UnitX();
    Y = Vector3d::UnitY();
    Z = Vector3d::UnitZ();
  }
  if (type == "upoint" || type == "planar" || type == "uline")
  {
    lincomb(m, n, k, Z, false, true, 1);
    for (auto& T : { X, Y })
      for (double s : { 1., -1. })
        lincomb(m, n, k, mu * Z + s * T, false, true, 1);
    auto moment = [&](int i, double half) {
      for (double s : { 1., -1. })
      {
        VectorXd c = VectorXd::Zero(size);
        c.head(3) = half * Z;
        c[i] = s;
        lincomb(m, n, k, c, false, true, 1);
      }
    };
    if (type == "planar")
    {
      moment(4, length / 2);
      moment(3, width / 2);
    }
    if (type == "uline")
      moment(3, length / 2);
  }
  if (type == "ext")
  {
    for (int i = 0; i < 6; i++)
      unit(m, n, { { k + i, 1. } }, true, true, 1, -w_ext[i]);
    return;
  }
  int nf = (pt || six || ln) ? 3 : size;
  if (wf > 0)
    for (int i = 0; i < nf; i++)
      unit(m, n, { { k + i, 1. } }, true, false, wf);
  if (wt > 0 && (pt || six || ln))
  {
    lincomb(m, n, k, X, true, false, wt);
    lincomb(m, n, k, Y, true, false, wt);
  }
  if (wm > 0 && (six || ln))
    for (int i = 3; i < size; i++)
      unit(m, n, { { k + i, 1. } }, true, false, wm);
}

std::string CSpec::admissible(const VectorXd& w) const
{
  double tol = 2e-3 * (1 + mu + 1e-3 * w.norm());
  if (type == "ext")
    return (w - w_ext).norm() < 1e-5 * (1 + w_ext.norm()) ? "" : "the external wrench isn't the given one";
  if (type != "upoint" && type != "planar" && type != "uline")
    return "";
  Vector3d f = w.head(3);
  if (type != "planar")
    f = R.transpose() * f;
  if (f.z() < -tol)
    return sim::fmt("a unilateral contact pulls (normal force %.4g)", f.z());
  if (std::fabs(f.x()) > mu * f.z() + tol || std::fabs(f.y()) > mu * f.z() + tol)
    return sim::fmt("a contact force is out of its friction cone (%.4g %.4g %.4g, mu %.3g)", f.x(), f.y(), f.z(), mu);
  if (type == "planar" && (std::fabs(w[4]) > length / 2 * f.z() + tol || std::fabs(w[3]) > width / 2 * f.z() + tol))
    return "the center of pressure of a planar contact is out of its surface";
  if (type == "uline" && std::fabs(w[3]) > length / 2 * f.z() + tol)
    return "the center of pressure of a line contact is out of the line";
  return "";
}

// ---------------------------------------------------------------- world
World::World(RobotWrapper& r, const std::string& n) : robot(r), name(n), solver(new DynamicsSolver(r)), ref(r.model)
{
  joints = r.joint_names();
  frames = effectors(name);
  refresh();
}

TSpec* World::add(std::unique_ptr<TSpec> t)
{
  t->h = t->install(*solver);
  tasks.push_back(std::move(t));
  return tasks.back().get();
}

void World::remove(size_t i)
{
  solver->remove_task(*tasks[i]->h);
  tasks.erase(tasks.begin() + i);
}

void World::add_contact(std::unique_ptr<CSpec> c)
{
  c->h = c->install(*solver, c->t1 ? c->t1->h : nullptr, c->t2 ? c->t2->h : nullptr);
  if (c->t1)
    c->t1->users++;
  if (c->t2)
    c->t2->users++;
  contacts.push_back(std::move(c));
}

void World::remove_contact(size_t i)
{
  auto& c = contacts[i];
  solver->remove_contact(*c->h);
  if (c->t1)
    c->t1->users--;
  if (c->t2)
    c->t2->users--;
  contacts.erase(contacts.begin() + i);
}

void World::options(DynamicsSolver& s) const
{
  s.mask_fbase(fbase_masked);
  s.enable_joint_limits(jl);
  s.enable_velocity_limits(vl);
  s.enable_torque_limits(tl);
  s.enable_velocity_vs_torque_limits(vtl);
  s.gravity_only = gravity_only;
  s.dt = dt;
  s.damping = damping;
  s.torque_cost = torque_cost;
  s.extra_force = extra;
  for (auto& e : tlim)
    s.set_torque_limit(e.first, e.second);
  for (auto& e : qsafe)
    s.set_qdd_safe(e.first, e.second);
}

MatrixXd World::M()
{
  // column by column, with the recursive Newton-Euler algorithm (placo uses the composite rigid body algorithm)
  int n = ref.nv();
  pinocchio::Data d(ref.m);
  VectorXd z = VectorXd::Zero(n);
  VectorXd g = pinocchio::rnea(ref.m, d, ref.q, z, z);
  MatrixXd M(n, n);
  for (int k = 0; k < n; k++)
    M.col(k) = pinocchio::rnea(ref.m, d, ref.q, z, VectorXd(VectorXd::Unit(n, k))) - g;
  for (int k = 0; k < n; k++)
    M(k, k) += robot.model.rotorGearRatio[k] * robot.model.rotorGearRatio[k] * robot.model.rotorInertia[k];
  return M;
}

VectorXd World::bias()
{
  pinocchio::Data d(ref.m);
  VectorXd z = VectorXd::Zero(ref.nv());
  VectorXd b = pinocchio::rnea(ref.m, d, ref.q, gravity_only ? z : ref.v, z);
  b += damping * ref.v;
  if (extra.size())
    b += extra;
  return b;
}

double World::effort(int k, bool overridden) const
{
  if (overridden)
    for (auto& e : tlim)
      if (ref.m.joints[ref.m.getJointId(e.first)].idx_v() == k)
        return e.second;
  return robot.model.effortLimit[k];
}

double World::qdd_safe(int k) const
{
  for (auto& e : qsafe)
    if (ref.m.joints[ref.m.getJointId(e.first)].idx_v() == k)
      return e.second;
  return 1.;
}

refqp::Model World::model(bool& complete)
{
  complete = true;
  int N = ref.nv();
  std::vector<MatrixXd> Js;
  int n = N;
  for (auto& c : contacts)
    if (c->active)
    {
      Js.push_back(c->J(ref));
      n += Js.back().rows();
    }
  refqp::Model m;
  m.n = n;
  m.reg = solver->problem.regularization;
  MatrixXd TA = MatrixXd::Zero(N, n);
  TA.leftCols(N) = M();
  VectorXd Tb = bias();
  int k = N, i = 0;
  for (auto& c : contacts)
    if (c->active)
    {
      int s = Js[i].rows();
      TA.middleCols(k, s) = -Js[i].transpose();
      c->rows(m, k, s, n);
      k += s;
      i++;
    }
  auto push = [&](const MatrixXd& A, const VectorXd& b, bool eq, bool hard, double w) {
    refqp::Row r;
    r.A = MatrixXd::Zero(A.rows(), n);
    r.A.leftCols(A.cols()) = A;
    r.b = b;
    r.equality = eq;
    r.hard = hard;
    r.weight = w;
    m.rows.push_back(r);
  };
  if (fbase_masked)
    push(MatrixXd::Identity(6, N), VectorXd::Zero(6), true, true, 1);
  else
    push(TA.topRows(6), Tb.head(6), true, true, 1);
  push(TA.bottomRows(N - 6), Tb.tail(N - 6), true, false, torque_cost);
  for (auto& t : tasks)
  {
    MatrixXd A;
    VectorXd b;
    if (!t->lin(ref, A, b))
    {
      complete = false;
      continue;
    }
    if (t->tau())
      push(A * TA, A * Tb - b, true, t->hard, t->weight);
    else
      push(A, -b, true, t->hard, t->weight);
  }
  for (int j = 6; j < N; j++)
  {
    double q = ref.q[j + 1], v = ref.v[j];
    MatrixXd e = MatrixXd::Zero(1, n);
    e(0, j) = dt;
    double vmax = robot.model.velocityLimit[j];
    auto ge = [&](const MatrixXd& A, double b) { push(A, VectorXd::Constant(1, b), false, true, 1); };
    if (tl)
    {
      ge(-TA.row(j), effort(j, true) - Tb[j]);
      ge(TA.row(j), effort(j, true) + Tb[j]);
    }
    if (vtl)
    {
      double ratio = vmax / robot.model.effortLimit[j];
      ge(-e - ratio * TA.row(j), vmax - v - ratio * Tb[j]);
      ge(e + ratio * TA.row(j), vmax + v + ratio * Tb[j]);
    }
    else if (vl)
    {
      ge(-e, vmax - v);
      ge(e, vmax + v);
    }
    if (jl)
    {
      double up = robot.model.upperPositionLimit[j + 1] - q, lo = q - robot.model.lowerPositionLimit[j + 1], a = qdd_safe(j);
      MatrixXd u = MatrixXd::Zero(1, n);
      u(0, j) = 1;
      if (up < 0)
        ge(-u, -a);
      else
        ge(-e, std::sqrt(2 * up * a) - v);
      if (lo < 0)
        ge(u, -a);
      else
        ge(e, std::sqrt(2 * lo * a) + v);
    }
  }
  return m;
}

std::unique_ptr<DynamicsSolver> World::twin(std::vector<Task*>& th, std::vector<Contact*>& ch)
{
  std::unique_ptr<DynamicsSolver> s(new DynamicsSolver(robot));
  options(*s);
  s->problem.regularization = solver->problem.regularization;
  std::map<TSpec*, Task*> map;
  for (auto& t : tasks)
  {
    th.push_back(t->install(*s));
    map[t.get()] = th.back();
  }
  for (auto& c : contacts)
    ch.push_back(c->install(*s, c->t1 ? map[c->t1] : nullptr, c->t2 ? map[c->t2] : nullptr));
  return s;
}

std::unique_ptr<TSpec> World::random_task(Rng& r, const std::vector<std::string>& types, double reach)
{
  std::unique_ptr<TSpec> t(new TSpec);
  t->type = r.pick(types);
  int a = r.range(frames.size()), b = (a + 1 + r.range(frames.size() - 1)) % frames.size();
  t->fa = ref.m.getFrameId(frames[a]);
  t->fb = ref.m.getFrameId(frames[b]);
  t->kp = std::pow(10., r.uni(0, 3));
  t->kd = r.chance(0.6) ? -1 : r.uni(0, 60);
  t->weight = std::pow(10., r.uni(-2, 2));
  if (t->type == "position" || t->type == "orientation" || t->type == "com" || t->type == "rel_position")
  {
    static const std::vector<std::string> ax = { "xyz", "xyz", "xyz", "xy", "z", "yz" };
    t->axes = r.pick(ax);
  }
  if (t->type == "joints" || t->type == "torque")
  {
    int n = r.between(1, 3);
    for (int i = 0; i < n; i++)
      t->joints[r.pick(joints)] = Vector3d::Zero();
  }
  if (t->type == "gear")
  {
    std::string a = r.pick(joints), b = r.pick(joints), c = r.pick(joints);
    if (a == b)
      b = joints[0] == a ? joints[1] : joints[0];
    t->gears[a][b] = r.uni(-2, 2);
    if (c != a && c != b && r.chance(0.4))
      t->gears[a][c] = r.uni(-2, 2);
    // a second target whose sources are not targets
    std::string d = r.pick(joints);
    if (d != a && d != b && d != c && r.chance(0.4))
      t->gears[d][b] = r.uni(-2, 2);
  }
  aim(*t, r, reach);
  return t;
}

void World::aim(TSpec& t, Rng& r, double reach)
{
  bool ff = r.chance(0.4);
  t.dv = ff ? random_vec(r, r.uni(0, 0.5)) : Vector3d(Vector3d::Zero());
  t.ddv = ff && r.chance(0.5) ? random_vec(r, r.uni(0, 2)) : Vector3d(Vector3d::Zero());
  if (t.type == "position")
    t.v = ref.pos(t.fa) + random_vec(r, r.uni(0, reach));
  else if (t.type == "com")
    t.v = ref.com() + random_vec(r, r.uni(0, reach));
  else if (t.type == "rel_position")
    t.v = ref.rot(t.fa).transpose() * (ref.pos(t.fb) - ref.pos(t.fa)) + random_vec(r, r.uni(0, reach));
  else if (t.type == "orientation")
    t.R = random_rot(r, 2 * reach) * ref.rot(t.fa);
  else if (t.type == "rel_orientation")
    t.R = random_rot(r, 2 * reach) * ref.rot(t.fa).transpose() * ref.rot(t.fb);
  else
    for (auto& e : t.joints)
    {
      if (t.type == "torque")
        e.second = Vector3d(r.uni(-3, 3), 0, r.chance(0.5) ? r.uni(0, 1) : 0.);
      else
        e.second = Vector3d(ref.q[ref.m.joints[ref.m.getJointId(e.first)].idx_q()] + r.uni(-reach, reach), ff ? r.uni(-1, 1) : 0.,
                            ff ? r.uni(-2, 2) : 0.);
    }
}

void World::aim_at(TSpec& t, Ref& g)
{
  t.dv.setZero();
  t.ddv.setZero();
  if (t.type == "position")
    t.v = g.pos(t.fa);
  else if (t.type == "com")
    t.v = g.com();
  else if (t.type == "rel_position")
    t.v = g.rot(t.fa).transpose() * (g.pos(t.fb) - g.pos(t.fa));
  else if (t.type == "orientation")
    t.R = g.rot(t.fa);
  else if (t.type == "rel_orientation")
    t.R = g.rot(t.fa).transpose() * g.rot(t.fb);
  else
    for (auto& e : t.joints)
      e.second = Vector3d(g.q[g.m.joints[g.m.getJointId(e.first)].idx_q()], 0, 0);
}
}  // namespace dyn
